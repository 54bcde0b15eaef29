/* C15: reading configuration files vs an independent reader. C16: saving and setting. */
#include "beastgen.h"
#include <stdlib.h>
#include <stdarg.h>
#include <stdio.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <math.h>
#include <signal.h>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <map>
#include <algorithm>
extern "C" {
#include "util/cfgfile.h"
}
#include "log_stub.h"
#include "util/log.h"
typedef std::string Str;

/* map files into exactly sized heap objects so that every over-read is caught */
static std::map<void *, size_t> maps;
extern "C" void * __real_mmap(void *, size_t, int, int, int, off_t);
extern "C" int __real_munmap(void *, size_t);
extern "C" void * __wrap_mmap(void * a, size_t n, int prot, int flags, int fd, off_t o)
{
	if (fd < 0 || (flags & MAP_ANONYMOUS) || (prot & PROT_WRITE)) return __real_mmap(a, n, prot, flags, fd, o);
	if (!n) { errno = EINVAL; return MAP_FAILED; }
	char * p = (char *)malloc(n);
	size_t k = 0; ssize_t r;
	while (k < n && (r = pread(fd, p + k, n - k, o + k)) > 0) k += r;
	maps[p] = n;
	vf_count("mapped_files", 1);
	return p;
}
extern "C" int __wrap_munmap(void * a, size_t n)
{
	auto it = maps.find(a);
	if (it == maps.end()) return __real_munmap(a, n);
	VF_CHECK(it->second == n, "unmap-size", "unmapped %zu of %zu bytes", n, it->second);
	maps.erase(it);
	free(a);
	return 0;
}

/* directories of a file system without file types in its entries */
static bool noTypes;
static int (*realFilter)(const struct dirent *);
extern "C" int __real_scandir(const char *, struct dirent ***, int (*)(const struct dirent *), int (*)(const struct dirent **, const struct dirent **));
static int blindFilter(const struct dirent * e)
{
	((struct dirent *)e)->d_type = DT_UNKNOWN; /* the entry the list is made from */
	return realFilter ? realFilter(e) : 1;
}
extern "C" int __wrap_scandir(const char * d, struct dirent *** l, int (*f)(const struct dirent *), int (*c)(const struct dirent **, const struct dirent **))
{
	if (!noTypes) return __real_scandir(d, l, f, c);
	realFilter = f;
	return __real_scandir(d, l, blindFilter, c);
}

/* saving to a device which fails for a moment: small stream buffers, and the size limit is down during some calls */
static bool saving; static long calls, failFrom, failTo; static char sbuf[256]; static size_t sbufLen; static struct rlimit fullSize;
extern "C" FILE * __real_fopen(const char *, const char *);
extern "C" FILE * __wrap_fopen(const char * n, const char * m)
{
	FILE * f = __real_fopen(n, m);
	if (f && saving && sbufLen) setvbuf(f, sbuf, _IOFBF, sbufLen);
	return f;
}
struct Fault {
	bool on;
	Fault() : on(saving && calls >= failFrom && calls < failTo) { if (saving) ++calls; if (on) { struct rlimit r = fullSize; r.rlim_cur = 0; setrlimit(RLIMIT_FSIZE, &r); } }
	~Fault() { if (on) { int e = errno; setrlimit(RLIMIT_FSIZE, &fullSize); errno = e; } }
};
extern "C" int __wrap_fprintf(FILE * f, const char * fmt, ...) { Fault x; va_list ap; va_start(ap, fmt); int r = vfprintf(f, fmt, ap); va_end(ap); return r; }
extern "C" int __real_fputs(const char *, FILE *); extern "C" int __wrap_fputs(const char * c, FILE * f) { Fault x; return __real_fputs(c, f); }
extern "C" int __real_fputc(int, FILE *); extern "C" int __wrap_fputc(int c, FILE * f) { Fault x; return __real_fputc(c, f); }
extern "C" size_t __real_fwrite(const void *, size_t, size_t, FILE *); extern "C" size_t __wrap_fwrite(const void * p, size_t a, size_t b, FILE * f) { Fault x; return __real_fwrite(p, a, b, f); }
extern "C" int __real_fclose(FILE *); extern "C" int __wrap_fclose(FILE * f) { Fault x; return __real_fclose(f); }

struct Val { Str s; uint32_t i = 0; unsigned long p = 0; bool b = false; double d = 0; };
struct Opt {
	Str name; CFG_VALUE_TYPE type; size_t maxlen; bool hasGiven, defEmpty;
	Val def; void * var; bool * given;
	Val model; bool modelGiven;
};
struct Sect { Str name; CFG_Section * desc; std::vector<Opt> opts; unsigned fixes, checks; };
static std::vector<Sect> sects;
static bool failCheck; static unsigned fixCalls;

static void fixCb(const CFG_Section * s) { for (auto & x : sects) if (x.desc == s) { ++x.fixes; return; } vf_fail("fix-arg", "fix callback got a wrong section"); }
static bool checkCb(const CFG_Section * s) { for (auto & x : sects) if (x.desc == s) { ++x.checks; return !failCheck || s->n_opt % 2; } vf_fail("check-arg", "check callback got a wrong section"); }

static void addSect(const char * name, std::vector<Opt> opts)
{
	Sect s; s.name = name; s.opts = opts; s.fixes = s.checks = 0;
	s.desc = (CFG_Section *)calloc(1, sizeof(CFG_Section) + opts.size() * sizeof(CFG_Option));
	s.desc->name = strdup(name); s.desc->n_opt = opts.size(); s.desc->fix = fixCb; s.desc->check = checkCb;
	for (size_t k = 0; k < opts.size(); ++k) {
		Opt & o = s.opts[k];
		CFG_Option c; memset(&c, 0, sizeof c);
		c.name = strdup(o.name.c_str()); c.type = o.type; c.maxlen = o.maxlen; c.defaultEmpty = o.defEmpty;
		size_t sz = o.type == CFG_VALUE_TYPE_STRING ? o.maxlen : o.type == CFG_VALUE_TYPE_INT ? sizeof(uint32_t) :
			o.type == CFG_VALUE_TYPE_PORT ? sizeof(uint_fast16_t) : o.type == CFG_VALUE_TYPE_BOOL ? sizeof(bool) : sizeof(double);
		c.var = o.var = calloc(1, sz); /* exactly sized: ASan guards the neighbours */
		c.given = o.given = o.hasGiven ? (bool *)calloc(1, 1) : NULL;
		switch (o.type) {
		case CFG_VALUE_TYPE_STRING: c.def.string = o.def.s.empty() ? NULL : strdup(o.def.s.c_str()); break;
		case CFG_VALUE_TYPE_INT: c.def.integer = o.def.i; break;
		case CFG_VALUE_TYPE_PORT: c.def.port = o.def.p; break;
		case CFG_VALUE_TYPE_BOOL: c.def.boolean = o.def.b; break;
		case CFG_VALUE_TYPE_DOUBLE: c.def.dbl = o.def.d; break;
		}
		memcpy(&s.desc->options[k], &c, sizeof c);
	}
	sects.push_back(s);
}
static Opt O(const char * n, CFG_VALUE_TYPE t, Val d, bool given = false, size_t maxlen = 0, bool de = false)
{
	Opt o; o.name = n; o.type = t; o.def = d; o.hasGiven = given; o.maxlen = maxlen; o.defEmpty = de; o.var = NULL; o.given = NULL; o.modelGiven = false;
	return o;
}
static Val VI(uint32_t i) { Val v; v.i = i; return v; }
static Val VP(unsigned p) { Val v; v.p = p; return v; }
static Val VB(bool b) { Val v; v.b = b; return v; }
static Val VD(double d) { Val v; v.d = d; return v; }
static Val VS(const char * s) { Val v; v.s = s; return v; }

static int mode;
static void hook(int, const char *, const char *);
void vf_init()
{
	log_stub_hook = hook;
	mode = vf_opt("mode", 0);
	signal(SIGXFSZ, SIG_IGN);
	addSect("ALPHA", {O("Name", CFG_VALUE_TYPE_STRING, VS("dflt"), false, 12), O("Count", CFG_VALUE_TYPE_INT, VI(200)),
		O("Flag", CFG_VALUE_TYPE_BOOL, VB(true)), O("Port", CFG_VALUE_TYPE_PORT, VP(10003)), O("Pos", CFG_VALUE_TYPE_DOUBLE, VD(1.5), true)});
	addSect("Beta", {O("serial", CFG_VALUE_TYPE_INT, VI(0), true, 0, true), O("user", CFG_VALUE_TYPE_STRING, VS(""), true, 41),
		O("lat", CFG_VALUE_TYPE_DOUBLE, VD(0), true), O("on", CFG_VALUE_TYPE_BOOL, VB(false), true), O("p", CFG_VALUE_TYPE_PORT, VP(0), true)});
	addSect("alpha", {O("Extra", CFG_VALUE_TYPE_INT, VI(7)), O("Count", CFG_VALUE_TYPE_INT, VI(9)), O("tiny", CFG_VALUE_TYPE_STRING, VS(""), false, 1)});
	addSect("Gamma", {});
	/* names which are beginnings or continuations of others */
	addSect("Alph", {O("Name", CFG_VALUE_TYPE_STRING, VS("other"), false, 20), O("Coun", CFG_VALUE_TYPE_INT, VI(3)), O("Count", CFG_VALUE_TYPE_INT, VI(4)), O("Counter", CFG_VALUE_TYPE_INT, VI(5))});
	addSect("Gamma2", {O("serial", CFG_VALUE_TYPE_INT, VI(1)), O("Flag", CFG_VALUE_TYPE_BOOL, VB(false))});
	for (auto & s : sects) CFG_registerSection(s.desc);
}
static bool sameD(double a, double b) { return (isnan(a) && isnan(b)) || a == b; }
static void cmpAll(const char * when, const Str & file)
{
	for (auto & s : sects) for (auto & o : s.opts) {
		bool ok = true; char got[200], want[200]; got[0] = want[0] = 0;
		switch (o.type) {
		case CFG_VALUE_TYPE_STRING: ok = memchr(o.var, 0, o.maxlen) && !strcmp((char *)o.var, o.model.s.c_str());
			snprintf(got, 200, "'%.*s'", (int)o.maxlen, (char *)o.var); snprintf(want, 200, "'%s'", o.model.s.c_str()); break;
		case CFG_VALUE_TYPE_INT: ok = *(uint32_t *)o.var == o.model.i; snprintf(got, 200, "%u", *(uint32_t *)o.var); snprintf(want, 200, "%u", o.model.i); break;
		case CFG_VALUE_TYPE_PORT: ok = *(uint_fast16_t *)o.var == o.model.p; snprintf(got, 200, "%lu", (long)*(uint_fast16_t *)o.var); snprintf(want, 200, "%lu", o.model.p); break;
		case CFG_VALUE_TYPE_BOOL: { unsigned char c; memcpy(&c, o.var, 1); ok = c == (unsigned char)o.model.b; snprintf(got, 200, "%d", c); snprintf(want, 200, "%d", o.model.b); break; }
		case CFG_VALUE_TYPE_DOUBLE: ok = sameD(*(double *)o.var, o.model.d); snprintf(got, 200, "%.17g", *(double *)o.var); snprintf(want, 200, "%.17g", o.model.d); break;
		}
		VF_CHECK(ok, "value", "%s: %s.%s is %s, expected %s; file: %s", when, s.name.c_str(), o.name.c_str(), got, want, vf_hex(file.data(), file.size()));
		if (o.given) VF_CHECK(*o.given == o.modelGiven, "given", "%s: %s.%s given=%d, expected %d; file: %s", when, s.name.c_str(), o.name.c_str(), *o.given, o.modelGiven, vf_hex(file.data(), file.size()));
	}
}
static void modelDefaults() { for (auto & s : sects) for (auto & o : s.opts) { o.model = o.def; o.modelGiven = false; } }
static bool ieq(const Str & a, const Str & b) { return a.size() == b.size() && !strncasecmp(a.data(), b.data(), a.size()); }
static bool sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }

/* 1 ok, 0 error, -1 don't care */
static int refInt(const Str & v0, uint64_t max, uint64_t & out)
{
	if (v0.empty() || v0.size() > 19) return 0;
	Str v = v0.substr(0, v0.find('\0'));
	size_t i = 0;
	while (i < v.size() && sp(v[i])) ++i;
	if (i < v.size() && v[i] == '-') return 0;
	if (i < v.size() && v[i] == '+') ++i;
	unsigned base = 10; size_t st = i;
	if (i < v.size() && v[i] == '0') {
		base = 8;
		if (i + 2 < v.size() + 0 && (v[i + 1] | 32) == 'x' && isxdigit((unsigned char)v[i + 2])) { base = 16; i += 2; st = i; }
		if (i + 1 < v.size() && (v[i + 1] | 32) == 'b' && base == 8) return -1;
	}
	unsigned __int128 n = 0; bool any = false;
	for (; i < v.size(); ++i) {
		unsigned d = isdigit((unsigned char)v[i]) ? v[i] - '0' : isalpha((unsigned char)v[i]) ? (v[i] | 32) - 'a' + 10 : 99;
		if (d >= base) break;
		n = n * base + d; any = true;
		if (n > max) n = (unsigned __int128)1 << 100;
	}
	if (!any || st > v.size()) return 0;
	if (n > max) return 0;
	out = n;
	return 1;
}
struct RefResult { bool ok = true; int errors = 0; bool dontcare = false; int assigned = 0; std::vector<unsigned long> at, warnSection, warnKey, mayWarn, mustWarn; };
static std::vector<unsigned long> repErr, repWarn; static bool repOther;
static void hook(int level, const char *, const char * m) // every message about the contents names the file and the line
{
	if (level != LOG_LEVEL_ERROR && level != LOG_LEVEL_WARN) return;
	const char * f = strstr(m, "FILE '"), * l = f ? strstr(f, "', Line ") : NULL;
	if (!l) return;
	if (Str(f + 6, l) != "t.conf") { repOther = true; return; }
	unsigned long n = strtoul(l + 8, NULL, 10); auto & v = level == LOG_LEVEL_ERROR ? repErr : repWarn;
	if (v.empty() || v.back() != n) v.push_back(n);
}
static Str nums(const std::vector<unsigned long> & v) { Str s; for (auto n : v) s += (s.empty() ? "" : ",") + std::to_string(n); return s; }
static RefResult refRead(const Str & f, bool useDefault)
{
	RefResult r;
	int state = 0; Str sect; size_t pos = 0; unsigned long no = 0;
	while (pos < f.size()) {
		++no;
		size_t nl = f.find('\n', pos);
		Str line = f.substr(pos, nl == Str::npos ? Str::npos : nl - pos);
		pos = nl == Str::npos ? f.size() : nl + 1;
		size_t k = 0;
		while (k < line.size() && line[k] == '\r') ++k;
		line.erase(0, k);
		if (line.empty() || line[0] == ';' || line[0] == '#') continue;
		if (line[0] == '[') {
			size_t c = line.find(']');
			Str rest = c == Str::npos ? "?" : line.substr(c + 1);
			if (c == Str::npos || !(rest.empty() || rest == "\r")) { r.ok = false; ++r.errors; r.at.push_back(no); return r; }
			sect = line.substr(1, c - 1);
			state = 0;
			for (auto & s : sects) if (ieq(s.name, sect)) state = 1;
			if (!state) r.warnSection.push_back(no);
			continue;
		}
		size_t e = line.find('=');
		if (e == Str::npos) { ++r.errors; r.at.push_back(no); continue; }
		if (!state) continue;
		Str key = line.substr(0, e), val = line.substr(e + 1);
		while (key.size() > 1 && sp(key.back())) key.pop_back();
		while (!val.empty() && sp(val[0])) val.erase(0, 1);
		if (!val.empty() && val.back() == '\r') val.pop_back();
		Opt * o = NULL;
		for (auto & s : sects) if (!o && ieq(s.name, sect)) for (auto & q : s.opts) if (!o && ieq(q.name, key)) o = &q;
		if (!o) { r.warnKey.push_back(no); continue; }
		++r.assigned;
		if (val.empty()) { o->model = o->def; o->modelGiven = false; continue; }
		int ok = 1; uint64_t n = 0;
		switch (o->type) {
		case CFG_VALUE_TYPE_STRING: if (val.size() > o->maxlen - 1) ok = 0; else o->model.s = val.substr(0, val.find('\0')); break;
		case CFG_VALUE_TYPE_INT: ok = refInt(val, 0xffffffffu, n); if (ok > 0) o->model.i = n; break;
		case CFG_VALUE_TYPE_PORT: ok = refInt(val, 0xffff, n); if (ok > 0) o->model.p = n; break;
		case CFG_VALUE_TYPE_BOOL: if (ieq(val, "true") || val == "1") o->model.b = true; else if (ieq(val, "false") || val == "0") o->model.b = false; else ok = 0; break;
		case CFG_VALUE_TYPE_DOUBLE: { if (val.size() > 59) { ok = 0; break; } Str z = val; char * en; double d = strtod(z.c_str(), &en); if (en == z.c_str()) ok = 0; else o->model.d = d; break; }
		}
		if (ok < 0) { r.dontcare = true; return r; }
		if ((o->type == CFG_VALUE_TYPE_INT || o->type == CFG_VALUE_TYPE_PORT || o->type == CFG_VALUE_TYPE_DOUBLE)) { // only a number with something after it gives reason to complain
			size_t dg = 0; while (dg < val.size() && isdigit((unsigned char)val[dg])) ++dg; char * en = NULL; if (o->type == CFG_VALUE_TYPE_DOUBLE) strtod(val.c_str(), &en);
			if (en ? en != val.c_str() + val.size() : dg != val.size() || val[0] == '0') r.mayWarn.push_back(no);
			if (ok && val[0] >= '1' && val[0] <= '9' && dg < val.size() && strchr("ghijk,;_!/Zz", val[dg]) && val[dg]) r.mustWarn.push_back(no);
		}
		if (ok) o->modelGiven = true;
		else {
			++r.errors; r.at.push_back(no);
			if (!useDefault) { r.ok = false; return r; }
			o->model = o->def; o->modelGiven = false;
		}
	}
	return r;
}
static Str pick(std::vector<Str> v) { return v[vf_below(v.size())]; }
static Str rcase(Str s) { if (vf_chance(20)) for (auto & c : s) if (vf_chance(30)) c ^= isalpha((unsigned char)c) ? 32 : 0; return s; }
static Str gval(CFG_VALUE_TYPE t)
{
	char b[100];
	if (vf_chance(8)) return "";
	if (vf_chance(8)) return pick({"abc", "-1", "4294967296", "4294967295", "0x10", "010", "65535", "65536", "4295032833", "99999999999999999999", "1 2", "12x", "1e400", "nan", "inf",
		"-0.0", "true ", "TRUE", "yes", "0x", "0xg", "+5", "18446744073709551616", "123456789012345678", "1234567890123456789", "12345678901234567890", "=", "a=b", "; x", "\t", "-"});
	switch (t) {
	case CFG_VALUE_TYPE_STRING: { Str s; for (int n = vf_chance(70) ? vf_range(1, 11) : vf_range(1, 45); n; --n) s += (char)(vf_chance(95) ? vf_range(33, 126) : vf_range(1, 255)); std::replace(s.begin(), s.end(), '\n', 'n'); return s; }
	case CFG_VALUE_TYPE_INT: snprintf(b, 100, vf_chance(20) ? "0x%llx" : "%llu", (unsigned long long)(vf_rnd() >> vf_range(28, 63))); return b;
	case CFG_VALUE_TYPE_PORT: snprintf(b, 100, "%llu", (unsigned long long)vf_below(70000)); return b;
	case CFG_VALUE_TYPE_BOOL: return pick({"true", "false", "1", "0", "True", "FALSE"});
	case CFG_VALUE_TYPE_DOUBLE: snprintf(b, 100, pick({"%f", "%.3f", "%g", "%.40f", "%.58f", "%.17g"}).c_str(), (double)(int64_t)vf_rnd() / (double)(1ull << vf_range(20, 62))); return b;
	}
	return "";
}
static Str gfile()
{
	Str f; int n = vf_range(0, 25); const Sect * cur = NULL;
	Str nl = vf_chance(20) ? "\r\n" : "\n";
	bool nasty = vf_chance(40);
	for (int i = 0; i < n; ++i) {
		Str line; int k = vf_below(100);
		if (k < 18 || (!cur && k < 60)) { cur = &sects[vf_below(sects.size())]; line = "[" + rcase(cur->name) + (vf_chance(3) ? "s" : "") + "]"; }
		else if (k < 75 && cur && cur->opts.size()) {
			const Opt & o = cur->opts[vf_below(cur->opts.size())];
			Str on = rcase(o.name); if (vf_chance(4)) { if (vf_chance(50)) on.pop_back(); else on += pick({"s", " x", ".", "0"}); }
			line = on + pick({"=", " = ", "\t=  ", " =", "= "}) + gval(vf_chance(95) ? o.type : (CFG_VALUE_TYPE)vf_below(5));
		} else if (k < 80) line = pick({"# comment = 1", "; [ALPHA]", "", ";", "#"});
		else if (k < 85) line = pick({"Unknown = 5", "[Nowhere]", "x=", "=", "=5", " = 1"});
		else if (nasty) switch (vf_below(6)) {
			case 0: line = pick({"[ALPHA", "ALPHA]", "[]", "[ALPHA] x", "[ALPHA]]", "[AL]PHA]", "no equals sign", "   ", "\t"}); break;
			case 1: { for (int m = vf_range(0, 30); m; --m) line += (char)vf_rnd(); break; }
			case 2: line = "Count" + Str(vf_below(3), ' ') + "=" + Str(vf_below(3), '\r'); break;
			case 3: line = Str(vf_range(1, 3), '\r') + "Count = 3"; break;
			case 4: line = "Name =" + Str(vf_below(4), ' ') + "\r"; break;
			case 5: line = " Count = 4"; break;
		}
		f += line + (vf_chance(95) ? nl : pick({"\n", "\r\n", "\n\n", "\r\r\n"}));
	}
	if (vf_chance(40)) while (!f.empty() && (f.back() == '\n' || (f.back() == '\r' && vf_chance(50)))) f.pop_back();
	if (nasty && vf_chance(30) && f.size()) f.resize(vf_below(f.size() + 1));
	if (nasty && vf_chance(20)) for (int m = vf_range(1, 4); m && f.size(); --m) f[vf_below(f.size())] = pick({"=", "\n", "\r", "[", "]", " ", "\x1a", "x"})[0];
	return f;
}
static void put(const char * name, const Str & f)
{
	int fd = open(name, O_WRONLY | O_CREAT | O_TRUNC, 0644);
	if (fd < 0 || write(fd, f.data(), f.size()) != (ssize_t)f.size()) { perror(name); _exit(2); }
	close(fd);
}
static int nfds() { int n = 0; DIR * d = opendir("/proc/self/fd"); while (readdir(d)) ++n; closedir(d); return n; }

static void randomize()
{
	/* values present before reading must survive if the file does not mention them */
	for (auto & s : sects) for (auto & o : s.opts) if (vf_chance(50)) switch (o.type) {
		case CFG_VALUE_TYPE_STRING: if (o.maxlen > 3) { strcpy((char *)o.var, "old"); o.model.s = "old"; } break;
		case CFG_VALUE_TYPE_INT: *(uint32_t *)o.var = o.model.i = vf_rnd(); break;
		case CFG_VALUE_TYPE_PORT: *(uint_fast16_t *)o.var = o.model.p = vf_below(65536); break;
		case CFG_VALUE_TYPE_BOOL: *(bool *)o.var = o.model.b = vf_chance(50); break;
		case CFG_VALUE_TYPE_DOUBLE: *(double *)o.var = o.model.d = 3.25; break;
	}
}
static void readCase()
{
	CFG_loadDefaults(); modelDefaults();
	cmpAll("after loading defaults", "");
	randomize();
	int rounds = vf_range(1, 3);
	for (int k = 0; k < rounds; ++k) {
		Str f = gfile();
		bool ud = vf_chance(50), w1 = vf_chance(50), w2 = vf_chance(50);
		put("t.conf", f);
		for (auto & s : sects) s.fixes = 0;
		unsigned long e0 = log_stub_count(LOG_LEVEL_ERROR);
		vf_trace("file (%zu bytes): %s", f.size(), vf_hex(f.data(), f.size()));
		repErr.clear(); repWarn.clear(); repOther = false;
		bool ok = CFG_readFile("t.conf", w1, w2, ud);
		RefResult r = refRead(f, ud);
		vf_count("eval", 1);
		if (r.dontcare) { CFG_loadDefaults(); modelDefaults(); continue; }
		VF_CHECK(ok == r.ok, r.ok ? "read-failed" : "read-succeeded", "reading returned %d, expected %d (useDefault %d); file: %s", ok, r.ok, ud, vf_hex(f.data(), f.size()));
		VF_CHECK(log_stub_count(LOG_LEVEL_ERROR) - e0 >= (unsigned)r.errors, "unreported", "%lu errors reported, expected %d; file: %s",
			log_stub_count(LOG_LEVEL_ERROR) - e0, r.errors, vf_hex(f.data(), f.size()));
		VF_CHECK(repErr == r.at && !repOther, "wrong-line", "errors are in line(s) %s, reported for %s; file: %s", nums(r.at).c_str(), nums(repErr).c_str(), vf_hex(f.data(), f.size()));
		for (int w = 0; w < 2; ++w) for (auto l : w ? r.warnKey : r.warnSection) {
			bool told = std::find(repWarn.begin(), repWarn.end(), l) != repWarn.end();
			VF_CHECK(told || !(w ? w2 : w1), "wrong-line", "line %lu names an unknown %s, warnings are for line(s) %s; file: %s", l, w ? "option" : "section", nums(repWarn).c_str(), vf_hex(f.data(), f.size()));
		}
		for (auto l : repWarn) VF_CHECK(std::count(r.warnKey.begin(), r.warnKey.end(), l) || std::count(r.warnSection.begin(), r.warnSection.end(), l) || std::count(r.mayWarn.begin(), r.mayWarn.end(), l), "false-warning", "a warning for line %lu, where nothing is wrong; file: %s", l, vf_hex(f.data(), f.size()));
		for (auto l : r.mustWarn) VF_CHECK(std::count(repWarn.begin(), repWarn.end(), l), "no-warning", "line %lu has something after its number, warnings are for line(s) %s; file: %s", l, nums(repWarn).c_str(), vf_hex(f.data(), f.size()));
		vf_count("garbage_warnings", r.mustWarn.size());
		vf_count("lines_reported", repErr.size() + repWarn.size());
		cmpAll("after reading", f);
		if (ok) for (auto & s : sects) VF_CHECK(s.fixes >= 1, "not-fixed", "section %s was not sanitized after reading", s.name.c_str());
		vf_count("assignments", r.assigned); vf_count("invalid", r.errors); vf_count("failed_reads", !ok);
		if (r.assigned) vf_distinct(vf_hash(f.data(), f.size(), ud));
		if (vf_want_sample() && r.assigned > 2 && r.errors) vf_sample("%d assignments, %d errors: %.300s", r.assigned, r.errors, f.c_str());
	}
	VF_CHECK(maps.empty(), "map-leak", "a file stays mapped");
	if (vf_caseno() % 16 == 0) {
		failCheck = vf_chance(50);
		for (auto & s : sects) s.checks = 0;
		bool c = CFG_check();
		bool expect = true;
		if (failCheck) for (auto & s : sects) if (s.opts.size() % 2 == 0) expect = false;
		VF_CHECK(c == expect, "check-result", "check returned %d", c);
		if (c) for (auto & s : sects) VF_CHECK(s.checks == 1, "check-calls", "section %s checked %u times", s.name.c_str(), s.checks);
	}
}
static Str get(const char * n) { Str r; char b[4096]; int f = open(n, O_RDONLY); for (ssize_t k; f >= 0 && (k = read(f, b, sizeof b)) > 0; ) r.append(b, k); if (f >= 0) close(f); return r; }
static void dirCase()
{
	CFG_loadDefaults(); modelDefaults();
	Str dir = "conf.d";
	bool longPath = vf_caseno() % 64 == 63;
	char cwd[4096]; getcwd(cwd, sizeof cwd);
	Str abs = Str(cwd) + "/conf.d";
	if (longPath) { /* directory path close to PATH_MAX, entry names around the limit */
		abs = Str(cwd) + "/L"; if (mkdir(abs.c_str(), 0755)) _exit(2);
		while (abs.size() < 3900) { abs += "/" + Str(std::min<size_t>(200, 3900 - abs.size()), 'd'); if (mkdir(abs.c_str(), 0755)) { perror("mkdir"); _exit(2);} }
		dir = abs;
	} else mkdir("conf.d", 0755);
	int fd = open(dir.c_str(), O_RDONLY | O_DIRECTORY);
	std::map<unsigned, std::pair<Str, Str>> files; /* number -> name, content */
	std::vector<Str> ents;
	int n = longPath ? vf_range(1, 3) : vf_range(0, 6);
	size_t room = 4096 - (abs.size() + 1);
	for (int i = 0; i < n; ++i) {
		unsigned num = vf_chance(70) ? vf_below(120) : vf_rnd() >> vf_range(32, 60);
		if (files.count(num)) continue;
		char nm[400];
		snprintf(nm, sizeof nm, vf_chance(50) ? "%u-x.conf" : "%03u.conf", num);
		if (longPath) { size_t l = vf_range(room - 2, room + 1); Str p = Str(nm, nm + 0); char q[20]; snprintf(q, 20, "%03u", num); p = q; if (l > 250) l = 250; p += Str(l - p.size() - 5, 'z') + ".conf"; strcpy(nm, p.c_str()); }
		files[num] = {nm, gfile()};
	}
	auto mk = [&](const Str & nm, const Str & c) { int f = openat(fd, nm.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (f < 0) { perror("openat"); _exit(2); } write(f, c.data(), c.size()); close(f); ents.push_back(nm); };
	for (auto & f : files) mk(f.second.first, f.second.second);
	/* entries that must be ignored */
	if (vf_chance(60)) mk("readme.conf", "[ALPHA]\nCount = 999\n");
	if (vf_chance(60)) mk("50-x.conf.bak", "[ALPHA]\nCount = 998\n");
	if (vf_chance(60)) mk("7conf", "[ALPHA]\nCount = 997\n");
	if (vf_chance(60)) mk("7", "[ALPHA]\nCount = 996\n");
	bool sub = vf_chance(40);
	if (sub) mkdirat(fd, "60.conf", 0755);
	bool link = !longPath && vf_chance(30) && !files.count(77);
	if (link) { put("target", "[ALPHA]\nName=linked\n"); symlinkat("../target", fd, "77.conf"); files[77] = {"77.conf", "[ALPHA]\nName=linked\n"}; ents.push_back("77.conf"); }
	bool broken = vf_chance(15) && !files.count(33);
	if (broken) { symlinkat("nothing", fd, "33.conf"); files[33] = {"33.conf", "\1"}; ents.push_back("33.conf"); }
	bool ud = vf_chance(60), stop = vf_chance(50), dontcare = false, expect = true;
	int f0 = nfds();
	noTypes = vf_chance(30);
	bool ok = CFG_readDirectory(dir.c_str(), vf_chance(50), vf_chance(50), ud, stop);
	if (noTypes) vf_count("directories_without_types", 1);
	noTypes = false;
	for (auto & f : files) {
		bool r;
		if (f.second.second == "\1" || f.second.first.size() >= room) r = false;
		else { RefResult x = refRead(f.second.second, ud); r = x.ok; dontcare |= x.dontcare; }
		if (!r) { expect = false; if (stop) break; }
	}
	vf_count("eval", 1); vf_count("directories", 1); vf_count("directory_files", files.size());
	if (!dontcare) {
		VF_CHECK(ok == expect, "dir-result", "reading the directory returned %d, expected %d (stop %d)", ok, expect, stop);
		cmpAll("after reading a directory", "");
		if (files.size() > 1) vf_distinct(vf_hash(&files.begin()->second.second[0], files.begin()->second.second.size(), files.size()));
	}
	VF_CHECK(nfds() == f0 && maps.empty(), "dir-leak", "%d descriptors left open", nfds() - f0);
	for (auto & e : ents) unlinkat(fd, e.c_str(), 0);
	if (sub) unlinkat(fd, "60.conf", AT_REMOVEDIR);
	close(fd);
	while (longPath && abs.size() > strlen(cwd)) { rmdir(abs.c_str()); abs.resize(abs.rfind('/')); }
	VF_CHECK(!CFG_readDirectory("does-not-exist", true, true, true, true), "dir-missing", "reading a missing directory succeeded");
	VF_CHECK(!CFG_readFile("does-not-exist", true, true, true), "file-missing", "reading a missing file succeeded");
}
static Str gstr(size_t n) { Str s; for (; n; --n) s += (char)(vf_chance(90) ? vf_range(33, 126) : vf_chance(50) ? ' ' : vf_range(128, 255)); if (!s.empty() && sp(s[0])) s[0] = 'x'; return s; }
static void setAny(bool fileSafe)
{
	size_t si; do si = vf_below(sects.size()); while (sects[si].opts.empty());
	Sect & s = sects[si]; Opt & o0 = s.opts[vf_below(s.opts.size())];
	/* sections of the same name form one name space */
	Opt * o = NULL;
	for (auto & q : sects) if (!o && ieq(q.name, s.name)) for (auto & p : q.opts) if (!o && ieq(p.name, o0.name)) o = &p;
	Str sn = rcase(s.name), on = rcase(o->name);
	switch (o->type) {
	case CFG_VALUE_TYPE_STRING: {
		size_t n = vf_chance(80) || fileSafe ? vf_below(o->maxlen) : vf_below(2 * o->maxlen + 2);
		if (fileSafe && n == 0 && !o->def.s.empty()) n = 1;
		Str v = gstr(n);
		char * z = strdup(v.c_str()); CFG_setString(sn.c_str(), on.c_str(), z); free(z);
		o->model.s = v.substr(0, o->maxlen - 1); break; }
	case CFG_VALUE_TYPE_INT: o->model.i = vf_rnd() >> vf_range(32, 63); CFG_setInteger(sn.c_str(), on.c_str(), o->model.i); break;
	case CFG_VALUE_TYPE_PORT: o->model.p = vf_below(65536); CFG_setPort(sn.c_str(), on.c_str(), o->model.p); break;
	case CFG_VALUE_TYPE_BOOL: o->model.b = vf_chance(50); CFG_setBoolean(sn.c_str(), on.c_str(), o->model.b); break;
	case CFG_VALUE_TYPE_DOUBLE: {
		double d; uint64_t u = vf_rnd();
		if (vf_chance(30)) memcpy(&d, &u, 8); else if (vf_chance(50)) d = (double)(int64_t)u / (1ull << 56); else d = (int64_t)vf_range(-180, 180) + vf_below(1000000) / 1e6;
		o->model.d = d; CFG_setDouble(sn.c_str(), on.c_str(), d); break; }
	}
	vf_count("sets", 1);
}
static void writeCase()
{
	CFG_loadDefaults(); modelDefaults();
	int n = vf_range(0, 25);
	for (int i = 0; i < n; ++i) { setAny(true); if (vf_chance(20)) cmpAll("after setting a value", ""); }
	cmpAll("after setting values", "");
	/* the flags telling that an option was given */
	for (auto & s : sects) for (auto & o : s.opts) if (o.given) *o.given = o.modelGiven = vf_chance(50);
	bool one = vf_chance(40); size_t which = vf_below(sects.size());
	Str name = "w.conf";
	bool ok = one ? CFG_writeSection(name.c_str(), sects[which].desc) : CFG_write(name.c_str());
	VF_CHECK(ok, "write-failed", "writing failed");
	Str f; { FILE * h = fopen("w.conf", "rb"); char b[8192]; size_t r = fread(b, 1, sizeof b, h); f.assign(b, r); fclose(h); }
	auto saved = sects;
	CFG_loadDefaults();
	bool rd = CFG_readFile("w.conf", true, true, false);
	VF_CHECK(rd, "unreadable", "the saved file cannot be read: %s", vf_hex(f.data(), f.size()));
	for (size_t k = 0; k < sects.size(); ++k) for (size_t j = 0; j < sects[k].opts.size(); ++j) {
		Opt & o = sects[k].opts[j];
		bool written = !one || k == which;
		if (o.given && !saved[k].opts[j].modelGiven && o.defEmpty) written = false;
		/* shadowed duplicate of a section of the same name: its entry is read into the first one */
		if (ieq(sects[k].name, "alpha") && o.name == "Count") { o.model.i = *(uint32_t *)o.var; continue; }
		if (!written) { o.model = o.def; }
		if (o.given) o.modelGiven = *o.given;
	}
	cmpAll("after reading back", f);
	vf_count("eval", 1); vf_count("bytes_saved", f.size());
	if (n) vf_distinct(vf_hash(f.data(), f.size(), one));
	if (vf_want_sample() && n > 5) vf_sample("saved and read back: %.300s", f.c_str());
	/* write errors */
	int f0 = nfds();
	size_t lim = vf_below(f.size() + 3);
	for (size_t k = 0; k < sects.size(); ++k) for (size_t j = 0; j < sects[k].opts.size(); ++j) { /* same content again */
		Opt & o = sects[k].opts[j]; Opt & q = saved[k].opts[j];
		if (o.given) *o.given = o.modelGiven = q.modelGiven;
	}
	Str ref; { bool r2 = one ? CFG_writeSection("w2.conf", sects[which].desc) : CFG_write("w2.conf"); VF_CHECK(r2, "write-failed", "writing failed"); struct stat st; stat("w2.conf", &st); ref.resize(st.st_size); }
	lim = vf_below(ref.size() + 3);
	struct rlimit old, rl; getrlimit(RLIMIT_FSIZE, &old); rl = old; rl.rlim_cur = lim; setrlimit(RLIMIT_FSIZE, &rl);
	bool wok = one ? CFG_writeSection("w3.conf", sects[which].desc) : CFG_write("w3.conf");
	setrlimit(RLIMIT_FSIZE, &old);
	VF_CHECK(wok == (lim >= ref.size()), wok ? "unreported-write-error" : "write-failed", "only %zu of %zu bytes could be written, writing returned %d", lim, ref.size(), wok);
	vf_count("write_errors_injected", lim < ref.size());
	/* a transient error: what is reported as written is complete */
	Str refc = get("w2.conf");
	for (int i = 0; i < 3; ++i) {
		fullSize = old; saving = true; calls = 0; sbufLen = vf_chance(80) ? vf_range(1, sizeof sbuf) : 0;
		failFrom = vf_below(3 + 2 * sects.size() + (one ? sects[which].opts.size() * 2 : 30)); failTo = failFrom + 1 + vf_below(2);
		bool tok = one ? CFG_writeSection("w3.conf", sects[which].desc) : CFG_write("w3.conf");
		saving = false;
		if (tok) { Str g = get("w3.conf"); VF_CHECK(g == refc, "unreported-write-error", "an error of one write was not reported: %zu instead of %zu bytes were saved", g.size(), refc.size()); }
		vf_count("transient_write_errors_reported", !tok);
	}
	if (vf_caseno() % 8 == 0) {
		VF_CHECK(!CFG_write("missing/dir/x.conf"), "unreported-write-error", "writing into a missing directory succeeded");
		VF_CHECK(!CFG_writeSection("missing/dir/x.conf", sects[0].desc), "unreported-write-error", "writing into a missing directory succeeded");
		VF_CHECK(!CFG_write("/dev/full"), "unreported-write-error", "writing to a full device succeeded");
		VF_CHECK(!CFG_writeSection("/dev/full", sects[0].desc), "unreported-write-error", "writing to a full device succeeded");
	}
	VF_CHECK(nfds() == f0, "fd-leak", "descriptors left open");
	/* over-long strings are truncated */
	CFG_loadDefaults(); modelDefaults();
	for (int i = 0; i < 10; ++i) setAny(false);
	cmpAll("after setting over-long values", "");
}
void vf_case(uint64_t) { if (mode == 0) readCase(); else if (mode == 1) dirCase(); else writeCase(); }
