// C21: serial numbers. mode 0: from the hardware address (interposed interfaces); -DREQ: assigned by the server (virtual time, scripted answers, lives in processes of their own).
#include "inject.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include <set>
#include <algorithm>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <net/if.h>
#include <net/if_arp.h>
extern "C" {
#include "core/serial.h"
#include "core/tb.h"
#include "core/network.h"
#include "util/cfgfile.h"
#include "util/component.h"
#include "log_stub.h"
extern const struct Component SERIAL_comp;
}
typedef std::string Str;
static void put(const Str & f, const Str & c) { FILE * h = fopen(f.c_str(), "w"); if (!h) vf_fail("harness", "cannot write %s", f.c_str()); fwrite(c.data(), 1, c.size(), h); fclose(h); }
static Str slurp(const Str & f) { Str s; FILE * h = fopen(f.c_str(), "r"); if (!h) return s; char b[4096]; size_t n = fread(b, 1, sizeof b, h); s.assign(b, n); fclose(h); return s; }
static uint32_t number() { switch (vf_below(8)) { case 0: return 0; case 1: return 0xffffffffu; case 2: return 0x80000000u; case 3: return 0x7fffffff; case 4: return vf_below(1000); default: return (uint32_t)vf_rnd(); } }
#ifndef REQ
extern "C" {
enum SERIAL_RETURN SERIAL_ETH_getSerial(uint32_t * serial);
int __real_socket(int, int, int); int __real_close(int); int __real_ioctl(int, unsigned long, void *); FILE * __real_fopen(const char *, const char *); int __real_fclose(FILE *);
}
struct If { Str name; bool sock = true, ether = true; uint8_t mac[6]; bool sys = true; Str sysText; };
static std::vector<If> ifs; static bool active, noSocket; static std::set<int> socks; static std::set<FILE *> files; static unsigned calls; static std::string bufs[4]; 
static If * find(const char * n) { for (auto & i : ifs) if (i.name == n) return &i; return NULL; }
extern "C" int __wrap_socket(int a, int b, int c)
{
	if (!active) return __real_socket(a, b, c);
	++calls; if (noSocket) { errno = EMFILE; return -1; }
	int fd = open("/dev/null", O_RDWR | O_CLOEXEC); socks.insert(fd); return fd;
}
extern "C" int __wrap_ioctl(int fd, unsigned long r, void * a)
{
	if (!active) return __real_ioctl(fd, r, a);
	++calls; VF_CHECK(socks.count(fd), "foreign-descriptor", "ioctl on descriptor %d which is no socket of it", fd); VF_CHECK(r == SIOCGIFHWADDR, "ioctl", "unexpected request %lx", r);
	ifreq * q = (ifreq *)a; char n[IFNAMSIZ + 1]; memcpy(n, q->ifr_name, IFNAMSIZ); n[IFNAMSIZ - 1] = 0;
	If * i = find(n); if (!i || !i->sock) { errno = ENODEV; return -1; }
	q->ifr_hwaddr.sa_family = i->ether ? ARPHRD_ETHER : ARPHRD_PPP; memcpy(q->ifr_hwaddr.sa_data, i->mac, 6); return 0;
}
extern "C" int __wrap_close(int fd)
{
	if (active && socks.count(fd)) socks.erase(fd); else if (active) vf_fail("foreign-descriptor", "descriptor %d closed", fd);
	return __real_close(fd);
}
extern "C" FILE * __wrap_fopen(const char * p, const char * m)
{
	if (!active) return __real_fopen(p, m);
	++calls; Str s = p; const Str a = "/sys/class/net/", b = "/address";
	if (s.size() < a.size() + b.size() || s.compare(0, a.size(), a) || s.compare(s.size() - b.size(), b.size(), b)) vf_fail("foreign-file", "opens %s", p);
	VF_CHECK(m[0] == 'r', "foreign-file", "opens %s for writing", p);
	If * i = find(s.substr(a.size(), s.size() - a.size() - b.size()).c_str()); if (!i || !i->sys) { errno = ENOENT; return NULL; }
	static Str text; text = i->sysText; FILE * f = text.empty() ? __real_fopen("/dev/null", "r") : fmemopen((void *)text.data(), text.size(), "r"); files.insert(f); return f;
}
extern "C" int __wrap_fclose(FILE * f)
{
	if (active) { VF_CHECK(files.count(f), "foreign-file", "closes a file which is not open"); files.erase(f); }
	return __real_fclose(f);
}
void vf_init(void) { log_stub_trace = 1; CFG_registerSection(SERIAL_comp.config); }
static Str macText(const uint8_t * m) { char b[40]; bool up = vf_chance(20); snprintf(b, sizeof b, up ? "%02X:%02X:%02X:%02X:%02X:%02X" : "%02x:%02x:%02x:%02x:%02x:%02x", m[0], m[1], m[2], m[3], m[4], m[5]); return b; }
void vf_case(uint64_t)
{
	ifs.clear(); static const char * const N[] = { "eth0", "eth1", "enp3s0f0npf0vf1", "wlan0", "e" }; unsigned n = vf_below(4);
	for (unsigned i = 0; i < n; ++i) { If f; f.name = N[i ? vf_below(5) : 0]; if (find(f.name.c_str())) continue; for (auto & x : f.mac) x = vf_chance(20) ? 0xff : vf_rnd(); if (vf_chance(10)) memset(f.mac, vf_chance(50) ? 0 : 0xff, 6);
		f.sysText = macText(f.mac) + (vf_chance(90) ? "\n" : ""); ifs.push_back(f); }
	bool env = vf_chance(40); Str dev = "eth0"; if (env) { dev = vf_chance(70) ? N[vf_below(5)] : vf_chance(50) ? "doesnotexist" : Str(vf_below(6000), 'x'); setenv("OPENSKY_ETHER_DEV", dev.c_str(), 1); } else unsetenv("OPENSKY_ETHER_DEV");
#ifndef LOCAL_FILES
	dev = "eth0";
#endif
	unsigned lives = vf_range(1, 4), ok = 0, failed = 0; bool hasConf = vf_chance(25); uint32_t confNo = number(); bool haveLast = false; uint32_t last = 0; uint64_t h = vf_hash(dev.data(), dev.size(), n);
	for (unsigned l = 0; l < lives; ++l) {
		CFG_loadDefaults();
		if (hasConf) { put("c.conf", Str("[DEVICE]\nserial = ") + std::to_string(confNo) + "\n"); VF_CHECK(CFG_readFile("c.conf", true, true, true), "harness", "cannot read the configuration"); }
		bool known = hasConf; uint32_t no = confNo;
		for (unsigned c = vf_range(1, 5); c; --c) {
			If * f = find(dev.c_str()); noSocket = vf_chance(15);
			if (f) { f->sock = vf_chance(75); f->ether = vf_chance(85); f->sys = vf_chance(70); f->sysText = macText(f->mac) + "\n"; }
			bool bad = f && vf_chance(20); if (bad) { static const char * const B[] = { "", "\n", "12:34:56:78:9a", "12:34:56:78:9a:", "00:11:22:33:44:zz\n", "nonsense", ":::::\n", "12-34-56-78-9a-bc\n" }; f->sysText = B[vf_below(8)]; }
			if (known && f && vf_chance(30)) for (auto & x : f->mac) x = vf_rnd(); // replaced while running; restored below
			uint8_t mac[6]; if (f) memcpy(mac, f->mac, 6);
			bool expect = known || (f && ((!noSocket && f->sock && f->ether) || (f->sys && !bad)));
			if (!known && expect) no = ((uint32_t)f->mac[2] << 24 | f->mac[3] << 16 | f->mac[4] << 8 | f->mac[5]) & 0x7fffffff;
			uint32_t s = 0xabad1dea; bool null = vf_chance(20); calls = 0; active = true;
			SERIAL_RETURN r = SERIAL_ETH_getSerial(null ? NULL : &s); active = false;
			vf_trace("call: known %d, interface %d, socket %d (%d), ether %d, sysfs %d (%d) -> %d %x", known, f != NULL, f && f->sock, !noSocket, f && f->ether, f && f->sys, !bad, r, s);
			VF_CHECK(socks.empty(), "descriptor-left", "%zu sockets left open", socks.size()); VF_CHECK(files.empty(), "descriptor-left", "%zu files left open", files.size());
			VF_CHECK((r == SERIAL_RETURN_SUCCESS) == expect, expect ? "not-obtained" : "invented", "result %d, number %x", r, s);
			if (!expect) { VF_CHECK(r == SERIAL_RETURN_FAIL_PERM, "failure-kind", "failure is reported as %d", r); VF_CHECK(null || s == 0xabad1dea, "invented", "number %x in spite of the failure", s); ++failed; }
			else {
				if (!null) VF_CHECK(s == no, "wrong-number", "serial number %u instead of %u", s, no);
				++ok; if (!known) { vf_count(!noSocket && f->sock && f->ether ? "by_socket" : "by_sysfs", 1); if (haveLast) VF_CHECK(last == no, "harness", "model"); last = no; haveLast = true; }
				known = true; h = vf_hash(&no, 4, h);
			}
			if (f && haveLast && !hasConf) { f->mac[2] = last >> 24 | (f->mac[2] & 0x80); f->mac[3] = last >> 16; f->mac[4] = last >> 8; f->mac[5] = last; }
		}
	}
	vf_count("eval", 1); vf_count("obtained", ok); vf_count("not_obtained", failed); if (hasConf) vf_count("configured", 1);
	if (ok) { vf_distinct(h); if (vf_want_sample()) vf_sample("%u lives, device %s (%zu interfaces), %s: %u times obtained, %u times not", lives, dev.substr(0, 20).c_str(), ifs.size(), hasConf ? "configured" : "not configured", ok, failed); }
}
#else
// ---- virtual time, network and server
static TB_ProcessorFn response; static size_t respLen; static bool live; static uint64_t vt; static unsigned requests, disconnects; static bool conn, sendFails;
struct Shared { uint32_t returned; bool emerg, done; unsigned long answers, late, losses, timeouts, requests, successes, emergs, fails; };
static Shared * sh; static std::vector<uint32_t> assigned; static int answerPct, losePct, spuriousPct; static uint64_t lostAt; static unsigned waits; static bool everAns, noAnswer;
static void answer(uint32_t n) { uint8_t * p = (uint8_t *)malloc(4); p[0] = n >> 24; p[1] = n >> 16; p[2] = n >> 8; p[3] = n; assigned.push_back(n); vf_trace("server assigns %u", n); response(p); free(p); ++sh->answers; }
extern "C" {
int __real_clock_gettime(clockid_t, struct timespec *); int __real_pthread_cond_timedwait(pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
int __wrap_clock_gettime(clockid_t c, struct timespec * t) { if (!live) return __real_clock_gettime(c, t); t->tv_sec = vt / 1000000000; t->tv_nsec = vt % 1000000000; return 0; }
int __wrap_pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, const struct timespec * t)
{
	if (!live) return __real_pthread_cond_timedwait(c, m, t);
	uint64_t dl = t->tv_sec * 1000000000ull + t->tv_nsec; ++waits;
	VF_CHECK(waits < 5000, "endless-wait", "waits without end"); VF_CHECK(dl >= vt && t->tv_nsec < 1000000000 && t->tv_nsec >= 0, "wait-time", "waits until %lu.%09lu, it is %lu.%09lu", (unsigned long)t->tv_sec, t->tv_nsec, (unsigned long)(vt / 1000000000), (unsigned long)(vt % 1000000000));
	VF_CHECK(dl <= vt + 10000000000ull, "wait-time", "waits for %g s without looking at the connection", (dl - vt) / 1e9);
	live = false; pthread_mutex_unlock(m);
	if (conn && vf_below(100) < (unsigned)losePct) { conn = false; lostAt = vt; ++sh->losses; vf_trace("connection lost"); }
	bool ans = false, wake = false;
	if ((conn || vf_chance(20)) && !noAnswer && vf_below(100) < (unsigned)answerPct) { if (!conn) ++sh->late; answer(number()); ans = true; if (vf_chance(10)) answer(number()); }
	if (!ans && vf_below(100) < (unsigned)spuriousPct) wake = true;
	if (ans || wake) vt = std::min(dl, vt + vf_below(dl - vt + 1)); else vt = dl + vf_below(50000000);
	pthread_mutex_lock(m); live = true;
	return ans || wake ? 0 : ETIMEDOUT;
}
static const struct Component noTb = { .description = "TB", .dependencies = { NULL } };
extern const struct Component TB_comp; const struct Component TB_comp = { .description = "TB", .dependencies = { NULL } };
void TB_register(uint32_t t, size_t n, TB_ProcessorFn f) { VF_CHECK(t == 5 && n == 4, "registration", "packet %u with %zu bytes registered", t, n); response = f; }
bool NET_send(const void * b, size_t n)
{
	bool l = live; live = false; const uint8_t * p = (const uint8_t *)b;
	VF_CHECK(n == 2 && p[0] == 0x1a && p[1] == 0x42, "request", "sends %s", vf_hex(b, n));
	++requests; if (sendFails || !conn) { live = l; return false; }
	++sh->requests; vf_trace("request"); live = l; return true;
}
bool NET_checkConnected() { return conn; }
void NET_forceDisconnect() { ++disconnects; conn = false; lostAt = vt; }
}
static const char * const CF = "var/conf.d/05-serial.conf";
static void hook(int lv, const char *, const char *) { if (lv == 4) { live = false; sh->emerg = true; _exit(0); } }
static bool storedNumber(uint32_t * n) // independent reading of the stored file
{
	Str t = slurp(CF); size_t p = 0; bool in = false, found = false;
	while (p < t.size()) { size_t e = t.find('\n', p); Str l = t.substr(p, e == Str::npos ? Str::npos : e - p); p = e == Str::npos ? t.size() : e + 1;
		Str k; for (char c : l) if (c != ' ' && c != '\t') k += tolower(c);
		if (k == "[device]") in = true; else if (!k.empty() && k[0] == '[') in = false;
		else if (in && k.compare(0, 7, "serial=") == 0) { char * q; unsigned long long v = strtoull(k.c_str() + 7, &q, 10); if (q != k.c_str() + 7 && !*q && v <= 0xffffffffull) { *n = v; found = true; } } }
	return found;
}
static int storage; static long lim; // 0: writable
static void limit(long l) { rlimit r; getrlimit(RLIMIT_FSIZE, &r); r.rlim_cur = l < 0 ? r.rlim_max : (rlim_t)l; setrlimit(RLIMIT_FSIZE, &r); }
static void life(bool hasUser, uint32_t userNo, unsigned nCalls)
{
	CFG_loadDefaults();
	CFG_readDirectory("var/conf.d", true, true, true, false);
	uint32_t st = 0; bool known = storedNumber(&st); if (hasUser) { known = true; st = userNo; }
	bool fixed = known; uint32_t no = st;
	for (unsigned i = 0; i < nCalls; ++i) {
		if (vf_chance(25)) { answer(number()); ++sh->late; } // nobody waits for it
		conn = vf_chance(92); sendFails = vf_chance(10); requests = disconnects = waits = 0; uint64_t t0 = vt; lostAt = conn ? 0 : vt; noAnswer = vf_chance(15); size_t before = assigned.size();
		uint32_t s = 0xabad1dea;
		limit(lim); live = true; SERIAL_RETURN r = SERIAL_getSerial(&s); live = false; limit(-1);
		vf_trace("result %d, number %u", r, s);
		VF_CHECK(requests <= 1, "request-twice", "%u requests for one need", requests);
		if (fixed) {
			VF_CHECK(requests == 0, "request-needless", "a number was requested although %u is known", no);
			VF_CHECK(r == SERIAL_RETURN_SUCCESS && s == no, "number-changed", "result %d, number %u instead of %u", r, s, no);
		} else if (r == SERIAL_RETURN_SUCCESS) {
			VF_CHECK(std::find(assigned.begin(), assigned.end(), s) != assigned.end(), "invented", "number %u was never assigned", s);
			VF_CHECK(storage == 0, "not-stored", "number %u used although it can not be stored", s);
			uint32_t f; bool have = storedNumber(&f); VF_CHECK(have, "not-stored", "number %u is used, but was not stored", s); VF_CHECK(f == s, "not-stored", "number %u is used, but %u was stored", s, f);
			fixed = true; no = s; ++sh->successes;
		} else {
			VF_CHECK(r == SERIAL_RETURN_FAIL_NET, "failure-kind", "failure is reported as %d", r);
			VF_CHECK(!conn || sendFails, "failure-kind", "network failure reported, but there was none");
			VF_CHECK(s == 0xabad1dea, "invented", "number %u in spite of the failure", s);
			VF_CHECK(lostAt == 0 || vt - lostAt < 5000000000ull, "slow-failure", "the connection was lost %g s before the failure was reported", (vt - lostAt) / 1e9);
			VF_CHECK(disconnects <= 1, "disconnect", "disconnects %u times", disconnects); if (disconnects) { VF_CHECK(vt - t0 >= 30000000000ull, "gave-up-early", "the connection was given up after %g s", (vt - t0) / 1e9); ++sh->timeouts; }
			++sh->fails; (void)before;
		}
		if (storage == 0) VF_CHECK(vt - t0 < 120000000000ull, "endless-wait", "%g s without a result", (vt - t0) / 1e9);
		vt += vf_below(20) * 1000000000ull;
	}
	sh->returned = no; sh->done = fixed;
}
void vf_init(void)
{
	log_stub_trace = 1; log_stub_hook = hook; signal(SIGXFSZ, SIG_IGN);
	sh = (Shared *)mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	SERIAL_comp.onRegister(); VF_CHECK(response, "registration", "no handler for the answer registered"); CFG_registerSection(SERIAL_comp.config);
}
void vf_case(uint64_t)
{
	memset(sh, 0, sizeof *sh); (void)!system("rm -rf var"); mkdir("var", 0700); mkdir("var/conf.d", 0700);
	bool hasUser = vf_chance(12); uint32_t userNo = number(); if (hasUser) put("var/conf.d/10-user.conf", Str("[Device]\nserial = ") + std::to_string(userNo) + "\n");
	unsigned lives = vf_range(1, 4); bool have = false; uint32_t no = 0; uint64_t h = 0; Str sum;
	answerPct = vf_range(2, 60); losePct = vf_chance(50) ? vf_below(20) : 0; spuriousPct = vf_chance(50) ? vf_below(60) : 0; vt = 1700000000000000000ull + vf_below(1000000000);
	for (unsigned l = 0; l < lives; ++l) {
		storage = vf_chance(25) && !have ? vf_range(1, 5) : 0; if (storage == 1 && hasUser) storage = 0; unsigned nCalls = vf_range(1, 5);
		const char * const full = "/dev/full"; lim = -1;
		switch (storage) {
		case 1: (void)!system("mv var/conf.d var/x"); break;
		case 2: if (access(CF, F_OK)) mkdir(CF, 0700); else storage = 0; break;
		case 3: if (access(CF, F_OK)) { if (symlink(full, CF)) storage = 0; } else storage = 0; break;
		case 4: lim = 0; break;
		case 5: lim = vf_range(1, 9); break;
		}
		uint64_t cs = vf_rnd(); sh->emerg = sh->done = false;
		fflush(stdout);
		pid_t p = fork();
		if (!p) {
			vf_thread_seed(cs);
			life(hasUser, userNo, nCalls); _exit(0);
		}
		int st; while (waitpid(p, &st, 0) != p) { }
		if (!WIFEXITED(st)) vf_fail("died", "the process died from signal %d", WTERMSIG(st)); if (WEXITSTATUS(st) == 10) _exit(10);
		if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
		if (sh->emerg) { VF_CHECK(storage != 0, "gives-up", "the process gave up although the storage works"); ++sh->emergs; }
		switch (storage) { case 1: (void)!system("mv var/x var/conf.d"); break; case 2: rmdir(CF); break; case 3: unlink(CF); break; default: break; }
		if (sh->done) { if (have) VF_CHECK(sh->returned == no, "number-changed", "number %u after a restart, %u before", sh->returned, no); no = sh->returned; have = true; h = vf_hash(&no, 4, h); }
		else if (have) vf_fail("number-changed", "number %u is not used after a restart", no);
		sum += sh->done ? "+" : sh->emerg ? "!" : "-"; vf_tick();
	}
	vf_count("eval", 1); vf_count("answers", sh->answers); vf_count("late_answers", sh->late); vf_count("losses", sh->losses); vf_count("timeouts", sh->timeouts); vf_count("requests", sh->requests); vf_count("assigned", sh->successes); vf_count("unwritable", sh->emergs); vf_count("network_failures", sh->fails);
	if (have) { h = vf_hash(sum.data(), sum.size(), h); vf_distinct(h); if (vf_want_sample()) vf_sample("%s, lives %s (+ obtained, - not, ! not storable), %lu requests, %lu answers (%lu late), %lu failures, number %u", hasUser ? "configured" : "not configured", sum.c_str(), sh->requests, sh->answers, sh->late, sh->fails, no); }
	(void)!system("rm -rf var");
}
#endif
