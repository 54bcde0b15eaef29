// C25: real logging back ends. Threads log tagged messages; the captured output is parsed back into records.
#include <config.h>
#include <vector>
#include <string>
#include <map>
#include <atomic>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <pthread.h>
#include <sys/wait.h>
#include "inject.h"
extern "C" {
#include "util/log.h"
}
#ifdef LOGLIB
#include <iostream>
#include <fstream>
#include "opensky.hh"
enum { LIMIT = 2047 };
#else
enum { LIMIT = 1 << 30 };
#endif
typedef std::string Str;
static const char * const LV[] = { "INFO", "DEBUG", "WARN", "ERROR", "EMERG" };
static long mode; static uint64_t cseed;
struct Rec { int level; int kind; int err; bool prefix; Str pre, msg; bool sure; };
static std::vector<Rec> recs[5]; // per thread, in order
static Str show(const Str & s) { return s.size() > 90 ? s.substr(0, 60) + "..." + s.substr(s.size() - 20) : s; }
static Str errText(int e) { char b[200]; return strerror_r(e, b, sizeof b) ? Str(b[0] ? b : "") : Str(); }
// the complete line without newline, in the layout of this back end; alternatives for the error part
static bool matches(const Str & line, const Rec & r)
{
	Str m = r.msg;
#ifdef LOGLIB
	if (r.kind != 0 && m.size() > LIMIT) m.resize(LIMIT);
#endif
	Str head = Str("[") + LV[r.level] + "] " + (r.prefix ? "[" + r.pre + "] " : "") + m;
	if (r.kind < 2) return line == head;
	if (line.compare(0, head.size(), head)) return false;
	Str tail = line.substr(head.size());
	char num[30]; snprintf(num, sizeof num, "(%d)", r.err);
	char eb[200]; const char * es = strerror_r(r.err, eb, sizeof eb);
	if (tail.empty() || tail[0] != ':') return false;
	if (tail.size() < strlen(num) || tail.compare(tail.size() - strlen(num), strlen(num), num)) return false;
	// a description of the error, or of its being unknown
	return tail.find(es) != Str::npos || (!strncmp(es, "Unknown", 7) && (tail.find("Unknown") != Str::npos));
}
static void logOne(int thread, unsigned seq, bool emerg)
{
	Rec r; r.sure = false; r.level = emerg ? LOG_LEVEL_EMERG : (int)vf_below(4); r.kind = vf_below(5);
	r.prefix = !vf_chance(15); r.pre = vf_chance(80) ? "COMP" : Str(1 + vf_below(40), 'P');
	static const int E[] = { 0, EPERM, ENOENT, EAGAIN, EPIPE, ECONNRESET, 123456, -3, 133 }; r.err = vf_chance(80) ? E[vf_below(9)] : (int)vf_below(140);
	char tag[40]; snprintf(tag, sizeof tag, "<%d:%u>", thread, seq);
	size_t n = vf_chance(60) ? vf_below(80) : vf_chance(60) ? vf_below(1000) : vf_chance(50) ? 2047 - strlen(tag) * 2 - vf_below(4) + vf_below(4) : vf_below(6000);
	Str body; uint64_t x = cseed + seq * 7 + thread; for (size_t i = 0; i < n; ++i) { x = x * 6364136223846793005ULL + 1; char c = 32 + (x >> 40) % 95; body += c; }
	r.msg = tag + body + tag;
	const char * pre = r.prefix ? r.pre.c_str() : NULL;
	std::vector<Rec> & v = recs[thread];
	// fill the shadow before, so that a cancelled thread leaves it consistent
	{ int o; pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &o); v.push_back(r); pthread_setcancelstate(o, NULL); }
	errno = r.err;
	switch (r.kind) {
	case 0: LOG_log((LOG_LEVEL)r.level, pre, r.msg.c_str()); break;
	case 1: LOG_logf((LOG_LEVEL)r.level, pre, "%s%s<%d:%u>", tag, body.c_str(), thread, seq); break;
	case 2: LOG_errno((LOG_LEVEL)r.level, pre, "%s%s<%d:%u>", tag, body.c_str(), thread, seq); break;
	case 3: errno = 0; LOG_errno2((LOG_LEVEL)r.level, r.err, pre, "%s%s<%d:%u>", tag, body.c_str(), thread, seq); break;
	default: LOG_errnet((LOG_LEVEL)r.level, pre, "%s%s<%d:%u>", tag, body.c_str(), thread, seq); break;
	}
	v.back().sure = true;
}
static unsigned perThread; static std::atomic<bool> forever; static uint64_t tseed;
static void * worker(void * a)
{
	long id = (long)a; vf_thread_seed(tseed + id); inj_thread(id, cseed);
	for (unsigned i = 0; forever || i < perThread; ++i) { logOne(id, i, false); inj_point(1); pthread_testcancel(); if (i > 100000) break; }
	return NULL;
}
static Str slurp(const Str & f) { Str s; FILE * h = fopen(f.c_str(), "r"); if (!h) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, h)) > 0) s.append(b, n); fclose(h); return s; }
static Str fo, fe; static int so, se;
#ifdef LOGLIB
static bool ownStreams; static std::ofstream * om, * oe;
#endif
static void capture(void)
{
	fflush(stdout); fflush(stderr);
	so = dup(1); se = dup(2);
	int a = open(fo.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600), b = open(fe.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600);
#ifdef LOGLIB
	if (ownStreams) { om = new std::ofstream(fo, std::ios::app); oe = new std::ofstream(fe, std::ios::app); OpenSky::setLogStreams(*om, *oe); }
	else { dup2(a, 1); dup2(b, 2); OpenSky::setLogStreams(std::cout, std::cerr); }
#else
	dup2(a, 1); dup2(b, 2);
#endif
	close(a); close(b);
}
static void restore(void)
{
	fflush(stdout); fflush(stderr);
	dup2(so, 1); dup2(se, 2); close(so); close(se);
#ifdef LOGLIB
	OpenSky::setLogStreams(std::cout, std::cerr);
	if (ownStreams) { delete om; delete oe; }
#endif
}
static void parse(const Str & text, bool toErr, bool lastMayBeCut, std::map<std::pair<int, unsigned>, unsigned> & seen, std::map<int, long> & last, unsigned long & n)
{
	size_t p = 0;
	while (p < text.size()) {
		size_t e = text.find('\n', p);
		Str line = text.substr(p, e == Str::npos ? Str::npos : e - p);
		bool cut = e == Str::npos;
		if (cut && lastMayBeCut) break;
		VF_CHECK(!cut, "no-newline", "the output ends inside a record: %s", show(line).c_str());
		size_t t = line.find('<'); int th; unsigned sq;
		VF_CHECK(t != Str::npos && sscanf(line.c_str() + t, "<%d:%u>", &th, &sq) == 2 && th >= 0 && th < 5 && sq < recs[th].size(), "alien", "no record was logged as: %s", show(line).c_str());
		Rec & r = recs[th][sq];
		VF_CHECK(matches(line, r), "record", "record %d/%u (level %s, kind %d, error %d, %zu bytes) is written as: %s", th, sq, LV[r.level], r.kind, r.err, r.msg.size(), show(line).c_str());
		VF_CHECK((!seen[std::make_pair(th, sq)]++), "twice", "record %d/%u was written twice", th, sq);
#ifdef LOGLIB
		VF_CHECK(toErr == (r.level >= LOG_LEVEL_ERROR), "stream", "record of level %s went to the %s stream", LV[r.level], toErr ? "error" : "message");
#endif
		int key = th * 2 + toErr;
		if (last.count(key)) VF_CHECK(last[key] < (long)sq, "order", "record %d/%u after %d/%ld", th, sq, th, last[key]);
		last[key] = sq; ++n;
		p = e + 1;
	}
}
void vf_init(void) { char b[4096]; Str d = getcwd(b, sizeof b); fo = d + "/out"; fe = d + "/err"; }
void vf_case(uint64_t)
{
	cseed = vf_rnd(); inj_level = vf_range(0, 50); inj_max_us = 50;
	for (auto & r : recs) r.clear();
	unsigned nt = vf_below(5); perThread = 1 + vf_below(40); tseed = vf_rnd() & 0xffffff;
	int kind = vf_below(4); // 0 1: plain, 2: cancelled threads, 3: fatal record in a process of its own
#ifdef LOGLIB
	ownStreams = vf_chance(50);
#endif
	unsigned long n = 0; std::map<std::pair<int, unsigned>, unsigned> seen; std::map<int, long> last;
	bool fatal = false;
	if (kind < 3) {
		capture();
		pthread_t t[5]; forever = kind == 2;
		for (unsigned i = 1; i < nt; ++i) pthread_create(&t[i], NULL, worker, (void *)(long)i);
		for (unsigned i = 0; i < perThread; ++i) logOne(0, i, false);
		if (kind == 2) { usleep(vf_below(1500)); for (unsigned i = 1; i < nt; ++i) { pthread_cancel(t[i]); } }
		for (unsigned i = 1; i < nt; ++i) pthread_join(t[i], NULL);
		logOne(0, perThread, false); // nobody may have taken a lock along
		LOG_flush();
		restore();
		parse(slurp(fo), false, false, seen, last, n); parse(slurp(fe), true, false, seen, last, n);
		for (int i = 0; i < 5; ++i) for (unsigned j = 0; j < recs[i].size(); ++j) if (recs[i][j].sure) VF_CHECK((seen[std::make_pair(i, j)] == 1), "lost", "record %d/%u (level %s, kind %d) is missing", i, j, LV[recs[i][j].level], recs[i][j].kind);
	} else {
		fatal = true;
		unlink(fo.c_str()); unlink(fe.c_str());
		// the child's shadow is not visible here: other threads' records are only checked to be whole
		pid_t p = fork();
		if (!p) {
			capture(); forever = true;
			pthread_t t[5]; for (unsigned i = 1; i < nt; ++i) pthread_create(&t[i], NULL, worker, (void *)(long)i);
			for (unsigned i = 0; i < perThread; ++i) logOne(0, i, false);
			logOne(0, perThread, true);
			_exit(33);
		}
		// replay the shadow of the main thread: it draws from the same stream
		int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR);
		VF_CHECK(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT, "fatal", "after a fatal record the process ended with status %x", st);
		Str o = slurp(fo) + slurp(fe);
		char tag[40]; snprintf(tag, sizeof tag, "<0:%u>", perThread);
		size_t pos = o.find("[EMERG] "); VF_CHECK(pos != Str::npos && (pos == 0 || o[pos - 1] == '\n'), "fatal-record", "the fatal record is not written as a record of its own: %s", pos == Str::npos ? "missing" : show(o.substr(pos > 30 ? pos - 30 : 0, 120)).c_str());
		size_t e = o.find('\n', pos); VF_CHECK(e != Str::npos, "fatal-record", "the fatal record is not complete");
		Str line = o.substr(pos, e - pos); size_t a = line.find(tag), b = line.rfind(tag);
		VF_CHECK(a != Str::npos && (b != a || line.size() >= LIMIT), "fatal-record", "the fatal record is not whole: %s", show(line).c_str());
		VF_CHECK(o.find("[EMERG]", e) == Str::npos, "fatal-record", "more than one fatal record");
		for (unsigned i = 0; i < perThread; ++i) { snprintf(tag, sizeof tag, "<0:%u>", i); VF_CHECK(o.find(tag) != Str::npos, "lost", "record 0/%u before the fatal one is missing", i); ++n; }
	}
	uint64_t h = vf_hash(&cseed, 8, kind);
	vf_count("eval", 1); vf_count("records", n); vf_count("fatal_records", fatal); vf_count("cancelled_loggers", kind == 2 ? nt : 0); vf_count("concurrent", nt > 1);
	vf_distinct(h);
	if (vf_want_sample()) vf_sample("kind %d, %u threads: %lu records parsed back%s", kind, nt, n, fatal ? ", one fatal" : "");
}
