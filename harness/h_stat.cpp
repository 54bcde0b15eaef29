// C34: periodic report (real statistics.c) on virtual time; mode 0: arbitrary counters, with -DREAL: counters of the real filter, buffer and connection manager.
#include <config.h>
#include <vector>
#include <string>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <math.h>
#include <stdarg.h>
#include <errno.h>
#include <setjmp.h>
#include <unistd.h>
#include <pthread.h>
#include <semaphore.h>
#include <time.h>
#include <sys/socket.h>
#include <inttypes.h>
#include "vf.h"
extern "C" {
#include "util/statistics.h"
#include "util/cfgfile.h"
#include "util/net_common.h"
#include "core/buffer.h"
#include "core/network.h"
#include "core/filter.h"
#include "log_stub.h"
}
typedef std::string Str;
static FILTER_Statistics fs; static BUFFER_Statistics bs; static NET_Statistics ns;
static time_t vtime; static __thread int role; // 1: network thread
static unsigned interval, reports, maxReports; static jmp_buf out; static FILE * realOut; static char * mbuf; static size_t mlen; static FILE * mem;
static bool fast; /* no time between two reports */ static time_t startT; static void beforeReport(void), afterReport(const Str & text);
static sem_t go, waiting; static int order; static int netState; /* 1 in connect, 2 in sleep */
extern "C" {
unsigned __real_sleep(unsigned);
time_t __wrap_time(time_t * t) { time_t v = __atomic_load_n(&vtime, __ATOMIC_SEQ_CST); if (t) *t = v; return v; }
unsigned __wrap_sleep(unsigned s)
{
	if (role == 1) { __atomic_store_n(&netState, 2, __ATOMIC_SEQ_CST); sem_post(&waiting); while (sem_wait(&go)) ; return 0; }
	if (role != 2) return __real_sleep(s);
	fflush(stdout);
	if (mem) { fclose(mem); mem = NULL; stdout = realOut; Str t(mbuf, mlen); free(mbuf); afterReport(t); ++reports; }
	VF_CHECK(s == interval, "interval", "waits for %u s, the interval is %u s", s, interval);
	if (reports == maxReports) longjmp(out, 1);
	if (fast && vf_chance(60) && vtime > startT) ; else __atomic_add_fetch(&vtime, s + (vf_chance(30) ? vf_below(3) : 0), __ATOMIC_SEQ_CST);
	beforeReport();
	mem = open_memstream(&mbuf, &mlen); stdout = mem;
	return 0;
}
#ifndef REAL
void FILTER_getStatistics(struct FILTER_Statistics * s) { *s = fs; }
void BUFFER_getStatistics(struct BUFFER_Statistics * s) { *s = bs; }
void NET_getStatistics(struct NET_Statistics * s) { *s = ns; }
#endif
}
// ---- expected report: literal text with numbers as N (exact), P (whole percent), R (two decimals)
struct Tok { int kind; Str text; double v; uint64_t n; };
static std::vector<std::vector<Tok>> want; static bool noDelta; // no time has passed: no rate since the last report
static void line(const char * f, ...)
{
	std::vector<Tok> l; va_list ap; va_start(ap, f); Str w;
	auto flush = [&] { if (!w.empty()) l.push_back(Tok{ 0, w, 0, 0 }); w.clear(); };
	for (; *f; ++f) {
		if (*f == '%') { flush(); ++f; Tok t = Tok{ *f, "", 0, 0 }; if (*f == 'N') t.n = va_arg(ap, uint64_t); else if (*f == 's') { t.kind = 0; t.text = va_arg(ap, const char *); } else t.v = va_arg(ap, double); l.push_back(t); }
		else if (strchr(" []()%,", *f)) flush(); else w += *f;
	}
	flush(); va_end(ap); if (noDelta && l.size() > 4 && l[l.size() - 2].kind == 'R' && l[l.size() - 4].kind == 'R') l.resize(l.size() - 2);
	want.push_back(l);
}
static uint64_t lastFrames; static FILTER_Statistics lastF; static time_t lastT; static bool lastReset;
static double rate(uint64_t n, uint64_t s) { return (double)n / s; }
static double diff(uint64_t a, uint64_t b, uint64_t d) { return (a >= b ? (double)(a - b) : (double)a) / d; }
static void frames(const char * name, uint64_t n, uint64_t last, uint64_t all, uint64_t secs, uint64_t delta)
{
	line("- %N %P %s %R /s %R /s", n, all ? 100. * n / all : 0., name, rate(n, secs), diff(n, last, delta));
}
static void expectReport(void)
{
	want.clear(); uint64_t secs = vtime - startT, delta = vtime - lastT; noDelta = !delta; char st[26]; ctime_r(&startT, st); st[24] = 0;
	line("Statistics"); want.push_back({ Tok{ 4, st, 0, 0 } });
	char run[80]; snprintf(run, sizeof run, "%llud", (unsigned long long)secs / 86400); Str r1 = run; snprintf(run, sizeof run, "%02dh:%02dm:%02ds", (int)(secs / 3600 % 24), (int)(secs / 60 % 60), (int)(secs % 60)); Str r2 = run;
	line("- running since %s %s", r1.c_str(), r2.c_str());
	uint64_t all = fs.framesByType[0] + fs.framesByType[1] + fs.framesByType[2] + fs.framesByType[3] + fs.unknown, ms = fs.framesByType[1] + fs.framesByType[2];
	line("Receiver"); line("- %N frames received %R /s %R /s", all, rate(all, secs), diff(all, lastFrames, delta));
	frames("Mode-A/C", fs.framesByType[0], lastF.framesByType[0], all, secs, delta);
	want.back().erase(want.back().begin() + 3); want.back().insert(want.back().begin() + 3, Tok{ 0, "Mode-A/C", 0, 0 });
	auto named = [&](const char * a, const char * b, uint64_t n, uint64_t last) { frames(a, n, last, all, secs, delta); if (b) want.back().insert(want.back().begin() + 4, Tok{ 0, b, 0, 0 }); };
	named("Mode-S", "Short", fs.framesByType[1], lastF.framesByType[1]); named("Mode-S", "Long", fs.framesByType[2], lastF.framesByType[2]);
	for (uint64_t i = 0; i < 32; ++i) if (fs.modeSByType[i]) line("- %N %P type %N %R /s %R /s", fs.modeSByType[i], 100. * fs.modeSByType[i] / ms, i, rate(fs.modeSByType[i], secs), diff(fs.modeSByType[i], lastF.modeSByType[i], delta));
	named("status", NULL, fs.framesByType[3], lastF.framesByType[3]); named("unknown", NULL, fs.unknown, lastF.unknown); named("filtered", NULL, fs.filtered, lastF.filtered); named("Mode-S", "filtered", fs.modeSfiltered, lastF.modeSfiltered);
	line("- %N unsynchronized frames", fs.unsynchronized);
	line("Buffer"); if (bs.discardedCur) line("- currently in overload");
	line("- %N queued messages current", bs.queueSize); line("- %N queued messages max", bs.maxQueueSize); line("- %N discarded messages current", bs.discardedCur); line("- %N discarded messages overall", bs.discardedAll);
	line("- %N discarded messages in worst overflow situation", bs.discardedMax); line("- %N messages in pool Usage %R", bs.poolSize, 100. * bs.queueSize / (double)(bs.poolSize + bs.queueSize));
	line("- %N dynamic pools current", bs.dynPools); line("- %N dynamic pools overall", bs.dynPoolsAll); line("- %N dynamic pools max", bs.dynPoolsMax); line("- %N flushes", bs.flushes); line("- %N uncollected dynamic pools", bs.uncollectedPools); line("- %N Garbage Collector runs", bs.GCruns);
	line("Network"); line("- currently %s", ns.isOnline ? "online" : "offline"); line("- %N %P seconds online overall", ns.onlineSecs, 100. * ns.onlineSecs / secs); line("- %N disconnections", ns.disconnects); line("- %N connection attempts", ns.connectionAttempts);
	line("- %N bytes sent %R/s", ns.bytesSent, rate(ns.bytesSent, secs)); want.back().pop_back(); want.back().push_back(Tok{ 0, "/s", 0, 0 }); line("- %N bytes received %R/s", ns.bytesReceived, rate(ns.bytesReceived, secs)); want.back().pop_back(); want.back().push_back(Tok{ 0, "/s", 0, 0 });
}
static unsigned long numbers;
static void afterReport(const Str & text)
{
	expectReport();
	std::vector<Str> lines; size_t p = 0; while (p < text.size()) { size_t e = text.find('\n', p); if (e == Str::npos) e = text.size(); Str l = text.substr(p, e - p); if (l.find_first_not_of(" ") != Str::npos) lines.push_back(l); p = e + 1; }
	for (size_t k = 0; k < want.size(); ++k) {
		VF_CHECK(k < lines.size(), "report-short", "the report ends after %zu of %zu lines: %s", lines.size(), want.size(), text.c_str());
		const Str & l = lines[k];
		if (want[k].size() == 1 && want[k][0].kind == 4) { VF_CHECK(l.find(want[k][0].text) != Str::npos, "report", "start time '%s' is not in '%s'", want[k][0].text.c_str(), l.c_str()); continue; }
		std::vector<Str> tk; Str w; for (char c : l + " ") if (strchr(" []()%,", c)) { if (!w.empty()) tk.push_back(w); w.clear(); } else { if (c == '/' && !w.empty() && (isdigit(w.back()))) { tk.push_back(w); w.clear(); } w += c; }
		bool ok = tk.size() == want[k].size();
		for (size_t i = 0; ok && i < tk.size(); ++i) {
			const Tok & t = want[k][i]; char * e; double v = strtod(tk[i].c_str(), &e);
			if (t.kind == 0) ok = tk[i] == t.text;
			else if (*e) ok = false;
			else if (t.kind == 'N') { ok = strtoull(tk[i].c_str(), &e, 10) == t.n && !*e; ++numbers; }
			else { double tol = t.kind == 'P' ? .5001 : .00501; ok = (isnan(v) && isnan(t.v)) || (isinf(v) && isinf(t.v)) || fabs(v - t.v) <= tol + fabs(t.v) * 1e-12; ++numbers; }
		}
		if (!ok) { Str x; for (auto & t : want[k]) { char b[60]; if (t.kind == 0) x += t.text; else { if (t.kind == 'N') snprintf(b, sizeof b, "%" PRIu64, t.n); else snprintf(b, sizeof b, "%.2f", t.v); x += b; } x += ' '; } vf_fail("report", "line '%s' should be: %s", l.c_str(), x.c_str()); }
	}
	VF_CHECK(lines.size() == want.size(), "report-long", "unexpected line '%s'", lines.size() > want.size() ? lines[want.size()].c_str() : "");
	lastFrames = fs.framesByType[0] + fs.framesByType[1] + fs.framesByType[2] + fs.framesByType[3] + fs.unknown; lastF = fs; lastT = vtime;
}
static uint64_t hist; static unsigned long resets;
#ifndef REAL
static uint64_t big(void) { return vf_chance(30) ? 0 : vf_chance(50) ? vf_below(1000) : vf_chance(70) ? vf_rnd() & 0xffffffffffull : vf_rnd() >> 4; }
static void beforeReport(void)
{
	bool rs = vf_chance(10); if (rs) { memset(&fs, 0, sizeof fs); memset(&bs, 0, sizeof bs); memset(&ns, 0, sizeof ns); ++resets; }
	uint64_t * f = (uint64_t *)&fs; for (size_t i = 0; i < sizeof fs / 8; ++i) if (vf_chance(60)) f[i] += vf_chance(90) ? vf_below(100000) : vf_rnd() >> 12;
	for (int i = 0; i < 32; ++i) if (fs.modeSByType[i] > fs.framesByType[1] + fs.framesByType[2]) fs.modeSByType[i] = fs.framesByType[1] + fs.framesByType[2];
	uint64_t * b = (uint64_t *)&bs; for (size_t i = 0; i < sizeof bs / 8; ++i) b[i] = big(); if (!bs.poolSize) bs.poolSize = 1;
	ns.isOnline = vf_chance(50); ns.onlineSecs = vf_below(vtime - startT + 1); ns.disconnects = big(); ns.connectionAttempts = big(); ns.bytesSent = big(); ns.bytesReceived = big();
	hist = vf_hash(&fs, sizeof fs, hist);
}
static void setup(void) { memset(&fs, 0, sizeof fs); }
static void finish(void) {}
#else
extern "C" void INPUT_reconfigure() {}
static int cfd = -1, sfd = -1; static NET_Statistics mn; static uint64_t onSince; static bool online; static std::vector<int> toClose; static unsigned long bytes, losses;
extern "C" sock_t NETC_connect(const char *, const char *, uint16_t)
{
	__atomic_store_n(&netState, 1, __ATOMIC_SEQ_CST); sem_post(&waiting); while (sem_wait(&go)) ;
	if (!order) return -1;
	int sp[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, sp)) _exit(2); cfd = sp[0]; sfd = sp[1]; return cfd;
}
static void waitNet(void) { while (sem_wait(&waiting)) ; }
// the network thread waits for orders in its connect call
static void connectNow(void)
{
	++mn.connectionAttempts; while (vf_chance(30)) { order = 0; sem_post(&go); waitNet(); ++mn.disconnects; ++mn.connectionAttempts; vtime += vf_below(20); sem_post(&go); waitNet(); }
	order = 1; sem_post(&go); NET_waitConnected(); online = true; onSince = vtime;
}
static uint8_t tmp[70000];
static void drain(size_t n) { while (n) { ssize_t r = recv(sfd, tmp, n, 0); if (r <= 0) vf_fail("lost", "bytes reported as sent did not arrive"); n -= r; } }
static void sendSome(void) { size_t n = 1 + vf_below(2000); if (NET_send(tmp, n)) { mn.bytesSent += n; drain(n); bytes += n; } }
static void recvSome(void) { size_t n = 1 + vf_below(2000); if (send(sfd, tmp, n, MSG_NOSIGNAL) != (ssize_t)n) return; size_t w = n; for (int bad = 0; w; ) { static uint8_t b[500]; ssize_t r = NET_receive(b, 1 + vf_below(sizeof b)); if (r <= 0) { if (++bad > 3) vf_fail("receive", "nothing received on a good connection"); continue; } w -= r; } mn.bytesReceived += n; bytes += n; }
static void lose(void)
{
	mn.onlineSecs += vtime - onSince; online = false; ++mn.disconnects; ++losses; bool byRecv = vf_chance(50);
	shutdown(sfd, SHUT_RDWR); int o = sfd;
	if (byRecv) { uint8_t b[10]; if (NET_receive(b, sizeof b) > 0) vf_fail("receive", "data from a closed connection"); } else if (NET_send("x", 1)) vf_fail("send", "sent on a closed connection");
	waitNet(); toClose.push_back(o);
}
static void both(void) { sendSome(); recvSome(); }
static void beforeReport(void)
{
	unsigned k = vf_below(8);
	while (k--) switch (vf_below(7)) {
	case 0: vtime += vf_below(30); break;
	case 1: case 2: { unsigned m = vf_below(30); while (m--) { static const OPENSKY_FRAME_TYPE ts[] = { OPENSKY_FRAME_TYPE_MODE_AC, OPENSKY_FRAME_TYPE_MODE_S_SHORT, OPENSKY_FRAME_TYPE_MODE_S_LONG, OPENSKY_FRAME_TYPE_STATUS }; OPENSKY_FRAME_TYPE t = ts[vf_below(4)]; if (vf_chance(20)) FILTER_setSynchronized(vf_chance(50)); FILTER_filter(t, vf_rnd()); } break; }
	case 3: { unsigned m = vf_below(40); while (m--) { OPENSKY_RawFrame * f = BUF_newFrame(); f->rawLen = 3; if (vf_chance(80)) BUF_commitFrame(f); else BUF_abortFrame(f); } break; }
	case 4: { unsigned m = vf_below(40); while (m--) { const OPENSKY_RawFrame * f = BUF_getFrameTimeout(0); if (f) BUF_releaseFrame(f); } if (vf_chance(20)) BUF_flush(); break; }
	case 5: if (online) both(); break;
	default:
		if (online && vf_chance(50)) { lose(); if (vf_chance(50)) vtime += vf_below(100); if (vf_chance(80)) { connectNow(); both(); } }
		else if (!online) { connectNow(); both(); }
	}
	if (online && vf_chance(15)) { // resetting waits for a running attempt
		FILTER_comp.onReset(); BUF_comp.onReset(); NET_comp.onReset(); ++resets; memset(&mn, 0, sizeof mn); onSince = vtime;
		FILTER_Statistics z; memset(&z, 0, sizeof z); FILTER_getStatistics(&fs); VF_CHECK(!memcmp(&z, &fs, sizeof z), "reset", "filter counters are not zero after a reset");
		BUFFER_getStatistics(&bs); VF_CHECK(!bs.maxQueueSize && !bs.discardedCur && !bs.discardedAll && !bs.discardedMax && !bs.dynPoolsAll && !bs.dynPoolsMax && !bs.flushes && !bs.uncollectedPools && !bs.GCruns, "reset", "buffer counters are not zero after a reset");
		NET_getStatistics(&ns); VF_CHECK(!ns.onlineSecs && !ns.disconnects && !ns.connectionAttempts && !ns.bytesSent && !ns.bytesReceived, "reset", "after a reset: %" PRIu64 " s online, %" PRIu64 " disconnections, %" PRIu64 " attempts, %" PRIu64 " bytes sent, %" PRIu64 " received", ns.onlineSecs, ns.disconnects, ns.connectionAttempts, ns.bytesSent, ns.bytesReceived);
		VF_CHECK(ns.isOnline == online, "reset-disturbs", "the connection is %s after a reset", ns.isOnline ? "online" : "offline");
		if (!online) mn.connectionAttempts = 0; // the running attempt was counted when it began
	}
	FILTER_getStatistics(&fs); BUFFER_getStatistics(&bs);
	ns = mn; ns.isOnline = online; if (online) ns.onlineSecs += vtime - onSince; else ns.connectionAttempts = mn.connectionAttempts + 1; // one is going on
	hist = vf_hash(&ns, sizeof ns, hist);
}
static unsigned attemptsBias; static pthread_t nt; static void * netT(void *) { role = 1; NET_comp.main(); return NULL; }
static void setup(void)
{
	CFG_loadDefaults(); CFG_setInteger("BUFFER", "StaticBacklog", 10 + vf_below(100)); CFG_setInteger("BUFFER", "DynamicBacklog", 10); CFG_setInteger("BUFFER", "DynamicIncrements", vf_below(3));
	CFG_setBoolean("FILTER", "SyncFilter", vf_chance(50)); CFG_setBoolean("FILTER", "ModeSExtSquitterOnly", vf_chance(50));
	FILTER_comp.onConstruct(); if (!BUF_comp.onConstruct()) vf_fail("harness", "construct"); FILTER_comp.onReset(); BUF_comp.onReset(); NET_comp.onReset();
	memset(&mn, 0, sizeof mn); online = false; toClose.clear(); pthread_create(&nt, NULL, netT, NULL); waitNet();
}
static void finish(void)
{
	pthread_cancel(nt); pthread_join(nt, NULL); if (sfd >= 0) close(sfd); for (int f : toClose) if (f != sfd) close(f); sfd = -1; BUF_comp.onDestruct();
	while (sem_trywait(&waiting) == 0) ; while (sem_trywait(&go) == 0) ;
	vf_count("net_bytes", bytes); vf_count("losses", losses); bytes = losses = 0;
}
#endif
void vf_init(void)
{
	log_stub_trace = 0; realOut = stdout; sem_init(&go, 0, 0); sem_init(&waiting, 0, 0); setenv("TZ", "UTC", 1);
	CFG_registerSection(STAT_comp.config);
#ifdef REAL
	CFG_registerSection(FILTER_comp.config); CFG_registerSection(BUF_comp.config); CFG_registerSection(NET_comp.config);
#endif
}
void vf_case(uint64_t)
{
	vtime = startT = 1000000000 + vf_below(1000000000); hist = 1; resets = 0; reports = 0; numbers = 0; memset(&lastF, 0, sizeof lastF); lastFrames = 0; maxReports = 1 + vf_below(12); mem = NULL;
	setup(); interval = vf_chance(20) ? 600 : 1 + vf_below(vf_chance(50) ? 20 : 100000);
	CFG_setInteger("STATISTICS", "Interval", interval); CFG_setBoolean("STATISTICS", "Enabled", true); VF_CHECK(STAT_comp.onConstruct(), "construct", "statistics were not constructed");
	if (vf_chance(50)) vtime += vf_below(100); // other components take their time
	lastT = vtime; fast = vf_chance(30);
	if (!setjmp(out)) { role = 2; STAT_comp.main(); vf_fail("ended", "the statistics loop ended"); }
	role = 0; finish();
	vf_count("eval", 1); vf_count("reports", reports); vf_count("numbers_compared", numbers); vf_count("resets", resets); vf_distinct(hist);
	if (vf_want_sample()) vf_sample("%u reports every %u s, %lu numbers compared, %lu resets", reports, interval, numbers, resets);
}
