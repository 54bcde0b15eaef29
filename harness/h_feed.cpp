// C10, C18, C30: the whole feeder core (connection manager, relay, login, GPS, buffer, filter, receiver and talkback loops, statistics,
// component management, all real) between a scripted receiver and scripted servers. mode 0: delivery; mode 1: stop and restart at any moment.
#define FN_STD
#include "fakenet.h"
#include "beastgen.h"
#include <stdio.h>
#include <map>
#include <string>
#include <dirent.h>
extern "C" {
#include "core/network.h"
#include "core/relay.h"
#include "core/recv.h"
#include "core/tb.h"
#include "core/filter.h"
#include "core/buffer.h"
#include "core/login.h"
#include "core/gps.h"
#include "core/input.h"
#include "core/serial.h"
#include "util/component.h"
#include "util/statistics.h"
#include "util/cfgfile.h"
#include "log_stub.h"
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void * (*)(void *), void *);
int __real_pthread_timedjoin_np(pthread_t, void **, const struct timespec *); int __real_pthread_join(pthread_t, void **);
int __real_pthread_cancel(pthread_t);
}
static long mode;
// settings and numbers which are read without a lock by design: not looked at by TSan (a suppression would still write a report, which is a
// cancellation point inside TSan)
#if defined(__SANITIZE_THREAD__)
extern "C" {
void AnnotateIgnoreReadsBegin(const char *, int); void AnnotateIgnoreReadsEnd(const char *, int);
void AnnotateIgnoreWritesBegin(const char *, int); void AnnotateIgnoreWritesEnd(const char *, int);
}
struct Ign { Ign() { AnnotateIgnoreReadsBegin("", 0); AnnotateIgnoreWritesBegin("", 0); } ~Ign() { AnnotateIgnoreWritesEnd("", 0); AnnotateIgnoreReadsEnd("", 0); } };
extern "C" {
void __real_NET_getStatistics(NET_Statistics *); void __wrap_NET_getStatistics(NET_Statistics * s) { Ign i; __real_NET_getStatistics(s); }
void __real_FILTER_getStatistics(FILTER_Statistics *); void __wrap_FILTER_getStatistics(FILTER_Statistics * s) { Ign i; __real_FILTER_getStatistics(s); }
void __real_FILTER_setSynchronizedFilter(bool); void __wrap_FILTER_setSynchronizedFilter(bool b) { Ign i; __real_FILTER_setSynchronizedFilter(b); }
void __real_FILTER_setModeSExtSquitter(bool); void __wrap_FILTER_setModeSExtSquitter(bool b) { Ign i; __real_FILTER_setModeSExtSquitter(b); }
bool __real_FILTER_filter(enum OPENSKY_FRAME_TYPE, uint8_t); bool __wrap_FILTER_filter(enum OPENSKY_FRAME_TYPE t, uint8_t b) { Ign i; return __real_FILTER_filter(t, b); }
}
#endif
static uint64_t cseed; static unsigned round_;
// ---- threads of the components
static __thread bool starting; static std::map<pthread_t, int> joins; // attempts to join
static std::map<pthread_t, const char *> names;
struct Tramp { void * (*fn)(void *); void * arg; int id; uint64_t seed; };
static void * tramp(void * a) { Tramp t = *(Tramp *)a; delete (Tramp *)a; inj_thread(t.id, t.seed); return t.fn(t.arg); }
static const Component * const COMPS[] = { NULL, &NET_comp, &RELAY_comp, &TB_comp, &RECV_comp, &BUF_comp, &STAT_comp };
extern "C" int __wrap_pthread_create(pthread_t * th, const pthread_attr_t * at, void * (*fn)(void *), void * arg)
{
	if (!starting) return __real_pthread_create(th, at, fn, arg);
	int id = 7; for (int i = 1; i < 7; ++i) if ((void *)COMPS[i]->main == (void *)fn) id = i;
	int rc = __real_pthread_create(th, at, tramp, new Tramp{ fn, arg, id, cseed + round_ * 1000 });
	if (!rc) { joins[*th] = 0; names[*th] = id < 7 ? COMPS[id]->description : "?"; }
	return rc;
}
extern "C" int __wrap_pthread_cancel(pthread_t th) { fn::cancelOrder++; return __real_pthread_cancel(th); }
static bool stopping; static uint64_t hardWait = 20;
// a first attempt may fail, as another thread can be in the way; later everything was told to stop
extern "C" int __wrap_pthread_timedjoin_np(pthread_t th, void ** r, const struct timespec * ts)
{
	auto it = joins.find(th);
	if (it == joins.end()) return __real_pthread_timedjoin_np(th, r, ts);
	timespec t; clock_gettime(CLOCK_REALTIME, &t);
	if (++it->second == 1) { t.tv_nsec += 60000000; if (t.tv_nsec >= 1000000000) { ++t.tv_sec; t.tv_nsec -= 1000000000; } } else t.tv_sec += hardWait;
	int rc = __real_pthread_timedjoin_np(th, r, &t);
	if (!rc) { fn::cancelOrder.load(); joins.erase(it); }
	else if (it->second > 1) vf_fail("stop-hang", "thread %s does not end within %u s after all were told to", names[th], (unsigned)hardWait);
	else vf_count("deferred_stops", 1);
	return rc;
}
extern "C" int __wrap_pthread_join(pthread_t th, void ** r)
{
	auto it = joins.find(th); if (it == joins.end()) return __real_pthread_join(th, r);
	timespec t; clock_gettime(CLOCK_REALTIME, &t); t.tv_sec += hardWait;
	int rc = __real_pthread_timedjoin_np(th, r, &t);
	if (rc) vf_fail("stop-hang", "thread %s does not end within %u s after all were told to", names[th], (unsigned)hardWait);
	fn::cancelOrder.load(); joins.erase(it); vf_count("joins", 1); return 0;
}
// ---- receiver
static std::atomic<long> nGen, committed, target; static std::atomic<bool> moreUntilEnough, enough, inputHang; static std::atomic<unsigned> inputs, inputFails, reconf;
static int inputFailPct, genPauseUs, genBurst; static __thread bool needStatus; static __thread int inConn;
static uint64_t mlatOf(uint64_t k) { return (k << 16) | (k % 3 == 0 ? 0x1a1a : k % 3 == 1 ? 0x001a : 0x1234); }
static Bytes frameOf(uint64_t k)
{
	bool s = k % 4 == 1; Bytes p(s ? 7 : 14); p[0] = k % 2 ? 0x8d : 0x90;
	for (size_t i = 1; i < p.size(); ++i) { p[i] = fn::pat(77, k * 16 + i); if (k % 5 == 0 && i % 3 == 0) p[i] = 0x1a; }
	return beast_frame(s ? '2' : '3', mlatOf(k), k % 7 == 0 ? 0x1a : (uint8_t)k, p);
}
extern "C" {
static bool inputConstruct(void) { return true; }
const struct Component INPUT_comp = { .description = "INPUT", .onConstruct = inputConstruct, .dependencies = { NULL } };
void INPUT_reconfigure(void) { reconf++; }
void INPUT_disconnect(void) { vf_trace("input disconnect"); VF_CHECK(inConn == 1, "input-order", "input disconnected while not connected"); inConn = 0; }
void INPUT_connect(void)
{
	VF_CHECK(inConn == 0, "input-order", "input connected twice");
	if (inputHang) while (inputHang) fn::napC(500);
	fn::napC(inj_rnd() % 300); needStatus = true; inConn = 1; inputs++; vf_trace("input connect");
}
bool INPUT_getFrame(struct OPENSKY_RawFrame * raw, struct OPENSKY_DecodedFrame * d)
{
	committed.store(nGen.load());
	memset(raw, 0xee, sizeof *raw); // the frame is ours
	if (needStatus) { needStatus = false; memset(d, 0, sizeof *d); d->frameType = OPENSKY_FRAME_TYPE_STATUS; d->mlat = 1; raw->rawLen = 2; return true; }
	if ((int)(inj_rnd() % 1000) < inputFailPct) { inputFails++; vf_trace("input fails"); return false; }
	while (nGen >= target && !(moreUntilEnough && !enough)) fn::napC(300);
	pthread_testcancel();
	if (genPauseUs && inj_rnd() % (genBurst + 1) == 0) fn::napC(inj_rnd() % genPauseUs);
	uint64_t k = nGen; Bytes f = frameOf(k);
	memset(d, 0, sizeof *d);
	d->frameType = (OPENSKY_FRAME_TYPE)f[1]; d->mlat = mlatOf(k); d->payloadLen = f[1] == '2' ? 7 : 14; d->payload[0] = k % 2 ? 0x8d : 0x90;
	raw->rawLen = f.size(); memcpy(raw->raw, f.data(), f.size());
	nGen++;
	return true;
}
static std::atomic<uint32_t> serialNo; static std::atomic<unsigned> serialFails; static int serialSlowPct;
enum SERIAL_RETURN SERIAL_getSerial(uint32_t * s)
{
	if (!fn::calm && (int)(inj_rnd() % 100) < serialSlowPct) // asks the server, as dump1090's does
		for (int i = inj_rnd() % 20; i; --i) { fn::napC(inj_rnd() % 300); if (!NET_checkConnected()) { serialFails++; return SERIAL_RETURN_FAIL_NET; } }
	*s = serialNo; return SERIAL_RETURN_SUCCESS;
}
}
// ---- what the server side sees; everything with fn::L held
struct Msg { uint8_t type; long k; uint64_t t0, t1; };
struct CS {
	long base = 0; // frames committed before this connection was there
	bool afterCalm = false;
	int login = 0; bool loggedIn = false; // login messages seen so far
	int st = 0; uint8_t type = 0; Bytes body, raw; uint64_t t0 = 0, lastT = 0; size_t need = 0;
	std::vector<Msg> msgs; unsigned frames = 0, keep = 0, pos = 0;
};
static std::vector<CS> cs; static long lastK, delivered; static bool history, exactPossible; static uint32_t timeoutMs; static int gpsMode; static Bytes userName; static uint32_t devType;
static long resetBase; // frames thrown away by destructing the buffer
static std::atomic<long> seenK; static std::atomic<bool> calmLoggedIn; static std::atomic<unsigned> calmFrames, calmKeep, calmPos; static std::atomic<uint64_t> nAccepted; static unsigned totKeep, totLogins, totPos;
static int lenOf(uint8_t t) { switch (t) { case 65: return 16; case '5': return 4; case '7': return 24; case 67: return 40; case '6': return 0; case '2': return 14; case '3': return 21; default: return -1; } }
static uint32_t be32(const uint8_t * p) { return (uint32_t)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; }
static double bed(const uint8_t * p) { uint64_t v = 0; for (int i = 0; i < 8; ++i) v = v << 8 | p[i]; double d; memcpy(&d, &v, 8); return d; }
static void checkPos(const Bytes & b, int id)
{
	double a = bed(&b[0]), o = bed(&b[8]), h = bed(&b[16]);
	VF_CHECK(o == a + 1000 && h == a * 2, "position", "connection %d: position %g %g %g was never set", id, a, o, h);
}
static void message(CS & c, fn::Conn * cn)
{
	Bytes & b = c.body; int id = cn->id; uint64_t now = vf_now_ns(); long k = -1;
	if (gpsMode == 3 && c.type == '7' && c.login >= 2) { // the position changes all the time: once per connection, at any time after the serial number
		checkPos(b, id); VF_CHECK(c.pos == 0, "position-twice", "connection %d: second position", id);
		++c.pos; ++totPos; if (c.afterCalm) calmPos++;
		c.msgs.push_back(Msg{ c.type, -1, c.t0, now }); return;
	}
	if (c.login < 10) {
		static const uint8_t order[4] = { 65, '5', '7', 67 };
		int step = c.login;
		if (step == 2 && gpsMode != 1) c.login = step = 3;
		if (step == 2 && c.type != '7') { VF_CHECK(false, "login-position", "connection %d: login without the known position (type %u instead)", id, c.type); }
		if (step == 3 && userName.empty()) goto feed;
		VF_CHECK(c.type == order[step], "login-first", "connection %d: message %zu is of type 0x%02x, the login should go on with 0x%02x", id, c.msgs.size(), c.type, order[step]);
		switch (c.type) {
		case 65: VF_CHECK(be32(&b[0]) == devType, "login-device", "connection %d: device type %u", id, be32(&b[0])); break;
		case '5': VF_CHECK(be32(&b[0]) == serialNo, "login-serial", "connection %d: serial %u instead of %u", id, be32(&b[0]), (uint32_t)serialNo); break;
		case '7': checkPos(b, id); break;
		case 67: VF_CHECK(b == userName, "login-user", "connection %d: user name %s", id, vf_hex(b.data(), b.size())); break;
		}
		++c.login;
		if (c.login == (userName.empty() ? (gpsMode == 1 ? 3 : 99) : 4)) c.login = 10;
		// without user name and without position the serial number ends the login
		if (userName.empty() && gpsMode != 1 && c.login == 2) { c.loggedIn = true; c.lastT = now; if (c.afterCalm) calmLoggedIn = true; ++totLogins; }
		if (c.login == 10) { c.loggedIn = true; c.lastT = now; if (c.afterCalm) calmLoggedIn = true; ++totLogins; }
		c.msgs.push_back(Msg{ c.type, -1, c.t0, now });
		return;
	}
feed:
	c.login = 10;
	switch (c.type) {
	case '6': {
		// the waiting starts after the last message was sent; sent means accepted, so it can not start before lastT
		VF_CHECK(c.t0 + 2000000 >= c.lastT + (uint64_t)timeoutMs * 1000000, "keep-alive-early", "connection %d: keep-alive %.1f ms after the last message, the interval is %u ms", id, (c.t0 - c.lastT) / 1e6, timeoutMs);
		++c.keep; ++totKeep; if (c.afterCalm) calmKeep++;
		break; }
	case '7': checkPos(b, id); VF_CHECK(gpsMode == 2 && c.afterCalm && c.pos == 0, "position-unasked", "connection %d: position number %u after the login", id, c.pos + 1); ++c.pos; ++totPos; calmPos++; c.msgs.push_back(Msg{ c.type, -1, c.t0, now }); return;
	case '2': case '3': {
		k = (long)((uint64_t)be32(&b[0]) );
		VF_CHECK(k < nGen, "alien-frame", "connection %d: frame %ld was never received", id, k);
		Bytes e = frameOf(k);
		VF_CHECK(c.raw == e, "damaged-frame", "connection %d: frame %ld is %s instead of %s", id, k, vf_hex(c.raw.data(), c.raw.size()), vf_hex(e.data(), e.size()));
		VF_CHECK(k > lastK, k == lastK ? "duplicate" : "order", "connection %d: frame %ld after frame %ld", id, k, lastK);
		VF_CHECK(k >= resetBase, "old-frame", "connection %d: frame %ld is from before the buffer was destructed", id, k);
		if (!history) VF_CHECK(k >= c.base, "old-frame", "connection %d: frame %ld was buffered before the connection was there (first allowed: %ld), history is disabled", id, k, c.base);
		if (history && exactPossible) VF_CHECK(k == std::max(lastK + 1, resetBase), "lost-frame", "connection %d: frame %ld after frame %ld", id, k, lastK);
		lastK = k; ++delivered; ++c.frames; seenK = k; if (c.afterCalm) calmFrames++;
		break; }
	default: vf_fail("alien-message", "connection %d: message of type 0x%02x after the login", id, c.type);
	}
	c.msgs.push_back(Msg{ c.type, k, c.t0, now }); c.lastT = now;
}
static void accepted(fn::Conn * cn, const uint8_t * p, size_t n)
{
	nAccepted += n;
	if ((size_t)cn->id >= cs.size()) cs.resize(cn->id + 1);
	CS & c = cs[cn->id];
	for (size_t i = 0; i < n; ++i) {
		uint8_t x = p[i];
		switch (c.st) {
		case 0: VF_CHECK(x == 0x1a, "framing", "connection %d: message starts with 0x%02x after %zu messages", cn->id, x, c.msgs.size()); c.st = 1; c.t0 = vf_now_ns(); c.raw.clear(); c.body.clear(); c.raw.push_back(x); break;
		case 1: VF_CHECK(lenOf(x) >= 0, "framing", "connection %d: message of type 0x%02x after %zu messages", cn->id, x, c.msgs.size()); c.type = x; c.raw.push_back(x); c.need = lenOf(x); c.st = 2; break;
		case 2: c.raw.push_back(x); if (x == 0x1a) c.st = 3; else c.body.push_back(x); break;
		case 3: VF_CHECK(x == 0x1a, "framing", "connection %d: message of type 0x%02x cut after %zu bytes by type 0x%02x", cn->id, c.type, c.body.size(), x); c.raw.push_back(x); c.body.push_back(x); c.st = 2; break;
		}
		if (c.st == 2 && c.body.size() == c.need) { message(c, cn); c.st = 0; }
	}
}
// ---- scripted servers
static int budget, refusePct, hangPct, stallPct;
static fn::Plan mkplan(unsigned)
{
	fn::Lk l; fn::Plan p; p.patternTx = false; p.partial = inj_rnd() % 3 ? 20 : 0; p.slow = inj_rnd() % 6 == 0;
	if (!fn::calm && (int)(inj_rnd() % 100) < hangPct) p.hangUs = 200 + inj_rnd() % 60000;
	if (!fn::calm && (int)(inj_rnd() % 100) < refusePct) { p.accept = false; return p; }
	if (!fn::calm && budget-- <= 0 && mode == 0) fn::calm = true;
	for (unsigned i = inj_rnd() % 6; i; --i) { uint8_t m = inj_rnd() & 3, x = inj_rnd(); const uint8_t q[6] = { 0, TB_PACKET_TYPE_FILTER, 0, 6, m, x }; p.tx.insert(p.tx.end(), q, q + 6); }
	if (!fn::calm) {
		if (!p.tx.empty() && inj_rnd() % 2) p.tx.resize(p.tx.size() - inj_rnd() % 6);
		p.kill = (fn::Kill)(1 + inj_rnd() % 3);
		if (inj_rnd() % 2) p.killBytes = inj_rnd() % (inj_rnd() % 3 ? 120 : 1500);
		p.killUs = inj_rnd() % 4000 + (p.killBytes >= 0 ? 20000 : 0);
		if (inj_rnd() % 5 == 0) p.failSend = inj_rnd() % (inj_rnd() % 2 ? 100 : 1000);
		if (inj_rnd() % 8 == 0) p.failRecv = inj_rnd() % 30;
		if ((int)(inj_rnd() % 100) < stallPct) { p.stallAfter = inj_rnd() % 300; p.slow = true; }
	}
	return p;
}
// called by the real NETC_connect of fakenet through this hook when a connection is handed over
static void handedOver(fn::Conn * c) { if ((size_t)c->id >= cs.size()) cs.resize(c->id + 1); cs[c->id].base = committed; cs[c->id].afterCalm = fn::calm; }
// ---- position source
static std::atomic<bool> gpsStop;
static void * gpsT(void *) { inj_thread(8, cseed); double i = 1; while (!gpsStop) { GPS_setPositionWithFix(i, i + 1000, i * 2); i += 0.5; usleep(inj_rnd() % 400); } return NULL; }

// position set, taken away and given again at any time; paused while the network is stopped
static std::atomic<bool> gpsPause, gpsIdle;
static void * gpsRandT(void *)
{
	inj_thread(8, cseed); double i = 1;
	while (!gpsStop) {
		if (gpsPause) { gpsIdle = true; usleep(50); continue; }
		gpsIdle = false; if (gpsPause) continue;
		switch (inj_rnd() % 6) {
		case 0: GPS_setPositionWithFix(i, i + 1000, i * 2); break;
		case 1: GPS_setPosition(i, i + 1000, i * 2); break;
		case 2: GPS_setHasFix(true); break;
		case 3: GPS_setHasFix(false); break;
		default: GPS_reset(); break;
		}
		i += 0.5; usleep(inj_rnd() % (inj_rnd() % 4 ? 300 : 3000));
	}
	gpsIdle = true;
	return NULL;
}

static void * optvar(const Component * c, const char * n) { for (size_t i = 0; i < c->config->n_opt; ++i) if (!strcmp(c->config->options[i].name, n)) return c->config->options[i].var; vf_fail("harness", "no option %s", n); }
static void setI(const Component * c, const char * n, uint32_t v) { *(uint32_t *)optvar(c, n) = v; }
static void setB(const Component * c, const char * n, bool v) { *(bool *)optvar(c, n) = v; }
static std::atomic<bool> badLog;
static void hook(int lv, const char * pfx, const char * msg) { if (pfx && !strcmp(pfx, "COMP") && lv >= 3 && strstr(msg, "could not be stopped")) vf_fail("not-stopped", "%s", msg); }
static unsigned threadCount() { unsigned n = 0; DIR * d = opendir("/proc/self/task"); while (dirent * e = readdir(d)) if (e->d_name[0] != '.') ++n; closedir(d); return n; }
static unsigned fdCount() { unsigned n = 0; DIR * d = opendir("/proc/self/fd"); while (dirent * e = readdir(d)) if (e->d_name[0] != '.') ++n; closedir(d); return n - 1; }

void vf_init(void)
{
	mode = vf_opt("mode", 0); log_stub_trace = 1; log_stub_hook = hook;
	int nul = open("/dev/null", O_WRONLY | O_CLOEXEC); fflush(stdout); dup2(nul, 1); close(nul);
	devType = 4; LOGIN_setDeviceType((OPENSKY_DEVICE_TYPE)devType);
	COMP_setSilent(true);
	COMP_register(&STAT_comp); COMP_register(&RELAY_comp); COMP_register(&TB_comp); COMP_register(&RECV_comp);
	COMP_fixup();
	CFG_loadDefaults();
	if (fn::nullfd < 0) fn::nullfd = open("/dev/null", O_RDWR | O_CLOEXEC);
	fn::netId = 1; fn::onAccepted = accepted; fn::onConnected = handedOver; fn::plan = mkplan;
}
static void startAll() { gpsPause = false; fn::restarted(); starting = true; bool ok = COMP_startAll(); starting = false; VF_CHECK(ok, "start", "the feeder does not start (round %u)", round_); }
static void stopAllComps(const char * when)
{
	gpsPause = true; for (uint64_t w = vf_now_ns(); gpsMode == 3 && !gpsIdle && vf_now_ns() - w < 30000000;) usleep(50); // or it is blocked in sending
	uint64_t t0 = vf_now_ns();
	vf_trace("stopping"); COMP_stopAll(); vf_trace("stopped");
	vf_max("stop_ms_max", (vf_now_ns() - t0) / 1000000);
	VF_CHECK(joins.empty(), "thread-left", "%zu threads (%s) left after stopping (%s)", joins.size(), names[joins.begin()->first], when);
	VF_CHECK(fn::openCount() == 0, "descriptor-left", "%u connections still open after stopping (%s)", fn::openCount(), when);
	vf_count("stops", 1);
}
static unsigned queued() { BUFFER_Statistics b; BUFFER_getStatistics(&b); return b.queueSize; }
#define WAIT(cond, what) do { uint64_t w0 = vf_now_ns(); while (!(cond)) { usleep(200); vf_tick(); if (vf_now_ns() - w0 > 40ull * 1000000000) { BUFFER_Statistics bs_; BUFFER_getStatistics(&bs_); FILTER_Statistics fs_; FILTER_getStatistics(&fs_); fn::Lk l; vf_fail("no-progress", "%s (queue %u, filtered %u, unsync %u, committed %ld): %ld generated, last delivered %ld, attempts %u, connections %zu, calm %d, calm connection logged in %d, frames on it %u", what, (unsigned)bs_.queueSize, (unsigned)fs_.filtered, (unsigned)fs_.unsynchronized, (long)committed, (long)nGen, lastK, (unsigned)fn::attempts, fn::conns.size(), (int)fn::calm, (int)calmLoggedIn, (unsigned)calmFrames); } } } while (0)

void vf_case(uint64_t)
{
	cseed = vf_rnd(); inj_hash = 0; inj_events = 0; inj_level = vf_chance(20) ? 0 : vf_range(1, 60); inj_max_us = vf_range(1, 150);
	history = vf_chance(60); bool big = vf_chance(60); timeoutMs = vf_chance(80) ? vf_range(8, 40) : vf_range(41, 200);
	{ // configuration
		setI(&BUF_comp, "StaticBacklog", big ? 3000 : vf_range(2, 40)); setI(&BUF_comp, "DynamicBacklog", vf_range(0, 20)); setI(&BUF_comp, "DynamicIncrements", vf_below(6));
		setB(&BUF_comp, "History", history); setB(&BUF_comp, "GC", history && vf_chance(40)); setI(&BUF_comp, "GCInterval", 1); setI(&BUF_comp, "GCLevel", vf_range(1, 4));
		setI(&RELAY_comp, "Timeout", timeoutMs); setB(&STAT_comp, "Enabled", vf_chance(30)); setI(&STAT_comp, "Interval", 1);
	}
	exactPossible = big;
	gpsMode = vf_below(4); gpsPause = true; gpsIdle = false; GPS_reset(); GPS_resetNeedFlag(); if (gpsMode == 1) GPS_setPositionWithFix(0.5, 1000.5, 1); else if (gpsMode == 2 && vf_chance(50)) GPS_setPosition(3, 1003, 6); else if (gpsMode == 0 && vf_chance(30)) GPS_setHasFix(true);
	serialNo = vf_chance(30) ? 0x1a1a1a1a : (uint32_t)vf_rnd(); serialFails = 0; serialSlowPct = vf_chance(30) ? vf_below(60) : 0;
	userName.clear(); if (vf_chance(50)) { std::string u; for (int i = vf_range(1, 40); i; --i) u += vf_chance(15) ? '\x1a' : (char)vf_range(33, 126); LOGIN_setUsername(u.c_str()); userName.assign(u.begin(), u.end()); userName.resize(40); } else LOGIN_setUsername(NULL);
	nGen = committed = 0; enough = false; moreUntilEnough = false; inputHang = false; inputs = inputFails = reconf = 0; inputFailPct = vf_chance(40) ? vf_below(60) : 0;
	genPauseUs = vf_chance(25) ? 0 : vf_range(1, 3000); genBurst = vf_below(20);
	long N = vf_chance(10) ? vf_below(3) : vf_range(5, 250); target = N;
	cs.clear(); lastK = -1; delivered = 0; resetBase = 0; seenK = -1; calmLoggedIn = false; calmFrames = calmKeep = calmPos = 0; nAccepted = 0; totKeep = totLogins = totPos = 0; badLog = false;
	budget = vf_range(0, 6); refusePct = vf_chance(40) ? vf_below(50) : 0; hangPct = mode == 1 && vf_chance(50) ? vf_below(60) : 0; stallPct = vf_chance(30) ? vf_below(60) : 0;
	unsigned rounds = mode == 1 ? vf_range(2, 6) : 1; pthread_t gps; gpsStop = false; round_ = 0;
	unsigned fd0 = fdCount();
	if (gpsMode == 1 || gpsMode == 3) { starting = false; __real_pthread_create(&gps, NULL, gpsMode == 1 ? gpsT : gpsRandT, NULL); }
	FILTER_setSynchronizedFilter(true); FILTER_setModeSExtSquitter(true);
	VF_CHECK(COMP_initAll(), "init", "initialisation failed");
	FILTER_setModeSExtSquitter(vf_chance(50));
	for (round_ = 0; round_ < rounds; ++round_) {
		bool last = round_ + 1 == rounds;
		if (mode == 1 && !last) {
			inputHang = vf_chance(15);
			budget = 1000; startAll();
			uint64_t acc0 = nAccepted; unsigned at0 = fn::attempts; long g0 = nGen;
			uint64_t lim = vf_below(3) ? vf_range(0, 6000) : vf_below(60000), t0 = vf_now_ns(); int trig = vf_below(4); uint64_t cnt = trig == 1 ? vf_range(1, 4) : trig == 2 ? vf_below(vf_chance(70) ? 120 : 3000) : vf_below(60);
			while ((vf_now_ns() - t0) / 1000 < lim) { // stop at some moment, or when something specific happened
				if (trig == 1 && fn::attempts - at0 >= cnt) break;
				if (trig == 2 && nAccepted - acc0 > cnt) break;
				if (trig == 3 && nGen - g0 > (long)cnt) break;
				usleep(vf_below(50));
			}
			stopAllComps("in the middle");
			if (nGen >= target) target = nGen + vf_below(40);
			if (vf_chance(25)) { // as from a fresh start
				COMP_destructAll(); { fn::Lk l; resetBase = nGen; } VF_CHECK(COMP_initAll(), "init", "initialisation failed after restart"); FILTER_setModeSExtSquitter(vf_chance(50)); vf_count("reinitialisations", 1);
			}
			inputHang = false;
			continue;
		}
		if (mode == 1) { fn::Lk l; fn::calm = true; }
		startAll();
		WAIT(fn::calm, "waiting for the calm phase");
		bool kill = !history || vf_chance(50);
		if (mode == 0 && kill) { fn::Lk l; for (fn::Conn * c : fn::conns) if (!cs[c->id].afterCalm) c->killNow = true; }
		if (history) { if (mode == 1 && nGen >= target) target = nGen + 5; moreUntilEnough = false; }
		else { moreUntilEnough = true; if (mode == 0 || true) target = 0; WAIT(calmFrames >= 3, "waiting for new frames on a stable connection"); enough = true; usleep(2000); }
		if (history) WAIT(nGen >= target, "waiting for the receiver");
		// no more frames: the last one has to arrive
		if (big) WAIT(seenK >= nGen - 1 || resetBase >= nGen, "waiting for the last frame");
		else WAIT(queued() == 0, "waiting for an empty buffer"); // the last one may be the one discarded
		if (gpsMode == 2 && calmLoggedIn && vf_chance(80)) { GPS_setPosition(8.5, 1008.5, 17); usleep(vf_below(500)); GPS_setHasFix(true); WAIT(calmPos == 1, "waiting for the deferred position"); }
		if (gpsMode == 3 && calmLoggedIn) { gpsPause = true; WAIT(gpsIdle, "waiting for the position source"); GPS_setPositionWithFix(8.5, 1008.5, 17); WAIT(calmPos == 1, "waiting for the position"); if (vf_chance(50)) gpsPause = false; }
		if (calmLoggedIn && vf_chance(mode == 0 ? 40 : 15)) { unsigned k0 = calmKeep; WAIT(calmKeep >= k0 + 2, "waiting for keep-alives on an idle connection"); }
		stopAllComps("at the end");
	}
	gpsStop = true; if (gpsMode == 1 || gpsMode == 3) pthread_join(gps, NULL);
	BUFFER_Statistics bst; BUFFER_getStatistics(&bst); static uint64_t discBefore, prevDisc; prevDisc = discBefore; discBefore = bst.discardedAll; uint64_t disc = bst.discardedAll - prevDisc;
	if (history && mode == 0) VF_CHECK(delivered + (long)disc + (long)bst.queueSize == nGen, "conservation", "%ld frames received, %ld delivered, %ld discarded, %ld left", (long)nGen, delivered, (long)disc, (long)bst.queueSize);
	if (exactPossible && history) VF_CHECK(disc == 0, "discarded", "%llu frames discarded although the buffer holds 3000", (unsigned long long)disc);
	uint64_t gaps = 0; unsigned used = 0, frames = 0;
	for (CS & c : cs) {
		long k = -1; for (Msg & m : c.msgs) if (m.k >= 0) { if (k >= 0) gaps += m.k - k - 1; k = m.k; }
		used += c.loggedIn; frames += c.frames;
	}
	VF_CHECK(gaps <= disc, "lost-frame", "%llu frames missing within connections, only %llu were discarded", (unsigned long long)gaps, (unsigned long long)disc);
	COMP_destructAll();
	for (fn::Conn * c : fn::conns) { // what arrived is what was accepted
		WAIT(c->dead, "waiting for the server to see the end");
		VF_CHECK(c->rx.size() <= c->acc.size() && std::equal(c->rx.begin(), c->rx.end(), c->acc.begin()), "stream", "connection %d: received bytes differ from those sent", c->id);
	}
	vf_count("eval", 1); vf_count("frames_received", nGen); vf_count("frames_delivered", delivered); vf_count("discarded", disc); vf_count("connections", fn::conns.size()); vf_count("logins", totLogins);
	vf_count("keep_alives", totKeep); vf_count("late_positions", totPos); vf_count("losses", (uint64_t)fn::kills); fn::kills = 0; vf_count("sync_events", inj_events); vf_count("input_failures", inputFails); vf_count("serial_failures", serialFails); vf_count("reconfigurations", reconf); vf_count("partial_sends", (uint64_t)fn::partials); fn::partials = 0;
	if (used > 1 || mode == 1) { vf_distinct(inj_hash); if (vf_want_sample()) vf_sample("%s history, %u rounds, %ld frames, %ld delivered, %zu connections, %u logins, %u keep-alives, %llu discarded", history ? "with" : "no", rounds, (long)nGen, delivered, fn::conns.size(), totLogins, totKeep, (unsigned long long)disc); }
	fn::reset();
	VF_CHECK(fdCount() == fd0, "descriptor-left", "%u descriptors before, %u after", fd0, fdCount());
	for (int i = 0; i < 2000 && threadCount() > 1u + (vf_opt("tsan", 0) ? 1 : 0); ++i) usleep(1000); // a joined thread may be visible for a moment
	VF_CHECK(threadCount() <= 1 + (vf_opt("tsan", 0) ? 1 : 0), "thread-left", "%u threads left", threadCount());
}
