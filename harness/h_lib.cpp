// C22, C23 (and C18): the two libraries. -DGPLIB selects the generic one. mode 0: API against a model, the network stubbed (-DSTUBNET);
// mode 1: application thread, all feeder threads, scripted servers.
#ifndef STUBNET
#define FN_STD
#include "fakenet.h"
#else
#include "inject.h"
#include <vector>
#include <atomic>
#include <map>
#include <algorithm>
#endif
#include "beastgen.h"
#include <stdio.h>
#include <string.h>
#include <string>
#include <map>
#include <dirent.h>
#include <fcntl.h>
#include "opensky.hh"
extern "C" {
#include "core/network.h"
#include "core/relay.h"
#include "core/tb.h"
#include "core/filter.h"
#include "core/buffer.h"
#include "core/login.h"
#include "core/gps.h"
#include "core/serial.h"
#include "core/openskytypes.h"
#include "util/component.h"
#include "util/serial_eth.h"
#include "log_stub.h"
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void * (*)(void *), void *);
int __real_pthread_timedjoin_np(pthread_t, void **, const struct timespec *);
int __real_pthread_cancel(pthread_t);
}
#include <setjmp.h>
#if defined(__SANITIZE_THREAD__)
extern "C" { // settings read without a lock by design
void AnnotateIgnoreReadsBegin(const char *, int); void AnnotateIgnoreReadsEnd(const char *, int);
void AnnotateIgnoreWritesBegin(const char *, int); void AnnotateIgnoreWritesEnd(const char *, int);
}
struct Ign { Ign() { AnnotateIgnoreReadsBegin("", 0); AnnotateIgnoreWritesBegin("", 0); } ~Ign() { AnnotateIgnoreWritesEnd("", 0); AnnotateIgnoreReadsEnd("", 0); } };
extern "C" {
void __real_FILTER_reset(); void __wrap_FILTER_reset() { Ign i; __real_FILTER_reset(); }
void __real_FILTER_setSynchronized(bool); void __wrap_FILTER_setSynchronized(bool b) { Ign i; __real_FILTER_setSynchronized(b); }
void __real_FILTER_setSynchronizedFilter(bool); void __wrap_FILTER_setSynchronizedFilter(bool b) { Ign i; __real_FILTER_setSynchronizedFilter(b); }
void __real_FILTER_setModeSExtSquitter(bool); void __wrap_FILTER_setModeSExtSquitter(bool b) { Ign i; __real_FILTER_setModeSExtSquitter(b); }
bool __real_FILTER_filter(enum OPENSKY_FRAME_TYPE, uint8_t); bool __wrap_FILTER_filter(enum OPENSKY_FRAME_TYPE t, uint8_t b) { Ign i; return __real_FILTER_filter(t, b); }
}
#endif
static uint64_t cseed; static unsigned round_;
#ifndef STUBNET
#endif
// ---- threads of the library
static __thread bool starting; static std::map<pthread_t, int> joins; static std::map<pthread_t, std::string> names;
struct Tramp { void * (*fn)(void *); void * arg; int id; uint64_t seed; };
static void * tramp(void * a) { Tramp t = *(Tramp *)a; delete (Tramp *)a; inj_thread(t.id, t.seed); return t.fn(t.arg); }
static const Component * const COMPS[] = { NULL, &NET_comp, &RELAY_comp, &TB_comp, &BUF_comp };
extern "C" int __wrap_pthread_create(pthread_t * th, const pthread_attr_t * at, void * (*fn)(void *), void * arg)
{
	if (!starting) return __real_pthread_create(th, at, fn, arg);
	int id = 7; for (int i = 1; i < 5; ++i) if ((void *)COMPS[i]->main == (void *)fn) id = i;
	int rc = __real_pthread_create(th, at, tramp, new Tramp{ fn, arg, id, cseed + round_ * 1000 });
	if (!rc) { joins[*th] = 0; names[*th] = id < 7 ? COMPS[id]->description : "?"; }
	return rc;
}
extern "C" int __wrap_pthread_cancel(pthread_t th)
{
#ifndef STUBNET
	fn::cancelOrder++;
#endif
	return __real_pthread_cancel(th);
}
extern "C" int __wrap_pthread_timedjoin_np(pthread_t th, void ** r, const struct timespec * ts)
{
	auto it = joins.find(th);
	if (it == joins.end()) return __real_pthread_timedjoin_np(th, r, ts);
	timespec t; clock_gettime(CLOCK_REALTIME, &t);
	if (++it->second == 1) { t.tv_nsec += 60000000; if (t.tv_nsec >= 1000000000) { ++t.tv_sec; t.tv_nsec -= 1000000000; } } else t.tv_sec += 20;
	int rc = __real_pthread_timedjoin_np(th, r, &t);
	if (!rc) {
#ifndef STUBNET
		fn::cancelOrder.load();
#endif
		joins.erase(it);
	} else if (it->second > 1) vf_fail("stop-hang", "thread %s does not end within 20 s after all were told to", names[th].c_str());
	else vf_count("deferred_stops", 1);
	return rc;
}
static unsigned threadCount() { unsigned n = 0; DIR * d = opendir("/proc/self/task"); while (dirent * e = readdir(d)) if (e->d_name[0] != '.') ++n; closedir(d); return n; }
// ---- serial numbers, fatal records
static SERIAL_RETURN ethResult = SERIAL_RETURN_SUCCESS; static uint32_t serialNo; static std::atomic<bool> wantEmerg; static sigjmp_buf emergJmp; static unsigned emergs;
#ifndef GPLIB
extern "C" enum SERIAL_RETURN SERIAL_ETH_getSerial(uint32_t * s) { if (ethResult == SERIAL_RETURN_SUCCESS && s) *s = serialNo; return ethResult; }
#endif
static void hook(int lv, const char * pfx, const char * msg)
{
	if (lv == 4 && wantEmerg) { wantEmerg = false; ++emergs; siglongjmp(emergJmp, 1); } // the real one ends the process
	if (pfx && !strcmp(pfx, "COMP") && lv >= 3 && strstr(msg, "could not be stopped")) vf_fail("not-stopped", "%s", msg);
}
template <class F> static void expectEmerg(const char * what, F f)
{
	wantEmerg = true;
	if (!sigsetjmp(emergJmp, 0)) { f(); vf_fail("no-refusal", "%s was not refused", what); }
	int o; pthread_setcancelstate(PTHREAD_CANCEL_ENABLE, &o);
	wantEmerg = false; VF_CHECK(joins.empty(), "no-refusal", "%s was refused, but threads were started", what);
}
// ---- API
struct F { uint64_t ts; int8_t level; bool utc; int type; size_t len; Bytes pay; }; // type: as given (library of the radarcape), len: payload
static Bytes msgOf(const F & f)
{
	Bytes m; uint64_t t = f.ts;
#ifdef GPLIB
	uint64_t ns = t % 1000000000, sec = t / 1000000000 % 86400; t = sec * (1ull << 30) + ns;
#endif
	for (int i = 5; i >= 0; --i) m.push_back((t >> (8 * i)) & 0xff);
	m.push_back((uint8_t)f.level); m.insert(m.end(), f.pay.begin(), f.pay.end());
	return m;
}
static Bytes encOf(const F & f) // the frame which has to be seen
{
	Bytes o; o.push_back(0x1a); o.push_back(f.len == 7 ? '2' : '3');
	for (uint8_t x : msgOf(f)) { o.push_back(x); if (x == 0x1a) o.push_back(x); }
	return o;
}
static void submit(const F & f)
{
#ifdef GPLIB
	uint8_t * p = (uint8_t *)malloc(f.pay.size() ? f.pay.size() : 1); if (f.pay.size()) memcpy(p, f.pay.data(), f.pay.size());
	OpenSky::submitFrame(f.ts, f.utc, vf_chance(50), f.level, p, f.len);
	free(p);
#else
	Bytes m = msgOf(f); uint8_t * p = (uint8_t *)malloc(m.size()); memcpy(p, m.data(), m.size());
	OpenSky::output_message(p, (MessageType_T)f.type);
	free(p);
#endif
}
static bool valid(const F & f)
{
#ifdef GPLIB
	return f.utc && (f.len == 7 || f.len == 14);
#else
	return f.type == '2' || f.type == '3';
#endif
}
static F frame(uint64_t k, bool mix)
{
	F f; uint64_t r = vf_rnd(); unsigned esc = vf_chance(40) ? vf_below(90) : 0;
	f.utc = true; f.level = vf_chance(20) ? 0x1a : (int8_t)(r >> 8); f.len = vf_chance(50) ? 7 : 14; f.type = f.len == 7 ? '2' : '3';
#ifdef GPLIB
	f.ts = vf_chance(50) ? (k % 86400) * 1000000000ull + vf_below(1000000000) : k % 86400 * 1000000000ull + 0x1a1a1a;
	if (mix) { f.ts = vf_chance(50) ? vf_rnd() : vf_rnd() % (7ull * 86400 * 1000000000ull); if (vf_chance(20)) f.ts = vf_below(8) * 86400ull * 1000000000ull - vf_below(2);
		if (vf_chance(15)) f.utc = false; if (vf_chance(25)) { static const size_t L[] = { 0, 1, 2, 6, 8, 13, 15, 21, 28, 112 }; f.len = vf_chance(80) ? L[vf_below(10)] : vf_below(300); } }
#else
	f.ts = k << 16 | (vf_rnd() & 0xffff);
	if (mix) { f.ts = vf_rnd() & 0xffffffffffffull; if (vf_chance(20)) f.ts = 0x1a1a1a1a1a1aull & vf_rnd();
		if (vf_chance(25)) { static const int T[] = { 0, 1, 2, 3, 4, '1', '4', '5', '6', 0x37, 0x1a, 255, 65, 'a' }; f.type = vf_chance(80) ? T[vf_below(14)] : (int)vf_below(256); if (f.type == '2') f.len = 7; else if (f.type == '3') f.len = 14; else if (f.type == '1') f.len = 2; else f.len = 14; } }
#endif
	f.pay.resize(f.len); for (auto & x : f.pay) x = vf_below(100) < esc ? 0x1a : vf_rnd();
	if (f.len) { static const uint8_t H[] = { 17 << 3, 18 << 3, 17 << 3 | 5, 18 << 3 | 7, 11 << 3, 0, 0xff, 0x1a }; f.pay[0] = vf_chance(70) ? H[vf_below(8)] : (uint8_t)vf_rnd(); }
	return f;
}
static void * optvar(const Component * c, const char * n) { for (size_t i = 0; i < c->config->n_opt; ++i) if (!strcmp(c->config->options[i].name, n)) return c->config->options[i].var; vf_fail("harness", "no option %s", n); }
// ---- model
static bool configured, running, sync_, fSync = true, fExt = true; static int tstat = 0;
static struct { bool has, fix, need; double la, lo, al; } gps;
static bool passes(const F & f) { if (!sync_ && fSync) return false; unsigned t = f.pay[0] >> 3; return !fExt || t == 17 || t == 18; }
static void enable_() { starting = true; OpenSky::enable(); starting = false; running = true; gps.need = false;
#ifdef GPLIB
	sync_ = true;
#else
	sync_ = tstat != 0;
#endif
}
static void disable_(const char * when)
{
	uint64_t t0 = vf_now_ns(); OpenSky::disable(); running = false; vf_max("stop_ms_max", (vf_now_ns() - t0) / 1000000);
	VF_CHECK(joins.empty(), "thread-left", "%zu threads (%s) left after disabling (%s)", joins.size(), names[joins.begin()->first].c_str(), when);
	vf_count("disables", 1);
}
static uint32_t devType;
static void conf()
{
#ifdef GPLIB
	OpenSky::configure((OPENSKY_DEVICE_TYPE)devType, serialNo);
#else
	OpenSky::configure();
#endif
	configured = true;
}
#ifdef STUBNET
// ---- the network, recorded
static std::atomic<bool> sendOk; static std::vector<Bytes> sent;
static void netMain() { while (true) usleep(100000); }
extern "C" {
const struct Component NET_comp = { .description = "NET", .main = netMain, .dependencies = { NULL } };
void NET_waitConnected() { while (true) usleep(100000); }
bool NET_send(const void * b, size_t n) { if (!sendOk) return false; sent.push_back(Bytes((const uint8_t *)b, (const uint8_t *)b + n)); return true; }
ssize_t NET_receive(uint8_t *, size_t) { return 0; }
void NET_forceDisconnect() {}
bool NET_checkConnected() { return true; }
void NET_getStatistics(struct NET_Statistics * s) { memset(s, 0, sizeof *s); }
}
static unsigned inBuf(std::vector<Bytes> * out) { unsigned n = 0; while (const OPENSKY_RawFrame * f = BUF_getFrameTimeout(0)) { if (out) out->push_back(Bytes(f->raw, f->raw + f->rawLen)); BUF_releaseFrame(f); ++n; if (n > 5000) vf_fail("endless", "frames without end"); } return n; }
static Bytes posMsg() { Bytes o; o.push_back(0x1a); o.push_back('7'); const double d[3] = { gps.la, gps.lo, gps.al }; for (double v : d) { uint64_t u; memcpy(&u, &v, 8); for (int i = 7; i >= 0; --i) { uint8_t x = u >> (8 * i); o.push_back(x); if (x == 0x1a) o.push_back(x); } } return o; }
static void expectSent(const char * what)
{
	std::vector<Bytes> e; if (gps.need && gps.has && gps.fix && sendOk) { e.push_back(posMsg()); gps.need = false; }
	VF_CHECK(sent.size() == e.size(), "position-sends", "%s: %zu messages sent instead of %zu", what, sent.size(), e.size());
	for (size_t i = 0; i < e.size(); ++i) VF_CHECK(sent[i] == e[i], "position", "%s: sent %s instead of %s", what, vf_hex(sent[i].data(), sent[i].size()), vf_hex(e[i].data(), e[i].size()));
	vf_count("positions_sent", sent.size()); sent.clear();
}
static double dbl() { switch (vf_below(5)) { case 0: return vf_range(-1800000, 1800000) / 10000.0; case 1: return 0; case 2: { uint64_t u = 0x1a1a1a1a1a1a1a1aull; double d; memcpy(&d, &u, 8); return d; } case 3: return -90; default: { uint64_t u = vf_rnd(); double d; memcpy(&d, &u, 8); return d == d ? d : 1.5; } } }
#endif
void vf_init(void)
{
	log_stub_trace = 1; log_stub_hook = hook;
	int nul = open("/dev/null", O_WRONLY | O_CLOEXEC); fflush(stdout); dup2(nul, 1); close(nul);
	// one process, one initialisation: the refusals first
	serialNo = 0x1a1a1a; devType = 4;
#ifdef GPLIB
	static const uint32_t D[] = { OPENSKY_DEVICE_TYPE_BOGUS, OPENSKY_DEVICE_TYPE_GRX, OPENSKY_DEVICE_TYPE_FEEDER_HPTOA, 26 }; devType = D[vf_seed() % 4];
	serialNo = (uint32_t)(vf_seed() * 2654435761u) | 0x1a00;
	OpenSky::init();
#else
	static const SERIAL_RETURN R[] = { SERIAL_RETURN_FAIL_PERM }; ethResult = R[0];
	if (vf_seed() % 4 != 3) expectEmerg("initialisation without serial number", [] { OpenSky::init(); });
	else { ethResult = SERIAL_RETURN_SUCCESS; OpenSky::init(); ethResult = SERIAL_RETURN_SUCCESS; configured = true; }
	if (!configured) { // rest of the initialisation which was left (the real process ends there)
		COMP_setSilent(true); COMP_initAll();
		for (SERIAL_RETURN r : R) { ethResult = r; expectEmerg("configuring without serial number", [] { OpenSky::configure(); }); }
		uint32_t s; VF_CHECK(SERIAL_getSerial(&s) == ethResult, "serial", "the result of the hardware address is not passed on");
	}
#endif
	for (int i = 0; i < 3; ++i) { F f = frame(i, false); f.pay[0] = 17 << 3; if (!configured) { sync_ = true; submit(f); } }
	if (!configured) { expectEmerg("enabling before configuring", [] { starting = true; OpenSky::enable(); }); starting = false; OpenSky::disable(); F f = frame(9, false); submit(f); }
	{ BUFFER_Statistics b; BUFFER_getStatistics(&b); VF_CHECK(b.queueSize == 0, "unconfigured-frame", "%u frames accepted although not configured", (unsigned)b.queueSize); }
	sync_ = false;
	ethResult = SERIAL_RETURN_SUCCESS;
	if (!configured) conf();
	uint32_t s = 0; VF_CHECK(SERIAL_getSerial(&s) == SERIAL_RETURN_SUCCESS && s == serialNo, "serial", "serial number %u instead of %u", s, serialNo);
#ifndef STUBNET
	if (fn::nullfd < 0) fn::nullfd = open("/dev/null", O_RDWR | O_CLOEXEC);
	fn::netId = 1;
	void setupNet(); setupNet();
#endif
}
#ifdef STUBNET
void vf_case(uint64_t)
{
	cseed = vf_rnd(); inj_level = 0; std::string hist; unsigned acc = 0, rej = 0; uint64_t h = 0; std::vector<Bytes> got; sent.clear(); sendOk = true;
	if (gps.need && gps.has) { /* as left by the case before */ } unsigned n = vf_range(5, 150);
	for (unsigned i = 0; i < n; ++i) {
		unsigned op = vf_below(100); h = vf_hash(&op, sizeof op, h); bool was = running;
		if (op < 62) {
			F f = frame(i, true); bool e = running && valid(f) && passes(f);
			submit(f); got.clear(); inBuf(&got);
			vf_trace("frame type %d len %zu utc %d ts %llu -> %d", f.type, f.len, f.utc, (unsigned long long)f.ts, e);
			VF_CHECK(got.size() == (e ? 1 : 0), e ? "frame-missing" : "frame-unexpected", "frame of type %d, %zu bytes, first 0x%02x, utc %d: %zu frames in the buffer (running %d, synchronised %d, filters %d %d)", f.type, f.len, f.len ? f.pay[0] : 0, f.utc, got.size(), running, sync_, fSync, fExt);
			if (e) { Bytes x = encOf(f); VF_CHECK(got[0] == x, "frame-content", "frame %s instead of %s", vf_hex(got[0].data(), got[0].size()), vf_hex(x.data(), x.size())); ++acc; h = vf_hash(x.data(), x.size(), h); } else ++rej;
			VF_CHECK(sent.empty(), "alien-send", "submitting a frame sends something itself");
		} else if (op < 74) {
			sendOk = vf_chance(70);
			gps.la = dbl(); gps.lo = dbl(); gps.al = dbl(); gps.has = true;
			vf_trace("position, send ok %d", (int)sendOk);
#ifdef GPLIB
			gps.fix = true;
#endif
			OpenSky::setGpsPosition(gps.la, gps.lo, gps.al); expectSent("position"); vf_count("positions", 1);
		} else if (op < 82) {
			sendOk = vf_chance(70);
#ifdef GPLIB
			gps.fix = false; OpenSky::unsetGpsPosition();
#else
			int s = vf_below(3); tstat = s; sync_ = s != 0; gps.fix = s == 2; vf_trace("time status %d", s);
			OpenSky::setGpsTimeStatus((GpsTimeStatus_t)s);
#endif
			expectSent("status"); vf_count("status_changes", 1);
		} else if (op < 87) { // a login asks for the position
			sendOk = true; bool w = gps.has && gps.fix;
			VF_CHECK(GPS_sendPosition(), "position", "login with position failed");
			VF_CHECK(sent.size() == (w ? 1 : 0), "position-fix", "login: %zu positions sent (position known: %d, fix: %d)", sent.size(), gps.has, gps.fix);
			if (w) { Bytes e = posMsg(); VF_CHECK(sent[0] == e, "position", "login: sent %s instead of %s", vf_hex(sent[0].data(), sent[0].size()), vf_hex(e.data(), e.size())); vf_count("positions_sent", 1); } else gps.need = true;
			sent.clear();
		} else if (op < 92) { // as the server does it
			if (vf_chance(50)) { fSync = vf_chance(50); FILTER_setSynchronizedFilter(fSync); } else { fExt = vf_chance(50); FILTER_setModeSExtSquitter(fExt); }
		} else if (op < 96) {
			if (running) { disable_("case"); } else { OpenSky::disable(); VF_CHECK(joins.empty(), "disable", "disabling twice"); }
			vf_trace("disable");
		} else {
			if (!running) { enable_(); vf_trace("enable"); VF_CHECK(joins.size() >= 3, "enable", "only %zu threads started", joins.size()); vf_count("enables", 1); inBuf(NULL); }
		}
		if (was != running) { unsigned k = inBuf(NULL); VF_CHECK(k == 0, "frame-unexpected", "%u frames out of nothing", k); }
		if (i % 20 == 0) vf_tick();
	}
	vf_count("eval", 1); vf_count("accepted", acc); vf_count("rejected", rej);
	if (acc && rej) { vf_distinct(h); if (vf_want_sample()) vf_sample("%u operations, %u frames accepted, %u without effect", n, acc, rej); }
	if (running && vf_chance(30)) disable_("end");
}
#else
// ---- server side; with fn::L held
enum Exp : uint8_t { NO, YES, MAYBE };
static std::vector<Bytes> enc; static std::vector<Exp> expct; static std::map<Bytes, std::vector<long>> byEnc;
struct CS { int login = 0; bool in = false; bool calm_ = false; int st = 0; uint8_t type = 0; Bytes body, raw; unsigned n = 0, frames = 0, pos = 0, keep = 0; std::vector<long> ks; size_t need = 0; };
static std::vector<CS> cs; static long lastK; static int gpsMode; static std::atomic<bool> calmIn; static std::atomic<unsigned> calmFrames, calmPos, logins, delivered, keeps; static std::atomic<long> seenK;
static int lenOf(uint8_t t) { switch (t) { case 65: return 16; case '5': return 4; case '7': return 24; case '6': return 0; case '2': return 14; case '3': return 21; default: return -1; } }
static uint32_t be32(const uint8_t * p) { return (uint32_t)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; }
static double bed(const uint8_t * p) { uint64_t v = 0; for (int i = 0; i < 8; ++i) v = v << 8 | p[i]; double d; memcpy(&d, &v, 8); return d; }
static void checkPos(const Bytes & b, int id) { double a = bed(&b[0]), o = bed(&b[8]), h = bed(&b[16]); VF_CHECK(o == a + 1000 && h == a * 2, "position", "connection %d: position %g %g %g was never set", id, a, o, h); }
static void message(CS & c, int id)
{
	++c.n;
	if (c.login < 3) {
		static const uint8_t order[3] = { 65, '5', '7' };
		if (!(c.login == 2 && gpsMode != 1)) {
			VF_CHECK(c.type == order[c.login], "login-first", "connection %d: message %u is of type 0x%02x, the login should go on with 0x%02x", id, c.n, c.type, order[c.login]);
			if (c.login == 0) VF_CHECK(be32(&c.body[0]) == devType, "login-device", "connection %d: device type %u instead of %u", id, be32(&c.body[0]), devType);
			else if (c.login == 1) VF_CHECK(be32(&c.body[0]) == serialNo, "login-serial", "connection %d: serial number %u instead of %u", id, be32(&c.body[0]), serialNo);
			else checkPos(c.body, id);
			++c.login;
			if (c.login == (gpsMode == 1 ? 3 : 2)) { c.login = 3; c.in = true; ++logins; if (c.calm_) calmIn = true; }
			return;
		}
	}
	switch (c.type) {
	case '6': ++c.keep; ++keeps; break;
	case '7': checkPos(c.body, id); VF_CHECK(gpsMode == 2 && c.calm_ && c.pos == 0, "position-unasked", "connection %d: position after the login", id); ++c.pos; calmPos++; break;
	case '2': case '3': {
		auto it = byEnc.find(c.raw); VF_CHECK(it != byEnc.end(), "alien-frame", "connection %d: frame %s was never handed over", id, vf_hex(c.raw.data(), c.raw.size()));
		long k = it->second[0]; // contents are unique
		VF_CHECK(expct[k] != NO, "frame-unexpected", "connection %d: frame %ld should have had no effect", id, k);
		VF_CHECK(k > lastK, k == lastK ? "duplicate" : "order", "connection %d: frame %ld after frame %ld", id, k, lastK);
		lastK = k; c.ks.push_back(k); ++delivered; seenK = k; if (c.calm_) calmFrames++;
		break; }
	default: vf_fail("alien-message", "connection %d: message of type 0x%02x after the login", id, c.type);
	}
}
static void accepted(fn::Conn * cn, const uint8_t * p, size_t n)
{
	if ((size_t)cn->id >= cs.size()) cs.resize(cn->id + 1);
	CS & c = cs[cn->id];
	for (size_t i = 0; i < n; ++i) {
		uint8_t x = p[i];
		switch (c.st) {
		case 0: VF_CHECK(x == 0x1a, "framing", "connection %d: message starts with 0x%02x", cn->id, x); c.st = 1; c.raw.clear(); c.body.clear(); c.raw.push_back(x); break;
		case 1: VF_CHECK(lenOf(x) >= 0, "framing", "connection %d: message of type 0x%02x", cn->id, x); c.type = x; c.raw.push_back(x); c.need = lenOf(x); c.st = 2; break;
		case 2: c.raw.push_back(x); if (x == 0x1a) c.st = 3; else c.body.push_back(x); break;
		case 3: VF_CHECK(x == 0x1a, "framing", "connection %d: message of type 0x%02x cut", cn->id, c.type); c.raw.push_back(x); c.body.push_back(x); c.st = 2; break;
		}
		if (c.st == 2 && c.body.size() == c.need) { message(c, cn->id); c.st = 0; }
	}
}
static int budget, refusePct, hangPct; static bool tbCmds;
static fn::Plan mkplan(unsigned)
{
	fn::Lk l; fn::Plan p; p.patternTx = false; p.partial = inj_rnd() % 3 ? 20 : 0; p.slow = inj_rnd() % 6 == 0;
	if (!fn::calm && (int)(inj_rnd() % 100) < hangPct) p.hangUs = 200 + inj_rnd() % 60000;
	if (!fn::calm && (int)(inj_rnd() % 100) < refusePct) { p.accept = false; return p; }
	if (tbCmds) for (unsigned i = inj_rnd() % 4; i; --i) { uint8_t m = inj_rnd() & 3, x = inj_rnd(); const uint8_t q[6] = { 0, TB_PACKET_TYPE_FILTER, 0, 6, m, x }; p.tx.insert(p.tx.end(), q, q + 6); }
	if (!fn::calm) {
		p.kill = (fn::Kill)(1 + inj_rnd() % 3);
		if (inj_rnd() % 2) p.killBytes = inj_rnd() % (inj_rnd() % 3 ? 120 : 1500);
		p.killUs = inj_rnd() % 4000 + (p.killBytes >= 0 ? 20000 : 0);
		if (inj_rnd() % 5 == 0) p.failSend = inj_rnd() % (inj_rnd() % 2 ? 100 : 1000);
		if (inj_rnd() % 8 == 0) p.failRecv = inj_rnd() % 30;
	}
	return p;
}
static void handedOver(fn::Conn * c) { if ((size_t)c->id >= cs.size()) cs.resize(c->id + 1); cs[c->id].calm_ = fn::calm; }
void setupNet() { fn::onAccepted = accepted; fn::onConnected = handedOver; fn::plan = mkplan; }
#define WAIT(cond, what) do { uint64_t w0 = vf_now_ns(); while (!(cond)) { usleep(200); vf_tick(); if (vf_now_ns() - w0 > 40ull * 1000000000) { fn::Lk l; vf_fail("no-progress", "%s: %zu frames, last delivered %ld, attempts %u, connections %zu, calm %d, logged in %d", what, enc.size(), lastK, (unsigned)fn::attempts, fn::conns.size(), (int)fn::calm, (int)calmIn); } } } while (0)
static long give(uint64_t k) // hands over one new frame; returns its number if it must be forwarded
{
	F f = frame(k, false); if (vf_chance(70)) f.pay[0] = vf_chance(50) ? 17 << 3 : 18 << 3 | 4;
	for (int i = 0; i < 3; ++i) f.pay[1 + i] = k >> (8 * i); // unique
	Bytes e = encOf(f);
	bool v = running && (sync_ || tbCmds || !fSync);
	unsigned t = f.pay[0] >> 3; bool ext = t == 17 || t == 18;
	Exp x = !v ? NO : (!running || (!tbCmds && !passes(f))) ? NO : tbCmds ? ((sync_ && ext) ? YES : MAYBE) : YES;
	{ fn::Lk l; VF_CHECK(byEnc[e].empty(), "harness", "frames not unique"); enc.push_back(e); expct.push_back(x); byEnc[e].push_back(enc.size() - 1); }
	submit(f);
	return x == YES ? (long)enc.size() - 1 : -1;
}
void vf_case(uint64_t)
{
	cseed = vf_rnd(); inj_hash = 0; inj_events = 0; inj_level = vf_chance(20) ? 0 : vf_range(1, 60); inj_max_us = vf_range(1, 150);
	*(uint32_t *)optvar(&RELAY_comp, "Timeout") = vf_range(8, 200); *(bool *)optvar(&BUF_comp, "History") = false;
	inj_thread(9, cseed);
	enc.clear(); expct.clear(); byEnc.clear(); cs.clear(); lastK = -1; seenK = -1; calmIn = false; calmFrames = calmPos = logins = delivered = keeps = 0;
	tbCmds = vf_chance(40); fSync = true; FILTER_setSynchronizedFilter(true); fExt = true; FILTER_setModeSExtSquitter(true);
	GPS_reset(); GPS_resetNeedFlag(); memset(&gps, 0, sizeof gps); gpsMode = vf_below(3); double pv = 0.5;
	auto setPos = [&] { pv += 0.5; OpenSky::setGpsPosition(pv, pv + 1000, pv * 2); };
	auto tsync = [&](int s) {
		(void)s;
#ifndef GPLIB
		tstat = s; sync_ = s != 0; OpenSky::setGpsTimeStatus((GpsTimeStatus_t)s);
#endif
	};
	unsigned rounds = vf_range(1, 4); unsigned fails0 = fn::fails; (void)fails0; uint64_t k = 0;
	// without a fix until late in mode 2, never in mode 0, always in mode 1
	tsync(gpsMode == 1 ? 2 : vf_below(2));
	if (gpsMode == 1) setPos();
#ifndef GPLIB
	else if (vf_chance(50)) setPos();
#endif
	for (round_ = 0; round_ < rounds; ++round_) {
		bool last = round_ + 1 == rounds; fn::restarted();
		budget = vf_below(5); refusePct = vf_chance(40) ? vf_below(50) : 0; hangPct = !last && vf_chance(40) ? vf_below(50) : 0;
		if (!last || vf_chance(70)) { fn::Lk l; fn::calm = false; } else { fn::Lk l; fn::calm = true; }
		enable_(); VF_CHECK(joins.size() >= 3, "enable", "only %zu threads started", joins.size()); vf_count("enables", 1);
		uint64_t lim = last ? vf_below(12000) : vf_chance(50) ? vf_below(6000) : vf_below(40000), t0 = vf_now_ns(); unsigned pause = vf_chance(30) ? 0 : vf_below(400);
		while ((vf_now_ns() - t0) / 1000 < lim) { // all kinds of calls
			unsigned op = vf_below(100);
			if (op < 70) give(k++);
			else if (op < 85) { if (gpsMode == 1) setPos(); }
			else if (op < 92) { if (gpsMode == 1) tsync(2); else tsync(vf_below(2)); }
			else usleep(vf_below(pause + 1));
			if (k > 3000) usleep(200);
		}
		vf_tick();
		if (last) {
			{ fn::Lk l; fn::calm = true; for (fn::Conn * c : fn::conns) if (!cs[c->id].calm_) c->killNow = true; }
			tsync(gpsMode == 1 ? 2 : 1);
			WAIT(calmIn, "waiting for a login");
			// history is off: frames are thrown away until the login is through
			WAIT((give(k++), usleep(100), calmFrames >= 1), "waiting for new frames on a stable connection");
			long first = -1, lst = -1; unsigned n = vf_range(1, 100);
			for (unsigned i = 0; i < n; ++i) { long x = give(k++); if (x >= 0) { if (first < 0) first = x; lst = x; } if (vf_chance(20)) usleep(vf_below(300)); }
			if (lst >= 0) { WAIT(seenK >= lst, "waiting for the last frame");
				fn::Lk l; CS & c = cs.back(); std::vector<long> e; for (long i = first; i <= lst; ++i) if (expct[i] == YES) e.push_back(i);
				for (long x : e) VF_CHECK(std::find(c.ks.begin(), c.ks.end(), x) != c.ks.end(), "frame-missing", "frame %ld of %ld to %ld did not arrive although the connection was stable", x, first, lst); vf_count("frames_required", e.size()); }
			if (gpsMode == 2) {
#ifdef GPLIB
				setPos();
#else
				if (vf_chance(50)) { setPos(); tsync(2); } else { tsync(2); setPos(); }
#endif
				WAIT(calmPos == 1, "waiting for the deferred position"); }
		}
		disable_(last ? "end" : "in the middle");
		VF_CHECK(fn::openCount() == 0, "descriptor-left", "%u connections still open after disabling", fn::openCount());
		for (int i = vf_below(5); i; --i) give(k++); // without effect
		OpenSky::disable();
		if (gpsMode == 0 || (gpsMode == 2 && !last)) tsync(vf_below(2));
	}
	for (fn::Conn * c : fn::conns) WAIT(c->dead, "waiting for the server to see the end");
	vf_count("eval", 1); vf_count("frames_submitted", enc.size()); vf_count("frames_delivered", delivered); vf_count("connections", fn::conns.size()); vf_count("logins", logins); vf_count("keep_alives", keeps); vf_count("late_positions", calmPos);
	vf_count("losses", (uint64_t)fn::kills); fn::kills = 0; vf_count("sync_events", inj_events); fn::partials = 0;
	vf_distinct(inj_hash); if (vf_want_sample()) vf_sample("%u rounds, %zu frames handed over, %u delivered, %zu connections, %u logins", rounds, enc.size(), (unsigned)delivered, fn::conns.size(), (unsigned)logins);
	inj_id = 0;
	fn::reset();
	for (int i = 0; i < 2000 && threadCount() > 1u + (vf_opt("tsan", 0) ? 1 : 0); ++i) usleep(1000);
	VF_CHECK(threadCount() <= 1u + (vf_opt("tsan", 0) ? 1 : 0), "thread-left", "%u threads left", threadCount());
}
#endif
