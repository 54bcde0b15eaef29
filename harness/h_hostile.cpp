// C02: hostile byte streams from the receiver (-DRX), the GPS unit (-DGPSU) and the server (-DTBK) through the real reading loops under sanitizers;
// afterwards well-formed data must still be handled. With -DFUZZ the stream comes from libFuzzer.
#include <config.h>
#include "beastgen.h"
#include <vector>
#include <string>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <pthread.h>
#include <arpa/inet.h>
#include <sys/stat.h>
#include <stdarg.h>
#include <stdio.h>
#include "vf.h"
#include "log_stub.h"
extern "C" {
#include "core/recv.h"
#include "core/input.h"
#include "core/buffer.h"
#include "core/filter.h"
#include "core/gps.h"
#include "core/tb.h"
#include "core/network.h"
#include "core/openskytypes.h"
#include "core/serial.h"
#include "util/cfgfile.h"
#include "util/component.h"
#include "radarcape/rc-input.h"
#include "trimble/trimble_input.h"
#include "trimble/trimble_recv.h"
#include "radarcape/tb-rshell.h"
#include "dump1090/req-serial.h"
}
typedef std::vector<uint8_t> Bytes;
static std::vector<Bytes> conns; static size_t ci, pos; static bool connected; static int seg; static uint64_t nReads, nBytes, nConns;
static void finish() { pthread_exit(NULL); }
static size_t doRead(uint8_t * b, size_t n, bool zeroAtEnd)
{
	(void)zeroAtEnd; VF_CHECK(connected, "read-unconnected", "reading without a connection"); VF_CHECK(n > 0, "read-empty", "a read of no bytes makes no progress"); ++nReads;
	const Bytes & s = conns[ci - 1]; size_t left = s.size() - pos; if (!left) return 0;
	size_t k = seg == 0 ? 1 : seg == 1 ? n : seg == 2 ? vf_range(1, 3) : vf_range(1, n); if (k > n) k = n; if (k > left) k = left;
	memcpy(b, s.data() + pos, k); pos += k; nBytes += k; return k;
}
static void doConnect() { if (ci == conns.size()) finish(); ++ci; pos = 0; connected = true; ++nConns; }
#ifdef RX
static const bool rx = true;
extern "C" {
void RC_INPUT_register() {} void RC_INPUT_init() {} void RC_INPUT_disconnect() { connected = false; }
void RC_INPUT_connect() { doConnect(); }
size_t RC_INPUT_write(uint8_t * b, size_t n) { uint8_t s = 0; for (size_t i = 0; i < n; ++i) s ^= b[i]; if (s == 0xee) abort(); if (ci < conns.size() && vf_chance(3)) { --ci; return vf_below(n); } return n; }
size_t RC_INPUT_read(uint8_t * b, size_t n) { return doRead(b, n, true); }
}
static void * loop(void *) { RECV_comp.main(); return NULL; }
static Bytes good(unsigned k) { Bytes b = beast_frame('3', 0xabcdef000000ull + k, 7, Bytes{ 0x8d, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13 }); return b; }
static Bytes grain()
{
	switch (vf_below(8)) {
	case 0: case 1: case 2: { static const uint8_t T[] = { '1', '2', '3', '4' }; uint8_t t = T[vf_below(4)]; return beast_frame(t, vf_rnd() & 0xffffffffffffull, vf_rnd(), gen_bytes(beast_plen(t), vf_below(100))); }
	case 3: { Bytes b = { 0x1a, (uint8_t)(vf_chance(60) ? '0' + vf_below(10) : vf_rnd()) }; app(b, gen_bytes(vf_below(40), vf_below(100))); return b; }
	case 4: return Bytes(vf_range(1, 300), 0x1a);
	case 5: return gen_bytes(vf_range(1, 600), vf_below(100));
	case 6: { Bytes b; for (int i = vf_range(1, 60); i; --i) { b.push_back(0x1a); b.push_back(vf_chance(80) ? '1' + vf_below(6) : vf_rnd()); } return b; }
	default: { Bytes b = good(vf_rnd() & 0xff); b.resize(vf_below(b.size())); return b; }
	}
}
static void prepare()
{
	Bytes r(60, 0); for (unsigned k = 0; k < 3; ++k) { app(r, good(0x100 + k)); r.push_back(0); } if (vf_chance(50)) app(conns.back(), r); else conns.push_back(r);
	CFG_loadDefaults(); CFG_setBoolean("FILTER", "SyncFilter", false); CFG_setBoolean("FILTER", "ModeSExtSquitterOnly", vf_chance(50)); CFG_setInteger("BUFFER", "StaticBacklog", vf_chance(50) ? 8 : 300); CFG_setInteger("BUFFER", "DynamicIncrements", 0);
	FILTER_comp.onConstruct(); VF_CHECK(BUF_comp.onConstruct(), "harness", "construct"); FILTER_comp.onReset(); BUF_comp.onReset(); INPUT_comp.onReset();
	if (INPUT_comp.onConstruct) INPUT_comp.onConstruct();
}
static void judge()
{
	unsigned seen = 0; uint64_t n = 0, sum = 0; const OPENSKY_RawFrame * f;
	while ((f = BUF_getFrameTimeout(0))) {
		VF_CHECK(f->rawLen >= 2 && f->rawLen <= sizeof f->raw, "frame", "frame of %zu bytes", f->rawLen); for (size_t i = 0; i < f->rawLen; ++i) sum += f->raw[i];
		VF_CHECK(f->raw[0] == 0x1a && (f->raw[1] == '2' || f->raw[1] == '3'), "frame", "frame starts with %s", vf_hex(f->raw, 2)); if (sum == ~0ull) abort();
		for (unsigned k = 0; k < 3; ++k) { Bytes g = good(0x100 + k); if (g.size() == f->rawLen && !memcmp(g.data(), f->raw, f->rawLen)) ++seen; } ++n; BUF_releaseFrame(f);
	}
	BUF_comp.onDestruct(); VF_CHECK(seen >= 2, "no-recovery", "only %u of 3 frames after the garbage arrive", seen); vf_count("frames", n);
}
#endif
#ifdef GPSU
static const bool rx = false;
static unsigned sentPos; static uint64_t sink;
extern "C" {
void TRIMBLE_INPUT_register() {} void TRIMBLE_INPUT_init() {} void TRIMBLE_INPUT_disconnect() { connected = false; }
void TRIMBLE_INPUT_connect() { doConnect(); }
size_t TRIMBLE_INPUT_write(const uint8_t * b, size_t n) { for (size_t i = 0; i < n; ++i) sink += b[i]; if (sink == ~0ull) abort(); if (ci < conns.size() && vf_chance(3)) { --ci; return vf_below(n); } return n; }
size_t TRIMBLE_INPUT_read(uint8_t * b, size_t n) { return doRead(b, n, true); }
bool NET_send(const void * b, size_t n) { for (size_t i = 0; i < n; ++i) sink += ((const uint8_t *)b)[i]; if (sink == ~0ull) abort(); ++sentPos; return true; }
extern const struct Component NET_comp = { };
}
static void * loop(void *) { TRIMBLE_comp.main(); return NULL; }
static Bytes pack(const Bytes & p) { Bytes w = { 0x10 }; for (uint8_t x : p) { w.push_back(x); if (x == 0x10 && w.size() > 2) w.push_back(x); } w.push_back(0x10); w.push_back(3); return w; }
static Bytes good(unsigned) { Bytes p(69, 0x40); p[0] = 0x8f; p[1] = 0xac; uint8_t * q = &p[1]; q[1] = 7; q[2] = q[8] = q[9] = q[10] = q[11] = q[12] = 0; return pack(p); }
static Bytes grain()
{
	switch (vf_below(8)) {
	case 0: case 1: { Bytes p = gen_bytes(vf_chance(60) ? 69 : vf_chance(50) ? 17 + vf_below(3) : vf_range(1, 200), vf_below(60)); p[0] = vf_chance(80) ? 0x8f : p[0]; if (p[0] == 0x10 || p[0] == 3) p[0] = 1; if (p.size() > 1 && vf_chance(85)) p[1] = vf_chance(60) ? 0xac : 0xab; for (auto & x : p) if (vf_chance(5)) x = 0x10; return pack(p); }
	case 2: { Bytes b = good(0); for (int i = vf_below(5); i; --i) b[2 + vf_below(b.size() - 2)] = vf_rnd(); return b; }
	case 3: return Bytes(vf_range(1, 300), 0x10);
	case 4: return gen_bytes(vf_range(1, 600), 20);
	case 5: { Bytes b; for (int i = vf_range(1, 80); i; --i) { b.push_back(0x10); b.push_back(vf_chance(30) ? 3 : vf_chance(50) ? 0x10 : vf_rnd()); } return b; }
	case 6: { Bytes b = { 0x10, 0x8f }; app(b, Bytes(vf_range(1, 700), vf_rnd())); return b; }
	default: { Bytes b = good(0); b.resize(vf_below(b.size())); return b; }
	}
}
static void prepare() { Bytes r; for (int k = 0; k < 3; ++k) app(r, good(k)); conns.push_back(r); GPS_reset(); GPS_resetNeedFlag(); sentPos = 0; if (TRIMBLE_comp.onConstruct) TRIMBLE_comp.onConstruct(); if (vf_chance(50)) GPS_sendPosition(); }
static void judge() { sentPos = 0; bool need = GPS_sendPosition(); (void)need; VF_CHECK(sentPos == 1, "no-recovery", "the status after the garbage did not publish a position"); GPS_resetNeedFlag(); }
#endif
#ifdef TBK
static const bool rx = false;
static uint64_t sink, nProg, nReconf; static bool linkUp; static unsigned failsNow;
extern "C" {
void NET_waitConnected() { doConnect(); }
ssize_t NET_receive(uint8_t * b, size_t n) { size_t k = doRead(b, n, false); if (!k) { connected = false; return vf_chance(50) ? 0 : -1; } return k; }
bool NET_send(const void *, size_t) { return false; } bool NET_checkConnected() { return linkUp; } void NET_forceDisconnect() { linkUp = false; }
extern const struct Component NET_comp = { };
void INPUT_reconfigure() { ++nReconf; }
bool PROC_forkAndExec(char * const argv[]) { ++nProg; for (int i = 0; argv[i]; ++i) sink += strlen(argv[i]); VF_CHECK(!strcmp(argv[0], "/usr/bin/rcc") && strlen(argv[4]) < 22, "program", "program %s %s", argv[0], argv[4]); return vf_chance(80); }
}
static void * loop(void *) { TB_comp.main(); return NULL; }
static Bytes pkt(unsigned t, unsigned l, const Bytes & p) { Bytes b = { (uint8_t)(t >> 8), (uint8_t)t, (uint8_t)(l >> 8), (uint8_t)l }; app(b, p); return b; }
static Bytes good(unsigned v) { return pkt(4, 6, Bytes{ 3, (uint8_t)v }); }
static Bytes grain()
{
	static const unsigned L[] = { 0, 2, 4, 6, 6, 1, 8, 124 };
	switch (vf_below(8)) {
	case 0: case 1: case 2: { unsigned t = vf_below(8), l = vf_chance(70) ? (t == 0 ? 6 : t == 4 ? 2 : t == 5 ? 4 : 0) : L[vf_below(8)]; return pkt(t, 4 + l, gen_bytes(l, 10)); }
	case 3: { unsigned l = vf_chance(50) ? 120 + vf_below(20) : vf_below(140); return pkt(vf_chance(50) ? vf_below(8) : vf_rnd() & 0xffff, l, gen_bytes(l > 4 ? l - 4 : 0, 10)); }
	case 4: return pkt(vf_rnd() & 0xffff, vf_rnd() & 0xffff, gen_bytes(vf_below(300), 10));
	case 5: return gen_bytes(vf_range(1, 600), 10);
	case 6: { static const unsigned E[] = { 0, 1, 2, 3, 4, 127, 128, 129, 130, 255, 256, 0x8000, 0xffff }; return pkt(vf_below(6), E[vf_below(13)], gen_bytes(vf_below(130), 0)); }
	default: return Bytes(vf_range(1, 200), vf_chance(50) ? 0 : 0xff);
	}
}
static unsigned wantF;
static void prepare()
{
	static bool once; if (!once) { once = true; TB_register(TB_PACKET_TYPE_REVERSE_SHELL, 6, &TB_reverseShell); SERIAL_comp.onRegister(); }
	wantF = vf_below(4); conns.push_back(good(wantF)); CFG_loadDefaults(); FILTER_comp.onConstruct(); linkUp = true;
}
static void judge() { const FILTER_Configuration * c = FILTER_getConfiguration(); VF_CHECK(c->sync == !!(wantF & 1) && c->extSquitter == !!(wantF & 2), "no-recovery", "the filter command after the garbage had no effect"); uint32_t s; if (SERIAL_getSerial(&s) == SERIAL_RETURN_SUCCESS) { sink += s; vf_count("serials", 1); } vf_count("programs", nProg); vf_count("reconfigurations", nReconf); nProg = nReconf = 0; }
#endif
static void mutate(Bytes & b)
{
	for (int m = vf_below(6); m && b.size(); --m) {
		size_t i = vf_below(b.size()), n = vf_range(1, std::min<size_t>(40, b.size() - i));
		switch (vf_below(6)) {
		case 0: b[i] ^= 1 << vf_below(8); break;
		case 1: b[i] = vf_rnd(); break;
		case 2: b.erase(b.begin() + i, b.begin() + i + n); break;
		case 3: { Bytes c(b.begin() + i, b.begin() + i + n); b.insert(b.begin() + vf_below(b.size()), c.begin(), c.end()); break; }
		case 4: b.insert(b.begin() + i, (uint8_t)(vf_chance(50) ? 0x1a : 0x10)); break;
		case 5: b.resize(i); break;
		}
	}
}
static void runAll()
{
	ci = pos = 0; connected = false; prepare();
	pthread_t t; pthread_create(&t, NULL, loop, NULL); pthread_join(t, NULL); judge();
}
#ifdef FUZZ
extern "C" int LLVMFuzzerInitialize(int *, char ***) {
#else
void vf_init() {
#endif
	log_stub_trace = 0;
#ifdef RX
	CFG_registerSection(BUF_comp.config); CFG_registerSection(FILTER_comp.config);
#endif
#ifdef TBK
	CFG_registerSection(FILTER_comp.config); CFG_registerSection(SERIAL_comp.config); mkdir("conf.d", 0755);
#endif
#ifdef FUZZ
	return 0; }
static vf_rng frng;
extern "C" {
// the driver's runtime is not linked here
uint64_t vf_rng_next(struct vf_rng * r) { uint64_t z = (r->s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
uint64_t vf_rnd() { return vf_rng_next(&frng); }
uint64_t vf_below(uint64_t n) { return n ? vf_rnd() % n : 0; }
int64_t vf_range(int64_t a, int64_t b) { return a + (int64_t)vf_below(b - a + 1); }
bool vf_chance(unsigned p) { return vf_below(100) < p; }
void vf_count(const char *, uint64_t) {}
void vf_trace(const char *, ...) {}
void vf_fail(const char * key, const char * fmt, ...) { va_list ap; va_start(ap, fmt); fprintf(stderr, "VFFAIL %s ", key); vfprintf(stderr, fmt, ap); fprintf(stderr, "\n"); va_end(ap); abort(); }
const char * vf_hex(const void *, size_t) { return ""; }
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t * d, size_t n)
{
	if (n < 2) return 0; frng.s = d[0] * 0x1234567ull; seg = d[1] & 3; conns.assign(1, Bytes(d + 2, d + n)); runAll(); return 0;
}
#else
}
void vf_case(uint64_t)
{
	conns.clear(); uint64_t h = rx; for (int c = vf_range(1, 3); c; --c) { Bytes b; int n = vf_range(1, vf_chance(80) ? 12 : 60); for (; n; --n) app(b, vf_chance(85) ? grain() : good(vf_below(256))); mutate(b); h = vf_hash(b.data(), b.size(), h); conns.push_back(b); }
	seg = vf_below(4); nReads = nBytes = nConns = 0; size_t len = conns[0].size(); runAll();
	vf_count("eval", 1); vf_count("bytes", nBytes); vf_count("reads", nReads); vf_count("connections", nConns); vf_distinct(h); if (vf_want_sample()) vf_sample("%lu connections, first with %zu bytes, %lu bytes in %lu reads (segmentation %d)", (unsigned long)nConns, len, (unsigned long)nBytes, (unsigned long)nReads, seg);
}
#endif
