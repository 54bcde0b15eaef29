// C11: login sequence; C12: position reporting (sequential model and concurrent updates).
#include <config.h>
#include <vector>
#include <string>
#include <atomic>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <math.h>
#include <setjmp.h>
#include "inject.h"
#include "log_stub.h"
extern "C" {
#include "util/log.h"
#include "core/login.h"
#include "core/gps.h"
#include "core/serial.h"
#include "core/network.h"
#include "core/openskytypes.h"
}
typedef std::vector<uint8_t> Bytes;
static long mode;
extern "C" const struct Component NET_comp = {};

static std::vector<Bytes> sent; static int failAt; static unsigned calls;
static pthread_mutex_t sm = PTHREAD_MUTEX_INITIALIZER;
static bool mt;
static void mtMessage(const Bytes & m);
extern "C" bool NET_send(const void * b, size_t n)
{
	Bytes m((const uint8_t *)b, (const uint8_t *)b + n);
	inj_point(4);
	pthread_mutex_lock(&sm);
	bool ok = failAt < 0 || (int)calls != failAt;
	++calls;
	sent.push_back(m);
	pthread_mutex_unlock(&sm);
	if (mt) mtMessage(m);
	return ok;
}
static SERIAL_RETURN serRc; static uint32_t serNo; static unsigned serCalls; static bool duringSerial; static double newPos[3];
extern "C" SERIAL_RETURN SERIAL_getSerial(uint32_t * s) { ++serCalls; if (duringSerial) GPS_setPositionWithFix(newPos[0], newPos[1], newPos[2]); if (serRc == SERIAL_RETURN_SUCCESS) *s = serNo; return serRc; }

static void enc(Bytes & o, const void * p, size_t n) { for (size_t i = 0; i < n; ++i) { o.push_back(((const uint8_t *)p)[i]); if (o.back() == 0x1a) o.push_back(0x1a); } }
static void enc32(Bytes & o, uint32_t v) { uint8_t b[4] = { (uint8_t)(v >> 24), (uint8_t)(v >> 16), (uint8_t)(v >> 8), (uint8_t)v }; enc(o, b, 4); }
static void encD(Bytes & o, double d) { uint64_t v; memcpy(&v, &d, 8); enc32(o, v >> 32); enc32(o, v); }
static Bytes posMsg(const double p[3]) { Bytes m = { 0x1a, '7' }; for (int i = 0; i < 3; ++i) encD(m, p[i]); return m; }
static double rndD(void)
{
	uint64_t v; double d;
	switch (vf_below(5)) {
	case 0: v = vf_rnd(); memcpy(&d, &v, 8); return d;
	case 1: v = 0; for (int i = 0; i < 8; ++i) v = v << 8 | (vf_chance(50) ? 0x1a : vf_below(256)); memcpy(&d, &v, 8); return d;
	case 2: return vf_chance(50) ? 0.0 : -0.0;
	default: return (double)vf_range(-180000000, 180000000) / 1e6;
	}
}
static uint32_t rnd32(void) { uint32_t v = vf_rnd(); if (vf_chance(30)) for (int i = 0; i < 4; ++i) if (vf_chance(50)) v = (v & ~(255u << (8 * i))) | 0x1au << (8 * i); return v; }

// model of the position state
static bool has, fix_, need; static double pos[3];
static unsigned long nSent, nDeferred, nAnswered, nFailed;
static std::vector<Bytes> expect;
static void modelAvail(bool ok) { if (need && has && fix_) { expect.push_back(posMsg(pos)); need = !ok; if (ok) ++nAnswered; } }
static void compare(const char * op)
{
	VF_CHECK(sent.size() == expect.size(), "count", "%s: %zu messages instead of %zu (position %d fix %d request pending %d)", op, sent.size(), expect.size(), has, fix_, need);
	for (size_t i = 0; i < sent.size(); ++i)
		VF_CHECK(sent[i] == expect[i], "message", "%s: message %s instead of %s", op, vf_hex(sent[i].data(), sent[i].size()), vf_hex(expect[i].data(), expect[i].size()));
}
static void gpsOp(uint64_t & h)
{
	sent.clear(); expect.clear(); calls = 0;
	bool ok = !vf_chance(20); failAt = ok ? -1 : 0;
	unsigned op = vf_below(12);
	h = h * 31 + op * 2 + ok;
	double p[3] = { rndD(), rndD(), rndD() };
	switch (op) {
	case 0: case 1: case 2: vf_trace("setPositionWithFix ok=%d", ok); memcpy(pos, p, sizeof p); has = fix_ = true; modelAvail(ok); GPS_setPositionWithFix(p[0], p[1], p[2]); compare("setPositionWithFix"); break;
	case 3: case 4: vf_trace("setPosition ok=%d", ok); memcpy(pos, p, sizeof p); has = true; modelAvail(ok); GPS_setPosition(p[0], p[1], p[2]); compare("setPosition"); break;
	case 5: case 6: { bool f = vf_chance(50); vf_trace("setHasFix %d ok=%d", f, ok); fix_ = f; modelAvail(ok); GPS_setHasFix(f); compare("setHasFix"); break; }
	case 7: if (!vf_chance(40)) return; vf_trace("reset"); has = fix_ = false; GPS_reset(); compare("reset"); break;
	case 8: if (!vf_chance(40)) return; vf_trace("resetNeedFlag"); need = false; GPS_resetNeedFlag(); compare("resetNeedFlag"); break;
	default: {
		vf_trace("sendPosition ok=%d", ok);
		bool want = true;
		if (has && fix_) { expect.push_back(posMsg(pos)); want = ok; ++nSent; } else { need = true; ++nDeferred; }
		bool rc = GPS_sendPosition();
		compare("sendPosition");
		VF_CHECK(rc == want, "result", "GPS_sendPosition returned %d instead of %d", rc, want);
		break; }
	}
	if (!ok && !expect.empty()) ++nFailed;
}
static void case_gps(void)
{
	nSent = nDeferred = nAnswered = nFailed = 0;
	uint64_t h = 1;
	if (vf_chance(30)) { has = fix_ = false; GPS_reset(); if (vf_chance(50)) { need = false; GPS_resetNeedFlag(); } }
	unsigned n = vf_range(5, 80);
	for (unsigned i = 0; i < n; ++i) gpsOp(h);
	vf_count("eval", 1); vf_count("sent", nSent); vf_count("deferred", nDeferred); vf_count("answered", nAnswered); vf_count("failed_sends", nFailed);
	if (nAnswered && nSent) { vf_distinct(h); if (vf_want_sample()) vf_sample("%u operations, %lu sent, %lu requests deferred, %lu answered by an update, %lu sends failed", n, nSent, nDeferred, nAnswered, nFailed); }
}

// ---- concurrent: every position is derived from one number; a mixed one is visible
static std::atomic<uint64_t> published, hi; static std::atomic<bool> stop;
static std::atomic<unsigned long> mtSent;
static void mkPos(uint64_t id, double p[3]) { p[0] = (double)id; p[1] = (double)(id * 3 + 1); p[2] = -(double)(id * 7 + 2); }
static __thread uint64_t tLow;
static void mtMessage(const Bytes & m)
{
	Bytes d; for (size_t i = 2; i < m.size(); ++i) { d.push_back(m[i]); if (m[i] == 0x1a) ++i; }
	VF_CHECK(m.size() >= 26 && m[0] == 0x1a && m[1] == '7' && d.size() == 24, "message", "bad position message %s", vf_hex(m.data(), m.size()));
	double v[3], w[3];
	for (int k = 0; k < 3; ++k) { uint64_t x = 0; for (int i = 0; i < 8; ++i) x = x << 8 | d[k * 8 + i]; memcpy(&v[k], &x, 8); }
	uint64_t id = v[0];
	mkPos(id, w);
	VF_CHECK(!memcmp(v, w, sizeof v), "mixed-position", "sent position %.1f %.1f %.1f was never set", v[0], v[1], v[2]);
	uint64_t max = published;
	VF_CHECK(id <= max, "future", "position %llu before it was set (%llu)", (long long)id, (long long)max);
	VF_CHECK(id >= tLow, "stale-position", "position %llu sent although %llu had been set before", (long long)id, (long long)tLow);
	mtSent++;
}
static uint64_t cseed; static unsigned nPos;
static void * setter(void *)
{
	inj_thread(1, cseed); vf_thread_seed(1);
	for (uint64_t i = 1; i <= nPos && !stop; ++i) {
		double p[3]; mkPos(i, p);
		published = i;
		tLow = i;
		if (vf_chance(50)) GPS_setPositionWithFix(p[0], p[1], p[2]); else GPS_setPosition(p[0], p[1], p[2]);
		hi = i;
		inj_point(1);
		if (vf_chance(10)) GPS_setHasFix(vf_chance(70));
		if (vf_chance(2)) GPS_reset();
	}
	stop = true;
	return NULL;
}
static void * sender(void *)
{
	inj_thread(2, cseed); vf_thread_seed(2);
	while (!stop) {
		tLow = hi;
		VF_CHECK(GPS_sendPosition(), "result", "sending reported as failed");
		inj_point(2);
	}
	return NULL;
}
static void case_mt(void)
{
	mt = true; failAt = -1; stop = false; published = hi = 0; mtSent = 0; cseed = vf_rnd();
	inj_level = vf_range(0, 50); inj_max_us = vf_range(1, 50);
	nPos = vf_range(20, 300);
	GPS_reset(); GPS_resetNeedFlag();
	pthread_t a, b, c;
	bool three = vf_chance(50);
	pthread_create(&a, NULL, setter, NULL); pthread_create(&b, NULL, sender, NULL); if (three) pthread_create(&c, NULL, sender, NULL);
	pthread_join(a, NULL); pthread_join(b, NULL); if (three) pthread_join(c, NULL);
	{ pthread_mutex_lock(&sm); sent.clear(); pthread_mutex_unlock(&sm); }
	vf_count("eval", 1); vf_count("concurrent_messages", mtSent); vf_count("updates", nPos);
	uint64_t h[3] = { cseed, mtSent, nPos };
	if (mtSent > 1) vf_distinct(vf_hash(h, sizeof h, 0));
	if (vf_want_sample()) vf_sample("%u concurrent updates, %lu position messages, all consistent", nPos, (unsigned long)mtSent);
}

// ---- login
static uint32_t devType; static bool typed; static jmp_buf gaveUp; static bool expectFatal; static int cancelState;
static void hook(int level, const char *, const char *) { if (level == LOG_LEVEL_EMERG && expectFatal) longjmp(gaveUp, 1); }
static void case_login(void)
{
	if (!typed) { typed = true; devType = rnd32(); if (!devType) devType = 7; LOGIN_setDeviceType((enum OPENSKY_DEVICE_TYPE)devType); }
	unsigned maj, min, rel;
	sscanf(PACKAGE_VERSION, "%u.%u.%u", &maj, &min, &rel);
	// what happened before
	failAt = -1; sent.clear(); calls = 0;
	GPS_reset(); GPS_resetNeedFlag(); has = fix_ = need = false;
	bool hp = vf_chance(60), hf = vf_chance(70);
	double p[3] = { rndD(), rndD(), rndD() };
	if (hp) GPS_setPosition(p[0], p[1], p[2]);
	GPS_setHasFix(hf);
	char user[80]; size_t ul = vf_chance(30) ? vf_range(38, 60) : vf_below(41); bool set = vf_chance(80);
	for (size_t i = 0; i < ul; ++i) user[i] = vf_chance(15) ? 0x1a : vf_range(1, 255);
	user[ul] = 0;
	if (vf_chance(30)) LOGIN_setUsername("leftover of an earlier configuration");
	LOGIN_setUsername(set ? user : NULL);
	if (set && ul < sizeof user) memset(user, 'x', ul / 2); // the caller may reuse its memory; the rest is kept for the reference below
	char ref[80]; memcpy(ref, user, sizeof ref);
	// the reference needs the original name
	unsigned rounds = vf_range(1, 3);
	(void)ref;
	for (unsigned r = 0; r < rounds; ++r) {
		if (set) { // set again before each round with known content
			for (size_t i = 0; i < ul; ++i) user[i] = vf_chance(15) ? 0x1a : vf_range(1, 255);
			user[ul] = 0;
			char * tmp = strdup(user); LOGIN_setUsername(tmp); memset(tmp, 'q', ul); free(tmp);
		}
		Bytes dev = { 0x1a, 65 }, ser = { 0x1a, '5' }, usr = { 0x1a, 67 };
		enc32(dev, devType); enc32(dev, maj); enc32(dev, min); enc32(dev, rel);
		serNo = rnd32(); enc32(ser, serNo);
		uint8_t name[40] = { 0 }; memcpy(name, user, set && ul <= 40 ? ul : 0); enc(usr, name, 40);
		unsigned k = vf_below(12);
		duringSerial = vf_chance(25); if (duringSerial) { for (double & v : newPos) v = rndD(); vf_count("updates_during_login", 1); }
		serRc = k == 0 ? SERIAL_RETURN_FAIL_NET : k == 1 ? SERIAL_RETURN_FAIL_PERM : k == 2 ? SERIAL_RETURN_FAIL_TEMP : SERIAL_RETURN_SUCCESS;
		std::vector<Bytes> want = { dev };
		bool hp0 = hp, hf0 = hf; double p0[3]; memcpy(p0, p, sizeof p);
		if (duringSerial) { hp = hf = true; memcpy(p, newPos, sizeof p); } // found while the login waits for the serial number: sent at its place, once
		bool rcWant = true;
		if (serRc == SERIAL_RETURN_SUCCESS) {
			want.push_back(ser);
			if (hp && hf) want.push_back(posMsg(p));
			if (set && ul && ul <= 40) want.push_back(usr);
		} else rcWant = false;
		failAt = vf_chance(35) ? (int)vf_below(4) : -1;
		if (failAt >= 0 && failAt < (int)want.size()) { want.resize(failAt + 1); rcWant = false; }
		if (failAt == 0 && duringSerial) { hp = hp0; hf = hf0; memcpy(p, p0, sizeof p); } // did not get there
		sent.clear(); calls = 0; serCalls = 0;
		volatile bool fatal = false; volatile bool rc = false;
		expectFatal = serRc == SERIAL_RETURN_FAIL_PERM || serRc == SERIAL_RETURN_FAIL_TEMP;
		pthread_setcancelstate(PTHREAD_CANCEL_ENABLE, &cancelState);
		if (!setjmp(gaveUp)) rc = LOGIN_login(); else { fatal = true; pthread_setcancelstate(PTHREAD_CANCEL_ENABLE, NULL); }
		expectFatal = false;
		vf_trace("login: serial rc %d, position %d fix %d, user %d (%zu), fail at %d -> %d%s, %zu messages", serRc, hp, hf, set, ul, failAt, rc, fatal ? " (gave up)" : "", sent.size());
		VF_CHECK(sent.size() == want.size(), "count", "login sent %zu messages instead of %zu", sent.size(), want.size());
		for (size_t i = 0; i < want.size(); ++i)
			VF_CHECK(sent[i] == want[i], "message", "login message %zu is %s instead of %s", i, vf_hex(sent[i].data(), sent[i].size()), vf_hex(want[i].data(), want[i].size()));
		VF_CHECK(fatal || rc == rcWant, "result", "login returned %d instead of %d", rc, rcWant);
		VF_CHECK(serCalls <= 1, "serial-calls", "the serial number was requested %u times", serCalls);
		vf_count("logins", 1); vf_count(rcWant ? "complete" : "incomplete", 1);
		if (expectFatal || fatal) vf_count("gave_up", 1);
		if (rcWant) { uint64_t h = 0; for (auto & m : sent) h = vf_hash(m.data(), m.size(), h); vf_distinct(h); }
		// a position known later is sent once
		if (rcWant && !(hp && hf)) {
			sent.clear(); failAt = -1;
			double q[3] = { rndD(), rndD(), rndD() };
			GPS_setPositionWithFix(q[0], q[1], q[2]); GPS_setPositionWithFix(q[0], q[1], q[2]);
			VF_CHECK(sent.size() == 1 && sent[0] == posMsg(q), "late-position", "%zu messages for a position found after the login", sent.size());
			memcpy(p, q, sizeof p); hp = hf = true; vf_count("late_positions", 1);
		} else if (vf_chance(50)) { GPS_resetNeedFlag(); }
		else if (vf_chance(50)) { hp = hf = false; GPS_reset(); } // otherwise a request may remain, which the next login withdraws
	}
	vf_count("eval", 1);
	if (vf_want_sample()) vf_sample("device %08x version %u.%u.%u, %zu byte user name, last login of %zu messages", devType, maj, min, rel, set ? ul : 0, sent.size());
}
void vf_init(void) { mode = vf_opt("mode", 0); log_stub_trace = 0; log_stub_hook = hook; has = fix_ = need = false; }
void vf_case(uint64_t) { if (mode == 0) case_login(); else if (mode == 1) case_gps(); else case_mt(); }
