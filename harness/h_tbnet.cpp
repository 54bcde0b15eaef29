// C13: server packets through the real connection manager: nothing of one connection is combined with the next one.
#include "fakenet.h"
#include <stdio.h>
#include <map>
extern "C" {
#include "core/network.h"
#include "core/tb.h"
#include "core/filter.h"
#include "log_stub.h"
}
using fn::Bytes;
extern "C" { void FILTER_setSynchronizedFilter(bool) {} void FILTER_setModeSExtSquitter(bool) {} void FILTER_reset(void) {} }
static uint64_t cseed; static std::atomic<bool> stopAll;
static std::map<unsigned, std::vector<Bytes>> script; // attempt -> packets' payloads (first byte: type)
static const unsigned LENS[6] = { 12, 124, 20, 60, 2, 12 };
struct Got { unsigned type; Bytes p; };
static std::vector<Got> got; static std::atomic<unsigned> nGot;
template <unsigned T> static void handler(const uint8_t * p) { fn::Lk l; got.push_back(Got{ T, Bytes(p, p + LENS[T]) }); nGot++; }
static void * netT(void *) { inj_thread(1, cseed); NET_comp.main(); return NULL; }
static void * tbT(void *) { inj_thread(3, cseed); TB_comp.main(); return NULL; }
static void * sendT(void *)
{
	inj_thread(2, cseed); uint8_t b[40] = { 1 };
	while (!stopAll) { NET_waitConnected(); while (!stopAll && NET_send(b, 1 + inj_rnd() % 40)) fn::napC(inj_rnd() % 500); }
	return NULL;
}
static int budget, refusePct; static std::atomic<unsigned> lastAttempt;
static fn::Plan mkplan(unsigned a)
{
	fn::Lk l; fn::Plan p; p.patternTx = false; p.partial = 20;
	if (!fn::calm && (int)(inj_rnd() % 100) < refusePct) { p.accept = false; return p; }
	if (!fn::calm && budget-- <= 0) fn::calm = true;
	unsigned n = inj_rnd() % 20; std::vector<Bytes> & pk = script[a]; uint16_t seq = 0;
	if (fn::calm) { n += 3; lastAttempt = a; }
	for (unsigned i = 0; i < n; ++i) {
		unsigned t; do t = inj_rnd() % 6; while (t == 4);
		Bytes x; x.push_back(t); x.push_back(a); x.push_back(seq >> 8); x.push_back(seq); ++seq;
		for (unsigned j = x.size(); j < LENS[t] + 1; ++j) x.push_back(fn::pat(a * 7919 + seq, j));
		pk.push_back(x);
		p.tx.push_back(0); p.tx.push_back(t); p.tx.push_back(0); p.tx.push_back(LENS[t] + 4);
		p.tx.insert(p.tx.end(), x.begin() + 1, x.end());
	}
	if (!fn::calm) {
		if (!p.tx.empty() && inj_rnd() % 3) p.tx.resize(p.tx.size() - inj_rnd() % std::min<size_t>(p.tx.size(), 120)); // ends inside a packet
		p.kill = (fn::Kill)(1 + inj_rnd() % 3);
		if (inj_rnd() % 3 == 0) p.killBytes = inj_rnd() % 200;
		p.killUs = inj_rnd() % 3000 + (p.killBytes >= 0 ? 15000 : 0);
		if (inj_rnd() % 6 == 0) p.failSend = inj_rnd() % 100;
		if (inj_rnd() % 8 == 0) p.failRecv = inj_rnd() % 30;
	}
	return p;
}
void vf_init(void) { log_stub_trace = 1; TB_register(0, LENS[0], handler<0>); TB_register(1, LENS[1], handler<1>); TB_register(2, LENS[2], handler<2>); TB_register(3, LENS[3], handler<3>); TB_register(5, LENS[5], handler<5>); }
void vf_case(uint64_t)
{
	cseed = vf_rnd(); inj_hash = 0; inj_events = 0; inj_level = vf_chance(20) ? 0 : vf_range(1, 60); inj_max_us = vf_range(1, 150);
	script.clear(); got.clear(); nGot = 0; stopAll = false; fn::plan = mkplan; budget = vf_range(1, 6); refusePct = vf_chance(40) ? vf_below(50) : 0; lastAttempt = 0;
	pthread_t n, t, s; bool haveSender = vf_chance(70);
	pthread_create(&n, NULL, netT, NULL); pthread_create(&t, NULL, tbT, NULL); if (haveSender) pthread_create(&s, NULL, sendT, NULL);
	uint64_t t0 = vf_now_ns();
	if (haveSender) while (true) { // until the last packet of the last connection was handled
		{ fn::Lk l; if (fn::calm && !got.empty() && script.count(lastAttempt) && !script[lastAttempt].empty()) {
			Got & g = got.back(); Bytes & e = script[lastAttempt].back();
			if (g.type == e[0] && g.p.size() + 1 == e.size() && std::equal(g.p.begin(), g.p.end(), e.begin() + 1)) break; } }
		usleep(300); vf_tick();
		VF_CHECK(vf_now_ns() - t0 < 60ull * 1000000000, "no-progress", "the packets of the last connection are not handled: %u handled, attempt %u", (unsigned)nGot, (unsigned)fn::attempts);
	} else usleep(vf_below(9000));
	stopAll = true;
	auto fin = [](pthread_t x, const char * w) { fn::cancelOrder++; pthread_cancel(x); timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_sec += 20; if (pthread_timedjoin_np(x, NULL, &ts)) vf_fail("stop-hang", "%s does not end", w); };
	fin(t, "talkback"); if (haveSender) fin(s, "sender"); fin(n, "network");
	VF_CHECK(fn::openCount() == 0, "descriptor-leak", "%u connections still open", fn::openCount());
	unsigned conn = 0; size_t idx = 0; bool first = true; unsigned used = 0;
	for (Got & g : got) {
		unsigned a = g.p[0];
		if (first || a != conn) { VF_CHECK(first || a > conn, "old-connection", "packet of attempt %u after those of attempt %u", a, conn); conn = a; idx = 0; first = false; ++used; }
		VF_CHECK(script.count(a) && idx < script[a].size(), "alien", "packet %zu of attempt %u was never sent: %s", idx, a, vf_hex(g.p.data(), g.p.size()));
		Bytes & e = script[a][idx];
		VF_CHECK(e[0] == g.type && std::equal(g.p.begin(), g.p.end(), e.begin() + 1), "mixed", "attempt %u packet %zu: handled type %u %s, sent type %u %s", a, idx, g.type, vf_hex(g.p.data(), g.p.size()), e[0], vf_hex(e.data() + 1, e.size() - 1));
		++idx;
	}
	if (haveSender) VF_CHECK(conn == lastAttempt && idx == script[conn].size(), "lost", "only %zu of %zu packets of the last connection handled", idx, script[conn].size());
	vf_count("eval", 1); vf_count("net_packets", got.size()); vf_count("net_connections", fn::conns.size()); vf_count("net_used", used); vf_count("sync_events", inj_events);
	if (got.size()) { vf_distinct(inj_hash); if (vf_want_sample()) vf_sample("%zu connections, %zu packets handled, %u attempts", fn::conns.size(), got.size(), (unsigned)fn::attempts); }
	fn::reset();
}
