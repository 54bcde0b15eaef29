// C13: talkback framing and dispatch over scripted receives (mode 0).  C14 (mode 2, -DTB_CMDS): the commands as the daemon registers them.
#include <config.h>
#include <vector>
#include <string>
#include <setjmp.h>
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include "vf.h"
#include "log_stub.h"
#include "tbexec.h"
extern "C" {
#include "core/tb.h"
#include "core/filter.h"
#include "core/network.h"
#include "core/openskytypes.h"
}
typedef std::vector<uint8_t> Bytes;
static long mode;
struct Call { unsigned type; Bytes payload; };
static std::vector<Call> got, want;
static bool reg[TB_PACKET_TYPE_N]; static size_t plen[TB_PACKET_TYPE_N];
static Bytes mbuf;           // what is buffered by a correct reader
static std::vector<Bytes> conns; static size_t ci, off; static unsigned seg, failsInRow; static bool connected;
static jmp_buf done;
static unsigned long nPackets, nSkipped, nResets, nConn, nHandled, nExec, nFilter;
static void modelRun(void);
static void expectCmd(unsigned type, const Bytes & p);
static void compareState(const char * when);

template <unsigned T> static void handler(const uint8_t * p)
{
	got.push_back(Call{ T, Bytes(p, p + plen[T]) });
	VF_CHECK(got.size() <= want.size(), "unexpected", "handler of type %u called, but no such packet is due (payload %s)", T, vf_hex(p, plen[T]));
	Call & w = want[got.size() - 1];
	VF_CHECK(w.type == T && w.payload == got.back().payload, "dispatch", "handler of type %u called with %s instead of type %u with %s", T, vf_hex(p, plen[T]), w.type, vf_hex(w.payload.data(), w.payload.size()));
}
static const TB_ProcessorFn handlers[] = { handler<0>, handler<1>, handler<2>, handler<3>, handler<4>, handler<5> };

// reference reader: works on everything delivered so far
static void modelRun(void)
{
	while (mbuf.size() >= 4) {
		unsigned type = mbuf[0] << 8 | mbuf[1], len = mbuf[2] << 8 | mbuf[3];
		if (len < 4 || len > 128) { mbuf.clear(); ++nResets; break; }
		if (mbuf.size() < len) break;
		Bytes p(mbuf.begin() + 4, mbuf.begin() + len);
		mbuf.erase(mbuf.begin(), mbuf.begin() + len);
		++nPackets;
		if (type < TB_PACKET_TYPE_N && reg[type] && p.size() == plen[type]) {
			++nHandled; vf_trace("packet type %u payload %s", type, vf_hex(p.data(), p.size()));
			if (mode == 2) expectCmd(type, p); else want.push_back(Call{ type, p });
		} else { ++nSkipped; vf_trace("packet type %u of %u bytes to be skipped", type, len); }
	}
}
extern "C" void HAR_waitConnected(void)
{
	compareState("end of connection");
	failsInRow = 0; connected = true; mbuf.clear(); off = 0;
	if (ci + 1 > conns.size()) longjmp(done, 1);
	vf_trace("connection %zu", ci); ++nConn;
	if (seg == 9) seg = vf_below(5);
}
extern "C" ssize_t HAR_receive(uint8_t * b, size_t n)
{
	compareState("receive");
	VF_CHECK(n >= 1, "empty-read", "a read of 0 bytes");
	if (!connected) { VF_CHECK(++failsInRow < 100, "spin", "reads on without waiting for a connection"); return -1; }
	size_t left = conns[ci].size() - off, w;
	if (!left) { connected = false; ++ci; return vf_chance(50) ? 0 : -1; }
	switch (seg) { case 0: w = 1; break; case 1: w = left; break; case 2: w = 1 + vf_below(3); break; case 3: w = 1 + vf_below(20); break; default: w = 1 + vf_below(200); break; }
	if (w > left) w = left;
	if (w > n) w = n;
	if (mode == 2) { // one command at a time: the plan of faults belongs to it
		Bytes all(mbuf); size_t k = 0; bool hit = false;
		while (k < w && !hit) {
			all.push_back(conns[ci][off + k]); ++k;
			while (all.size() >= 4) {
				unsigned len = all[2] << 8 | all[3];
				if (len < 4 || len > 128) break;
				if (all.size() < len) break;
				hit = true; all.erase(all.begin(), all.begin() + len);
			}
		}
		w = k;
	}
	memcpy(b, &conns[ci][off], w); off += w;
	mbuf.insert(mbuf.end(), b, b + w);
	modelRun();
	return w;
}
static void be16(Bytes & b, unsigned v) { b.push_back(v >> 8); b.push_back(v); }
static void genStream(Bytes & b)
{
	unsigned n = vf_below(12);
	for (unsigned i = 0; i < n; ++i) {
		unsigned k = vf_below(20), type = vf_below(TB_PACKET_TYPE_N), len;
		if (k < 12) len = 4 + plen[type];
		else if (k < 14) len = 4 + vf_below(125);
		else if (k < 16) { type = vf_chance(50) ? TB_PACKET_TYPE_N + vf_below(4) : vf_chance(50) ? vf_below(65536) : type << 8; len = 4 + vf_below(vf_chance(50) ? 10 : 125); }
		else if (k == 16) { unsigned j = vf_below(4); len = 4 + plen[type] + (j & 1 ? 1 : -1) * (int)(1 + (j > 1 ? vf_below(3) : 0)); if ((int)len < 4) len = 5; if (len > 128) len = 128; }
		else if (k == 17) len = 128;
		else if (k == 18) { len = vf_chance(40) ? vf_below(4) : vf_chance(60) ? 129 + vf_below(3) : 129 + vf_below(65536 - 129); be16(b, type); be16(b, len); unsigned g = vf_below(140); while (g--) b.push_back(vf_chance(50) ? 0 : vf_rnd()); continue; }
		else { unsigned g = 1 + vf_below(40); while (g--) b.push_back(vf_rnd()); continue; }
		be16(b, type); be16(b, len);
		bool text = vf_chance(30);
		for (unsigned j = 4; j < len; ++j) b.push_back(text ? vf_below(8) : vf_rnd());
	}
	if (vf_chance(40) && !b.empty()) b.resize(b.size() - vf_below(b.size() < 60 ? b.size() : 60));
}
#ifndef TB_CMDS
bool FILTER_dummy;
static void expectCmd(unsigned, const Bytes &) {}
static int fSync = -1, fExt = -1, fReset; static int mSync, mExt, mReset;
extern "C" void FILTER_setSynchronizedFilter(bool s) { fSync = s; }
extern "C" void FILTER_setModeSExtSquitter(bool s) { fExt = s; }
extern "C" void FILTER_reset(void) { ++fReset; }
static void compareState(const char * when)
{
	VF_CHECK(got.size() == want.size(), "missed", "%s: %zu of %zu due packets were handled; next is type %u with %s", when, got.size(), want.size(), want[got.size()].type, vf_hex(want[got.size()].payload.data(), want[got.size()].payload.size()));
}
extern "C" const struct Component NET_comp = {};
extern "C" void NET_waitConnected(void) { HAR_waitConnected(); }
extern "C" ssize_t NET_receive(uint8_t * b, size_t n) { return HAR_receive(b, n); }
void vf_init(void) { log_stub_trace = 0; }
static void setup(void)
{
	for (unsigned t = 0; t < TB_PACKET_TYPE_N; ++t) {
		plen[t] = vf_chance(30) ? 0 : vf_chance(20) ? 124 : vf_below(vf_chance(50) ? 8 : 125);
		reg[t] = t != TB_PACKET_TYPE_FILTER && vf_chance(70);
		if (reg[t]) TB_register(t, plen[t], handlers[t]);
		if (t == TB_PACKET_TYPE_FILTER) plen[t] = 3; // its built-in handler is the subject of C14; here always of wrong length
	}
	TB_register(TB_PACKET_TYPE_N, 4, handlers[0]); TB_register(65536 + 1, 4, handlers[1]); // beyond the known types: no effect
}
static void teardown(void) { for (unsigned t = 0; t < TB_PACKET_TYPE_N; ++t) if (reg[t]) TB_unregister(t); TB_unregister(TB_PACKET_TYPE_N); }
#else
#include "tbcmds.h"
#endif
void vf_case(uint64_t)
{
	mode = vf_opt("mode", 0);
	setup();
	got.clear(); want.clear(); mbuf.clear(); ci = off = 0; connected = false; failsInRow = 0;
	nPackets = nSkipped = nResets = nConn = nHandled = nExec = nFilter = 0;
	conns.clear();
	unsigned n = 1 + vf_below(4); uint64_t h = 7;
	for (unsigned i = 0; i < n; ++i) {
		Bytes b; genStream(b);
		if (mode == 0) for (size_t j = 0; j + 4 <= b.size(); ) { // the built-in filter handler stays out of this
			unsigned l = b[j + 2] << 8 | b[j + 3]; if (b[j] == 0 && b[j + 1] == 4 && l == 6) b[j + 1] = 5; j += 1; }
		conns.push_back(b); h = vf_hash(b.data(), b.size(), h + 1);
	}
	seg = vf_below(6); if (seg == 5) seg = 9;
#ifdef TB_CMDS
	if (setjmp(px::replaced)) { VF_CHECK(stopNow, "replaced", "the daemon was replaced by another program: %s", px::show(px::sh->rec[0]).c_str()); px::armed = false; }
	else
#endif
	if (!setjmp(done)) TB_comp.main();
	compareState("end");
	teardown();
	vf_count("eval", 1); vf_count("packets", nPackets); vf_count("handled", nHandled); vf_count("skipped", nSkipped); vf_count("buffer_resets", nResets); vf_count("connections", nConn);
	vf_count("programs_started", nExec); vf_count("filter_commands", nFilter);
	if (nHandled) { vf_distinct(h); if (vf_want_sample()) vf_sample("%zu connections, segmentation %u: %lu packets, %lu handled, %lu skipped, %lu buffer resets, %lu programs", n + (size_t)0, seg, nPackets, nHandled, nSkipped, nResets, nExec); }
}
