/* C33: receive loop (real recv.c, filter.c, buffer.c) over scripted receiver histories. */
#include "beastgen.h"
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>
#include <vector>
#include <string>
extern "C" {
#include "core/recv.h"
#include "core/input.h"
#include "core/buffer.h"
#include "core/filter.h"
#include "util/cfgfile.h"
#include "util/component.h"
#include "log_stub.h"
}
struct Ev { OPENSKY_FRAME_TYPE type; uint64_t mlat; uint8_t payload[14]; uint8_t raw[46]; size_t rawLen; };
static std::vector<std::vector<Ev>> conns;
static size_t ci, ei; static int connected; static bool parkInFrame; static size_t parkAt;
static uint64_t nConnect, nDisconnect;
static sem_t parked, never;
static bool started;
static int syncCmdAt; /* remote filter changes are made by the input callback (same thread) at this event */
static std::vector<std::pair<size_t, int>> setAt;
static size_t evTotal;
static OPENSKY_RawFrame * inUse; static bool isParked;

/* expected */
static std::vector<std::string> want;
static bool mSync, mExt, mIs;

extern "C" {
const struct Component INPUT_comp = { .description = "IN", .dependencies = { NULL } };
void INPUT_reconfigure() {}
static void park() { isParked = true; sem_post(&parked); while (sem_wait(&never)) ; }
void INPUT_connect()
{
	VF_CHECK(!connected, "double-connect", "connect while connected");
	++nConnect;
	if (ci == conns.size()) park();
	connected = 1; ei = 0;
	mIs = false; /* a connection starts unsynchronised */
}
void INPUT_disconnect() { VF_CHECK(connected, "double-disconnect", "disconnect while not connected"); connected = 0; ++nDisconnect; }
bool INPUT_getFrame(struct OPENSKY_RawFrame * raw, struct OPENSKY_DecodedFrame * dec)
{
	VF_CHECK(connected, "get-unconnected", "frame requested without connection");
	VF_CHECK(raw && dec, "no-frame", "no frame to fill");
	/* whatever is in the buffers before must not matter */
	memset(raw, 0xcc, sizeof *raw); memset(dec, 0xcc, sizeof *dec);
	if (ei == conns[ci].size()) { ++ci; return false; }
	if (parkInFrame && evTotal == parkAt) park();
	for (auto & s : setAt) if (s.first == evTotal) {
		if (s.second & 1) { mSync = s.second & 4; FILTER_setSynchronizedFilter(mSync); }
		if (s.second & 2) { mExt = s.second & 8; FILTER_setModeSExtSquitter(mExt); }
		if (s.second & 16) { mIs = false; FILTER_reset(); }
	}
	const Ev & e = conns[ci][ei++]; ++evTotal;
	memcpy(raw->raw, e.raw, e.rawLen); raw->rawLen = e.rawLen;
	dec->frameType = e.type; dec->mlat = e.mlat; dec->siglevel = 5; memcpy(dec->payload, e.payload, 14);
	dec->payloadLen = e.type == OPENSKY_FRAME_TYPE_MODE_AC ? 2 : e.type == OPENSKY_FRAME_TYPE_MODE_S_SHORT ? 7 : 14;
	if (e.type == OPENSKY_FRAME_TYPE_STATUS && e.mlat) mIs = true;
	int df = e.payload[0] >> 3;
	bool ok = (e.type == OPENSKY_FRAME_TYPE_MODE_S_SHORT || e.type == OPENSKY_FRAME_TYPE_MODE_S_LONG) && (!mSync || mIs) && (!mExt || df == 17 || df == 18);
	if (ok) want.push_back(std::string((const char *)e.raw, e.rawLen));
	return true;
}
}
static void * thr(void *) { RECV_comp.main(); return NULL; }
void vf_init()
{
	CFG_registerSection(BUF_comp.config); CFG_registerSection(FILTER_comp.config);
	sem_init(&parked, 0, 0); sem_init(&never, 0, 0); log_stub_trace = 0;
}
void vf_case(uint64_t)
{
	CFG_loadDefaults();
	mSync = vf_chance(60); mExt = vf_chance(50);
	CFG_setBoolean("FILTER", "SyncFilter", mSync); CFG_setBoolean("FILTER", "ModeSExtSquitterOnly", mExt);
	int cap = vf_chance(30) ? (int)vf_range(2, 20) : 2000;
	CFG_setInteger("BUFFER", "StaticBacklog", cap); CFG_setBoolean("BUFFER", "History", vf_chance(30));
	CFG_setInteger("BUFFER", "DynamicIncrements", 0);
	FILTER_comp.onConstruct(); VF_CHECK(BUF_comp.onConstruct(), "harness", "construct");
	FILTER_comp.onReset(); BUF_comp.onReset();
	conns.clear(); want.clear(); ci = ei = evTotal = 0; connected = 0; nConnect = nDisconnect = 0; isParked = false; setAt.clear();
	int nc = vf_range(1, 6); size_t total = 0;
	uint64_t h = 1;
	for (int c = 0; c < nc; ++c) {
		std::vector<Ev> v;
		int n = vf_chance(20) ? 0 : vf_range(0, 60);
		for (int i = 0; i < n; ++i) {
			Ev e; memset(&e, 0, sizeof e);
			int t = vf_below(20);
			e.type = t < 3 ? OPENSKY_FRAME_TYPE_STATUS : t < 5 ? OPENSKY_FRAME_TYPE_MODE_AC : t < 11 ? OPENSKY_FRAME_TYPE_MODE_S_SHORT : OPENSKY_FRAME_TYPE_MODE_S_LONG;
			e.mlat = vf_chance(40) ? 0 : vf_chance(20) ? 1ull << vf_below(48) : vf_rnd() & 0xffffffffffffull;
			for (auto & b : e.payload) b = vf_rnd();
			if (vf_chance(60)) e.payload[0] = (vf_chance(50) ? 17 : 18) << 3 | vf_below(8);
			e.rawLen = vf_range(2, 46); for (auto & b : e.raw) b = vf_rnd();
			h = vf_hash(&e, sizeof e, h);
			v.push_back(e);
		}
		total += n; conns.push_back(v);
	}
	if (vf_chance(30)) for (int i = 0; i < 3; ++i) setAt.push_back({vf_below(total + 1), (int)vf_below(32)});
	parkInFrame = vf_chance(25) && total; parkAt = vf_below(total);
	pthread_t th;
	pthread_create(&th, NULL, thr, NULL);
	while (sem_wait(&parked)) ;
	pthread_cancel(th); pthread_join(th, NULL);
	VF_CHECK(!connected, "left-connected", "the receiver connection was not closed upon stopping");
	BUFFER_Statistics st; BUFFER_getStatistics(&st);
	size_t exp = want.size(), lost = 0;
	/* capacity: the static pool minus the frame being filled */
	size_t maxq = cap;
	if (exp > maxq) lost = exp - maxq;
	std::vector<std::string> got;
	while (true) {
		const OPENSKY_RawFrame * f = BUF_getFrameTimeout(0);
		if (!f) break;
		VF_CHECK(f->rawLen <= sizeof f->raw, "length", "frame length %zu", f->rawLen);
		got.push_back(std::string((const char *)f->raw, f->rawLen));
		BUF_releaseFrame(f);
	}
	if (cap == 2000) VF_CHECK(got.size() == exp, "frame-count", "%zu frames buffered, %zu admitted by the filter (sync filter %d)", got.size(), exp, mSync);
	VF_CHECK(got.size() + st.discardedAll == exp, "frame-count", "%zu frames buffered and %llu discarded, %zu admitted", got.size(), (long long)st.discardedAll, exp);
	if (!st.discardedAll || exp > 2 * (size_t)cap) VF_CHECK(got.size() + 2 >= (exp < (size_t)cap ? exp : cap) , "early-discard", "only %zu of %d buffered", got.size(), cap);
	for (size_t i = 0; i < got.size(); ++i) VF_CHECK(got[i] == want[exp - got.size() + i], "frame-content", "buffered frame %zu differs", i);
	BUFFER_getStatistics(&st);
	VF_CHECK(st.poolSize == (uint64_t)cap && st.queueSize == 0, "frame-leak", "%llu of %d frames are back in the pool", (long long)st.poolSize, cap);
	VF_CHECK(nDisconnect == (parkInFrame ? nConnect : nConnect - 1), "disconnects", "%llu connects, %llu disconnects", (long long)nConnect, (long long)nDisconnect);
	BUF_comp.onDestruct();
	vf_count("eval", 1); vf_count("frames_in", evTotal); vf_count("frames_admitted", exp); vf_count("connections", nc); vf_count("discarded", st.discardedAll);
	vf_count("stopped_inside_receive", parkInFrame);
	if (exp && exp < evTotal) vf_distinct(h);
	if (vf_want_sample() && exp) vf_sample("%d connections, %zu frames, %zu admitted (sync filter %d, squitter filter %d), capacity %d", nc, total, exp, mSync, mExt, cap);
}
