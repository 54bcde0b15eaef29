/* C05/C07: frame buffer against a model, single threaded (plus the collector thread, stepped). */
#include "beastgen.h"
#include <stdlib.h>
#include <stdio.h>
#include <unistd.h>
#include <semaphore.h>
#include <pthread.h>
#include <time.h>
#include <deque>
#include <map>
#include <set>
extern "C" {
#include "core/buffer.h"
#include "util/cfgfile.h"
}
#include "log_stub.h"

/* ---- allocation monitor ---- */
static std::map<char *, size_t> * blocks; /* allocations made by the buffer */
static int inside; static long failAt = -1; static bool failed;
static size_t liveBytes; static uint64_t freedBlocks;
extern "C" void * __real_malloc(size_t); extern "C" void __real_free(void *);
extern "C" void * __real_calloc(size_t, size_t);
static void * note(void * p, size_t n)
{
	int k = inside; inside = 0;
	if (p) { (*blocks)[(char *)p] = n; liveBytes += n; }
	inside = k;
	return p;
}
extern "C" void * __wrap_malloc(size_t n)
{
	if (!inside) return __real_malloc(n);
	if (failAt >= 0 && failAt-- == 0) { failed = true; failAt = -1; return NULL; }
	return note(__real_malloc(n), n);
}
extern "C" void * __wrap_calloc(size_t a, size_t b)
{
	if (!inside) return __real_calloc(a, b);
	if (failAt >= 0 && failAt-- == 0) { failed = true; failAt = -1; return NULL; }
	return note(__real_calloc(a, b), a * b);
}
extern "C" void __wrap_free(void * p)
{
	if (p && inside) {
		int k = inside; inside = 0;
		auto it = blocks->find((char *)p);
		if (it != blocks->end()) { liveBytes -= it->second; blocks->erase(it); ++freedBlocks; }
		inside = k;
	}
	__real_free(p);
}
static char * blockOf(const void * f)
{
	auto it = blocks->upper_bound((char *)f);
	if (it == blocks->begin()) return NULL;
	--it;
	return (char *)f + sizeof(struct OPENSKY_RawFrame) <= it->first + it->second ? it->first : NULL;
}
struct In { In() { ++inside; } ~In() { --inside; } };
#define CALL(x) ({ In in_; x; })

/* ---- stepped collector thread ---- */
static sem_t stepGo, stepDone; static bool gcThread; static unsigned lastSleep;
static __thread bool isGc;
static unsigned long steps;
static void doStep() { ++steps; sem_post(&stepDone); while (sem_wait(&stepGo)) ; }
extern "C" unsigned __real_sleep(unsigned); extern "C" int __real_nanosleep(const struct timespec *, struct timespec *);
extern "C" unsigned __wrap_sleep(unsigned s) { if (!isGc) return __real_sleep(s); lastSleep = s; int k = inside; inside = 0; doStep(); inside = k; return 0; }
extern "C" int __wrap_nanosleep(const struct timespec * a, struct timespec * b) { if (!isGc) return __real_nanosleep(a, b); lastSleep = a->tv_sec; int k = inside; inside = 0; doStep(); inside = k; return 0; }

/* ---- model ---- */
static uint32_t S, D, I, level; static bool hist, gcOn;
struct Fr { OPENSKY_RawFrame * p; uint64_t id; };
static std::deque<Fr> q;
static const OPENSKY_RawFrame * cur; static uint64_t curId; static OPENSKY_RawFrame * nw;
static char * statBlk;
static std::map<char *, uint32_t> freeOf, collOf; /* per dynamic block: free and collected frames */
static uint32_t freeStat;
static BUFFER_Statistics m;
static uint64_t nextId;
static std::map<const void *, uint64_t> content;

static void fill(OPENSKY_RawFrame * f, uint64_t id)
{
	struct vf_rng r; vf_rng_seed(&r, id, 5);
	f->rawLen = 23 + id % 24;
	for (size_t i = 0; i < sizeof f->raw; ++i) f->raw[i] = (uint8_t)vf_rng_next(&r);
}
static bool isFrame(const OPENSKY_RawFrame * f, uint64_t id)
{
	struct vf_rng r; vf_rng_seed(&r, id, 5);
	if (f->rawLen != 23 + id % 24) return false;
	for (size_t i = 0; i < sizeof f->raw; ++i) if (f->raw[i] != (uint8_t)vf_rng_next(&r)) return false;
	return true;
}
static uint64_t freeSum() { uint64_t n = freeStat; for (auto & x : freeOf) n += x.second; return n; }
static uint64_t collSum() { uint64_t n = 0; for (auto & x : collOf) n += x.second; return n; }
static void giveBack(const void * f)
{
	char * b = blockOf(f);
	VF_CHECK(b, "freed-in-use", "a frame in use lies in freed memory");
	if (b == statBlk) ++freeStat; else ++freeOf[b];
}
static void cmp(const char * op)
{
	BUFFER_Statistics s; memset(&s, 0x5a, sizeof s);
	BUFFER_getStatistics(&s);
	m.queueSize = q.size(); m.poolSize = freeSum(); m.dynPools = freeOf.size();
#define F(f) VF_CHECK(s.f == m.f, "stat-" #f, "after %s: " #f " is %llu, expected %llu (static %u, dynamic %u x %u, history %d)", op, (long long)s.f, (long long)m.f, S, I, D, hist)
	F(queueSize); F(poolSize); F(dynPools); F(maxQueueSize); F(discardedCur); F(discardedAll); F(discardedMax);
	F(dynPoolsAll); F(dynPoolsMax); F(uncollectedPools); F(flushes); F(GCruns);
}
static void gcModel()
{
	++m.GCruns;
	std::vector<char *> dead;
	for (auto & x : freeOf) {
		collOf[x.first] += x.second; x.second = 0;
		VF_CHECK(collOf[x.first] <= D, "harness", "model");
		if (collOf[x.first] == D) dead.push_back(x.first);
	}
	for (char * b : dead) {
		VF_CHECK(!blocks->count(b), "not-freed", "a pool without frames in use was not freed by the collection");
		freeOf.erase(b); collOf.erase(b);
	}
	for (auto & x : freeOf) VF_CHECK(blocks->count(x.first), "freed-in-use", "a pool with frames in use was freed");
	VF_CHECK(blocks->count(statBlk), "freed-static", "the static pool was freed");
	vf_count("pools_freed", dead.size());
}
static size_t baseBytes;
static void opNew()
{
	uint64_t fs = freeSum(), cs = collSum();
	failed = false;
	bool inj = vf_chance(vf_opt("mode", 0) == 0 ? 12 : 4);
	failAt = inj ? (long)vf_below(2) : -1;
	size_t b0 = liveBytes; uint64_t fb = freedBlocks;
	OPENSKY_RawFrame * f = CALL(BUF_newFrame());
	bool fl = failed; failAt = -1;
	VF_CHECK(f, "no-frame", "no frame to fill was returned");
	char * b = blockOf(f);
	VF_CHECK(b, "wild-frame", "the returned frame is not in live memory");
	VF_CHECK(((char *)f - b) % 8 == 0, "wild-frame", "misplaced frame");
	for (auto & x : q) VF_CHECK(x.p != f || (&x == &q.front() && !fs && !cs), "frame-in-use", "the returned frame is queued at position %zu", (size_t)(&x - &q.front()));
	VF_CHECK(f != cur, "frame-in-use", "the returned frame is being consumed");
	bool created = freeOf.size() < (hist && D ? I : 0) && !fs && !cs && !fl;
	vf_trace("new -> %p (free %llu collected %llu alloc failure %d)", (void *)f, (long long)fs, (long long)cs, fl);
	if (fs) {
		VF_CHECK(!fl && liveBytes == b0, "grew", "memory was allocated though %llu frames are unused", (long long)fs);
		if (b == statBlk) { VF_CHECK(freeStat, "frame-in-use", "static frame handed out twice"); --freeStat; }
		else { VF_CHECK(freeOf.count(b) && freeOf[b], "frame-in-use", "dynamic frame handed out twice"); --freeOf[b]; }
		m.discardedCur = 0;
	} else if (cs) {
		VF_CHECK(!fl && liveBytes == b0, "grew", "memory was allocated though %llu collected frames are unused", (long long)cs);
		VF_CHECK(b != statBlk && collOf.count(b) && collOf[b], "frame-in-use", "expected a frame of a collected pool");
		++m.uncollectedPools; m.discardedCur = 0;
		freeOf[b] = collOf[b] - 1; collOf[b] = 0;
	} else if (created) {
		VF_CHECK(b != statBlk && !freeOf.count(b), "no-growth", "expected a frame of a new pool (%zu of %u in use)", freeOf.size(), I);
		freeOf[b] = D - 1; collOf[b] = 0; m.discardedCur = 0;
		++m.dynPoolsAll; if (freeOf.size() > m.dynPoolsMax) m.dynPoolsMax = freeOf.size();
		vf_count("pools_created", 1);
	} else {
		VF_CHECK(!q.empty(), "harness", "model: nothing to discard");
		VF_CHECK(q.front().p == f, "wrong-discard", "expected the oldest queued frame to be sacrificed");
		VF_CHECK(liveBytes == b0, "alloc-leak", "%zu bytes stay allocated after a failed growth", liveBytes - b0);
		q.pop_front();
		++m.discardedAll; ++m.discardedCur; if (m.discardedCur > m.discardedMax) m.discardedMax = m.discardedCur;
		vf_count("discards", 1); if (fl) vf_count("alloc_failures", 1);
	}
	(void)fb;
	nw = f;
}
static void gcStep()
{
	/* let the collector thread run one round; it must act exactly on the threshold */
	uint64_t before = m.GCruns;
	bool expect = q.size() < (freeOf.size() * (size_t)D) / level;
	sem_post(&stepGo);
	while (sem_wait(&stepDone)) ;
	VF_CHECK(lastSleep == vf_opt("interval", 3), "gc-interval", "collector slept %u s", lastSleep);
	BUFFER_Statistics s; BUFFER_getStatistics(&s);
	VF_CHECK((s.GCruns != before) == expect, expect ? "gc-not-run" : "gc-run", "automatic collection with %zu queued, %zu pools of %u, level %u: ran %d",
		q.size(), freeOf.size(), D, level, (int)(s.GCruns - before));
	if (expect) gcModel();
	vf_count("collector_rounds", 1); vf_count("collector_runs", expect);
}
static void * gcMain(void *) { isGc = true; inside = 1; BUF_comp.main(); return NULL; }

void vf_init() { blocks = new std::map<char *, size_t>; CFG_registerSection(BUF_comp.config); sem_init(&stepGo, 0, 0); sem_init(&stepDone, 0, 0); log_stub_trace = 0; }

void vf_case(uint64_t)
{
	int mode = vf_opt("mode", 0);
	blocks->clear(); liveBytes = 0;
	CFG_loadDefaults();
	hist = mode == 1 || vf_chance(65);
	uint32_t cS = vf_chance(40) ? vf_range(0, 3) : vf_range(2, 30);
	D = vf_chance(10) ? vf_range(0, 1) : vf_range(1, 12); I = vf_chance(10) ? 0 : vf_range(1, 6); level = vf_chance(10) ? 0 : vf_range(1, 4);
	gcOn = vf_chance(50);
	CFG_setInteger("BUFFER", "StaticBacklog", cS); CFG_setInteger("BUFFER", "DynamicBacklog", D); CFG_setInteger("BUFFER", "DynamicIncrements", I);
	CFG_setInteger("BUFFER", "GCLevel", level); CFG_setBoolean("BUFFER", "History", hist); CFG_setBoolean("BUFFER", "GC", gcOn);
	CFG_setInteger("BUFFER", "GCInterval", vf_opt("interval", 3));
	if (BUF_comp.config->fix) BUF_comp.config->fix(BUF_comp.config);
	VF_CHECK(*BUF_comp.start == (gcOn && hist), "gc-enable", "collector enabled %d with GC %d and history %d", *BUF_comp.start, gcOn, hist);
	S = cS < 2 ? 2 : cS; if (level == 0) level = 1;
	if (vf_chance(3)) {
		failAt = 0; bool ok = CALL(BUF_comp.onConstruct()); failAt = -1;
		VF_CHECK(!ok, "construct", "construction succeeded without memory");
		VF_CHECK(blocks->empty(), "construct-leak", "memory allocated by a failed construction");
		vf_count("eval", 1);
		return;
	}
	VF_CHECK(CALL(BUF_comp.onConstruct()), "construct", "construction failed");
	BUF_comp.onReset();
	q.clear(); cur = NULL; nw = NULL; freeOf.clear(); collOf.clear(); memset(&m, 0, sizeof m);
	freeStat = S; baseBytes = liveBytes;
	/* learn the static block: take and abort one frame */
	{ OPENSKY_RawFrame * f = CALL(BUF_newFrame()); statBlk = blockOf(f); VF_CHECK(statBlk, "wild-frame", "static frame outside of the memory allocated"); CALL(BUF_abortFrame(f)); }
	cmp("construction");
	pthread_t th; gcThread = mode == 1 && vf_chance(40);
	if (gcThread) { pthread_create(&th, NULL, gcMain, NULL); while (sem_wait(&stepDone)) ; }
	int n = vf_range(10, mode ? 250 : 200);
	uint64_t h = S * 31 + D * 7 + I + hist;
	/* phases with different pressure */
	int wNew = 30, wGet = 30;
	int got = 0;
	for (int i = 0; i < n; ++i) {
		if (i % 25 == 0) { wNew = (int[]){10, 30, 60}[vf_below(3)]; wGet = (int[]){10, 30, 60}[vf_below(3)]; }
		int r = vf_below(wNew + wGet + 12);
		const char * op = "";
		if (r < wNew) {
			if (!nw) { opNew(); op = "new"; }
			else if (vf_chance(85)) {
				fill(nw, ++nextId); q.push_back({nw, nextId}); CALL(BUF_commitFrame(nw)); nw = NULL; op = "commit";
				if (q.size() > m.maxQueueSize) m.maxQueueSize = q.size();
			} else { memset(nw, 0xdd, sizeof *nw); CALL(BUF_abortFrame(nw)); giveBack(nw); nw = NULL; op = "abort"; }
		} else if (r < wNew + wGet) {
			if (!cur) {
				int how = vf_below(3);
				if (q.empty()) {
					unsigned t = vf_chance(95) ? 0 : vf_range(1, 3);
					uint64_t t0 = vf_now_ns();
					const OPENSKY_RawFrame * f = CALL(BUF_getFrameTimeout(t));
					VF_CHECK(!f, "invented", "a frame was returned from an empty queue");
					VF_CHECK(vf_now_ns() - t0 + 1000000 >= t * 1000000ull, "early-timeout", "timeout of %u ms after %llu ns", t, (long long)(vf_now_ns() - t0));
					op = "get(empty)";
				} else {
					const OPENSKY_RawFrame * f = how == 0 ? CALL(BUF_getFrame()) : CALL(BUF_getFrameTimeout(how == 1 ? 0 : vf_below(5000)));
					VF_CHECK(f, "false-timeout", "timeout though %zu frames are queued", q.size());
					VF_CHECK(f == q.front().p && isFrame(f, q.front().id), "wrong-frame", "expected frame %llu of %zu queued", (long long)q.front().id, q.size());
					cur = f; curId = q.front().id; q.pop_front(); op = "get"; ++got;
				}
			} else if (vf_chance(70)) {
				VF_CHECK(isFrame(cur, curId), "modified", "the frame being consumed was modified");
				const OPENSKY_RawFrame * f = cur; cur = NULL; CALL(BUF_releaseFrame(f)); giveBack(f); op = "release";
			} else {
				q.push_front({(OPENSKY_RawFrame *)cur, curId}); const OPENSKY_RawFrame * f = cur; cur = NULL; CALL(BUF_putFrame(f)); op = "put";
				vf_count("put_backs", 1);
			}
		} else {
			int k = vf_below(mode ? 8 : 12);
			if (k < 2 && vf_chance(30)) {
				bool u = k == 0;
				if (u) CALL(BUF_flushUnlessHistoryEnabled()); else CALL(BUF_flush());
				if (!u || !hist) { for (auto & x : q) giveBack(x.p); q.clear(); ++m.flushes; }
				op = "flush";
			} else if (k < 7) {
				if (gcThread && vf_chance(70)) { gcStep(); op = "collector"; }
				else { CALL(BUF_runGC()); gcModel(); op = "collect"; vf_count("collections", 1); }
			} else if (vf_chance(10)) { BUF_comp.onReset(); memset(&m, 0, sizeof m); op = "statistics reset"; }
		}
		vf_trace("%s: queue %zu free %llu collected %llu pools %zu", op, q.size(), (long long)freeSum(), (long long)collSum(), freeOf.size());
		h = h * 1099511628211ull + (unsigned char)op[0] * 31 + q.size();
		cmp(op);
	}
	/* drain, then collection must return everything */
	if (nw) { CALL(BUF_abortFrame(nw)); giveBack(nw); nw = NULL; }
	if (cur) { const OPENSKY_RawFrame * f = cur; cur = NULL; CALL(BUF_releaseFrame(f)); giveBack(f); }
	while (!q.empty()) {
		const OPENSKY_RawFrame * f = CALL(BUF_getFrame());
		VF_CHECK(f == q.front().p && isFrame(f, q.front().id), "wrong-frame", "draining: expected frame %llu", (long long)q.front().id);
		q.pop_front(); CALL(BUF_releaseFrame(f)); giveBack(f); ++got;
	}
	cmp("draining");
	if (vf_chance(70)) {
		CALL(BUF_runGC()); gcModel(); cmp("final collection");
		VF_CHECK(freeOf.empty() && liveBytes == baseBytes, "not-freed", "%zu bytes and %zu pools remain after draining and collecting (static pool: %zu bytes)", liveBytes, freeOf.size(), baseBytes);
		vf_count("full_returns", 1);
	}
	if (gcThread) { pthread_cancel(th); pthread_join(th, NULL); while (!sem_trywait(&stepGo)) ; while (!sem_trywait(&stepDone)) ; }
	CALL(BUF_comp.onDestruct());
	VF_CHECK(blocks->empty(), "leak", "%zu bytes remain allocated after destruction", liveBytes);
	vf_count("eval", 1); vf_count("operations", n); vf_count("frames_consumed", got);
	vf_max("max_pools", m.dynPoolsMax);
	if (got > 2 && (m.discardedAll || m.dynPoolsAll || m.flushes)) vf_distinct(h);
	if (vf_want_sample() && m.dynPoolsAll) vf_sample("static %u, dynamic %u x %u, history %d: %d operations, %d consumed, %llu discarded, %llu pools created, %llu collections",
		S, I, D, hist, n, got, (long long)m.discardedAll, (long long)m.dynPoolsAll, (long long)m.GCruns);
}
