/* C06: frame buffer under concurrency. Real threads, delay injection at every lock operation. */
#include "beastgen.h"
#include "inject.h"
#include <stdlib.h>
#include <stdio.h>
#include <unistd.h>
#include <errno.h>
#include <vector>
#include <atomic>
extern "C" {
#include "core/buffer.h"
#include "util/cfgfile.h"
#include "log_stub.h"
}
extern "C" int __real_pthread_mutex_lock(pthread_mutex_t *); extern "C" int __real_pthread_mutex_unlock(pthread_mutex_t *);
extern "C" int __real_pthread_cond_broadcast(pthread_cond_t *); extern "C" int __real_pthread_cond_signal(pthread_cond_t *);
/* delays must not become cancellation points where the original has none */
static void dl(int op) { if (!inj_id) return; int o; pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &o); inj_point(op); pthread_setcancelstate(o, NULL); }
extern "C" int __wrap_pthread_mutex_lock(pthread_mutex_t * m) { dl(1); int r = __real_pthread_mutex_lock(m); inj_log(1); return r; }
extern "C" int __wrap_pthread_mutex_unlock(pthread_mutex_t * m) { inj_log(2); int r = __real_pthread_mutex_unlock(m); dl(2); return r; }
extern "C" int __wrap_pthread_cond_broadcast(pthread_cond_t * c) { int r = __real_pthread_cond_broadcast(c); inj_log(3); return r; }
extern "C" int __wrap_pthread_cond_signal(pthread_cond_t * c) { int r = __real_pthread_cond_signal(c); inj_log(3); return r; }
/* sometimes a coarse wall clock (never behind the real one), so that deadlines fall on full seconds */
extern "C" int __real_clock_gettime(clockid_t, struct timespec *); static unsigned coarse; /* ns */
extern "C" int __wrap_clock_gettime(clockid_t c, struct timespec * t)
{
	int r = __real_clock_gettime(c, t);
	if (r || !coarse || c != CLOCK_REALTIME) return r;
	uint64_t n = (t->tv_nsec + coarse - 1) / coarse * (uint64_t)coarse; t->tv_sec += n / 1000000000; t->tv_nsec = n % 1000000000;
	return 0;
}
static __thread bool isGc;
static std::atomic<unsigned> gcSleeps;
extern "C" unsigned __real_sleep(unsigned);
extern "C" unsigned __wrap_sleep(unsigned s) { if (!isGc) return __real_sleep(s); ++gcSleeps; usleep(50 + inj_rnd() % 400); return 0; }

static void fill(OPENSKY_RawFrame * f, uint64_t id)
{
	f->rawLen = 8 + id % 38;
	for (size_t i = 0; i < f->rawLen; ++i) f->raw[i] = (uint8_t)(id >> (8 * (i % 8))) ^ (uint8_t)(i / 8 * 37);
	memcpy(f->raw, &id, 8);
}
static uint64_t check(const OPENSKY_RawFrame * f)
{
	uint64_t id; memcpy(&id, f->raw, 8);
	VF_CHECK(f->rawLen == 8 + id % 38, "torn-frame", "frame %llu has length %zu", (long long)id, f->rawLen);
	for (size_t i = 8; i < f->rawLen; ++i)
		VF_CHECK(f->raw[i] == (uint8_t)((uint8_t)(id >> (8 * (i % 8))) ^ (uint8_t)(i / 8 * 37)), "torn-frame", "frame %llu damaged at byte %zu", (long long)id, i);
	return id;
}
static std::atomic<uint64_t> started, committed, consumed; static std::atomic<bool> prodDone, stopAll;
static std::atomic<uint64_t> lastCommitNs, flushes;
static uint64_t nProd, lastSeen, putBacks, timeouts, getNulls; static bool lossy; /* flushes or capacity too small */
static uint64_t caseSeed; static bool slowProd;

static void * producer(void *)
{
	inj_thread(1, caseSeed); vf_thread_seed(1);
	for (uint64_t i = 1; i <= nProd && !stopAll; ++i) {
		OPENSKY_RawFrame * f = BUF_newFrame();
		if (vf_chance(10)) { memset(f, 0xee, sizeof *f); BUF_abortFrame(f); f = BUF_newFrame(); }
		fill(f, i);
		started = i;
		BUF_commitFrame(f);
		lastCommitNs = vf_now_ns(); committed = i;
		if (slowProd && vf_chance(30)) usleep(vf_below(1500));
	}
	prodDone = true;
	return NULL;
}
static bool cancelled; static std::atomic<bool> consStop;
static void * consumer(void *)
{
	inj_thread(2, caseSeed); vf_thread_seed(2);
	unsigned idle = 0;
	while (!consStop) {
		uint64_t have = committed, cons = consumed; bool done = prodDone;
		const OPENSKY_RawFrame * f;
		uint64_t t0 = vf_now_ns(); unsigned to = 0; bool inf = false;
		if (vf_chance(20) && !lossy && have > cons) { f = BUF_getFrame(); inf = true; }
		else { to = vf_chance(15) ? 4000 : vf_chance(50) ? vf_below(3) : vf_below(20); if (done && have <= cons) to = vf_below(3); if (lossy && to > 20) to = 20; f = BUF_getFrameTimeout(to); }
		uint64_t t1 = vf_now_ns();
		if (!f) {
			VF_CHECK(!inf, "null-frame", "BUF_getFrame returned nothing");
			++timeouts;
			VF_CHECK(lossy || have <= cons, "missed-frame", "empty-handed although %llu frames were committed and only %llu consumed before the call", (long long)have, (long long)cons);
			VF_CHECK((int64_t)(t1 - t0) >= (int64_t)to * 1000000 - 300000, "early-timeout", "timeout of %u ms after %lld ns", to, (long long)(t1 - t0));
			uint64_t lc = lastCommitNs;
			if (!lossy && to >= 4000 && committed > cons && t1 > lc + 1000000000ull)
				vf_fail("missed-wakeup", "a frame committed %llu ms ago did not wake the consumer", (long long)((t1 - lc) / 1000000));
			if (done && have <= cons && ++idle > 2) break;
			if (done && lossy && ++idle > 3) break;
			continue;
		}
		uint64_t id = check(f);
		VF_CHECK(id <= started, "unknown-frame", "frame %llu was never committed", (long long)id);
		VF_CHECK(id > lastSeen, id == lastSeen ? "duplicate" : "order", "frame %llu after frame %llu", (long long)id, (long long)lastSeen);
		VF_CHECK(lossy || id == lastSeen + 1, "lost", "frame %llu follows frame %llu", (long long)id, (long long)lastSeen);
		if (vf_chance(15)) {
			BUF_putFrame(f); ++putBacks; /* comes again (unless flushed or discarded) */
		} else {
			if (vf_chance(20)) { dl(0); VF_CHECK(check(f) == id, "overwritten", "frame %llu was overwritten while being consumed", (long long)id); }
			lastSeen = id; BUF_releaseFrame(f);
			++consumed;
		}
	}
	return NULL;
}
static void * flusher(void *)
{
	inj_thread(3, caseSeed); vf_thread_seed(3);
	while (!stopAll) { if (vf_chance(50)) { BUF_flush(); ++flushes; } BUFFER_Statistics s; BUFFER_getStatistics(&s); usleep(vf_below(800)); }
	return NULL;
}
static void * collector(void *) { isGc = true; inj_thread(4, caseSeed); BUF_comp.main(); return NULL; }
static void * gcman(void *) { inj_thread(5, caseSeed); vf_thread_seed(5); while (!stopAll) { BUF_runGC(); usleep(vf_below(600)); } return NULL; }
static void * stat(void *) { inj_thread(6, caseSeed); vf_thread_seed(6); while (!stopAll) { BUFFER_Statistics s; BUFFER_getStatistics(&s);
	VF_CHECK(s.queueSize <= s.maxQueueSize + 1, "stat-inconsistent", "queue %llu, max %llu", (long long)s.queueSize, (long long)s.maxQueueSize); usleep(vf_below(600)); } return NULL; }

void vf_init() { CFG_registerSection(BUF_comp.config); log_stub_trace = 0; }
void vf_case(uint64_t)
{
	CFG_loadDefaults();
	bool hist = vf_chance(70);
	bool fl = vf_chance(30), small = vf_chance(30);
	nProd = vf_range(20, 600);
	uint32_t S = small ? vf_range(2, 8) : hist ? vf_range(2, 30) : nProd + 3, D = vf_range(1, 20), I = small ? vf_below(3) : 0;
	if (hist && !small) I = (nProd + 5) / D + 1;
	lossy = fl || small;
	CFG_setInteger("BUFFER", "StaticBacklog", S); CFG_setInteger("BUFFER", "DynamicBacklog", D); CFG_setInteger("BUFFER", "DynamicIncrements", I);
	CFG_setInteger("BUFFER", "GCLevel", vf_range(1, 3)); CFG_setBoolean("BUFFER", "History", hist); CFG_setBoolean("BUFFER", "GC", true);
	CFG_setInteger("BUFFER", "GCInterval", 1);
	if (BUF_comp.config->fix) BUF_comp.config->fix(BUF_comp.config);
	VF_CHECK(BUF_comp.onConstruct(), "construct", "construction failed");
	BUF_comp.onReset();
	started = committed = consumed = 0; prodDone = stopAll = consStop = false; lastSeen = putBacks = timeouts = 0; flushes = 0; lastCommitNs = 0; gcSleeps = 0;
	inj_hash = 1; inj_events = 0; inj_level = (int[]){0, 10, 30, 70}[vf_below(4)]; inj_max_us = (unsigned[]){5, 50, 300}[vf_below(3)];
	coarse = vf_chance(50) ? vf_chance(80) ? 1000000 : 4000000 : 0; if (coarse) vf_count("coarse_clock", 1);
	slowProd = vf_chance(50); caseSeed = vf_rnd();
	pthread_t p, c, f, g, m, s; bool gm = vf_chance(40), withStat = vf_chance(50), withGc = hist && vf_chance(70);
	pthread_create(&c, NULL, consumer, NULL); pthread_create(&p, NULL, producer, NULL);
	if (fl) pthread_create(&f, NULL, flusher, NULL);
	if (withGc) pthread_create(&g, NULL, collector, NULL);
	if (gm) pthread_create(&m, NULL, gcman, NULL);
	if (withStat) pthread_create(&s, NULL, stat, NULL);
	/* the consumer may be stopped while waiting, another one takes over */
	unsigned stops = vf_chance(30) ? 1 + vf_below(3) : 0;
	for (unsigned i = 0; i < stops; ++i) { usleep(vf_below(4000)); consStop = true; pthread_join(c, NULL); consStop = false; pthread_create(&c, NULL, consumer, NULL); }
	pthread_join(p, NULL); pthread_join(c, NULL);
	stopAll = true;
	if (fl) pthread_join(f, NULL);
	if (gm) pthread_join(m, NULL);
	if (withStat) pthread_join(s, NULL);
	if (withGc) { pthread_cancel(g); pthread_join(g, NULL); }
	BUFFER_Statistics st; BUFFER_getStatistics(&st);
	if (!lossy) {
		VF_CHECK(st.discardedAll == 0, "early-discard", "%llu frames discarded though there is room for all", (long long)st.discardedAll);
		VF_CHECK(consumed == nProd && st.queueSize == 0, "lost", "%llu committed, %llu consumed, %llu queued", (long long)nProd, (long long)consumed, (long long)st.queueSize);
	}
	if (!fl) VF_CHECK(consumed + st.discardedAll + st.queueSize == nProd, "conservation", "%llu committed, %llu consumed, %llu discarded, %llu queued", (long long)nProd, (long long)consumed, (long long)st.discardedAll, (long long)st.queueSize);
	VF_CHECK(st.flushes == flushes, "flush-count", "%llu flushes counted, %llu made", (long long)st.flushes, (long long)flushes);
	/* cancellation of a consumer blocked on an empty queue; the buffer stays usable */
	if (vf_chance(30)) {
		BUF_flush();
		pthread_create(&c, NULL, vf_chance(50) ? (void*(*)(void*))[](void *) -> void * { BUF_getFrame(); return NULL; } : (void*(*)(void*))[](void *) -> void * { BUF_getFrameTimeout(20000); return NULL; }, NULL);
		usleep(vf_below(1000));
		pthread_cancel(c); void * r; pthread_join(c, &r);
		VF_CHECK(r == PTHREAD_CANCELED, "not-cancelled", "waiting consumer returned instead of being cancelled");
		OPENSKY_RawFrame * x = BUF_newFrame(); fill(x, 7); BUF_commitFrame(x);
		const OPENSKY_RawFrame * y = BUF_getFrame(); VF_CHECK(y == x && check(y) == 7, "after-cancel", "wrong frame after a cancelled wait"); BUF_releaseFrame(y);
		vf_count("cancelled_waits", 1);
	}
	BUF_flush(); BUF_runGC();
	BUFFER_getStatistics(&st);
	VF_CHECK(st.poolSize == S && st.dynPools == 0, "frame-leak", "after flush and collection %llu of %u static frames and %llu dynamic pools remain", (long long)st.poolSize, S, (long long)st.dynPools);
	BUF_comp.onDestruct();
	vf_count("eval", 1); vf_count("frames_consumed", consumed); vf_count("discarded", st.discardedAll); vf_count("put_backs", putBacks); vf_count("timeouts", timeouts);
	vf_count("flushes", flushes); vf_count("sync_events", inj_events); vf_count("collector_rounds", gcSleeps); vf_count("pools_created", st.dynPoolsAll); vf_count("uncollected", st.uncollectedPools);
	vf_distinct(inj_hash);
	if (vf_want_sample()) vf_sample("%llu frames, static %u, dynamic %u x %u, flush %d gc %d/%d: consumed %llu discarded %llu put back %llu, %lu lock events, interleaving %016llx",
		(long long)nProd, S, I, D, fl, withGc, gm, (long long)consumed, (long long)st.discardedAll, (long long)putBacks, inj_events, (long long)inj_hash);
}
