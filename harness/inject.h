/* Delay injection at synchronisation operations, plus a log of their global order. */
#ifndef INJECT_H
#define INJECT_H
#include "vf.h"
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <time.h>
static __thread int inj_id;            /* 0: not injected */
static __thread uint64_t inj_rng;
static int inj_level = 20;             /* percent of operations delayed */
static unsigned inj_max_us = 60;
static uint64_t inj_hash; static unsigned long inj_events;
static inline uint64_t inj_rnd(void) { inj_rng ^= inj_rng << 13; inj_rng ^= inj_rng >> 7; inj_rng ^= inj_rng << 17; return inj_rng; }
static void inj_thread(int id, uint64_t seed) { inj_id = id; inj_rng = seed * 0x9e3779b97f4a7c15ULL + id * 0x1234567ULL + 1; if (!inj_rng) inj_rng = 1; }
static inline void inj_point(int op)
{
	if (!inj_id) return;
	unsigned r = inj_rnd() % 100;
	if ((int)r < inj_level / 2) sched_yield();
	else if ((int)r < inj_level) {
		struct timespec ts = { 0, (long)(inj_rnd() % (inj_max_us * 1000 + 1)) };
		clock_nanosleep(CLOCK_MONOTONIC, 0, &ts, NULL);
	}
	(void)op;
}
/* order of events of the injected threads; racy by design, hence relaxed atomics */
static inline void inj_log(int op)
{
	if (!inj_id) return;
	uint64_t o = __atomic_load_n(&inj_hash, __ATOMIC_RELAXED);
	__atomic_store_n(&inj_hash, (o ^ (inj_id * 16 + op)) * 0x100000001b3ULL, __ATOMIC_RELAXED);
	__atomic_add_fetch(&inj_events, 1, __ATOMIC_RELAXED);
}
#endif
