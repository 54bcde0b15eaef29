/* Small harness runtime: seeded case loop, counters, samples, violations. */
#ifndef VF_H
#define VF_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#ifdef __cplusplus
extern "C" {
#endif

/* provided by the harness */
void vf_init(void);               /* once per process */
void vf_case(uint64_t caseno);    /* one case; all randomness from vf_rnd() */

/* splitmix64 stream */
struct vf_rng { uint64_t s; };
uint64_t vf_rng_next(struct vf_rng * r);
void vf_rng_seed(struct vf_rng * r, uint64_t a, uint64_t b);

/* per thread stream of the running case (worker threads: vf_thread_seed) */
uint64_t vf_rnd(void);
uint64_t vf_below(uint64_t n);             /* 0..n-1, 0 if n == 0 */
int64_t vf_range(int64_t lo, int64_t hi);  /* inclusive */
bool vf_chance(unsigned percent);
void vf_thread_seed(uint64_t stream);
uint64_t vf_seed(void);
uint64_t vf_caseno(void);

long vf_opt(const char * name, long def);
const char * vf_opts(const char * name, const char * def);

void vf_count(const char * name, uint64_t n);
void vf_max(const char * name, uint64_t v);
void vf_distinct(uint64_t hash);
uint64_t vf_hash(const void * p, size_t n, uint64_t h);
bool vf_want_sample(void);
void vf_sample(const char * fmt, ...) __attribute__((format(printf, 1, 2)));

/* ring of trace lines printed with a violation */
void vf_trace(const char * fmt, ...) __attribute__((format(printf, 1, 2)));
void vf_fail(const char * key, const char * fmt, ...)
	__attribute__((noreturn, format(printf, 2, 3)));
/* report and go on */
void vf_viol(const char * key, const char * fmt, ...)
	__attribute__((format(printf, 2, 3)));
/* the machine (not the code) prevented a verdict for this case */
void vf_inconclusive(const char * why);
/* tell the watchdog that a long case is still making progress */
void vf_tick(void);
/* print hex into a static buffer */
const char * vf_hex(const void * p, size_t n);
uint64_t vf_now_ns(void);
#define VF_CHECK(c, key, ...) do { if (!(c)) vf_fail(key, __VA_ARGS__); } while (0)

#ifdef __cplusplus
}
#endif
#endif
