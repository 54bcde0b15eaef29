#include "vf.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <sys/mman.h>
#include <pthread.h>
#include <map>
#include <string>
#include <vector>
#include <unordered_set>

static pthread_mutex_t mtx = PTHREAD_MUTEX_INITIALIZER;
static std::map<std::string, uint64_t> * counters, * maxes;
static std::unordered_set<uint64_t> * distinct;
static std::vector<std::string> * samples;
static std::map<std::string, std::string> * opts;
#ifndef VF_SALT // stages which share a harness draw different cases
#define VF_SALT 0
#endif
static uint64_t g_seed, g_case, g_from, g_to;
static const char * g_out;
static volatile uint64_t * progress; /* [0] case, [1] ticks */
static __thread struct vf_rng t_rng;
static uint64_t curCaseKey;

enum { RING = 400, RLEN = 200 };
static char ring[RING][RLEN];
static unsigned ringPos;

static uint64_t mix(uint64_t z)
{
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
	return z ^ (z >> 31);
}
extern "C" uint64_t vf_rng_next(struct vf_rng * r)
{
	return mix(r->s += 0x9e3779b97f4a7c15ULL);
}
extern "C" void vf_rng_seed(struct vf_rng * r, uint64_t a, uint64_t b)
{
	r->s = mix(a * 0x9e3779b97f4a7c15ULL + 1) ^ mix(b + 0x1234567);
}
extern "C" uint64_t vf_rnd(void) { return vf_rng_next(&t_rng); }
extern "C" uint64_t vf_below(uint64_t n) { return n ? vf_rnd() % n : 0; }
extern "C" int64_t vf_range(int64_t lo, int64_t hi)
{
	return lo + (int64_t)vf_below((uint64_t)(hi - lo) + 1);
}
extern "C" bool vf_chance(unsigned p) { return vf_below(100) < p; }
extern "C" void vf_thread_seed(uint64_t stream)
{
	vf_rng_seed(&t_rng, curCaseKey, stream + 77);
}
extern "C" uint64_t vf_seed(void) { return g_seed; }
extern "C" uint64_t vf_caseno(void) { return g_case; }
extern "C" const char * vf_opts(const char * name, const char * def)
{
	auto it = opts->find(name);
	return it == opts->end() ? def : it->second.c_str();
}
extern "C" long vf_opt(const char * name, long def)
{
	auto it = opts->find(name);
	return it == opts->end() ? def : atol(it->second.c_str());
}
extern "C" void __msan_scoped_disable_interceptor_checks(void) __attribute__((weak));
extern "C" void __msan_scoped_enable_interceptor_checks(void) __attribute__((weak));
struct Trusted { // what the runtime itself passes to libc is not subject of MemorySanitizer
	Trusted() { if (__msan_scoped_disable_interceptor_checks) __msan_scoped_disable_interceptor_checks(); }
	~Trusted() { if (__msan_scoped_enable_interceptor_checks) __msan_scoped_enable_interceptor_checks(); }
};
struct Lock {
	Trusted t; int o;
	Lock() { pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &o); pthread_mutex_lock(&mtx); }
	~Lock() { pthread_mutex_unlock(&mtx); pthread_setcancelstate(o, NULL); }
};
extern "C" void vf_count(const char * name, uint64_t n) { Lock l; (*counters)[name] += n; }
extern "C" void vf_max(const char * name, uint64_t v)
{
	Lock l; uint64_t & m = (*maxes)[name]; if (v > m) m = v;
}
extern "C" void vf_distinct(uint64_t h) { Lock l; distinct->insert(h); }
extern "C" uint64_t vf_hash(const void * p, size_t n, uint64_t h)
{
	const uint8_t * b = (const uint8_t *)p;
	h ^= 0xcbf29ce484222325ULL;
	for (size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 0x100000001b3ULL;
	return mix(h);
}
extern "C" bool vf_want_sample(void) { Lock l; return samples->size() < 3; }
extern "C" void vf_sample(const char * fmt, ...)
{
	char buf[600];
	va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
	Lock l;
	if (samples->size() < 3) samples->push_back(buf);
}
extern "C" void vf_trace(const char * fmt, ...)
{
	char buf[RLEN];
	va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
	Lock l;
	memcpy(ring[ringPos++ % RING], buf, RLEN);
}
static std::string esc(const std::string & s)
{
	std::string o;
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
		else o += c;
	}
	return o;
}
static void summary(bool done)
{
	std::string tmp = std::string(g_out) + ".sum.tmp";
	FILE * f = fopen(tmp.c_str(), "w");
	if (!f) return;
	fprintf(f, "{\"done\":%s,\"next\":%llu,\"counters\":{", done ? "true" : "false",
		(unsigned long long)g_case + 1);
	const char * s = "";
	for (auto & c : *counters) { fprintf(f, "%s\"%s\":%llu", s, esc(c.first).c_str(), (unsigned long long)c.second); s = ","; }
	fprintf(f, "},\"maxes\":{"); s = "";
	for (auto & c : *maxes) { fprintf(f, "%s\"%s\":%llu", s, esc(c.first).c_str(), (unsigned long long)c.second); s = ","; }
	fprintf(f, "},\"samples\":["); s = "";
	for (auto & c : *samples) { fprintf(f, "%s\"%s\"", s, esc(c).c_str()); s = ","; }
	fprintf(f, "]}\n");
	fclose(f);
	rename(tmp.c_str(), (std::string(g_out) + ".sum").c_str());
	f = fopen((std::string(g_out) + ".dist").c_str(), "wb");
	if (f) {
		for (uint64_t h : *distinct) fwrite(&h, 8, 1, f);
		fclose(f);
	}
}
static void record(const char * key, const char * msg)
{
	Lock l;
	FILE * f = fopen((std::string(g_out) + ".viol").c_str(), "a");
	if (!f) return;
	std::string tr;
	unsigned n = ringPos < RING ? ringPos : RING;
	for (unsigned i = ringPos - n; i != ringPos; ++i) { tr += ring[i % RING]; tr += "\n"; }
	fprintf(f, "{\"key\":\"%s\",\"case\":%llu,\"msg\":\"%s\",\"trace\":\"%s\"}\n", esc(key).c_str(),
		(unsigned long long)g_case, esc(msg).c_str(), esc(tr).c_str());
	fclose(f);
}
extern "C" void vf_viol(const char * key, const char * fmt, ...)
{
	char buf[4000];
	va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
	record(key, buf);
}
extern "C" void vf_fail(const char * key, const char * fmt, ...)
{
	char buf[4000];
	va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
	record(key, buf);
	{ Lock l; summary(false); }
	_exit(10);
}
extern "C" void vf_inconclusive(const char * why)
{
	vf_count((std::string("inconclusive:") + why).c_str(), 1);
}
extern "C" void vf_tick(void) { __atomic_add_fetch(&progress[1], 1, __ATOMIC_RELAXED); }
extern "C" const char * vf_hex(const void * p, size_t n)
{
	static char bufs[4][1100];
	static int k;
	char * b = bufs[k++ & 3];
	size_t m = n > 500 ? 500 : n, o = 0;
	for (size_t i = 0; i < m; ++i) o += snprintf(b + o, 3, "%02x", ((const uint8_t*)p)[i]);
	b[o] = 0;
	if (m < n) snprintf(b + o, 30, "..(%zu)", n);
	return b;
}
extern "C" uint64_t vf_now_ns(void)
{
	struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
	return ts.tv_sec * 1000000000ULL + ts.tv_nsec;
}

int main(int argc, char ** argv)
{
	counters = new std::map<std::string, uint64_t>;
	maxes = new std::map<std::string, uint64_t>;
	distinct = new std::unordered_set<uint64_t>;
	samples = new std::vector<std::string>;
	opts = new std::map<std::string, std::string>;
	g_to = 1;
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		auto val = [&]() { return i + 1 < argc ? argv[++i] : (char *)""; };
		if (a == "--seed") g_seed = strtoull(val(), 0, 10);
		else if (a == "--from") g_from = strtoull(val(), 0, 10);
		else if (a == "--to") g_to = strtoull(val(), 0, 10);
		else if (a == "--out") g_out = val();
		else if (a == "--opt") {
			std::string o = val(); size_t e = o.find('=');
			(*opts)[o.substr(0, e)] = e == std::string::npos ? "1" : o.substr(e + 1);
		}
	}
	if (!g_out) g_out = "/tmp/vf.out";
	int fd; { Trusted t; fd = open((std::string(g_out) + ".prog").c_str(), O_RDWR | O_CREAT | O_CLOEXEC, 0644); }
	if (fd < 0 || ftruncate(fd, 4096)) { perror("progress"); return 2; }
	progress = (volatile uint64_t *)mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	close(fd);
	vf_init();
	for (g_case = g_from; g_case < g_to; ++g_case) {
		progress[0] = g_case;
		vf_tick();
		curCaseKey = mix(g_seed * 1000003 + 17 + VF_SALT) ^ mix(g_case + 99);
		vf_rng_seed(&t_rng, curCaseKey, 0);
		ringPos = 0;
		vf_case(g_case);
	}
	g_case = g_to - 1;
	{ Lock l; summary(true); }
	fflush(NULL);
	_exit(0);
}
// a failed assertion of the code under test is a violation with a trace
extern "C" void __assert_fail(const char * expr, const char * file, unsigned line, const char * func) throw()
{
	int o; pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &o);
	char k[160]; snprintf(k, sizeof k, "assert:%s:%.60s", func, expr);
	vf_fail(k, "%s:%u: %s: Assertion `%s' failed", file, line, func, expr);
}
