// C29: NETC_connect against an interposed resolver and socket layer.
#include <config.h>
#include <vector>
#include <string>
#include <set>
#include <map>
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <netdb.h>
#include <pthread.h>
#include <semaphore.h>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include "vf.h"
extern "C" {
#include "util/net_common.h"
#include "log_stub.h"
void * __real_malloc(size_t); void __real_free(void *); int __real_close(int);
}
typedef std::string Str;
struct Addr { int fam; Str bin; bool sockFail; int connErr; int scope; };
static std::vector<Addr> A; static Str wantHost; static uint16_t wantPort; static int gaiErr; static int parkAt; /* -1 never, 0 in the resolver, k: in connect k */
static __thread bool code;
static addrinfo * list; static bool listLive; static std::map<void *, size_t> blocks; static std::set<int> fds; static int conn, okFd; static std::vector<int> tried; static std::map<int, int> fdOf; static Str bad;
static sem_t parked; static bool isParked; static Str order;
static void note(const Str & s) { if (bad.empty()) bad = s; }
static void park(void) { isParked = true; sem_post(&parked); code = true; for (;;) { timespec t = { 1, 0 }; nanosleep(&t, NULL); } }
extern "C" {
void * __wrap_malloc(size_t n) { void * p = __real_malloc(n); if (code) { code = false; blocks[p] = n; code = true; } return p; }
void * __wrap_calloc(size_t m, size_t n) { void * p = __real_malloc(m * n); memset(p, 0, m * n); if (code) { code = false; blocks[p] = m * n; code = true; } return p; }
void __wrap_free(void * p) { if (p) { bool c = code; code = false; blocks.erase(p); code = c; } __real_free(p); }
static sockaddr * mkaddr(const Addr & a, socklen_t & len)
{
	len = a.fam == AF_INET ? sizeof(sockaddr_in) : a.fam == AF_INET6 ? sizeof(sockaddr_in6) : 8 + a.bin.size();
	void * p = __real_malloc(len); memset(p, 0, len); ((sockaddr *)p)->sa_family = a.fam;
	if (a.fam == AF_INET) memcpy(&((sockaddr_in *)p)->sin_addr, a.bin.data(), 4);
	else if (a.fam == AF_INET6) { memcpy(&((sockaddr_in6 *)p)->sin6_addr, a.bin.data(), 16); ((sockaddr_in6 *)p)->sin6_scope_id = a.scope; }
	else memcpy((char *)p + 2, a.bin.data(), a.bin.size());
	return (sockaddr *)p;
}
int __wrap_getaddrinfo(const char * host, const char * serv, const addrinfo * h, addrinfo ** res)
{
	bool c = code; code = false;
	if (!host || host != wantHost) note("resolved '" + Str(host ? host : "(null)") + "' instead of '" + wantHost + "'");
	if (serv) note("service given"); if (h && (h->ai_socktype != SOCK_STREAM || (h->ai_family != AF_UNSPEC))) note("resolver hints restrict to family " + std::to_string(h->ai_family) + ", type " + std::to_string(h->ai_socktype));
	if (listLive) note("resolved again without releasing the list");
	if (parkAt == 0) park();
	if (gaiErr) { code = c; return gaiErr; }
	addrinfo ** p = res; for (auto & a : A) { addrinfo * i = (addrinfo *)__real_malloc(sizeof *i); memset(i, 0, sizeof *i); i->ai_family = a.fam; i->ai_socktype = SOCK_STREAM; i->ai_protocol = IPPROTO_TCP; i->ai_addr = mkaddr(a, i->ai_addrlen); *p = i; p = &i->ai_next; }
	*p = NULL; list = *res; listLive = true; code = c; return 0;
}
void __wrap_freeaddrinfo(addrinfo * a)
{
	if (a != list || !listLive) { note("released an address list which is not the live one"); return; }
	listLive = false; while (a) { addrinfo * n = a->ai_next; __real_free(a->ai_addr); __real_free(a); a = n; }
}
int __real_rand(void);
static std::vector<int> extremes; // of the random numbers of this case
int __wrap_rand(void) { int r = __real_rand(); if (!code || extremes.empty()) return r; code = false; if (extremes.back() >= 0) r = extremes.back(); extremes.pop_back(); code = true; return r; }
static int sockFam[1024];
static size_t failSock; static int sockCalls;
int __wrap_socket(int fam, int type, int proto)
{
	bool c = code; code = false; ++sockCalls;
	if (fam != AF_INET && fam != AF_INET6) note("socket of family " + std::to_string(fam));
	if ((type & ~(SOCK_CLOEXEC)) != SOCK_STREAM) note("socket of type " + std::to_string(type)); if (proto && proto != IPPROTO_TCP) note("protocol " + std::to_string(proto));
	if (!(type & SOCK_CLOEXEC)) note("socket would be inherited by started programs");
	if (conn >= 0) note("a further socket is created although one is connected");
	code = c; if (failSock && vf_chance(failSock)) { errno = EMFILE; return -1; }
	int fd = open("/dev/null", O_RDWR); code = false; fds.insert(fd); if (fd < 1024) sockFam[fd] = fam; code = c; return fd;
}
int __wrap_connect(int fd, const sockaddr * sa, socklen_t len)
{
	bool c = code; code = false; int r = -1, e = EINVAL;
	if (!fds.count(fd)) note("connect on descriptor " + std::to_string(fd)); else if (conn >= 0) note("connected again");
	else {
		int best = -1;
		for (size_t i = 0; i < A.size(); ++i) { if (A[i].fam != sa->sa_family || sockFam[fd] != A[i].fam) continue; bool used = false; for (int t : tried) used |= t == (int)i; if (used) continue;
			if (A[i].fam == AF_INET && len == sizeof(sockaddr_in)) { auto s = (const sockaddr_in *)sa; if (!memcmp(&s->sin_addr, A[i].bin.data(), 4) && ntohs(s->sin_port) == wantPort) best = i; }
			if (A[i].fam == AF_INET6 && len == sizeof(sockaddr_in6)) { auto s = (const sockaddr_in6 *)sa; if (!memcmp(&s->sin6_addr, A[i].bin.data(), 16) && ntohs(s->sin6_port) == wantPort && (int)s->sin6_scope_id == A[i].scope) best = i; }
			if (best >= 0) break; }
		if (best < 0) note("connecting to an address which is not one of the host's remaining addresses with the given port");
		else { tried.push_back(best); order += char('a' + best); if (parkAt && (int)tried.size() == parkAt) park(); e = A[best].connErr; if (!e) { r = 0; conn = best; okFd = fd; } }
	}
	errno = e; code = c; return r;
}
int __wrap_close(int fd) { if (code) { code = false; if (!fds.erase(fd)) note("closed descriptor " + std::to_string(fd) + ", which is not its own or already closed"); code = true; } return __real_close(fd); }
}
static sock_t result; static bool ended;
static void codeOff(void *) { code = false; }
static void * thr(void *)
{
	vf_thread_seed(7); std::string host = wantHost; sock_t r;
	pthread_cleanup_push(codeOff, NULL);
	code = true; r = NETC_connect("TEST", host.c_str(), wantPort); code = false;
	pthread_cleanup_pop(0);
	result = r; ended = true; return NULL;
}
static unsigned long first[4][4]; static unsigned long firstTotal[4];
void vf_init(void) { sem_init(&parked, 0, 0); log_stub_trace = 0; }
static const int ERRS[] = { ECONNREFUSED, ETIMEDOUT, ENETUNREACH, EHOSTUNREACH, EACCES, EADDRNOTAVAIL, EINTR };
static uint64_t doCase(bool statistic)
{
	A.clear(); bad.clear(); blocks.clear(); fds.clear(); tried.clear(); order.clear(); conn = -1; okFd = -1; listLive = false; list = NULL; isParked = ended = false; sockCalls = 0; failSock = 0;
	unsigned n = vf_chance(5) ? 0 : 1 + vf_below(7); gaiErr = n == 0 ? (vf_chance(50) ? EAI_NONAME : EAI_AGAIN) : 0; parkAt = -1;
	static const char * const hosts[] = { "localhost", "collector.opensky-network.org", "10.1.2.3", "::1", "%s%n", "" };
	wantHost = hosts[vf_below(6)]; wantPort = vf_chance(30) ? 1 + vf_below(255) : 1 + vf_below(65535);
	unsigned pOk = vf_below(4) * 25;
	for (unsigned i = 0; i < n; ++i) { Addr a; a.fam = vf_chance(15) ? (vf_chance(50) ? AF_UNIX : 77) : vf_chance(50) ? AF_INET : AF_INET6; a.bin.assign(a.fam == AF_INET ? 4 : 16, 0); for (auto & b : a.bin) b = vf_rnd(); a.sockFail = false; a.scope = a.fam == AF_INET6 && vf_chance(30) ? 1 + vf_below(5) : 0; a.connErr = vf_chance(pOk) ? 0 : ERRS[vf_below(7)]; A.push_back(a); }
	if (vf_chance(10) && n > 1) A[1] = A[0]; // the same address twice
	if (vf_chance(15)) failSock = 1 + vf_below(100);
	if (n && vf_chance(15)) parkAt = vf_below(n + 1);
	extremes.clear(); if (!statistic && vf_chance(50)) for (int i = 1 + vf_below(9); i; --i) extremes.push_back(vf_chance(30) ? -1 : vf_chance(80) ? RAND_MAX - (int)vf_below(12) : (int)vf_below(3));
	if (statistic) { A.clear(); failSock = 0; gaiErr = 0; parkAt = -1; for (unsigned i = 0; i < 4; ++i) A.push_back(Addr{ AF_INET, Str("\x7f\0\0", 3) + char(i + 1), false, 0, 0 }); }
	pthread_t t; pthread_create(&t, NULL, thr, NULL);
	bool cancel = false;
	if (parkAt >= 0) { // cancelled while resolving or connecting, if that is reached
		for (;;) { if (sem_trywait(&parked) == 0) { cancel = true; break; } if (__atomic_load_n(&ended, __ATOMIC_SEQ_CST)) break; usleep(50); }
		if (!cancel && sem_trywait(&parked) == 0) cancel = true;
		if (cancel) pthread_cancel(t);
	}
	pthread_join(t, NULL);
	if (!bad.empty()) vf_fail("socket-use", "%s", bad.c_str());
	unsigned usable = 0, good = 0; for (auto & a : A) if (a.fam == AF_INET || a.fam == AF_INET6) { ++usable; good += !a.connErr; }
	if (cancel) { VF_CHECK(fds.empty(), "descriptor-leak", "%zu sockets stay open after the thread was cancelled while %s", fds.size(), parkAt ? "connecting" : "resolving"); vf_count("cancelled", 1); }
	else if (conn >= 0) {
		VF_CHECK(result == okFd && fds.count(okFd) && fds.size() == 1, "result", "returned %d, %zu descriptors open; connected is %d", (int)result, fds.size(), okFd);
		int fl = fcntl(okFd, F_GETFL); VF_CHECK(fl >= 0 && !(fl & O_NONBLOCK), "result", "the socket is closed or non-blocking");
		__real_close(okFd); fds.clear(); vf_count("connected", 1); vf_count("fallbacks", tried.size() - 1);
	} else {
		VF_CHECK(result == -1, "result", "returned %d although no address accepted", (int)result);
		VF_CHECK(fds.empty(), "descriptor-leak", "%zu sockets stay open after failing", fds.size());
		if (!gaiErr) { VF_CHECK(sockCalls == (int)usable, "not-tried", "only %d of %u usable addresses were tried", sockCalls, usable); if (!failSock) VF_CHECK(tried.size() == usable && !good, "not-tried", "%zu of %u usable addresses were tried, %u would accept", tried.size(), usable, good); }
		vf_count("all_failed", 1);
	}
	VF_CHECK(!listLive, "leak", "the address list was not released"); VF_CHECK(blocks.empty(), "leak", "%zu memory blocks were not released", blocks.size());
	if (statistic) { ++first[0][order[0] - 'a']; ++firstTotal[0]; }
	vf_count("attempts", tried.size()); uint64_t h = vf_hash(order.data(), order.size(), wantPort); for (auto & a : A) h = vf_hash(a.bin.data(), a.bin.size(), h);
	return h;
}
void vf_case(uint64_t)
{
	if (vf_chance(2)) { // every address is tried first now and then
		memset(first, 0, sizeof first); for (int i = 0; i < 120; ++i) doCase(true);
		for (int i = 0; i < 4; ++i) VF_CHECK(first[0][i], "order", "of 4 addresses, number %d was never tried first in 120 connections", i);
		vf_count("order_probes", 1);
	}
	uint64_t h = doCase(false); vf_count("eval", 1); vf_distinct(h);
	if (vf_want_sample()) vf_sample("%zu addresses, tried in order %s: %s", A.size(), order.c_str(), conn >= 0 ? "connected" : isParked ? "cancelled" : "failed");
}
