// In-process network for the real core/network.c: NETC_connect hands out socket pairs whose peer is a scripted server;
// send/recv/shutdown/close/sleep of the code under test are interposed (descriptor discipline, partial transfers, faults).
// Needs --wrap of: send recv shutdown close sleep pthread_mutex_lock pthread_mutex_unlock pthread_cond_broadcast
#ifndef FAKENET_H
#define FAKENET_H
#include <config.h>
#include "inject.h"
#include <sys/socket.h>
#include <sys/types.h>
#include <poll.h>
#include <errno.h>
#include <fcntl.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <vector>
#include <atomic>
#include <set>
#include <algorithm>
extern "C" {
#include "util/net_common.h"
int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_cond_broadcast(pthread_cond_t *);
ssize_t __real_send(int, const void *, size_t, int); ssize_t __real_recv(int, void *, size_t, int);
int __real_shutdown(int, int); int __real_close(int); unsigned __real_sleep(unsigned);
}
static inline void dl(int op) { if (!inj_id) return; int o; pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &o); inj_point(op); pthread_setcancelstate(o, NULL); }
extern "C" int __wrap_pthread_mutex_lock(pthread_mutex_t * m) { dl(1); int r = __real_pthread_mutex_lock(m); inj_log(1); return r; }
extern "C" int __wrap_pthread_mutex_unlock(pthread_mutex_t * m) { inj_log(2); int r = __real_pthread_mutex_unlock(m); dl(2); return r; }
extern "C" int __wrap_pthread_cond_broadcast(pthread_cond_t * c) { int r = __real_pthread_cond_broadcast(c); inj_log(3); return r; }

namespace fn {
typedef std::vector<uint8_t> Bytes;
enum Kill { K_NONE, K_SHUTWR, K_CLOSE, K_SHUTRDWR };
struct Plan {
	bool accept = true;
	Kill kill = K_NONE; long killBytes = -1; long killUs = -1; // whichever comes first
	long failSend = -1, failRecv = -1; // client calls fail after so many bytes
	int partial = 30;                  // percent of sends accepting only a part
	bool slow = false;                 // server reads slowly
	long txBytes = 0;                  // bytes the server sends at random times (pattern), if no script
	Bytes tx;                          // bytes the server sends, in random chunks
	bool patternTx = true;
	long hangUs = 0;                   // connecting takes so long (cancelable)
	long stallAfter = -1;              // server stops reading after so many bytes
};
struct Conn {
	int id, cfd, sfd; Plan p; Bytes rx; bool lossy = false, eof = false; // lossy: server threw bytes away
	std::atomic<bool> dead{false}; std::atomic<long> nrx{0};
	Bytes acc; // bytes accepted by the kernel
	long stopAt = -1; // begin of the message whose sender was stopped in the middle
	pthread_t th; uint64_t seed;
	std::atomic<bool> killNow{false};
	Bytes txq; // extra bytes to send, guarded by the lock
	long txSent = 0;
};
struct FD { int state = 0; Conn * c = NULL; int inuse = 0; };
enum { MAXFD = 4096 };
static FD fds[MAXFD];
static std::vector<Conn *> conns;
static pthread_mutex_t L = PTHREAD_MUTEX_INITIALIZER;
struct Lk { int o; Lk() { pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &o); __real_pthread_mutex_lock(&L); } ~Lk() { __real_pthread_mutex_unlock(&L); pthread_setcancelstate(o, NULL); } };
static int nullfd = -1;
static std::atomic<unsigned> attempts; static unsigned fails, sleeps, pausesSince; static bool lastFailed;
static std::atomic<bool> calm; // from now on everything is accepted and stays up
static Plan (*plan)(unsigned attempt);
static void (*onSleep)(unsigned);
static void (*onAccepted)(Conn *, const uint8_t *, size_t); // with the lock held
static void (*onShutdown)(int fd); // ditto, before its state changes
static void (*onConnected)(Conn *); // ditto
static int netId; // injection id of the thread whose pauses count (0: any)
static __thread long callStart = -1; static __thread Bytes * callBytes; static __thread std::set<int> * callFds; // what the running call transferred
static std::atomic<uint64_t> sends, partials, recvs, kills, injected;
static std::atomic<unsigned> cancelOrder; // cancellation orders, but TSan does not know
static unsigned pauseUs = 300;
static long wantPause = 10;
static inline uint8_t pat(int conn, long i) { uint64_t z = (uint64_t)conn * 0x9e3779b97f4a7c15ULL + i; z ^= z >> 29; z *= 0xbf58476d1ce4e5b9ULL; z ^= z >> 32; return z; }

// cancelled only between system calls: neither half-done transfers nor confused sanitizers
static void napC(unsigned us)
{
	pthread_testcancel();
	int o; pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &o); usleep(us); pthread_setcancelstate(o, NULL);
	pthread_testcancel();
}
static void pollC(int fd, short ev)
{
	int rc;
	do {
		pthread_testcancel();
		int o; pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &o);
		pollfd pf = { fd, ev, 0 }; rc = poll(&pf, 1, 1);
		pthread_setcancelstate(o, NULL);
		pthread_testcancel();
	} while (rc == 0);
}
static void doKill(Conn * c, Kill k)
{
	kills++;
	switch (k) {
	case K_SHUTWR: __real_shutdown(c->sfd, SHUT_WR); break;
	case K_CLOSE: c->lossy = true; __real_shutdown(c->sfd, SHUT_RDWR); break; // descriptor itself is closed at the end
	case K_SHUTRDWR: c->lossy = true; __real_shutdown(c->sfd, SHUT_RDWR); break;
	default: break;
	}
}
static void * server(void * a)
{
	Conn * c = (Conn *)a;
	vf_rng r; vf_rng_seed(&r, c->seed, c->id);
	uint64_t t0 = vf_now_ns(); bool killed = false; long txDone = 0;
	uint8_t b[4096];
	while (true) {
		pollfd pf = { c->sfd, POLLIN, 0 };
		Bytes q; { Lk l; q.swap(c->txq); }
		if (!q.empty() && !killed) { size_t o = 0; while (o < q.size()) { ssize_t n = __real_send(c->sfd, q.data() + o, q.size() - o, MSG_NOSIGNAL); if (n <= 0) break; o += n; } }
		bool more = !killed && txDone < (c->p.patternTx ? c->p.txBytes : (long)c->p.tx.size());
		int rc = poll(&pf, 1, more ? 0 : 1);
		if (more && (vf_rng_next(&r) % 3 || !rc)) {
			uint8_t t[64]; size_t n = 1 + vf_rng_next(&r) % (vf_rng_next(&r) % 2 ? 63 : 4);
			long tot = c->p.patternTx ? c->p.txBytes : (long)c->p.tx.size();
			if ((long)n > tot - txDone) n = tot - txDone;
			for (size_t i = 0; i < n; ++i) t[i] = c->p.patternTx ? pat(c->id, txDone + i) : c->p.tx[txDone + i];
			ssize_t s = __real_send(c->sfd, t, n, MSG_NOSIGNAL | MSG_DONTWAIT);
			if (s > 0) { txDone += s; c->txSent = txDone; }
			else if (s < 0 && errno != EAGAIN) txDone = tot;
			if (vf_rng_next(&r) % 4 == 0) usleep(vf_rng_next(&r) % 300);
		}
		if (rc > 0 && c->p.stallAfter >= 0 && (long)c->rx.size() >= c->p.stallAfter && !calm && !c->killNow) { usleep(300); rc = 0; }
		if (rc > 0) {
			size_t w = sizeof b;
			if (c->p.slow) { usleep(vf_rng_next(&r) % 500); w = 1 + vf_rng_next(&r) % 200; }
			ssize_t n = __real_recv(c->sfd, b, w, MSG_DONTWAIT);
			if (n == 0 || (n < 0 && errno != EAGAIN)) { c->eof = n == 0; break; }
			if (n > 0) { Lk l; c->rx.insert(c->rx.end(), b, b + n); c->nrx += n; }
		}
		bool quiet = calm;
		if (!killed && (c->killNow || (!quiet && c->p.kill != K_NONE &&
			((c->p.killBytes >= 0 && (long)c->rx.size() >= c->p.killBytes) || (c->p.killUs >= 0 && (long)((vf_now_ns() - t0) / 1000) >= c->p.killUs))))) {
			killed = true;
			doKill(c, c->p.kill == K_NONE ? K_SHUTWR : c->p.kill);
			if (c->lossy) break;
		}
	}
	c->dead = true;
	return NULL;
}
static void checkFd(int fd, const char * what)
{
	if (fd < 0 || fd >= MAXFD || !fds[fd].state) vf_fail("foreign-descriptor", "%s on descriptor %d which is no connection", what, fd);
	if (fds[fd].state == 3) vf_fail("closed-descriptor", "%s on descriptor %d after it was closed", what, fd);
}
struct Use { int fd; Use(int f) : fd(f) { Lk l; fds[fd].inuse++; } ~Use() { Lk l; fds[fd].inuse--; } };
static void reset()
{
	{ Lk l; for (Conn * c : conns) __real_shutdown(c->sfd, SHUT_RDWR); }
	for (Conn * c : conns) { pthread_join(c->th, NULL); __real_close(c->sfd); __real_close(c->cfd); fds[c->cfd] = FD(); delete c; }
	conns.clear(); attempts = 0; fails = sleeps = pausesSince = 0; lastFailed = false; calm = false;
}
static void restarted() { Lk l; lastFailed = false; pausesSince = 0; }
static unsigned openCount() { Lk l; unsigned n = 0; for (Conn * c : conns) if (fds[c->cfd].state != 3) ++n; return n; }
static Conn * current() { Lk l; return conns.empty() ? NULL : conns.back(); }
}

extern "C" ssize_t __wrap_send(int fd, const void * b, size_t n, int fl)
{
	using namespace fn;
	if (fd == -1) { dl(4); errno = EBADF; return -1; }
	size_t want = n; Conn * c; bool fail = false;
	pthread_testcancel(); // a pending cancellation is acted upon before anything is done with the descriptor
	{ Lk l; checkFd(fd, "send"); c = fds[fd].c;
		if (c->p.failSend >= 0 && !calm) { long left = c->p.failSend - (long)c->acc.size(); if (left <= 0) fail = true; else if ((long)want > left) want = left; } }
	sends++;
	if (n > 1 && inj_id && (int)(inj_rnd() % 100) < c->p.partial) want = std::min(want, (size_t)(1 + inj_rnd() % (n - 1)));
	{ volatile uint8_t x = 0; for (size_t i = 0; i < n; ++i) x += ((const uint8_t *)b)[i]; (void)x; } // the caller must own it all
	dl(4);
	if (fail) { pthread_testcancel(); injected++; errno = ECONNRESET; return -1; }
	Use u(fd);
	uint8_t * copy = (uint8_t *)alloca(want + 1); memcpy(copy, b, want);
	ssize_t r; int e;
	while (true) { // cancelled either before anything is accepted or not at all
		pollC(fd, POLLOUT);
		int o; pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &o);
		r = __real_send(fd, b, want, fl | MSG_NOSIGNAL | MSG_DONTWAIT); e = errno;
		if (r < 0 && e == EAGAIN) usleep(100);
		if (r > 0) { Lk l; if (callBytes && callBytes->empty()) callStart = c->acc.size(); c->acc.insert(c->acc.end(), copy, copy + r); if (onAccepted) onAccepted(c, copy, r); }
		if (r > 0 && callBytes) { callBytes->insert(callBytes->end(), copy, copy + r); Lk l; callFds->insert(fd); }
		pthread_setcancelstate(o, NULL);
		if (r >= 0 || e != EAGAIN) break;
	}
	if (r > 0) {
		if ((size_t)r < n) partials++;
	}
	inj_log(r > 0 ? 4 : 5);
	errno = e;
	return r;
}
extern "C" ssize_t __wrap_recv(int fd, void * b, size_t n, int fl)
{
	using namespace fn;
	if (fd == -1) { dl(5); errno = EBADF; return -1; }
	pthread_testcancel();
	Conn * c; { Lk l; checkFd(fd, "recv"); c = fds[fd].c; }
	dl(5);
	Use u(fd);
	size_t w = n; if (n > 1 && inj_id && inj_rnd() % 3 == 0) w = 1 + inj_rnd() % n;
	ssize_t r; int e;
	while (true) {
		pollC(fd, POLLIN);
		int o; pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &o);
		r = __real_recv(fd, b, w, fl | MSG_DONTWAIT); e = errno;
		pthread_setcancelstate(o, NULL);
		if (r >= 0 || e != EAGAIN) break;
	}
	recvs++;
	if (r > 0 && c->p.failRecv >= 0 && !calm && (long)(inj_rnd() % 100) < c->p.failRecv) { injected++; e = ECONNRESET; r = -1; }
	if (r > 0 && callFds) { Lk l; callFds->insert(fd); }
	inj_log(r > 0 ? 6 : 7);
	errno = e;
	return r;
}
extern "C" int __wrap_shutdown(int fd, int how)
{
	using namespace fn;
	{ Lk l; checkFd(fd, "shutdown"); if (onShutdown) onShutdown(fd); fds[fd].state = 2; }
	vf_trace("shutdown %d", fd);
	inj_log(8);
	return __real_shutdown(fd, how);
}
extern "C" int __wrap_close(int fd)
{
	using namespace fn;
	if (!inj_id) return __real_close(fd); // harness and library code
	(void)cancelOrder.load();
	{ Lk l; checkFd(fd, "close"); fds[fd].state = 3;
		if (fds[fd].inuse) vf_fail("close-in-use", "descriptor %d closed while another thread is using it", fd);
		dup2(nullfd, fd); } // keeps the number occupied
	vf_trace("close %d", fd);
	inj_log(9);
	return 0;
}
extern "C" unsigned __wrap_sleep(unsigned s)
{
	using namespace fn;
	if (!inj_id) return __real_sleep(s);
	if (netId && inj_id != netId) { napC(inj_rnd() % 4000); return 0; }
	{ Lk l; ++sleeps; pausesSince += s; }
	if (onSleep) onSleep(s);
	napC(inj_rnd() % (pauseUs + 1)); // a cancellation point
	return 0;
}
#include "nocp.h"
#ifndef FN_OWN_CONNECT
extern "C" sock_t NETC_connect(const char *, const char *, uint16_t)
{
	using namespace fn;
	if (nullfd < 0) nullfd = open("/dev/null", O_RDWR | O_CLOEXEC);
	unsigned a; 
	{ Lk l; a = attempts++;
		for (Conn * c : conns) if (fds[c->cfd].state == 1) vf_fail("second-connection", "connecting although connection %d is still usable", c->id);
		if (a && lastFailed && pausesSince < wantPause) vf_fail("no-pause", "attempt %u follows a failed one after a pause of %u s", a, pausesSince);
		if (a && !lastFailed && pausesSince) vf_fail("needless-pause", "paused %u s although the last attempt was successful", pausesSince);
		pausesSince = 0;
	}
	Plan p; if (plan) p = plan(a); if (calm) { p.accept = true; }
	dl(10);
	napC(inj_rnd() % 200); // a cancellation point, as connecting is
	for (uint64_t t0 = vf_now_ns(); p.hangUs && !calm && (long)((vf_now_ns() - t0) / 1000) < p.hangUs; ) napC(500);
	if (!p.accept) { Lk l; lastFailed = true; ++fails; vf_trace("attempt %u refused", a); return -1; }
	Lk l;
	lastFailed = false;
	int sp[2];
	if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, sp)) { vf_inconclusive("no socket"); _exit(2); }
	if (sp[0] >= MAXFD) { _exit(2); }
	int sz = 4608; if (p.slow) setsockopt(sp[0], SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz);
	Conn * c = new Conn; c->id = conns.size(); c->cfd = sp[0]; c->sfd = sp[1]; c->p = p; c->seed = inj_rnd();
	fds[sp[0]].state = 1; fds[sp[0]].c = c; fds[sp[0]].inuse = 0;
	conns.push_back(c);
	if (onConnected) onConnected(c);
	pthread_create(&c->th, NULL, fn::server, c);
	vf_trace("attempt %u: connection %d on %d", a, c->id, sp[0]);
	inj_log(10);
	return sp[0];
}
#endif
#endif
