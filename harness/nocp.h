// Builds without cancellation points (--without-pthreadCancellationPoints) pause by waiting on a condition: such a wait of whole seconds is a pause, too
#ifndef NOCP_H
#define NOCP_H
#include <config.h>
#ifndef PTHREAD_CANCELLATION_POINTS
#include <pthread.h>
#include <errno.h>
#include <time.h>
extern "C" unsigned __wrap_sleep(unsigned);
extern "C" int __real_pthread_cond_timedwait(pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
extern "C" int __wrap_pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, const struct timespec * t)
{
	struct timespec n; clock_gettime(CLOCK_REALTIME, &n); long ms = (t->tv_sec - n.tv_sec) * 1000 + (t->tv_nsec - n.tv_nsec) / 1000000;
	if (ms < 3000) return __real_pthread_cond_timedwait(c, m, t);
	__wrap_sleep((ms + 500) / 1000); return ETIMEDOUT;
}
#ifdef VF_SELECT_READY
#include <sys/select.h>
// waiting is the business of the transfer which follows; sometimes the wait is long
extern "C" int __wrap_select(int n, fd_set * r, fd_set * w, fd_set *, struct timeval *)
{
	static unsigned k; int rc = 0; bool late = ++k % 3 == 0;
	for (int f = 0; f < n; ++f) for (fd_set * s : { r, w }) if (s && FD_ISSET(f, s)) { if (late) FD_CLR(f, s); else ++rc; }
	return rc;
}
#elif defined(VF_SELECT)
// like TCP sockets and unlike the UNIX ones used here, a socket which is shut down counts as writable; long waits are shortened
#include <poll.h>
#include <sys/select.h>
extern "C" int __wrap_select(int n, fd_set * r, fd_set * w, fd_set *, struct timeval * t)
{
	struct pollfd p[64]; int k = 0; bool in[64];
	for (int f = 0; f < n && k < 64; ++f) if ((r && FD_ISSET(f, r)) || (w && FD_ISSET(f, w))) { in[k] = r && FD_ISSET(f, r); p[k].fd = f; p[k].events = (in[k] ? POLLIN : 0) | (w && FD_ISSET(f, w) ? POLLOUT : 0); p[k++].revents = 0; }
	long ms = t ? t->tv_sec * 1000 + t->tv_usec / 1000 : -1; if (ms > 100) ms = 1 + ms / 1000;
	int rc = poll(p, k, ms); if (rc < 0) return rc;
	rc = 0; for (int i = 0; i < k; ++i) { if (p[i].revents & POLLNVAL) { errno = EBADF; return -1; } if (!p[i].revents) { if (r) FD_CLR(p[i].fd, r); if (w) FD_CLR(p[i].fd, w); } else ++rc; }
	return rc;
}
#endif
#endif
#endif
