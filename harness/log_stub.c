/* Replaces the logging back end: counts records; a fatal record is a violation
 * unless the harness expects it. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <pthread.h>
#include "util/log.h"
#include "vf.h"
#include "log_stub.h"

static unsigned long counts[LOG_LEVEL_EMERG + 1];
void (*log_stub_hook)(int level, const char * prefix, const char * msg);
int log_stub_trace = 1;

unsigned long log_stub_count(int level) { return __atomic_load_n(&counts[level], __ATOMIC_SEQ_CST); }

static void emit(enum LOG_LEVEL level, const char * prefix, const char * msg)
{
	int o;
	pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &o);
	__atomic_add_fetch(&counts[level], 1, __ATOMIC_SEQ_CST);
	if (log_stub_trace) vf_trace("log %d [%s] %s", level, prefix ? prefix : "", msg);
	if (log_stub_hook) log_stub_hook(level, prefix, msg);
	if (level == LOG_LEVEL_EMERG)
		vf_fail("emergency-abort", "the process gave up: [%s] %s", prefix ? prefix : "", msg);
	pthread_setcancelstate(o, NULL);
}
void LOG_log(enum LOG_LEVEL level, const char * prefix, const char * str) { emit(level, prefix, str); }
void LOG_logf(enum LOG_LEVEL level, const char * prefix, const char * fmt, ...)
{
	char b[1000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	emit(level, prefix, b);
}
void LOG_flush(void) {}
#define ERRLIKE(e) char b[1000], c[1200]; int err = (e); va_list ap; va_start(ap, fmt); \
	vsnprintf(b, sizeof b, fmt, ap); va_end(ap); snprintf(c, sizeof c, "%s: errno %d", b, err); emit(level, prefix, c); errno = err;
void LOG_errno(enum LOG_LEVEL level, const char * prefix, const char * fmt, ...) { ERRLIKE(errno) }
void LOG_errno2(enum LOG_LEVEL level, int er, const char * prefix, const char * fmt, ...) { ERRLIKE(er) }
void LOG_errnet(enum LOG_LEVEL level, const char * prefix, const char * fmt, ...) { ERRLIKE(errno) }
