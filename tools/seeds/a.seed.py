NETSTUB=r'''
'''
seed("s02-buf-slot","C05",
 [("src/core/buffer.c","""	/* deployment */
	if (unlikely(!deployPool(newPool, cfg.dynBacklog))) {
		free(newPool);
		return false;
	}

	/* add pool to the list of dynamic pools */
	LIST_push(&dynPools, LIST_link(newPool, list));
""","""	newPool->links = NULL;
	newPool->size = 0;
	LIST_init(&newPool->collect);

	/* add pool to the list of dynamic pools */
	LIST_push(&dynPools, LIST_link(newPool, list));

	/* deployment. If it fails, the garbage collector will free the (empty)
	 * pool */
	if (unlikely(!deployPool(newPool, cfg.dynBacklog)))
		return false;
""")],
 r'''
#include <stdio.h>
#include <stdlib.h>
#include "core/buffer.h"
#include "util/component.h"
#include "util/cfgfile.h"
#include "core/openskytypes.h"
static int fail;
void * __real_malloc(size_t n);
void * __wrap_malloc(size_t n) { return fail && n > 1000 ? NULL : __real_malloc(n); }
int main()
{
	COMP_register(&BUF_comp);
	CFG_loadDefaults();
	CFG_setInteger("BUFFER", "StaticBacklog", 2);
	CFG_setInteger("BUFFER", "DynamicBacklog", 100);
	CFG_setInteger("BUFFER", "DynamicIncrements", 1);
	CFG_setBoolean("BUFFER", "History", true);
	COMP_fixup();
	if (!COMP_initAll()) return 2;
	int i, n = 0;
	/* memory is short for a moment: oldest frames are dropped */
	fail = 1;
	for (i = 0; i < 4; ++i) BUF_commitFrame(BUF_newFrame());
	fail = 0;
	struct BUFFER_Statistics s0, s;
	BUFFER_getStatistics(&s0);
	/* now there is memory again: 102 frames must fit */
	for (i = 0; i < 50; ++i) BUF_commitFrame(BUF_newFrame());
	BUFFER_getStatistics(&s);
	printf("discarded with memory available: %d\n", (int)(s.discardedAll - s0.discardedAll));
	return s.discardedAll != s0.discardedAll;
}
''', "malloc fails for a moment while the buffer grows and works again later",
 "each failed growth uses up one of the configured dynamic pools for ever: frames are dropped although the capacity is not in use",
 ["core/buffer.c","util/component.c","util/cfgfile.c","util/port/mmap-posix.c","util/log_stdio.c"], flags="-Wl,--wrap=malloc")

seed("s03-buf-flush-race","C06",
 [("src/core/buffer.c","""	pthread_mutex_lock(&mutex);
	LIST_concatenatePush(&pool, &queue);
	++stats.flushes;
	pthread_mutex_unlock(&mutex);
""","""	/* splice the queue in one go, take the lock for the counters only */
	LIST_concatenatePush(&pool, &queue);
	pthread_mutex_lock(&mutex);
	++stats.flushes;
	pthread_mutex_unlock(&mutex);
""")],
 r'''
#include <stdio.h>
#include <stdlib.h>
#include <pthread.h>
#include "core/buffer.h"
#include "util/component.h"
#include "util/cfgfile.h"
#include "core/openskytypes.h"
static void * producer(void * a) { int i; for (i = 0; i < 20000; ++i) BUF_commitFrame(BUF_newFrame()); return NULL; }
int main()
{
	COMP_register(&BUF_comp);
	CFG_loadDefaults();
	COMP_fixup();
	if (!COMP_initAll()) return 2;
	pthread_t t;
	pthread_create(&t, NULL, &producer, NULL);
	int i;
	for (i = 0; i < 2000; ++i) BUF_flush();
	pthread_join(t, NULL);
	return 0;
}
''', "a flush (on a new connection) at the same time as the producer fetches or commits a frame",
 "flushing manipulates the queues without the lock: lists are corrupted, frames are lost or handed out twice",
 ["core/buffer.c","util/component.c","util/cfgfile.c","util/port/mmap-posix.c","util/log_stdio.c"], tsan=True)

seed("s04-gc-threshold","C07",
 [("src/core/buffer.c","		if (LIST_length(&queue) <\n","		if (LIST_length(&queue) <=\n")],
 r'''
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <pthread.h>
#include "core/buffer.h"
#include "util/component.h"
#include "util/cfgfile.h"
#include "core/openskytypes.h"
unsigned int __wrap_sleep(unsigned int s) { usleep(1000); return 0; }
int main()
{
	COMP_register(&BUF_comp);
	CFG_loadDefaults();
	CFG_setInteger("BUFFER", "StaticBacklog", 2);
	CFG_setInteger("BUFFER", "DynamicBacklog", 10);
	CFG_setInteger("BUFFER", "DynamicIncrements", 4);
	CFG_setBoolean("BUFFER", "History", true);
	CFG_setBoolean("BUFFER", "GC", true);
	CFG_setInteger("BUFFER", "GCLevel", 2);
	COMP_fixup();
	if (!COMP_initAll()) return 2;
	int i;
	/* 42 frames: 4 dynamic pools; then 20 left = exactly the threshold (4 * 10 / 2) */
	for (i = 0; i < 42; ++i) BUF_commitFrame(BUF_newFrame());
	for (i = 0; i < 22; ++i) BUF_releaseFrame(BUF_getFrame());
	if (!COMP_startAll()) return 2;
	usleep(200000);
	COMP_stopAll();
	struct BUFFER_Statistics s;
	BUFFER_getStatistics(&s);
	printf("collections: %d\n", (int)s.GCruns);
	return s.GCruns != 0;
}
''', "the queue length is exactly the configured fraction of the dynamic capacity when the collector wakes up",
 "the automatic collector also acts when the queue is not shorter than the threshold",
 ["core/buffer.c","util/component.c","util/cfgfile.c","util/port/mmap-posix.c","util/log_stdio.c"], flags="-Wl,--wrap=sleep")

seed("s05-net-bytes","C08",
 [("src/core/network.c","		ptr += rc;\n	} while (ptr != end);\n","		ptr += rc;\n		stats.bytesSent += rc;\n	} while (ptr != end);\n"),
  ("src/core/network.c","	stats.bytesSent += len;\n\n","")],
 r'''
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <pthread.h>
#include <errno.h>
#include <sys/socket.h>
#include "core/network.h"
#include "util/component.h"
#include "util/cfgfile.h"
#include "util/statistics.h"
static int calls;
ssize_t __real_send(int fd, const void * b, size_t n, int f);
ssize_t __wrap_send(int fd, const void * b, size_t n, int f)
{
	switch (calls++) {
	case 0: return __real_send(fd, b, n, f);
	case 1: return __real_send(fd, b, n / 2, f);
	default: errno = EPIPE; return -1;
	}
}
static int sv[2];
int NETC_connect(const char * p, const char * h, unsigned short port) { static int done; if (done++) pause(); return sv[0]; }
int main()
{
	socketpair(AF_UNIX, SOCK_STREAM, 0, sv);
	COMP_register(&NET_comp);
	CFG_loadDefaults();
	COMP_fixup();
	if (!COMP_initAll() || !COMP_startAll()) return 2;
	NET_waitConnected();
	char buf[100] = "";
	bool a = NET_send(buf, 10), b = NET_send(buf, 100);
	struct NET_Statistics s;
	NET_getStatistics(&s);
	printf("%d %d: %d bytes sent (10 expected)\n", a, b, (int)s.bytesSent);
	fflush(stdout);
	_exit(!a || b || s.bytesSent != 10);
}
''', "a message whose sending fails after a part of it was accepted",
 "the byte counter also counts parts of messages whose sending failed",
 ["core/network.c","util/component.c","util/cfgfile.c","util/port/mmap-posix.c","util/log_stdio.c"], flags="-Wl,--wrap=send")

seed("s06-net-leak","C09",
 [("src/core/network.c","""			 * -> close the stale socket and synchronize with the leader */
			SOCK_close(*mysock);
			*mysock = othsock;""","""			 * -> synchronize with the leader */
			*mysock = othsock;""")],
 r'''
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <pthread.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/socket.h>
#include "core/network.h"
#include "util/component.h"
#include "util/cfgfile.h"
static int cl[2][2];
static volatile int n;
int NETC_connect(const char * p, const char * h, unsigned short port) { if (n == 2) pause(); return cl[n++][0]; }
int main()
{
	socketpair(AF_UNIX, SOCK_STREAM, 0, cl[0]);
	socketpair(AF_UNIX, SOCK_STREAM, 0, cl[1]);
	COMP_register(&NET_comp);
	CFG_loadDefaults();
	COMP_fixup();
	if (!COMP_initAll() || !COMP_startAll()) return 2;
	NET_waitConnected();
	uint8_t buf[10] = "";
	/* receiver is the first to see the loss */
	close(cl[0][1]);
	NET_receive(buf, sizeof buf);
	while (n < 2) usleep(1000);
	NET_waitConnected();
	/* now the sender sees it as well */
	NET_send(buf, sizeof buf);
	bool ok = NET_send(buf, sizeof buf);
	int leaked = fcntl(cl[0][0], F_GETFD) != -1;
	printf("new connection usable: %d, old descriptor still open: %d\n", ok, leaked);
	fflush(stdout);
	_exit(!ok || leaked);
}
''', "the receiving side sees a loss first and the sending side only after the reconnection",
 "the descriptor of the old connection is never closed: each such loss leaks one",
 ["core/network.c","util/component.c","util/cfgfile.c","util/port/mmap-posix.c","util/log_stdio.c"])

seed("s07-gps-fix-lost","C12",
 [("src/core/gps.c","	hasFix = fix;\n\n	sendPositionIfAvail();","	hasFix = fix;\n\n	if (hasFix)\n		sendPositionIfAvail();\n	else\n		needPosition = false;")],
 r'''
#include <stdio.h>
#include <string.h>
#include <stdbool.h>
#include <sys/types.h>
#include "core/gps.h"
static int sent;
bool NET_send(const void * b, size_t n) { ++sent; return true; }
int main()
{
	GPS_reset();
	GPS_sendPosition(); /* deferred: no position */
	GPS_setPosition(1, 2, 3);
	GPS_setHasFix(false); /* fix is (still) missing */
	GPS_setHasFix(true);
	printf("%d positions sent (1 expected)\n", sent);
	return sent != 1;
}
''', "a position was requested while there is none, and the fix is reported missing again before it comes",
 "losing the fix withdraws the remembered request: the server never gets the position of this connection",
 ["core/gps.c","core/beast.c","util/log_stdio.c"])

seed("s08-tb-mixed","C13",
 [("src/core/tb.c","""	size_t bufLen;

	while (true) {
		/* synchronize with receiver */
		NET_waitConnected();

		/* new connection, reset buffer */
		bufLen = 0;
""","""	size_t bufLen = 0;

	while (true) {
		/* synchronize with receiver */
		NET_waitConnected();
""")],
 r'''
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <stdbool.h>
#include "core/tb.h"
#include "core/network.h"
#include "core/filter.h"
static int n, called;
void FILTER_setSynchronizedFilter(bool b) {} void FILTER_setModeSExtSquitter(bool b) {} void FILTER_reset() {}
static void fn(const uint8_t * p) { ++called; }
void NET_waitConnected() { if (n == 3) { printf("%d packets handled (1 expected)\n", called); fflush(stdout); _exit(called != 1); } }
ssize_t NET_receive(uint8_t * b, size_t len)
{
	static const uint8_t cut[] = { 0, 3, 0, 8, 1 }, full[] = { 0, 3, 0, 4 };
	switch (n++) {
	case 0: memcpy(b, cut, sizeof cut); return sizeof cut;
	case 1: return 0;
	case 2: memcpy(b, full, sizeof full); n = 4; return sizeof full;
	default: n = 3; return 0;
	}
}
const struct Component NET_comp, FILTER_comp;
int main()
{
	TB_register(3, 0, &fn);
	((void(*)())TB_comp.main)();
	return 1;
}
''', "the connection is lost in the middle of a server packet",
 "the rest of a packet of the lost connection is combined with the data of the next connection",
 ["core/tb.c","util/log_stdio.c"])

seed("s09-cfg-section","C15",
 [("src/util/cfgfile.c","		/* not found: search next section */\n	}\n","		/* not found */\n		break;\n	}\n")],
 r'''
#include <stdio.h>
#include <stdint.h>
#include "util/cfgfile.h"
static uint32_t a, b;
static const struct CFG_Section s1 = { .name = "NET", .n_opt = 1, .options = { { .name = "A", .type = CFG_VALUE_TYPE_INT, .var = &a, .def = { .integer = 1 } } } };
static const struct CFG_Section s2 = { .name = "NET", .n_opt = 1, .options = { { .name = "B", .type = CFG_VALUE_TYPE_INT, .var = &b, .def = { .integer = 2 } } } };
int main()
{
	CFG_registerSection(&s1); CFG_registerSection(&s2);
	CFG_loadDefaults();
	FILE * f = fopen("x.conf", "w"); fputs("[NET]\nA = 11\nB = 22\n", f); fclose(f);
	bool ok = CFG_readFile("x.conf", true, true, true);
	printf("%d: A=%u B=%u\n", ok, a, b);
	return !ok || a != 11 || b != 22;
}
''', "two components which register options in the same section (NETWORK: connection manager and relay)",
 "options of the component which registered the section later cannot be set: they silently keep their default",
 ["util/cfgfile.c","util/port/mmap-posix.c","util/log_stdio.c"])

