seed("s11-comp-retry","C17",
 [("src/util/component.c","	while (deferred && progress) {\n		progress = false;","	if (deferred) {\n		progress = false;")],
 r'''
#include <stdio.h>
#include <stdbool.h>
#include "util/component.h"
static bool up[3];
static bool s0() { return up[0] = true; } static bool s1() { return up[1] = true; } static bool s2() { return up[2] = true; }
static bool t0(bool d) { up[0] = false; return true; }
static bool t1(bool d) { if (up[0]) return false; up[1] = false; return true; }
static bool t2(bool d) { if (up[1]) return false; up[2] = false; return true; }
static const struct Component a = { .description = "a", .onStart = s0, .onStop = t0, .dependencies = { NULL } };
static const struct Component b = { .description = "b", .onStart = s1, .onStop = t1, .dependencies = { &a, NULL } };
static const struct Component c = { .description = "c", .onStart = s2, .onStop = t2, .dependencies = { &b, NULL } };
int main()
{
	COMP_register(&a); COMP_register(&b); COMP_register(&c);
	COMP_fixup();
	if (!COMP_initAll() || !COMP_startAll()) return 2;
	COMP_stopAll();
	printf("still up: %d %d %d\n", up[0], up[1], up[2]);
	return up[0] || up[1] || up[2];
}
''', "a chain of components which can only be stopped once another one has, i.e. more than one round of retries with progress",
 "deferred stops are retried only once: components are left running although they could be stopped",
 ["util/component.c","util/cfgfile.c","util/port/mmap-posix.c","util/log_stdio.c"])

seed("s12-tsip-full","C19",
 [("src/trimble/trimble_parser.c","""			case DECODE_STATUS_BUFFER_FULL:
				goto synchronize;
""","""			case DECODE_STATUS_BUFFER_FULL:
				/* too long: deliver what fits */
				return bufLen;
""")],
 r'''
#include <stdio.h>
#include <string.h>
#include "trimble/trimble_parser.h"
#include "trimble/trimble_input.h"
static unsigned char stream[100]; static size_t len, pos;
void TRIMBLE_INPUT_register() {} void TRIMBLE_INPUT_init() {} void TRIMBLE_INPUT_connect() {} void TRIMBLE_INPUT_disconnect() {}
size_t TRIMBLE_INPUT_write(const uint8_t * b, size_t n) { return n; }
size_t TRIMBLE_INPUT_read(uint8_t * b, size_t n) { if (pos == len) return 0; memcpy(b, stream, len); pos = len; return len; }
int main()
{
	/* packet which is longer than the buffer and contains an escaped DLE right at the end of it */
	static const unsigned char s[] = { 0x10, 0x8f, 1, 2, 3, 4, 5, 6, 7, 0x10, 0x10, 0x41, 0x10, 0x03, 0x10, 0x46, 9, 0x10, 0x03 };
	memcpy(stream, s, len = sizeof s);
	TRIMBLE_PARSER_init(); TRIMBLE_PARSER_connect();
	uint8_t buf[8]; size_t n; int bad = 0, good = 0;
	while ((n = TRIMBLE_PARSER_getFrame(buf, sizeof buf))) {
		printf("packet 0x%02x, %zu bytes\n", buf[0], n);
		if (n == 2 && buf[0] == 0x46 && buf[1] == 9) ++good; else ++bad;
	}
	return bad || good != 1;
}
''', "a packet longer than the caller's buffer",
 "the beginning of an overlong packet is delivered as if it was a packet",
 ["trimble/trimble_parser.c","util/log_stdio.c"])

seed("s13-gps-len","C20",
 [("src/trimble/trimble_recv.c","					if (len == 69)\n						posFrame","					if (len >= 69)\n						posFrame")],
 r'''
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <stdbool.h>
#include "trimble/trimble_recv.h"
#include "trimble/trimble_parser.h"
#include "core/gps.h"
static int n, pub;
void TRIMBLE_PARSER_init() {} void TRIMBLE_PARSER_connect() { if (n) { printf("%d positions published (1 expected)\n", pub); fflush(stdout); _exit(pub != 1); } } void TRIMBLE_PARSER_disconnect() {}
void TRIMBLE_INPUT_register() {} const struct Component NET_comp;
void GPS_reset() {} void GPS_setPositionWithFix(double a, double b, double c) { ++pub; }
size_t TRIMBLE_PARSER_getFrame(uint8_t * b, size_t l)
{
	memset(b, 0, 100); b[0] = 0x8f; b[1] = 0xac; b[2] = 7; b[3] = 0;
	switch (n++) { case 0: return 69; case 1: return 70; default: return 0; }
}
int main() { ((void(*)())TRIMBLE_comp.main)(); return 2; }
''', "a position packet which is longer than specified (e.g. two packets whose delimiter was lost)",
 "a status packet of wrong length is evaluated and its position published",
 ["trimble/trimble_recv.c","util/log_stdio.c"])

seed("s14-filter-same","C14",
 [("src/core/filter.c","{\n	FILTER_cfg.extSquitter = modeSExtSquitter;","{\n	/* nothing to do if it is already set */\n	if (FILTER_cfg.extSquitter == modeSExtSquitter)\n		return;\n\n	FILTER_cfg.extSquitter = modeSExtSquitter;")],
 r'''
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <stdbool.h>
#include "core/tb.h"
#include "core/network.h"
#include "core/filter.h"
static int n, reconf;
void INPUT_reconfigure() { ++reconf; }
void NET_waitConnected() { if (n) { printf("receiver was reconfigured %d times (2 expected)\n", reconf); fflush(stdout); _exit(reconf != 2); } }
ssize_t NET_receive(uint8_t * b, size_t len)
{
	static const uint8_t cmd[] = { 0, 0, 0, 6, 2, 2 };
	uint8_t c[6]; memcpy(c, cmd, 6); c[1] = TB_PACKET_TYPE_FILTER;
	if (n == 2) return 0;
	++n; memcpy(b, c, 6); return 6;
}
const struct Component NET_comp;
int main()
{
	FILTER_comp.onConstruct();
	((void(*)())TB_comp.main)();
	return 2;
}
''', "the server orders the setting which is already active (e.g. because the receiver lost its own setting)",
 "a command which selects the squitter setting does not reach the receiver if the value is the same as before",
 ["core/tb.c","core/filter.c","util/log_stdio.c"])

seed("s15-netc-order","C29",
 [("src/util/net_common-posix.c","	for (i = nHosts; i; --i) {\n		size_t j = UTIL_randInt(i);","	for (i = nHosts; i > 1; --i) {\n		size_t j = UTIL_randInt(i - 1);")],
 r'''
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include <netdb.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <config.h>
#include "util/port/socket.h"
#include "util/net_common.h"
static struct sockaddr_in sa[2]; static struct addrinfo ai[2];
static int first, count[2];
int __wrap_getaddrinfo(const char * n, const char * s, const struct addrinfo * h, struct addrinfo ** r)
{
	int i;
	for (i = 0; i < 2; ++i) {
		sa[i].sin_family = AF_INET; sa[i].sin_addr.s_addr = htonl(0x7f000001 + i);
		ai[i].ai_family = AF_INET; ai[i].ai_socktype = SOCK_STREAM; ai[i].ai_addr = (struct sockaddr*)&sa[i]; ai[i].ai_addrlen = sizeof sa[i];
	}
	ai[0].ai_next = &ai[1];
	*r = ai; return 0;
}
void __wrap_freeaddrinfo(struct addrinfo * a) {}
int __wrap_connect(int fd, const struct sockaddr * a, socklen_t l)
{
	if (first) { ++count[(ntohl(((const struct sockaddr_in*)a)->sin_addr.s_addr) & 3) - 1]; first = 0; }
	errno = ECONNREFUSED; return -1;
}
int main()
{
	int i;
	for (i = 0; i < 200; ++i) { first = 1; NETC_connect("T", "host", 80); }
	printf("first address tried: %d times the first one, %d times the second one\n", count[0], count[1]);
	return !count[0] || !count[1];
}
''', "a host with two addresses", "two addresses are always tried in the same order: the second one first",
 ["util/net_common-posix.c","util/util.c","util/log_stdio.c"], flags="-Wl,--wrap=getaddrinfo -Wl,--wrap=freeaddrinfo -Wl,--wrap=connect")

seed("s16-recv-reset","C33",
 [("src/core/recv.c","		FILTER_reset(); /* upon reconnection of the input: reset filter state */\n\n		frame = BUF_newFrame();","		frame = BUF_newFrame();"),
  ("src/core/recv.c","	CLEANUP_PUSH(&cleanup, &frame);\n	while (true) {\n		INPUT_connect();","	FILTER_reset();\n\n	CLEANUP_PUSH(&cleanup, &frame);\n	while (true) {\n		INPUT_connect();")],
 r'''
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <stdbool.h>
#include "core/recv.h"
#include "core/input.h"
#include "core/buffer.h"
#include "core/filter.h"
#include "core/openskytypes.h"
static int conn, n, committed[3]; static struct OPENSKY_RawFrame fr;
const struct Component BUF_comp, INPUT_comp;
void INPUT_reconfigure() {} void INPUT_disconnect() {}
void INPUT_connect() { if (conn++ == 2) { printf("%d frames of the second connection without clock (0 expected)\n", committed[2]); fflush(stdout); _exit(committed[2] != 0 || committed[1] != 1); } n = 0; }
bool INPUT_getFrame(struct OPENSKY_RawFrame * raw, struct OPENSKY_DecodedFrame * d)
{
	memset(d, 0, sizeof *d);
	if (conn == 1 && n == 0) { d->frameType = OPENSKY_FRAME_TYPE_STATUS; d->mlat = 5; ++n; return true; }
	if (n < 2) { n = 2; d->frameType = OPENSKY_FRAME_TYPE_MODE_S_LONG; d->payload[0] = 17 << 3; return true; }
	return false;
}
struct OPENSKY_RawFrame * BUF_newFrame() { return &fr; }
void BUF_commitFrame(struct OPENSKY_RawFrame * f) { ++committed[conn]; }
void BUF_abortFrame(struct OPENSKY_RawFrame * f) {}
int main()
{
	FILTER_setSynchronizedFilter(true); FILTER_setModeSExtSquitter(true);
	FILTER_comp.onConstruct();
	((void(*)())RECV_comp.main)();
	return 2;
}
''', "the receiver reconnects and has no synchronised clock yet",
 "frames of a new receiver connection pass as synchronised because the old one was",
 ["core/recv.c","core/filter.c","util/log_stdio.c"])

seed("s17-login-tail","C11",
 [("src/core/login.c","	memset(user, '\\0', sizeof user);\n\n	if (username) {","	user[0] = '\\0';\n\n	if (username) {"),
  ("src/core/login.c","			strncpy(user, username, len);","			strncpy(user, username, len + 1);")],
 r'''
#include <stdio.h>
#include <string.h>
#include <stdbool.h>
#include <sys/types.h>
#include "core/login.h"
#include "core/serial.h"
#include "core/openskytypes.h"
static unsigned char last[200]; static size_t lastLen;
bool NET_send(const void * b, size_t n) { memcpy(last, b, n); lastLen = n; return true; }
bool GPS_sendPosition() { return true; }
void GPS_resetNeedFlag() { }
enum SERIAL_RETURN SERIAL_getSerial(uint32_t * s) { *s = 5; return SERIAL_RETURN_SUCCESS; }
int main()
{
	LOGIN_setDeviceType(OPENSKY_DEVICE_TYPE_RADARCAPE);
	LOGIN_setUsername("averylongusername");
	LOGIN_setUsername("bob");
	if (!LOGIN_login()) return 2;
	int i, bad = memcmp(last + 2, "bob", 3) != 0;
	for (i = 5; i < lastLen; ++i) if (last[i]) bad = 1;
	printf("user name sent: %.*s\n", (int)lastLen - 2, last + 2);
	return bad;
}
''', "the user name is set a second time to a shorter one", "the padding of the user name contains the rest of the previous name",
 ["core/login.c","core/beast.c","util/log_stdio.c"])

seed("s18-gpio-rmw","C27",
 [("src/radarcape/gpio.c","	*ctrl->clear = getBit(gpio);","	*ctrl->clear |= getBit(gpio);")],
 r'''
#include <stdio.h>
#include <string.h>
#include <stdint.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <fcntl.h>
#include "radarcape/gpio.h"
static uint8_t * mem[8]; static int n;
void * __wrap_mmap(void * a, size_t l, int p, int f, int fd, off_t o) { return mem[n++] = aligned_alloc(4096, 4096); }
int __wrap_munmap(void * a, size_t l) { return 0; }
int __real_open(const char * p, int f, ...);
int __wrap_open(const char * p, int f, ...) { return __real_open("/dev/null", O_RDWR); }
int main()
{
	if (!GPIO_comp.onConstruct()) return 2;
	/* reading the clear register returns the state of the outputs: pins 3 and 4 are set */
	memset(mem[0], 0, 4096);
	*(uint32_t*)(mem[0] + 0x190) = *(uint32_t*)(mem[0] + 0x194) = 0x18;
	GPIO_clear(3);
	uint32_t w = *(uint32_t*)(mem[0] + 0x190);
	printf("pins cleared: 0x%x (0x8 expected)\n", w);
	return w != 8;
}
''', "another output of the same controller is set when a pin is cleared (hardware reads the outputs back)",
 "clearing one pin clears every other set pin of the controller",
 ["radarcape/gpio.c","util/cfgfile.c","util/port/mmap-posix.c","util/log_stdio.c"], flags="-Wl,--wrap=mmap -Wl,--wrap=munmap -Wl,--wrap=open")

seed("s19-proc-signal","C28",
 [("src/util/proc.c","	return WIFEXITED(status) && WEXITSTATUS(status) == 0;","	return WEXITSTATUS(status) == 0;")],
 r'''
#include <stdio.h>
#include <stdlib.h>
#include "util/proc.h"
int main()
{
	char * ok[] = { "/bin/true", NULL }, * die[] = { "/bin/sh", "-c", "kill -9 $$", NULL };
	bool a = PROC_execAndReturn(ok), b = PROC_execAndReturn(die);
	printf("true: %d, killed: %d\n", a, b);
	return !a || b;
}
''', "the external program is killed by a signal", "a program killed by a signal is reported as success",
 ["util/proc.c","util/log_stdio.c"])


seed("s20-stat-interval","C34",
 [("src/util/statistics.c","	snapshot.delta = snapshot.timestamp - lastSnapshot->timestamp;","	snapshot.delta = cfgInterval;")],
 r'''
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <stdlib.h>
#include <time.h>
#include "util/statistics.h"
#include "core/filter.h"
#include "core/buffer.h"
#include "core/network.h"
#include "util/component.h"
#include "util/cfgfile.h"
static int n; static time_t now = 1000;
time_t __wrap_time(time_t * t) { if (t) *t = now; return now; }
unsigned int __wrap_sleep(unsigned int s) { if (n++ == 1) { fflush(stdout); _exit(0); } now += 2 * s; return 0; }
void BUFFER_getStatistics(struct BUFFER_Statistics * s) { memset(s, 0, sizeof *s); }
void NET_getStatistics(struct NET_Statistics * s) { memset(s, 0, sizeof *s); }
void FILTER_getStatistics(struct FILTER_Statistics * s) { memset(s, 0, sizeof *s); s->framesByType[2] = 1200; }
extern const struct Component STAT_comp;
int main(int argc, char ** argv)
{
	if (argc < 2) {
		char cmd[300]; snprintf(cmd, sizeof cmd, "%s x", argv[0]);
		FILE * f = popen(cmd, "r"); char l[300]; int ok = 0;
		while (fgets(l, sizeof l, f)) if (strstr(l, "frames received")) { fputs(l, stdout); ok = strstr(l, "(1.00 /s, 1.00 /s)") != NULL; }
		return !ok;
	}
	COMP_register(&STAT_comp);
	CFG_loadDefaults();
	CFG_setInteger("STATISTICS", "Interval", 600);
	STAT_comp.onConstruct();
	((void(*)())STAT_comp.main)();
	return 2;
}
''', "the report is late, e.g. because the process was suspended or the machine is overloaded",
 "rates of late reports are computed for the configured interval instead of the time which has passed",
 ["util/statistics.c","util/component.c","util/cfgfile.c","util/port/mmap-posix.c","util/log_stdio.c"], flags="-Wl,--wrap=time -Wl,--wrap=sleep")

seed("s22-fpga-retry","C26",
 [("src/radarcape/fpga.c","		if (!transfer(rfd, st.st_size))\n			continue;\n","		if (!transfer(rfd, st.st_size))\n			break;\n")],
 r'''
#include <stdio.h>
#include <string.h>
#include <stdint.h>
#include <stdlib.h>
#include <unistd.h>
#include "radarcape/gpio.h"
#include "radarcape/fpga.h"
#include "util/component.h"
#include "util/cfgfile.h"
struct Component GPIO_comp = { .description = "g", .dependencies = { NULL } };
static int resets, bits, level[128], shifted[3];
void GPIO_setDirection(uint_fast32_t g, enum GPIO_DIRECTION d) {}
void GPIO_set(uint_fast32_t g) { if (!level[g]) { level[g] = 1; if (g == 61) { ++resets; bits = 0; } if (g == 47) ++bits; } }
void GPIO_clear(uint_fast32_t g) { level[g] = 0; }
/* the first transfer fails after the first byte, the second one works */
uint_fast32_t GPIO_read(uint_fast32_t g) { if (g == 46) return resets == 1 && bits >= 8 ? 0 : 1; return resets == 2 && bits == 80; }
int main()
{
	FILE * f = fopen("x.rbf", "w"); fwrite("0123456789", 1, 10, f); fclose(f);
	char path[1000]; getcwd(path, 900); strcat(path, "/x.rbf");
	FPGA_bbwhite = false;
	CFG_registerSection(FPGA_comp.config);
	CFG_loadDefaults();
	CFG_setString("FPGA", "File", path);
	FPGA_comp.onConstruct();
	bool ok = FPGA_comp.onStart();
	printf("reported %d, device configured %d (resets %d, bits %d)\n", ok, resets == 2 && bits == 80, resets, bits);
	return !ok || resets != 2 || bits != 80;
}
''', "the device signals an error during the first transfer", "no further attempt is made and success is reported although the device is not configured",
 ["radarcape/fpga.c","util/component.c","util/cfgfile.c","util/port/mmap-posix.c","util/log_stdio.c"], flags=r'-DFWDIR=\"/nonexistent\"')

seed("s23-log-unlock","C25",
 [("src/util/log_stdio.c","""	vprintf(fmt, ap);
	va_end(ap);
	putchar('\\n');

	pthread_mutex_unlock(&stdioMutex);
""","""	vprintf(fmt, ap);
	va_end(ap);
	pthread_mutex_unlock(&stdioMutex);
	putchar('\\n');

""")],
 r'''
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <pthread.h>
#include <sys/wait.h>
#include "util/log.h"
static void * worker(void * a) { int i; for (i = 0; i < 20000; ++i) LOG_logf(LOG_LEVEL_INFO, "T", "message %d of %ld", i, (long)a); return NULL; }
int main()
{
	int p[2]; pipe(p);
	if (!fork()) {
		dup2(p[1], 1); close(p[0]);
		pthread_t t[4]; long i;
		for (i = 0; i < 4; ++i) pthread_create(&t[i], NULL, &worker, (void*)i);
		for (i = 0; i < 4; ++i) pthread_join(t[i], NULL);
		fflush(stdout); _exit(0);
	}
	close(p[1]);
	FILE * f = fdopen(p[0], "r"); char l[500]; int bad = 0, a; long b; char end;
	while (fgets(l, sizeof l, f)) if (sscanf(l, "[INFO] [T] message %d of %ld%c", &a, &b, &end) != 3 || end != 10) ++bad;
	wait(NULL);
	fprintf(stderr, "%d mangled records\n", bad);
	return bad != 0;
}
''', "two threads log at the same time", "the end of line of a record may follow the next record: two records are joined",
 ["util/log_stdio.c"])
