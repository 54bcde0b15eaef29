seed("s24-rc-fastpath","C01",
 [("src/radarcape/rc-parser.c","		size_t rbuf = bufEnd - bufCur;\n		size_t mlen = rbuf <= len ? rbuf : len;\n		uint8_t * sync = memchr(bufCur, BEAST_SYNC, mlen);",
   "		size_t rbuf = bufEnd - bufCur;\n		size_t mlen = rbuf <= len ? rbuf : len;\n		/* most frames are free of escapes: skip the search if a look at the\n		 * raw data already copied and the rest of the frame tells so */\n		static const uint64_t ones = UINT64_C(0x0101010101010101);\n		uint8_t * sync = NULL;\n		if (mlen >= 8 && mlen == len && rbuf > 2 * len) {\n			size_t i;\n			uint64_t w, found = 0;\n			for (i = 0; i + 8 <= mlen && !found; i += 8) {\n				memcpy(&w, bufCur + i, sizeof w);\n				w ^= ones * BEAST_SYNC;\n				found = (w - ones) & ~w & (ones << 7);\n			}\n			if (found || memchr(bufCur + mlen - 4, BEAST_SYNC, 4))\n				sync = memchr(bufCur, BEAST_SYNC, mlen);\n		} else\n			sync = memchr(bufCur, BEAST_SYNC, mlen);")],
 r'''
#include <stdio.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include "radarcape/rc-input.h"
#include "core/input.h"
#include "core/filter.h"
#include "core/openskytypes.h"
static uint8_t stream[4096]; static size_t n, done;
void RC_INPUT_register() {}
void RC_INPUT_init() {}
void RC_INPUT_connect() {}
void RC_INPUT_disconnect() {}
size_t RC_INPUT_write(uint8_t * b, size_t l) { return l; }
size_t RC_INPUT_read(uint8_t * b, size_t l) { size_t k = n - done < l ? n - done : l; memcpy(b, stream + done, k); done += k; return k; }
struct FILTER_Configuration FILTER_cfg;
void LOG_log(int l, const char * p, const char * s) {}
void LOG_logf(int l, const char * p, const char * f, ...) {}
int main()
{
	int pos, bad = 0, k;
	for (pos = 0; pos < 21; ++pos) {
		n = done = 0;
		size_t first = 0;
		for (k = 0; k < 20; ++k) {
			stream[n++] = 0x1a; stream[n++] = '3';
			int i;
			for (i = 0; i < 21; ++i) { stream[n++] = i == pos ? 0x1a : 0x40 + i; if (i == pos) stream[n++] = 0x1a; }
			if (!first) first = n;
		}
		INPUT_connect();
		struct OPENSKY_RawFrame raw; struct OPENSKY_DecodedFrame dec;
		for (k = 0; k < 20; ++k)
			if (!INPUT_getFrame(&raw, &dec) || raw.rawLen != first || memcmp(raw.raw, stream, first)) { ++bad; break; }
	}
	printf("%d escape positions wrong\n", bad);
	return bad != 0;
}
''', "an escape at one particular position of a long frame with much more data following it in the read buffer", "frames with an escape there are delivered damaged or lost",
 ["radarcape/rc-parser.c"])

seed("s25-tsip-len","C02",
 [("src/trimble/trimble_parser.c","		size_t rbuf = bufEnd - bufCur;\n		size_t mlen = rbuf <= dstLen ? rbuf : dstLen;\n","		size_t rbuf = bufEnd - bufCur;\n		size_t mlen = rbuf;\n		if (unlikely(dst + sizeof buf >= dstStart + *len))\n			mlen = dstLen;\n")],
 r'''
#include <stdio.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include "trimble/trimble_input.h"
#include "trimble/trimble_parser.h"
/* the data is at the end of the parsers buffer only if the reads are that long */
static uint8_t stream[8192]; static size_t n, done; static size_t step = 100, reads;
void TRIMBLE_INPUT_register() {}
void TRIMBLE_INPUT_init() {}
void TRIMBLE_INPUT_connect() {}
void TRIMBLE_INPUT_disconnect() {}
size_t TRIMBLE_INPUT_write(const uint8_t * b, size_t l) { return l; }
size_t TRIMBLE_INPUT_read(uint8_t * b, size_t l) { size_t k = n - done < l ? n - done : l; size_t lim = reads++ == 0 ? 20 : step; if (k > lim) k = lim; memcpy(b, stream + done, k); done += k; return k; }
void LOG_log(int l, const char * p, const char * s) {}
void LOG_logf(int l, const char * p, const char * f, ...) {}
int main()
{
	/* a frame without end, then a good one */
	stream[n++] = 0x10; stream[n++] = 0x8f; while (n < 1100) stream[n++] = 0x55;
	stream[n++] = 0x10; stream[n++] = 0x03;
	size_t i;
	for (i = 0; i < 3; ++i) { stream[n++] = 0x10; stream[n++] = 0x46; stream[n++] = 1; stream[n++] = 2; stream[n++] = 0x10; stream[n++] = 0x03; }
	uint8_t * buf = malloc(1024);
	TRIMBLE_PARSER_connect();
	unsigned good = 0; size_t len;
	while ((len = TRIMBLE_PARSER_getFrame(buf, 1024)) != 0) if (len == 3 && buf[0] == 0x46) ++good;
	printf("%u good frames\n", good); fflush(stdout);
	_exit(good < 2);
}
''', "a packet of more than 1023 bytes where the piece read last is shorter than the space left when the limit is reached", "reads beyond the input buffer",
 ["trimble/trimble_parser.c"], flags="-fsanitize=address -include stdlib.h -include unistd.h")

seed("s26-beast-words","C03",
 [("src/core/beast.c","	const uint8_t * sync = (uint8_t*)memchr(in, BEAST_SYNC, len);\n	while (true) {","	const uint8_t * sync = (uint8_t*)memchr(in, BEAST_SYNC, len);\n	const uint8_t * last = sync; /* SYNC found most recently */\n	while (true) {"),
  ("src/core/beast.c","			sync = (uint8_t*)memchr(in + 1, BEAST_SYNC, end - in - 1);","			sync = last + 255 < end ? (uint8_t*)memchr(in + 1, BEAST_SYNC, 255) :\n				(uint8_t*)memchr(in + 1, BEAST_SYNC, end - in - 1);\n			last = sync;")],
 r'''
#include <stdio.h>
#include <string.h>
#include <stdint.h>
#include "core/beast.h"
int main()
{
	uint8_t in[1000], out[2000];
	memset(in, 'x', sizeof in);
	in[3] = 0x1a; in[600] = 0x1a;
	size_t n = BEAST_encode(out, in, sizeof in);
	printf("%d (1002 expected)\n", (int)n);
	return n != 1002;
}
''', "a long string with more than 254 bytes between two escape bytes", "the second escape byte is not doubled",
 ["core/beast.c"])

seed("s27-filter-synced","C04",
 [("src/core/filter.c","	FILTER_cfg.sync = syncFilter;\n","	FILTER_cfg.sync = syncFilter;\n	/* without the filter everything is taken as synchronized */\n	isSynchronized |= !syncFilter;\n")],
 r'''
#include <stdio.h>
#include <stdbool.h>
#include "core/filter.h"
#include "core/openskytypes.h"
#include "util/component.h"
#include "util/cfgfile.h"
void INPUT_reconfigure() {}
int main()
{
	COMP_register(&FILTER_comp);
	COMP_fixup();
	CFG_loadDefaults();
	if (!COMP_initAll()) return 2;
	/* off and on again, without the receiver getting synchronised */
	FILTER_setSynchronizedFilter(false);
	bool a = FILTER_filter(OPENSKY_FRAME_TYPE_MODE_S_LONG, 17 << 3);
	FILTER_setSynchronizedFilter(true);
	bool b = FILTER_filter(OPENSKY_FRAME_TYPE_MODE_S_LONG, 17 << 3);
	printf("%d %d\n", a, b);
	return !a || b;
}
''', "the synchronisation filter is switched off and on again by the server while the receiver is not synchronised", "unsynchronised frames pass the filter",
 ["core/filter.c","util/component.c","util/cfgfile.c","util/port/mmap-posix.c","util/log_stdio.c"])

seed("s28-relay-keepalive","C10",
 [("src/core/relay.c","				success = sendKeepalive();\n","				sendKeepalive(); /* best effort */\n				success = true;\n")],
 r'''
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <pthread.h>
#include "core/relay.h"
#include "core/network.h"
#include "core/login.h"
#include "core/buffer.h"
#include "util/component.h"
#include "util/cfgfile.h"
static int conn = 1, logins; static volatile int bad, frames;
const struct Component NET_comp = { .description = "NET", .dependencies = { NULL } };
void NET_waitConnected() { static int up; if (++up > 2) { while (1) pause(); } conn = up; }
bool LOGIN_login() { logins = conn; return true; }
bool NET_send(const void * b, size_t n)
{
	static int ka;
	if (n == 2 && ++ka == 2) { conn = 2; return false; } /* lost; and connected again at once */
	if (n > 2) { ++frames; if (logins != conn) bad = 1; }
	return true;
}
int main()
{
	COMP_register(&RELAY_comp);
	COMP_fixup();
	CFG_loadDefaults();
	CFG_setInteger("NETWORK", "Timeout", 20);
	CFG_setBoolean("BUFFER", "History", true);
	if (!COMP_initAll() || !COMP_startAll()) return 2;
	usleep(150000);
	int i;
	for (i = 0; i < 5; ++i) { struct OPENSKY_RawFrame * f = BUF_newFrame(); f->rawLen = 10; BUF_commitFrame(f); usleep(1000); }
	for (i = 0; i < 2000 && frames < 5; ++i) usleep(1000);
	printf("%d frames, without login: %d\n", frames, bad);
	fflush(stdout);
	_exit(bad || !frames);
}
''', "the loss of an idle connection is first seen by a keep-alive and the next connection is there before the next message", "frames are sent on the new connection without login",
 ["core/relay.c","core/buffer.c","util/component.c","util/cfgfile.c","util/port/mmap-posix.c","util/log_stdio.c"])

seed("s29-recv-connect-cancel","C18",
 [("src/core/recv.c","		INPUT_connect();\n\n		CLEANUP_PUSH(&cleanupInput, NULL);\n\n		FILTER_reset(); /* upon reconnection of the input: reset filter state */\n\n		frame = BUF_newFrame();\n","		/* have the frame at hand before the input delivers */\n		struct OPENSKY_RawFrame * first = BUF_newFrame();\n		INPUT_connect();\n\n		CLEANUP_PUSH(&cleanupInput, NULL);\n\n		FILTER_reset(); /* upon reconnection of the input: reset filter state */\n\n		frame = first;\n")],
 r'''
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <pthread.h>
#include <sys/wait.h>
#include "core/recv.h"
#include "core/input.h"
#include "core/buffer.h"
#include "util/component.h"
#include "util/cfgfile.h"
const struct Component INPUT_comp = { .description = "IN", .dependencies = { NULL } };
static volatile int connecting;
void INPUT_connect() { connecting = 1; while (1) sleep(1); }
void INPUT_disconnect() {}
void INPUT_reconfigure() {}
bool INPUT_getFrame(struct OPENSKY_RawFrame * r, struct OPENSKY_DecodedFrame * d) { return false; }
int main()
{
	COMP_register(&RECV_comp);
	COMP_fixup();
	CFG_loadDefaults();
	if (!COMP_initAll()) return 2;
	int i;
	struct BUFFER_Statistics s0, s;
	BUFFER_getStatistics(&s0);
	for (i = 0; i < 2; ++i) {
		connecting = 0;
		if (!COMP_startAll()) return 3;
		while (!connecting) usleep(100);
		COMP_stopAll();
		BUFFER_getStatistics(&s);
		printf("pool %d -> %d\n", (int)s0.poolSize, (int)s.poolSize); fflush(stdout);
		if (s.poolSize != s0.poolSize) return 1;
	}
	return 0;
}
''', "the feeder is stopped while the receiver is not reachable, then started again", "the frame taken is never given back: the next start aborts or loses a frame of the pool",
 ["core/recv.c","core/filter.c","core/buffer.c","util/component.c","util/cfgfile.c","util/port/mmap-posix.c","util/log_stdio.c"])

seed("s30-serial-bits","C21",
 [("src/util/serial_eth.c","	len = fscanf(sys, \"%\" SCNx8 \":%\" SCNx8 \":%\"	SCNx8 \":%\" SCNx8 \":%\" SCNx8\n		\":%\" SCNx8, &mac[0], &mac[1], &mac[2], &mac[3], &mac[4], &mac[5]);","	len = fscanf(sys, \"%\" SCNi8 \":%\" SCNi8 \":%\"	SCNi8 \":%\" SCNi8 \":%\" SCNi8\n		\":%\" SCNi8, &mac[0], &mac[1], &mac[2], &mac[3], &mac[4], &mac[5]);")],
 r'''
#include <stdio.h>
#include <string.h>
#include <stdint.h>
#include <sys/socket.h>
#include "core/serial.h"
#include "util/serial_eth.h"
int __wrap_ioctl(int fd, unsigned long r, ...) { return -1; }
FILE * __real_fopen(const char *, const char *);
FILE * __wrap_fopen(const char * p, const char * m)
{
	if (strncmp(p, "/sys/", 5)) return __real_fopen(p, m);
	FILE * f = tmpfile(); fputs("02:00:10:2b:3c:11\n", f); rewind(f); return f;
}
int main()
{
	uint32_t s = 0;
	enum SERIAL_RETURN rc = SERIAL_ETH_getSerial(&s);
	printf("%d %08x\n", rc, s);
	return rc != SERIAL_RETURN_SUCCESS || s != 0x102b3c11;
}
''', "the device does not answer the ioctl and its address has parts which do not start with a zero or have hexadecimal digits", "another serial number or none is derived from the address",
 ["util/serial_eth.c","util/cfgfile.c","util/port/mmap-posix.c","util/log_stdio.c"], flags="-Wl,--wrap=ioctl -Wl,--wrap=fopen")

seed("s31-rclib-status","C22",
 [("src/radarcape/lib/opensky.cc","	FILTER_setSynchronized(gpsTimeStatus != GpsTimeInvalid);\n	GPS_resetNeedFlag();\n","	FILTER_setSynchronized(gpsTimeStatus == UsingGpsTime);\n	GPS_resetNeedFlag();\n")],
 r'''
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
extern "C" {
#include "util/component.h"
#include "core/buffer.h"
#include "core/filter.h"
#include "core/serial.h"
#include "core/gps.h"
#include "core/login.h"
#include "core/openskytypes.h"
extern const struct Component TB_comp, RELAY_comp;
extern struct FILTER_Configuration FILTER_cfg;
const struct Component TB_comp = {}, RELAY_comp = {};
void COMP_register(const struct Component *) {}
void COMP_fixup() {}
void COMP_setSilent(bool) {}
bool COMP_initAll() { return true; }
bool COMP_startAll() { return true; }
void COMP_stopAll() {}
void CFG_loadDefaults() { FILTER_cfg.sync = true; FILTER_cfg.extSquitter = false; }
void LOGIN_setDeviceType(enum OPENSKY_DEVICE_TYPE) {}
void GPS_reset() {}
void GPS_resetNeedFlag() {}
void GPS_setHasFix(bool) {}
void GPS_setPosition(double, double, double) {}
void BUF_flush() {}
static struct OPENSKY_RawFrame frame; static int committed;
struct OPENSKY_RawFrame * BUF_newFrame() { return &frame; }
void BUF_commitFrame(struct OPENSKY_RawFrame *) { ++committed; }
enum SERIAL_RETURN SERIAL_ETH_getSerial(uint32_t * s) { if (s) *s = 5; return SERIAL_RETURN_SUCCESS; }
void LOG_log(int, const char *, const char *) {}
void LOG_logf(int, const char *, const char *, ...) {}
}
#include "radarcape/lib/opensky.hh"
int main()
{
	OpenSky::init();
	FILTER_setModeSExtSquitter(false);
	unsigned char msg[7 + 14] = { 0 }; msg[7] = 17 << 3;
	OpenSky::setGpsTimeStatus(UsingCpuTime);
	OpenSky::enable();
	OpenSky::output_message(msg, MessageType_ModeSLong);
	printf("%d messages accepted\n", committed);
	return committed != 1;
}
''', "the time status was CPU time when the library is enabled", "all messages are filtered until the time status is set again",
 ["radarcape/lib/opensky.cc","core/filter.c","core/beast.c"], lang="c++", flags="-Isrc/radarcape/lib")

seed("s33-stat-lock","C30",
 [("src/core/buffer.c","	pthread_mutex_lock(&mutex);\n	memcpy(statistics, &stats, sizeof *statistics);\n	statistics->queueSize = LIST_length(&queue);","	memcpy(statistics, &stats, sizeof *statistics);\n	pthread_mutex_lock(&mutex);\n	statistics->queueSize = LIST_length(&queue);")],
 r'''
#include <stdio.h>
#include <stdlib.h>
#include <pthread.h>
#include "core/buffer.h"
#include "util/component.h"
#include "util/cfgfile.h"
#include "core/openskytypes.h"
static _Atomic int run, stop;
static void * producer(void * a) { run = 1; while (!stop) BUF_commitFrame(BUF_newFrame()); return NULL; }
int main()
{
	COMP_register(&BUF_comp);
	CFG_loadDefaults();
	CFG_setInteger("BUFFER", "StaticBacklog", 100);
	CFG_setInteger("BUFFER", "DynamicIncrements", 0);
	COMP_fixup();
	if (!COMP_initAll()) return 2;
	pthread_t t;
	pthread_create(&t, NULL, &producer, NULL);
	int i; struct BUFFER_Statistics s;
	while (!run) ;
	for (i = 0; i < 20000; ++i) BUFFER_getStatistics(&s);
	stop = 1;
	pthread_join(t, NULL);
	return 0;
}
''', "statistics are read while frames are committed or discarded", "the statistics are copied while another thread changes them",
 ["core/buffer.c","util/component.c","util/cfgfile.c","util/port/mmap-posix.c","util/log_stdio.c"], tsan=True, flags="-U_FORTIFY_SOURCE -fno-builtin")

seed("s34-endec-sign","C32",
 [("src/util/endec.h","	uint64_t u;\n	memcpy(&u, buf, sizeof u);\n	return be64toh(u);","	return (uint_fast64_t)ENDEC_tou32(buf) << 32 | ENDEC_toi32(buf + 4);")],
 r'''
#include <stdio.h>
#include <string.h>
#include <stdint.h>
#include "util/endec.h"
int main()
{
	double d = 0.1 + 1e-9, e; uint8_t b[8];
	int i, bad = 0;
	for (i = 0; i < 1000; ++i) { d += 0.0123456789; ENDEC_fromdouble(d, b); e = ENDEC_todouble(b); bad += e != d; }
	printf("%d of 1000 wrong\n", bad);
	return bad != 0;
}
''', "a 64 bit or double value whose bit 31 is set", "the upper half of the value is overwritten by ones",
 [])

seed("s35-cfg-write-long","C16",
 [("src/util/cfgfile.c","		/* collect sections: write this section only if it was not already\n		 * written before (see below) */\n		const struct Section * prev = s;\n		LIST_foreachItemRev_continue(&sections, prev, list)\n			if (!strcasecmp(sect->name, prev->section->name))\n				break;","		/* collect sections: write this section only if it was not already\n		 * written before (see below) */\n		const struct Section * prev = s;\n		LIST_foreachItemRev_continue(&sections, prev, list)\n			if (!strncasecmp(sect->name, prev->section->name, strlen(sect->name)))\n				break;")],
 r'''
#include <stdio.h>
#include <stdint.h>
#include "util/cfgfile.h"
static uint32_t a, b;
static const struct CFG_Section s1 = { .name = "Networks", .n_opt = 1, .options = { { .name = "X", .type = CFG_VALUE_TYPE_INT, .var = &a, .def = { .integer = 1 } } } };
static const struct CFG_Section s2 = { .name = "Network", .n_opt = 1, .options = { { .name = "Y", .type = CFG_VALUE_TYPE_INT, .var = &b, .def = { .integer = 2 } } } };
int main()
{
	CFG_registerSection(&s1);
	CFG_registerSection(&s2);
	CFG_loadDefaults();
	a = 10; b = 20;
	if (!CFG_write("x.conf")) return 2;
	CFG_loadDefaults();
	if (!CFG_readFile("x.conf", true, true, false)) return 2;
	printf("%d %d\n", (int)a, (int)b);
	return a != 10 || b != 20;
}
''', "a section whose name is the beginning of the name of a section registered before", "that section is not saved",
 ["util/cfgfile.c","util/port/mmap-posix.c","util/log_stdio.c"])

seed("s36-net-partial-timeout","C08",
 [("src/core/network.c","		ptr += rc;\n	} while (ptr != end);\n","		ptr += rc;\n	} while (end - ptr > 1);\n")],
 r'''
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <pthread.h>
#include <sys/socket.h>
#include "core/network.h"
#include "util/component.h"
#include "util/cfgfile.h"
ssize_t __real_send(int fd, const void * b, size_t n, int f);
/* the server takes one byte at a time */
ssize_t __wrap_send(int fd, const void * b, size_t n, int f) { return __real_send(fd, b, 1, f); }
static int sv[2];
int NETC_connect(const char * p, const char * h, unsigned short port) { static int done; if (done++) pause(); return sv[0]; }
int main()
{
	socketpair(AF_UNIX, SOCK_STREAM, 0, sv);
	COMP_register(&NET_comp);
	CFG_loadDefaults();
	COMP_fixup();
	if (!COMP_initAll() || !COMP_startAll()) return 2;
	NET_waitConnected();
	char buf[10] = "0123456789", got[100];
	bool a = NET_send(buf, 10);
	ssize_t n = recv(sv[1], got, sizeof got, MSG_DONTWAIT);
	printf("%d: %d bytes received\n", a, (int)n);
	fflush(stdout);
	_exit(!a || n != 10);
}
''', "the socket accepts all but the last byte of a message", "the last byte of the message is dropped and the message counted as sent",
 ["core/network.c","util/component.c","util/cfgfile.c","util/port/mmap-posix.c","util/log_stdio.c"], flags="-Wl,--wrap=send")

STUBS_GP=r'''
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
extern "C" {
#include "util/component.h"
#include "core/buffer.h"
#include "core/filter.h"
#include "core/serial.h"
#include "core/gps.h"
#include "core/login.h"
#include "core/openskytypes.h"
extern const struct Component TB_comp, RELAY_comp;
extern struct FILTER_Configuration FILTER_cfg;
const struct Component TB_comp = {}, RELAY_comp = {};
void COMP_register(const struct Component *) {}
void COMP_fixup() {}
void COMP_setSilent(bool) {}
bool COMP_initAll() { return true; }
bool COMP_startAll() { return true; }
void COMP_stopAll() {}
void CFG_loadDefaults() { FILTER_cfg.sync = true; FILTER_cfg.extSquitter = false; }
void LOGIN_setDeviceType(enum OPENSKY_DEVICE_TYPE) {}
void GPS_reset() {}
void GPS_resetNeedFlag() {}
void GPS_setHasFix(bool) {}
void GPS_setPosition(double, double, double) {}
void BUF_flush() {}
static struct OPENSKY_RawFrame frame; static int committed;
struct OPENSKY_RawFrame * BUF_newFrame() { return &frame; }
void BUF_commitFrame(struct OPENSKY_RawFrame *) { ++committed; }
void LOG_log(int, const char *, const char *) {}
void LOG_logf(int, const char *, const char *, ...) {}
}
#include "gplib/opensky.hh"
'''
seed("s32-gplib-seconds","C23",
 [("src/gplib/opensky.cc","	std::uint64_t secondsOfDay = (timestamp / UINT64_C(1000000000)) % (24u * 3600u);","	std::uint32_t seconds = timestamp / UINT64_C(1000000000);\n	std::uint64_t secondsOfDay = seconds % (24u * 3600u);")],
 STUBS_GP+r'''
int main()
{
	OpenSky::init();
	OpenSky::configure((enum OPENSKY_DEVICE_TYPE)3, 7);
	FILTER_setModeSExtSquitter(false);
	OpenSky::enable();
	uint8_t msg[7] = { 0x20, 1, 2, 3, 4, 5, 6 };
	uint64_t sec = UINT64_C(86400) * 60000 + 5, v = 0; int i;
	OpenSky::submitFrame(sec * 1000000000 + 77, true, true, -5, msg, 7);
	for (i = 2; i < 8; ++i) v = v << 8 | frame.raw[i];
	printf("%d: second %d\n", committed, (int)(v >> 30));
	return committed != 1 || v != (UINT64_C(5) << 30 | 77);
}
''', "a time stamp of 2^32 seconds and more", "the time of day in the frame is wrong",
 ["gplib/opensky.cc","core/filter.c","core/beast.c"], lang="c++", flags="-Isrc/gplib")

seed("s37-input-port","C31",
 [("src/radarcape/network.c","	if (cfgPort == 0) {","	if (cfgPort == 0 && cfgHost[0] == '\\0') {")],
 r'''
#include <stdio.h>
#include <string.h>
#include "util/cfgfile.h"
#include "util/component.h"
#include "radarcape/rc-input.h"
int main()
{
	RC_INPUT_register();
	CFG_loadDefaults();
	CFG_setString("INPUT", "Host", "localhost");
	CFG_setPort("INPUT", "Port", 0);
	bool ok = CFG_check();
	printf("port 0 accepted: %d\n", ok);
	return ok;
}
''', "a configuration with a receiver host and port 0", "the daemon starts with a configuration it can never work with instead of refusing it",
 ["radarcape/network.c","util/cfgfile.c","util/port/mmap-posix.c","util/log_stdio.c","util/net_common-posix.c","util/util.c"])
