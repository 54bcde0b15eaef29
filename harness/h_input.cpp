// C35: inputs. -DRCU receiver on a serial line, -DRCN on the network, -DGPU GPS unit on a serial line, -DGPN on the network, -DDUM simulated receiver.
// Lines are real pseudo terminals or simulated ones (socket pair with interposed terminal calls); every system call on them is observed.
#include <config.h>
#include "inject.h"
#include <netdb.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <string>
#include <vector>
#include <deque>
#include <map>
#include <atomic>
#include <mutex>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <pthread.h>
#include <termios.h>
#include <unistd.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
extern "C" {
#include "core/input.h"
#include "core/filter.h"
#include "core/beast.h"
#include "util/cfgfile.h"
#include "util/component.h"
#include "util/net_common.h"
#include "radarcape/rc-input.h"
#include "trimble/trimble_parser.h"
#include "trimble/trimble_input.h"
}
#if defined(RCU) || defined(RCN) || defined(DUM)
#define RC
#endif
#if defined(RCU) || defined(GPU)
#define UART
#endif
typedef std::string Str;
static thread_local bool code; // inside the code under test
struct Code { Code() { code = true; } ~Code() { code = false; } };
static int mode;

static void inj_delay() { inj_log(1); inj_point(1); }
// ---- the line ----------------------------------------------------------------------------------------
enum What { GOOD, NOLINE, NOTTY, NOGET, NOSET, NOWRITE };
struct Try { What what; int n; int how; };
static std::mutex mx; // protects what follows
static std::deque<Try> plan;
static struct { int fd = -1, master = -1; bool sim = false; int flags = 0; Try t; struct termios now; bool set = false; Str got; int sets = 0, writes = 0; size_t undrained = 0, undrainedGot = 0; /* parts, bytes sent for sure */ std::vector<std::pair<Str, speed_t>> parts; bool good = false; } L;
static uint64_t vtime, lastFail; static bool failedBefore; static unsigned opens; static bool mt; static bool stopping;
static int readFault; // 1 EAGAIN, 2 EIO, 3 zero bytes (no data)
static unsigned nFaults;
static Str junk;
#ifdef UART
extern "C" {
int __real_open(const char *, int, ...); int __real_close(int); ssize_t __real_read(int, void *, size_t); ssize_t __real_write(int, const void *, size_t);
int __real_tcgetattr(int, struct termios *); int __real_tcsetattr(int, int, const struct termios *); int __real_tcflush(int, int); int __real_tcdrain(int);
}
#else
extern "C" int __real_close(int);
#define __real_write write
#define __real_read read
#endif
#ifdef UART
extern "C" int __real_pthread_mutex_lock(pthread_mutex_t *);
extern "C" int __wrap_pthread_mutex_lock(pthread_mutex_t * m) { if (mt && code && m != mx.native_handle()) inj_delay(); return __real_pthread_mutex_lock(m); }
#endif
static void putAll(int fd, const Str & s) { size_t o = 0; while (o < s.size()) { ssize_t r = __real_write(fd, s.data() + o, s.size() - o); if (r <= 0) { if (mt) return; vf_fail("harness", "writing to the line: %s", strerror(errno)); } o += r; } }
#ifdef UART
static bool line(int & m, int & s, bool sim)
{
	if (!sim) {
		m = posix_openpt(O_RDWR | O_NOCTTY | O_CLOEXEC); char n[100];
		if (m < 0 || grantpt(m) || unlockpt(m) || ptsname_r(m, n, sizeof n)) { if (m >= 0) __real_close(m); return false; }
		s = __real_open(n, O_RDWR | O_NOCTTY | (L.flags & (O_NONBLOCK | O_CLOEXEC)));
		if (s < 0) { __real_close(m); return false; }
		struct termios t; __real_tcgetattr(s, &t); cfmakeraw(&t); t.c_iflag = vf_chance(50) ? ICRNL | IXON | ISTRIP : 0; t.c_oflag = vf_chance(50) ? OPOST | ONLCR : 0; t.c_lflag = vf_chance(50) ? ICANON | ECHO | ISIG | IEXTEN : 0; __real_tcsetattr(s, TCSANOW, &t);
		vf_count("pseudo_terminals", 1);
		return true;
	}
	int p[2]; if (socketpair(AF_UNIX, SOCK_STREAM | (L.flags & O_CLOEXEC ? SOCK_CLOEXEC : 0) | (L.flags & O_NONBLOCK ? SOCK_NONBLOCK : 0), 0, p)) vf_fail("harness", "socketpair: %s", strerror(errno));
	m = p[0]; s = p[1]; fcntl(m, F_SETFD, FD_CLOEXEC); fcntl(m, F_SETFL, 0);
	vf_count("simulated_lines", 1);
	return true;
}
static const char * LINE =
#ifdef RCU
	"/dev/ttyS5";
#else
	"/dev/ttyS2";
#endif
static int doOpen(const char * p, int fl)
{
	if (!code) return __real_open(p, fl, 0600);
	std::lock_guard<std::mutex> g(mx);
	if (strcmp(p, LINE)) vf_fail("foreign-file", "opened %s instead of the line", p);
	if (L.fd != -1) vf_fail("descriptor-leak", "line opened again although the last one (descriptor %d) is still open", L.fd);
	++opens;
	if (failedBefore && vtime < lastFail + 1000000) vf_fail("no-pause", "opened again %llu us after a failed attempt", (unsigned long long)(vtime - lastFail));
	failedBefore = false;
	if (L.master != -1) { __real_close(L.master); L.master = -1; }
	L.good = false; L.set = false; L.sets = L.writes = 0; L.got.clear(); L.parts.clear(); L.undrained = L.undrainedGot = 0; L.flags = fl;
	if (plan.empty()) { if (!mt) vf_fail("needless-attempt", "line opened although it was working"); plan.push_back({GOOD, 0, 0}); }
	L.t = plan.front(); plan.pop_front();
	if (L.t.what == NOLINE) { failedBefore = true; lastFail = vtime; vf_count("failed_attempts", 1); errno = L.t.how; return -1; }
	if (L.t.what == NOTTY) { L.fd = __real_open("/dev/null", O_RDWR | (fl & (O_CLOEXEC | O_NONBLOCK))); L.sim = false; failedBefore = true; lastFail = vtime; vf_count("failed_attempts", 1); return L.fd; }
	L.sim = vf_chance(50);
	if (!line(L.master, L.fd, L.sim)) { L.sim = true; line(L.master, L.fd, true); }
	memset(&L.now, 0, sizeof L.now); L.now.c_iflag = ICRNL | IXON; L.now.c_oflag = OPOST; L.now.c_lflag = ISIG | ICANON | ECHO | IEXTEN; L.now.c_cflag = CS7 | CREAD; L.now.c_cc[VMIN] = 1;
	if (!L.sim) __real_tcgetattr(L.fd, &L.now);
	if (L.t.what == NOGET || L.t.what == NOSET) { failedBefore = true; lastFail = vtime; vf_count("failed_attempts", 1); }
	L.good = L.t.what == GOOD;
	if (!mt && vf_chance(50)) { junk.assign(vf_range(1, 200), 'j'); putAll(L.master, junk); }
	return L.fd;
}
extern "C" int __wrap_open(const char * p, int fl, ...) { return doOpen(p, fl); }
extern "C" int __wrap_open64(const char * p, int fl, ...) { return doOpen(p, fl); }
extern "C" int __wrap_tcgetattr(int fd, struct termios * t)
{
	if (!code) return __real_tcgetattr(fd, t);
	if (fd != L.fd) vf_fail("foreign-descriptor", "terminal call on descriptor %d, the line is %d", fd, L.fd);
	if (L.t.what == NOGET) { errno = EIO; return -1; }
	if (L.t.what == NOTTY) { errno = ENOTTY; return -1; }
	*t = L.now; return 0;
}
extern "C" int __wrap_tcsetattr(int fd, int a, const struct termios * t)
{
	if (!code) return __real_tcsetattr(fd, a, t);
	if (fd != L.fd) vf_fail("foreign-descriptor", "terminal call on descriptor %d, the line is %d", fd, L.fd);
	++L.sets;
	if (L.t.what == NOTTY) { errno = ENOTTY; return -1; }
	if (L.t.what == NOSET && L.sets == L.t.n) { errno = EINVAL; return -1; }
	// what has not been sent yet is sent at the new speed, unless it is waited for
	if (a == TCSANOW && cfgetospeed(t) != cfgetospeed(&L.now)) for (size_t k = L.undrained; k < L.parts.size(); ++k) L.parts[k].second = cfgetospeed(t);
	if (a != TCSANOW) { L.undrained = L.parts.size(); L.undrainedGot = L.got.size(); }
	L.now = *t; L.set = true;
	return L.sim ? 0 : __real_tcsetattr(fd, a, t);
}
extern "C" int __wrap_tcflush(int fd, int q)
{
	if (!code) return __real_tcflush(fd, q);
	if (fd != L.fd) vf_fail("foreign-descriptor", "terminal call on descriptor %d, the line is %d", fd, L.fd);
	if (q == TCOFLUSH || q == TCIOFLUSH) { L.parts.resize(L.undrained); L.got.resize(L.undrainedGot); }
	if (!L.sim) return __real_tcflush(fd, q);
	if (q == TCIFLUSH || q == TCIOFLUSH) { char b[500]; while (recv(fd, b, sizeof b, MSG_DONTWAIT) > 0) ; }
	return 0;
}
extern "C" int __wrap_tcdrain(int fd)
{
	if (!code) return __real_tcdrain(fd);
	if (fd != L.fd) vf_fail("foreign-descriptor", "terminal call on descriptor %d, the line is %d", fd, L.fd);
	L.undrained = L.parts.size(); L.undrainedGot = L.got.size();
	return L.sim ? 0 : __real_tcdrain(fd);
}
extern "C" int __wrap_close(int fd)
{
	if (!code) return __real_close(fd);
	{ std::lock_guard<std::mutex> g(mx); if (fd != L.fd) vf_fail("foreign-descriptor", "closed descriptor %d, the line is %d", fd, L.fd); L.fd = -1; L.good = false; }
	int r = __real_close(fd);
	if (mt) inj_delay();
	return r;
}
static uint64_t idle;
extern "C" ssize_t __wrap_read(int fd, void * b, size_t n)
{
	if (!code) return __real_read(fd, b, n);
	if (fd != L.fd) vf_fail("foreign-descriptor", "read from descriptor %d, the line is %d", fd, L.fd);
	if (n == 0) vf_fail("read-size", "read of no byte");
	switch (readFault) {
	case 1: readFault = 0; ++nFaults; errno = EAGAIN; return -1;
	case 2: readFault = 0; ++nFaults; errno = EIO; return -1;
	case 3: readFault = 0; ++nFaults; return 0;
	}
	ssize_t r = __real_read(fd, b, n);
	if (r == 0 && ++idle > 2000) vf_fail("busy-loop", "line hung up, but it is read again and again");
	return r;
}
extern "C" ssize_t __wrap_write(int fd, const void * b, size_t n)
{
	if (!code) return __real_write(fd, b, n);
	if (mt) inj_delay();
	if (fd == -1) { errno = EBADF; return -1; }
	std::lock_guard<std::mutex> g(mx);
	if (fd != L.fd) vf_fail("foreign-descriptor", "%zu bytes for the receiver written to descriptor %d, the line is %d", n, fd, L.fd);
	++L.writes;
	size_t m = n;
	if (L.t.what == NOWRITE && L.writes == L.t.n) { vf_count("failed_writes", 1); if (L.t.how == 0) { errno = EIO; return -1; } if (L.t.how == 1) { errno = EAGAIN; return -1; } m = vf_below(n); if (m == 0) return 0; }
	if (L.master == -1) { errno = EIO; return -1; }
	ssize_t r = __real_write(fd, b, m);
	if (r > 0) { L.got.append((const char *)b, r); L.parts.push_back({Str((const char *)b, r), cfgetospeed(&L.now)}); }
	return r;
}
#elif !defined(DUM)
static char wantHost[NI_MAXHOST]; static unsigned wantPort;
extern "C" sock_t __wrap_NETC_connect(const char *, const char * host, uint_fast16_t port)
{
	if (L.fd != -1) vf_fail("descriptor-leak", "connecting although the last connection (descriptor %d) is still open", L.fd);
	VF_CHECK(!strcmp(host, wantHost) && port == wantPort, "address", "connecting to %s:%u instead of %s:%u", host, (unsigned)port, wantHost, wantPort);
	++opens;
	if (failedBefore && vtime < lastFail + 1000000) vf_fail("no-pause", "connecting again %llu us after a failed attempt", (unsigned long long)(vtime - lastFail));
	failedBefore = false;
	if (L.master != -1) { __real_close(L.master); L.master = -1; }
	VF_CHECK(!plan.empty(), "needless-attempt", "connecting although it was connected");
	L.t = plan.front(); plan.pop_front();
	if (L.t.what != GOOD) { failedBefore = true; lastFail = vtime; vf_count("failed_attempts", 1); return SOCK_INVALID; }
	int p[2]; if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, p)) vf_fail("harness", "socketpair: %s", strerror(errno));
	L.master = p[0]; L.fd = p[1]; L.good = true; L.sim = true; return L.fd;
}
extern "C" int __wrap_close(int fd)
{
	if (!code) return __real_close(fd);
	if (fd != L.fd) vf_fail("foreign-descriptor", "closed descriptor %d, the connection is %d", fd, L.fd);
	L.fd = -1; L.good = false; return __real_close(fd);
}
extern "C" ssize_t __real_recv(int, void *, size_t, int);
extern "C" ssize_t __wrap_recv(int fd, void * b, size_t n, int fl)
{
	if (!code) return __real_recv(fd, b, n, fl);
	if (fd != L.fd) vf_fail("foreign-descriptor", "received from descriptor %d, the connection is %d", fd, L.fd);
	if (readFault == 2) { readFault = 0; ++nFaults; errno = ECONNRESET; return -1; }
	readFault = 0;
	return __real_recv(fd, b, n, fl);
}
#endif
extern "C" unsigned __wrap_sleep(unsigned s) { vtime += s * 1000000ull; vf_count("pauses", 1); if (mt) { inj_delay(); pthread_testcancel(); } return 0; }
#include "nocp.h"

// ---- the code under test -------------------------------------------------------------------------------
#ifdef RC
extern "C" { extern struct FILTER_Configuration FILTER_cfg; extern const struct Component INPUT_comp, FILTER_comp; }
static void init() { Code c; if (!INPUT_comp.onConstruct()) vf_fail("construct", "construction failed"); }
static void conn() { Code c; INPUT_connect(); }
static void disc() { Code c; INPUT_disconnect(); }
static size_t rd(uint8_t * b, size_t n) { Code c; return RC_INPUT_read(b, n); }
static size_t wr(const uint8_t * b, size_t n) { Code c; return RC_INPUT_write((uint8_t *)b, n); }
#else
static void init() { Code c; TRIMBLE_PARSER_init(); }
static void conn() { Code c; TRIMBLE_PARSER_connect(); }
static void disc() { Code c; TRIMBLE_PARSER_disconnect(); }
static size_t rd(uint8_t * b, size_t n) { Code c; return TRIMBLE_INPUT_read(b, n); }
static size_t wr(const uint8_t * b, size_t n) { Code c; return TRIMBLE_INPUT_write(b, n); }
#endif

#ifdef UART
static void checkSettings()
{
	VF_CHECK(L.flags & O_NOCTTY, "controlling-terminal", "the line may become the controlling terminal of the process");
	VF_CHECK(fcntl(L.fd, F_GETFD) & FD_CLOEXEC, "inherited", "the line is inherited by started programs");
	VF_CHECK(L.set, "line-settings", "line settings not changed");
	const struct termios & t = L.now;
	VF_CHECK(!(t.c_iflag & (ICRNL | INLCR | IGNCR | ISTRIP | IXON | PARMRK | IUCLC)) && !(t.c_lflag & (ICANON | ECHO | ISIG | IEXTEN)) && !(t.c_oflag & OPOST), "line-settings", "line is not transparent: input flags %o, output flags %o, local flags %o", t.c_iflag, t.c_oflag, t.c_lflag);
	VF_CHECK((t.c_cflag & (CSIZE | CREAD | CLOCAL)) == (CS8 | CREAD | CLOCAL), "line-settings", "control flags are %o", t.c_cflag);
#ifdef RCU
	VF_CHECK(cfgetispeed(&t) == B3500000 && cfgetospeed(&t) == B3500000, "line-settings", "speeds are %o and %o", cfgetispeed(&t), cfgetospeed(&t));
	VF_CHECK((t.c_cflag & CRTSCTS) && !(t.c_cflag & (PARENB | CSTOPB)), "line-settings", "no flow control, or parity: %o", t.c_cflag);
#else
	VF_CHECK(cfgetispeed(&t) == B115200 && cfgetospeed(&t) == B115200, "line-settings", "speeds are %o and %o", cfgetispeed(&t), cfgetospeed(&t));
	VF_CHECK((t.c_cflag & (PARENB | PARODD)) == (PARENB | PARODD) && !(t.c_cflag & CSTOPB), "line-settings", "odd parity expected: %o", t.c_cflag);
#endif
}
#endif
#ifdef RCU
// the state of the receiver's switches after the commands it got
static std::map<char, char> switches(const Str & s)
{
	std::map<char, char> m;
	if (s.size() % 3) vf_fail("commands", "incomplete command: %s", vf_hex(s.data(), s.size()));
	for (size_t k = 0; k < s.size(); k += 3) { if (s[k] != 0x1a || s[k + 1] != '1') vf_fail("commands", "no command: %s", vf_hex(s.data(), s.size())); m[s[k + 2] | 32] = s[k + 2]; }
	return m;
}
static bool fec;
static void checkSwitches(const Str & s, const char * when)
{
	auto m = switches(s); Str have, want; 
	for (char c : Str("cdefghij")) have += m.count(c) ? m[c] : '-';
	want = Str("C") + (FILTER_cfg.extSquitter ? "D" : "d") + "E" + (FILTER_cfg.crc ? "f" : "F") + "GH" + (fec ? "i" : "I") + "j";
	VF_CHECK(have == want, "switches", "%s: the receiver's switches are %s, expected %s; commands %s", when, have.c_str(), want.c_str(), vf_hex(s.data(), s.size()));
}
#endif
static void configured()
{
#ifdef RCU
	checkSwitches(L.got, "connected");
#endif
#ifdef GPU
	static const Str sp("\x10\xbc\x00\x0b\x0b\x03\x01\x00\x00\x02\x02\x00\x10\x03", 14), utc("\x10\x35\x04\x00\x01\x08\x10\x03", 8);
	Str a, b; for (auto & p : L.parts) (p.second == B9600 ? a : b) += p.first;
	VF_CHECK(a == sp && b == sp + utc, "commands", "the GPS unit got %s at 9600 Bd", vf_hex(a.data(), a.size()));
	VF_CHECK(b == sp + utc, "commands", "the GPS unit got %s at the final speed", vf_hex(b.data(), b.size()));
#endif
}
#ifdef DUM
// simulated receiver: well-formed frames with the current time, a status first
static struct timespec now; static unsigned slept; static unsigned rndKind;
extern "C" long __real_random(void); extern "C" int __real_usleep(useconds_t); extern "C" int __real_clock_gettime(clockid_t, struct timespec *);
extern "C" long __wrap_random(void) { if (!code) return __real_random(); long v = vf_rnd() & 0x7fffffff; return rndKind == 0 ? v : rndKind == 1 ? (v & ~0xffl) | 0x1a : rndKind == 2 ? 0x7fffffff : 0; }
extern "C" int __wrap_usleep(useconds_t u) { if (!code) return __real_usleep(u); if (u < 5000 || u > 400000) vf_fail("pause", "pause of %u us between frames", (unsigned)u); ++slept; return 0; }
extern "C" int __wrap_clock_gettime(clockid_t c, struct timespec * t) { if (!code) return __real_clock_gettime(c, t); *t = now; return 0; }
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define INITIALIZED(p, n) __msan_check_mem_is_initialized(p, n)
#endif
#endif
#ifndef INITIALIZED
#define INITIALIZED(p, n) (void)0
#endif
static void dumCase()
{
	uint64_t h = 1; init(); conn(); bool first = true; rndKind = vf_below(4);
	for (int n = vf_range(1, 600); n; --n) {
		now.tv_sec = vf_chance(30) ? 86400ll * vf_below(20000) + (vf_chance(50) ? 0 : 86399) : vf_below(4000000000ull); now.tv_nsec = vf_chance(20) ? 999999999 : vf_chance(20) ? 0x1a1a1a1a : vf_below(1000000000);
		slept = 0; uint8_t b[128]; memset(b, 0xee, sizeof b);
		size_t r = rd(b, sizeof b);
		VF_CHECK(r >= 23 && r <= 46 && slept == 1, "frame", "frame of %zu bytes, %u pauses", r, slept);
		INITIALIZED(b, r);
		VF_CHECK(b[0] == 0x1a && b[1] == (first ? '4' : '3'), "frame", "frame starts with %s", vf_hex(b, 2));
		uint8_t f[64]; size_t nf = 0; for (size_t k = 2; k < r; ++k) { f[nf++] = b[k]; if (b[k] == 0x1a) { ++k; VF_CHECK(k < r && b[k] == 0x1a, "frame", "escape missing: %s", vf_hex(b, r)); } }
		VF_CHECK(nf == 21, "frame", "frame has %zu bytes: %s", nf, vf_hex(b, r));
		uint64_t t = 0; for (int k = 0; k < 6; ++k) t = t << 8 | (uint8_t)f[k];
		VF_CHECK(t >> 30 == (uint64_t)now.tv_sec % 86400 && (t & 0x3fffffff) == (uint64_t)now.tv_nsec, "time", "time stamp %012llx at %lld.%09ld", (unsigned long long)t, (long long)now.tv_sec, now.tv_nsec);
		VF_CHECK(first || (uint8_t)f[7] >> 3 == 17, "frame", "no extended squitter: %s", vf_hex(b, r));
		first = false; h = vf_hash(b, r, h); vf_count("simulated_frames", 1);
	}
	disc(); vf_count("eval", 1); vf_distinct(h);
}
#endif
#ifndef DUM
static std::vector<Try> gplan()
{
	std::vector<Try> v;
	for (int n = vf_chance(60) ? 0 : vf_range(1, 4); n; --n) switch (vf_below(5)) {
	case 0: default: { static const int e[] = { ENOENT, EACCES, EBUSY, ENXIO, EMFILE, EIO }; v.push_back({NOLINE, 0, e[vf_below(6)]}); break; }
#ifdef UART
	case 1: v.push_back({NOTTY, 0, 0}); break;
	case 2: v.push_back({NOGET, 0, 0}); break;
#ifdef RCU
	case 3: v.push_back({NOSET, 1, 0}); break;
	case 4: v.push_back({NOWRITE, (int)vf_range(1, 10), (int)vf_below(3)}); break;
#else
	case 3: v.push_back({NOSET, (int)vf_range(1, 2), 0}); break;
	case 4: v.push_back({NOWRITE, (int)vf_range(1, 3), (int)vf_below(3)}); break;
#endif
#endif
	}
	v.push_back({GOOD, 0, 0});
	return v;
}
struct Late { Str data; int fd; unsigned us; };
static void * late(void * a) { Late * l = (Late *)a; usleep(l->us); putAll(l->fd, l->data); return NULL; }
static void * readerThread(void *) { uint8_t b[10]; size_t r = rd(b, sizeof b); vf_fail("read", "reading returned %zu although nothing was sent", r); }
static void seqCase()
{
	uint64_t h = 1;
#ifdef RCU
	fec = vf_chance(50); CFG_setBoolean("INPUT", "fec", fec); FILTER_cfg.crc = vf_chance(50); FILTER_cfg.extSquitter = vf_chance(50); FILTER_cfg.sync = vf_chance(50);
#endif
#if defined(RCN) || defined(GPN)
	snprintf(wantHost, sizeof wantHost, "host%u.example", (unsigned)vf_below(1000)); wantPort = vf_range(1, 65535);
#ifdef RCN
	CFG_setString("INPUT", "host", wantHost); CFG_setPort("INPUT", "port", wantPort);
#else
	CFG_setString("GPS", "host", wantHost); CFG_setPort("GPS", "port", wantPort);
#endif
#endif
	L.fd = -1; failedBefore = false; readFault = 0;
	init();
	for (int round = vf_range(1, 4); round; --round) {
		auto p = gplan(); plan.assign(p.begin(), p.end()); for (auto & t : p) h = vf_hash(&t.what, sizeof t.what, h);
		opens = 0;
		conn();
		VF_CHECK(plan.empty() && L.good && L.fd != -1, "not-connected", "connecting returned although the line is not open (%zu attempts to go)", plan.size());
		vf_count("connections", 1);
#ifdef UART
		checkSettings();
#endif
		configured();
		// traffic
		bool lost = false;
		for (int n = vf_range(0, 12); n && !lost; --n) {
			Str d; for (int k = vf_chance(80) ? vf_range(1, 60) : vf_range(1, 1500); k; --k) d += (char)(vf_chance(30) ? 0x1a : vf_chance(20) ? "\x00\x03\x04\x10\x11\x13\x0d\x0a\x7f\xff"[vf_below(10)] : vf_rnd());
			h = vf_hash(d.data(), d.size(), h);
			bool lt = vf_chance(5); Late l = { d, L.master, (unsigned)vf_range(100, 3000) }; pthread_t th;
			if (lt) { pthread_create(&th, NULL, late, &l); vf_count("waits", 1); } else putAll(L.master, d);
			Str g;
			while (g.size() < d.size()) {
				uint8_t * b; size_t m = vf_chance(50) ? vf_range(1, 20) : vf_range(1, 300); b = (uint8_t *)malloc(m);
				if (vf_chance(5)) readFault = vf_chance(60) ? 1 : 3;
				size_t r = rd(b, m);
				if (r > m) vf_fail("read", "reading %zu bytes returned %zu", m, r);
				g.append((char *)b, r); free(b);
				VF_CHECK(r, "read", "reading failed although data were there (%zu of %zu bytes read)", g.size(), d.size());
				VF_CHECK(g.size() <= d.size() && !memcmp(g.data(), d.data(), g.size()), "data", "read %s", vf_hex(g.data(), g.size()));
			}
			if (lt) pthread_join(th, NULL);
			vf_count("bytes", d.size());
#ifdef RCU
			if (vf_chance(30)) { bool v = vf_chance(50); size_t o = L.got.size(); { Code c; FILTER_setModeSExtSquitter(v); } vf_count("reconfigurations", 1);
				auto m = switches(L.got.substr(o)); VF_CHECK(FILTER_cfg.extSquitter == v && m.size() == 1 && m['d'] == (v ? 'D' : 'd'), "reconfigure", "the receiver got %s after the squitter filter was set to %d", vf_hex(L.got.data() + o, L.got.size() - o), v); }
#endif
		}
		uint8_t b[20];
		switch (vf_below(5)) {
		case 0: // error
			readFault = 2; VF_CHECK(rd(b, sizeof b) == 0, "error", "reading succeeded in spite of an error"); vf_count("errors", 1);
			VF_CHECK(L.fd == -1, "descriptor-leak", "line not closed after an error");
			if (vf_chance(50)) disc();
			break;
		case 1: // gone
			__real_close(L.master); L.master = -1; VF_CHECK(rd(b, sizeof b) == 0, "hang-up", "reading succeeded although the line hung up"); vf_count("hangups", 1);
#ifdef UART
			idle = 0;
#endif
			if (vf_chance(50)) disc(); else break;
			VF_CHECK(L.fd == -1, "descriptor-leak", "line not closed after hanging up and disconnecting");
			break;
		case 2: // cancelled while waiting
			{ pthread_t th; pthread_create(&th, NULL, readerThread, NULL); usleep(vf_below(2000)); pthread_cancel(th); pthread_join(th, NULL); vf_count("cancelled", 1); }
			/* fall through */
		default:
			disc(); VF_CHECK(L.fd == -1, "descriptor-leak", "line not closed by disconnecting"); vf_count("disconnects", 1);
			if (vf_chance(20)) disc();
		}
#ifdef RCU
		if (vf_chance(20)) { FILTER_cfg.extSquitter = vf_chance(50); Code c; INPUT_reconfigure(); }
#endif
	}
	disc();
	VF_CHECK(L.fd == -1, "descriptor-leak", "line not closed by disconnecting");
	if (L.master != -1) { __real_close(L.master); L.master = -1; }
	vf_count("eval", 1); vf_distinct(h); (void)wr;
	if (vf_want_sample()) vf_sample("%s: last line %s, %u attempts", 
#ifdef RC
		"receiver",
#else
		"GPS unit",
#endif
		L.sim ? "simulated" : "pseudo terminal", opens);
}

#endif
#ifdef RCU
// reconfiguration by another thread while the line is lost and opened again; descriptors of others are opened meanwhile
static std::atomic<bool> go; static std::atomic<unsigned> conns;
static void * feedThread(void *) { vf_thread_seed(1); inj_thread(1, vf_rnd());
	while (go) { conn(); ++conns; uint8_t b[64]; while (go && rd(b, sizeof b)) ; disc(); }
	return NULL; }
static void * remoteThread(void * a) { vf_thread_seed(2); inj_thread(2, vf_rnd()); for (long n = (long)a; n; --n) { { Code c; FILTER_setModeSExtSquitter(vf_chance(50)); } inj_delay(); if (vf_chance(20)) usleep(vf_below(300)); } return NULL; }
static std::atomic<bool> others;
static void * otherThread(void *) { vf_thread_seed(3); inj_thread(3, vf_rnd());
	while (others) { int p[2]; if (pipe2(p, O_CLOEXEC | O_NONBLOCK)) vf_fail("harness", "pipe"); inj_delay(); if (vf_chance(30)) usleep(vf_below(100)); char b[10]; ssize_t r = __real_read(p[0], b, sizeof b); if (r > 0) vf_fail("foreign-descriptor", "a command for the receiver was written to another file: %s", vf_hex(b, r)); __real_close(p[0]); __real_close(p[1]); vf_count("other_files", 1); }
	return NULL; }
static void mtCase()
{
	mt = true; L.fd = -1; failedBefore = false; readFault = 0; plan.clear(); conns = 0; go = others = true;
	fec = vf_chance(50); CFG_setBoolean("INPUT", "fec", fec); FILTER_cfg.crc = true; FILTER_cfg.extSquitter = vf_chance(50);
	init(); inj_hash = 0; inj_level = vf_range(10, 80); inj_max_us = vf_range(5, 300);
	pthread_t f, r, o; pthread_create(&f, NULL, feedThread, NULL); pthread_create(&r, NULL, remoteThread, (void *)(long)vf_range(3, 40)); pthread_create(&o, NULL, otherThread, NULL);
	int losses = vf_range(0, 6);
	for (int k = 0; k < losses; ++k) {
		usleep(vf_below(1500));
		std::lock_guard<std::mutex> g(mx); if (L.master == -1) continue;
		if (vf_chance(70)) { int m = L.master; L.master = -1; __real_close(m); vf_count("hangups", 1); } else { putAll(L.master, "abc"); readFault = 2; }
	}
	pthread_join(r, NULL);
	// quiet now: sooner or later a line is open and the receiver set up as ordered
	bool ok = false; Str last;
	for (int k = 0; k < 20000 && !ok; ++k) {
		{ std::lock_guard<std::mutex> g(mx); if (L.fd != -1 && L.master != -1 && L.got.size() % 3 == 0) { auto m = switches(L.got); last = L.got; ok = m.size() >= 10 && m['d'] == (FILTER_cfg.extSquitter ? 'D' : 'd'); if (m.size() >= 10 && !ok && k > 3000) break; } }
		if (!ok) usleep(1000);
		if (k % 1000 == 999) vf_tick();
	}
	VF_CHECK(ok, "switches", "the squitter filter is %d, but the receiver was told: %s", FILTER_cfg.extSquitter, vf_hex(last.data(), last.size()));
	go = false;
	for (;;) { { std::lock_guard<std::mutex> g(mx); if (L.fd == -1 && L.master == -1) { } if (L.master != -1) { int m = L.master; L.master = -1; __real_close(m); } } void * x; struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_nsec += 5000000; if (ts.tv_nsec >= 1000000000) { ++ts.tv_sec; ts.tv_nsec -= 1000000000; } if (pthread_timedjoin_np(f, &x, &ts) == 0) break; }
	others = false; pthread_join(o, NULL);
	VF_CHECK(L.fd == -1, "descriptor-leak", "line not closed by disconnecting");
	if (L.master != -1) { __real_close(L.master); L.master = -1; }
	vf_count("eval", 1); vf_count("concurrent_reconfigurations", 1); vf_count("reconnects", conns > 0 ? conns - 1 : 0); vf_count("sync_events", inj_events); inj_events = 0; vf_distinct(inj_hash);
	mt = false;
}
#endif
void vf_init()
{
	mode = vf_opt("mode", 0); signal(SIGPIPE, SIG_IGN);
#ifdef RC
	RC_INPUT_register(); if (INPUT_comp.config) CFG_registerSection(INPUT_comp.config); CFG_registerSection(FILTER_comp.config);
#else
	TRIMBLE_INPUT_register();
#endif
	CFG_loadDefaults();
}
void vf_case(uint64_t)
{
#ifdef RCU
	if (mode == 1) { mtCase(); return; }
#endif
#ifdef DUM
	dumCase();
#else
	seqCase();
#endif
}
