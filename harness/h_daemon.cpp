// C31: the complete daemon (its real main) as a process of its own, over loopback TCP between a receiver and a server (and a GPS unit) played by the
// harness; outages of either side, configurations in files, termination. -DRC: radarcape network daemon, otherwise the dump1090 feeder; -DSTD (with -DRC):
// C37, the stand-alone Radarcape daemon with its FPGA, watchdog and serial lines.
#include "beastgen.h"
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <dirent.h>
#include <math.h>
#include <time.h>
#include <string>
#include <vector>
#include <algorithm>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#ifdef HAVE_CONFIG_H
#include <config.h>
#endif
typedef std::string Str;
#ifdef STD
static __thread bool isWd; // this thread feeds the watchdog
#include "hwmodel.h"
#endif
extern "C" {
int daemon_main(int, char **);
int __real_sigwait(const sigset_t *, int *); unsigned __real_sleep(unsigned);
enum { MAXRUN = 16 }; struct Run { bool inDaemon; int fd; char cmd[200]; }; // a program which would have been started, and a descriptor which it would have inherited
struct Shared { volatile int waiting; volatile unsigned sleeps, connects, otherHost, otherPort; volatile int runs; Run run[MAXRUN]; }; static Shared * sh; static bool child; static pid_t self; static bool fdKnown[1024];
static int openFd(int from) { for (int fd = from; fd < 1024; ++fd) { int f = fcntl(fd, F_GETFD); if (f >= 0 && !(f & FD_CLOEXEC) && !fdKnown[fd]) return fd; } return -1; }
int __real_execve(const char *, char * const *, char * const *); FILE * __real_fopen(const char *, const char *);
int __wrap_execve(const char * p, char * const * a, char * const * e)
{
	if (!child) return __real_execve(p, a, e);
	int i = __sync_fetch_and_add(&sh->runs, 0x10000) >> 16; if (i < MAXRUN) { Run & r = sh->run[i]; r.inDaemon = getpid() == self; r.fd = openFd(3); size_t n = snprintf(r.cmd, sizeof r.cmd, "%s:", p); for (; *a && n < sizeof r.cmd; ++a) n += snprintf(r.cmd + n, sizeof r.cmd - n, " %s", *a); if (e && *e && n < sizeof r.cmd) snprintf(r.cmd + n, sizeof r.cmd - n, " {%s}", *e); __sync_fetch_and_add(&sh->runs, 1); }
	if (getpid() == self) { errno = ENOENT; return -1; } // the daemon goes on with its work
	_exit(0);
}
FILE * __wrap_fopen(const char * p, const char * m) { if (child && !strncmp(p, "/sys/", 5)) { errno = ENOENT; return NULL; } return __real_fopen(p, m); } // a control group
int __wrap_sigwait(const sigset_t * s, int * n) { if (child) sh->waiting = 1; return __real_sigwait(s, n); }
#ifdef STD
int __real_nanosleep(const struct timespec *, struct timespec *); int __real_clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *);
static void pauses(unsigned n) { if (!isWd) return; hw->wdSlept += n; if (hw->wdSlept > hw->wdWorst) hw->wdWorst = hw->wdSlept; if (hw->wdSlept > 30) hwNote("watchdog not fed for %u seconds", hw->wdSlept); }
static int scaled(const struct timespec * t, struct timespec * r, int (*real)(const struct timespec *, struct timespec *)) { if (t->tv_sec < 1) { if (hwArmed && pthread_equal(hwMain, pthread_self())) { hwTime += t->tv_nsec / 1000; hwTick(); return 0; } return real(t, r); } pauses(t->tv_sec); timespec x = { t->tv_sec * 4 / 1000, t->tv_sec * 4 % 1000 * 1000000 }; return real(&x, r); }
int __wrap_nanosleep(const struct timespec * t, struct timespec * r) { return child ? scaled(t, r, __real_nanosleep) : __real_nanosleep(t, r); }
int __wrap_clock_nanosleep(clockid_t c, int f, const struct timespec * t, struct timespec * r) { return child && !f ? (scaled(t, r, __real_nanosleep) ? errno : 0) : __real_clock_nanosleep(c, f, t, r); }
#define nanosleep __real_nanosleep
#else
static void pauses(unsigned) {}
#endif
unsigned __wrap_sleep(unsigned n) { if (!child) return __real_sleep(n); pauses(n); __sync_fetch_and_add(&sh->sleeps, 1); timespec t = { n * 4 / 1000, n * 4 % 1000 * 1000000 }; nanosleep(&t, NULL); return 0; }
#ifdef PKG
static int pkgPort, portRx; static uint32_t pkgHost; // where the package says that the receiver is
#endif
static int portSrv; int __real_connect(int, const struct sockaddr *, socklen_t);
int __wrap_connect(int fd, const struct sockaddr * a, socklen_t n) {
#ifdef PKG
	sockaddr_in to; if (child && a->sa_family == AF_INET && ((const sockaddr_in *)a)->sin_port != htons(portSrv)) { memcpy(&to, a, sizeof to); if (ntohs(to.sin_port) == pkgPort && ntohl(to.sin_addr.s_addr) == pkgHost) { to.sin_port = htons(portRx); to.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a = (sockaddr *)&to; n = sizeof to; } else { sh->otherHost = ntohl(to.sin_addr.s_addr); sh->otherPort = ntohs(to.sin_port); errno = ECONNREFUSED; return -1; } }
#endif
	int rc = __real_connect(fd, a, n), e = errno; if (child && a->sa_family == AF_INET && ((const sockaddr_in *)a)->sin_port == htons(portSrv)) __sync_fetch_and_add(&sh->connects, 1); errno = e; return rc; }
#ifdef RC
int __wrap_SERIAL_ETH_getSerial(uint32_t * s);
#endif
}
#include "nocp.h"
static uint32_t serialNo; static bool serialGiven; // number which is known to the daemon when it starts
#ifdef RC
int __wrap_SERIAL_ETH_getSerial(uint32_t * s) { if (serialNo == 0xffffffffu) return 2; if (s) *s = serialNo; return 3; }
#endif
static void put(const Str & f, const Str & c, const char * m = "w") { FILE * h = fopen(f.c_str(), m); if (!h) vf_fail("harness", "cannot write %s", f.c_str()); fwrite(c.data(), 1, c.size(), h); fclose(h); }
static Str tail(const char * f) { Str s; FILE * h = fopen(f, "r"); if (!h) return s; fseek(h, 0, SEEK_END); long n = ftell(h); fseek(h, n > 6000 ? n - 6000 : 0, SEEK_SET); char b[6001]; size_t k = fread(b, 1, 6000, h); s.assign(b, k); fclose(h);
	size_t p = s.find("ERROR: AddressSanitizer"); if (p == Str::npos) p = s.find("runtime error"); if (p == Str::npos) p = s.find("WARNING: ThreadSanitizer"); if (p != Str::npos) s = s.substr(p > 100 ? p - 100 : 0); for (char & c : s) if (c == '\n') c = '|'; return s.size() > 1800 && p == Str::npos ? s.substr(s.size() - 1800) : s.substr(0, 1800); }
static uint64_t now() { return vf_now_ns() / 1000000; } // ms
// ---- listeners
#ifndef PKG
static int portRx;
#endif
static int portGps, lRx = -1, lSrv = -1, lGps = -1;
static int listenOn(int port)
{
#ifdef STD
	if (port == 1 || port == 2) { int s = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0); sockaddr_un u; memset(&u, 0, sizeof u); u.sun_family = AF_UNIX; strcpy(u.sun_path, port == 1 ? "rx.sock" : "gps.sock"); unlink(u.sun_path); if (bind(s, (sockaddr *)&u, sizeof u) || listen(s, 16)) { close(s); return -1; } return s; }
#endif
	int s = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0), one = 1; setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
	sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	if (bind(s, (sockaddr *)&a, sizeof a) || listen(s, 16)) { close(s); return -1; }
	return s;
}
static int anyPort(int * l) { for (int i = 0; i < 3000; ++i) { int p = 10000 + vf_below(22000); if ((*l = listenOn(p)) >= 0) return p; } vf_fail("harness", "no free port"); }
static void up(int * l, int port) { if (*l >= 0) return; for (int i = 0; i < 200 && (*l = listenOn(port)) < 0; ++i) usleep(20000); if (*l < 0) { vf_inconclusive("the port was taken by another process"); _exit(0); } }
static void down(int * l) { if (*l >= 0) { close(*l); *l = -1; } }
static void drop(int & s, bool rst) { if (s < 0) return; if (rst) { linger l = { 1, 0 }; setsockopt(s, SOL_SOCKET, SO_LINGER, &l, sizeof l); } close(s); s = -1; }
// ---- the configuration
#ifdef PKG
#define OPS 3
#else
#define OPS 8
#endif
static bool ext, syncF, history; static Str user; static uint32_t devType; static double pos[3]; static unsigned timeoutMs; static unsigned backlog;
struct Pos { double v[3]; }; static std::vector<Pos> fixes; static size_t minFix; // a position must be one of fixes[minFix...]
// ---- frames
struct Fr { Bytes raw; bool adm, maybe; }; static std::vector<Fr> fr; static long lastK; static unsigned long delivered, skippedOk;
static bool synced; // state of the filter on this receiver connection
static uint64_t mlatOf(uint64_t k) { return (k << 16) | (k % 3 == 0 ? 0x1a1a : k % 3 == 1 ? 0x001a : 0x1234); }
static Bytes mk(uint8_t type, uint8_t first, uint64_t mlat, uint8_t lvl) { Bytes p = gen_bytes(beast_plen(type), vf_chance(30) ? 30 : 3); if (p.size()) p[0] = first; return beast_frame(type, mlat, lvl, p); }
static bool uncertain; // the filter may be either (between a command and its effect)
static Bytes frame(int kind) // 0: admitted under every filter, 1: only without the ext. squitter filter, 2: random
{
	long k = fr.size(); Fr f; f.maybe = false; uint8_t df, ty; 
	if (kind == 2) kind = vf_chance(60) ? 0 : vf_chance(60) ? 1 : 3;
	if (kind == 0) { df = vf_chance(50) ? 17 : 18; ty = vf_chance(80) ? '3' : '2'; }
	else { static const uint8_t D[] = { 0, 4, 5, 11, 16, 19, 20, 21, 24, 31 }; df = D[vf_below(10)]; ty = df < 16 ? '2' : '3'; }
	if (kind == 3) ty = vf_chance(50) ? '1' : '4';
	uint64_t m = mlatOf(k); if (ty == '4' && vf_chance(50)) m = 0;
	f.raw = mk(ty, df << 3 | vf_below(8), m, gen_byte(10));
	if (ty == '4' && m != 0) synced = true;
	f.adm = (ty == '2' || ty == '3') && (synced || !syncF) && (!ext || df == 17 || df == 18);
	if (uncertain && kind != 0) { f.maybe = true; f.adm = ty == '2' || ty == '3'; }
	fr.push_back(f); return f.raw;
}
// ---- the sides
static int cRx = -1, cSrv = -1, cGps = -1; static pid_t dpid; static int dstatus; static bool dead, rxLossy; static unsigned srvConns, rxConns, gpsConns; static bool stallSrv;
static Bytes outRx; static std::vector<int> oldSrv;
struct Srv { int st = 0; uint8_t type = 0; Bytes body, raw; size_t need = 0; int login = 0; bool logged = false; unsigned pos = 0, keep = 0, frames = 0, msgs = 0; bool noPosAtLogin = false; long first = -1; uint64_t lastT = 0; bool asked = false; } sv;
static unsigned serialRequests; static uint32_t assigned; static int answerMode; // 0 at once, 1 later, 2 never on this connection (closes instead)
static bool wantClose, noticed; static unsigned keeps, logins, nPos;
static uint32_t be32(const uint8_t * p) { return (uint32_t)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; }
static double bed(const uint8_t * p) { uint64_t v = 0; for (int i = 0; i < 8; ++i) v = v << 8 | p[i]; double d; memcpy(&d, &v, 8); return d; }
static void killDaemon() { if (dpid > 0 && !dead) { kill(dpid, SIGKILL); waitpid(dpid, NULL, 0); dead = true; } }
#define FAIL(key, ...) do { killDaemon(); vf_trace("output: %s", tail("out.txt").c_str()); vf_fail(key, __VA_ARGS__); } while (0)
#define CK(c, key, ...) do { if (!(c)) FAIL(key, __VA_ARGS__); } while (0)
static int lenOf(uint8_t t) { switch (t) { case 65: return 16; case 66: return 0; case '5': return 4; case '7': return 24; case 67: return 40; case '6': return 0; case '2': return 14; case '3': return 21; default: return -1; } }
static bool posOk(const Bytes & b) { double v[3] = { bed(&b[0]), bed(&b[8]), bed(&b[16]) }; for (size_t i = minFix; i < fixes.size(); ++i) if (!memcmp(v, fixes[i].v, sizeof v)) { minFix = i; return true; } return false; }
static void tbSerial() { uint8_t p[8] = { 0, 5, 0, 8, (uint8_t)(assigned >> 24), (uint8_t)(assigned >> 16), (uint8_t)(assigned >> 8), (uint8_t)assigned }; send(cSrv, p, 8, MSG_NOSIGNAL); vf_trace("server assigns %u", assigned); }
static void message()
{
	Bytes & b = sv.body; ++sv.msgs;
	if (sv.login < 4) switch (sv.type) {
	case 65: CK(sv.login == 0, "login-order", "device id as step %d", sv.login); CK(be32(&b[0]) == devType, "login-device", "device type %u instead of %u", be32(&b[0]), devType);
		{ unsigned a = 0, i = 0, r = 0; sscanf(PACKAGE_VERSION, "%u.%u.%u", &a, &i, &r); CK(be32(&b[4]) == a && be32(&b[8]) == i && be32(&b[12]) == r, "login-device", "version %u.%u.%u", be32(&b[4]), be32(&b[8]), be32(&b[12])); }
		sv.login = 1; return;
	case 66: CK(sv.login == 1, "login-order", "serial number requested as step %d", sv.login); CK(!serialGiven, "serial-request", "a serial number is requested although %u is known", serialNo); CK(!sv.asked, "serial-request", "requested twice on one connection"); sv.asked = true; ++serialRequests;
		if (answerMode == 0) { serialNo = assigned; tbSerial(); } else if (answerMode == 2) wantClose = true; return;
	case '5': CK(sv.login == 1, "login-order", "serial number as step %d", sv.login); CK(be32(&b[0]) == serialNo, "login-serial", "serial number %u instead of %u", be32(&b[0]), serialNo); serialGiven = true; sv.login = 2; if (user.empty() && sv.noPosAtLogin) { } 
		if (user.empty()) sv.login = 4; break;
	case '7': goto position;
	case 67: { CK(sv.login == 2, "login-order", "user name as step %d", sv.login); Str u((const char *)b.data(), strnlen((const char *)b.data(), 40)); CK(u == user, "login-user", "user name '%s' instead of '%s'", u.c_str(), user.c_str()); for (size_t i = u.size(); i < 40; ++i) CK(b[i] == 0, "login-user", "padding byte %02x", b[i]); sv.login = 4; break; }
	default: FAIL("login-order", "message of type 0x%02x before the login is complete (step %d)", sv.type, sv.login);
	}
	else switch (sv.type) {
	case '6': ++sv.keep; ++keeps; break;
	case '7': position:
		CK(sv.login >= 2, "login-order", "position before the serial number"); CK(sv.pos == 0, "position-twice", "%u positions on one connection", sv.pos + 1);
		CK(posOk(b), "position", "position %.17g %.17g %.17g is none which is valid (%zu are)", bed(&b[0]), bed(&b[8]), bed(&b[16]), fixes.size() - minFix); ++sv.pos; ++nPos; break;
	case '2': case '3': {
		long k = be32(&b[0]); CK(k < (long)fr.size(), "alien-frame", "frame %ld was never sent", k); Fr & f = fr[k];
		CK(f.raw == sv.raw, "damaged-frame", "frame %ld is %s instead of %s", k, vf_hex(sv.raw.data(), sv.raw.size()), vf_hex(f.raw.data(), f.raw.size()));
		CK(f.adm, "filtered-frame", "frame %ld should have been filtered: %s (ext %d, sync filter %d)", k, vf_hex(f.raw.data(), f.raw.size()), ext, syncF);
		CK(k > lastK, k == lastK ? "duplicate" : "order", "frame %ld after frame %ld", k, lastK);
		if (sv.first >= 0) for (long i = lastK + 1; i < k; ++i) CK(!fr[i].adm || fr[i].maybe, "lost-frame", "frame %ld after frame %ld on the same connection, frame %ld (%s) is missing", k, lastK, i, vf_hex(fr[i].raw.data(), fr[i].raw.size()));
		if (sv.first < 0) { if (history) for (long i = lastK + 1; i < k; ++i) CK(!fr[i].adm || fr[i].maybe, "lost-frame", "history is enabled, but frame %ld is missing", i); sv.first = k; }
		lastK = k; ++sv.frames; ++delivered; break; }
	default: FAIL("alien-message", "message of type 0x%02x after the login", sv.type);
	}
	if (sv.login == 4 && !sv.logged) { sv.logged = true; ++logins; }
}
static void serverBytes(const uint8_t * p, size_t n)
{
	for (size_t i = 0; i < n; ++i) {
		uint8_t x = p[i]; Srv & c = sv;
		if (c.st == 0) { CK(x == 0x1a, "framing", "message %u starts with 0x%02x", c.msgs, x); c.st = 1; c.raw.clear(); c.body.clear(); c.raw.push_back(x); }
		else if (c.st == 1) { CK(lenOf(x) >= 0, "framing", "message %u of type 0x%02x", c.msgs, x); c.type = x; c.raw.push_back(x); c.need = lenOf(x); c.st = 2; }
		else if (c.st == 2) { c.raw.push_back(x); if (x == 0x1a) c.st = 3; else c.body.push_back(x); }
		else { CK(x == 0x1a, "framing", "message of type 0x%02x cut after %zu bytes by 0x%02x", c.type, c.body.size(), x); c.raw.push_back(x); c.body.push_back(x); c.st = 2; }
		if (c.st == 2 && c.body.size() == c.need) { c.st = 0; message(); }
	}
}
static void allMaybe() { for (long i = lastK + 1; i < (long)fr.size(); ++i) fr[i].maybe = true; }
static void checkDead() { int st; if (!dead && dpid > 0 && waitpid(dpid, &st, WNOHANG) == dpid) { dead = true; dstatus = st; } }
#ifdef STD
static Bytes inRx; static unsigned long switchesSeen;
static void switches(const uint8_t * p, size_t n) // the receiver gets its settings: 0x1a '1' letter
{
	inRx.insert(inRx.end(), p, p + n);
	while (inRx.size() >= 3) { CK(inRx[0] == 0x1a && inRx[1] == '1' && isalpha(inRx[2]), "receiver-write", "the receiver gets %s", vf_hex(inRx.data(), std::min(inRx.size(), (size_t)12))); ++switchesSeen; inRx.erase(inRx.begin(), inRx.begin() + 3); }
}
#endif
static int holdRx, holdSrv; // accept and close so many connections
static void step(int ms)
{
	pollfd p[8]; int n = 0, iL = -1, iS = -1, iG = -1, jR = -1, jS = -1, jG = -1;
	auto add = [&](int fd, short ev) { p[n].fd = fd; p[n].events = ev; p[n].revents = 0; return n++; };
	if (lRx >= 0) iL = add(lRx, POLLIN); if (lSrv >= 0) iS = add(lSrv, POLLIN); if (lGps >= 0) iG = add(lGps, POLLIN);
	if (cRx >= 0) jR = add(cRx, POLLIN | (outRx.empty() ? 0 : POLLOUT)); if (cSrv >= 0 && !stallSrv) jS = add(cSrv, POLLIN); if (cGps >= 0) jG = add(cGps, POLLIN);
	poll(p, n, ms); uint8_t buf[8192];
	if (jS >= 0 && p[jS].revents) {
		ssize_t k = recv(cSrv, buf, vf_chance(30) ? 1 + vf_below(40) : sizeof buf, MSG_DONTWAIT);
		if (k > 0) serverBytes(buf, k); else if (k == 0 || errno != EAGAIN) { vf_trace("server side: end of connection"); close(cSrv); cSrv = -1; allMaybe(); }
		if (wantClose && cSrv >= 0) { wantClose = false; drop(cSrv, vf_chance(50)); allMaybe(); vf_trace("server closes instead of an answer"); }
	}
	if (jR >= 0 && p[jR].revents & (POLLIN | POLLHUP | POLLERR)) {
		ssize_t k = recv(cRx, buf, sizeof buf, MSG_DONTWAIT); 
#ifdef STD
		if (k > 0) switches(buf, k); else
#else
		if (k > 0) FAIL("receiver-write", "%zd bytes written to the network receiver", k); else
#endif
		 if (k == 0 || errno != EAGAIN) { vf_trace("receiver side: end of connection"); close(cRx); cRx = -1; outRx.clear(); allMaybe(); }
	}
	if (jR >= 0 && cRx >= 0 && !outRx.empty()) { size_t w = std::min(outRx.size(), (size_t)(vf_chance(50) ? vf_range(1, 30) : vf_range(1, 3000))); ssize_t k = send(cRx, outRx.data(), w, MSG_DONTWAIT | MSG_NOSIGNAL); if (k > 0) outRx.erase(outRx.begin(), outRx.begin() + k); }
	if (jG >= 0 && p[jG].revents) { ssize_t k = recv(cGps, buf, sizeof buf, MSG_DONTWAIT); if (k == 0 || (k < 0 && errno != EAGAIN)) { close(cGps); cGps = -1; } }
	if (iL >= 0 && p[iL].revents) { int s = accept4(lRx, NULL, NULL, SOCK_CLOEXEC | SOCK_NONBLOCK); if (s >= 0) { ++rxConns; vf_trace("receiver accepts"); CK(cRx < 0, "second-connection", "a second connection to the receiver while the first is open"); if (holdRx) { --holdRx; drop(s, vf_chance(50)); } else { cRx = s;
#ifdef STD
		inRx.clear();
#endif
		int one = 1; setsockopt(s, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); synced = false; } } }
	if (iG >= 0 && p[iG].revents) { int s = accept4(lGps, NULL, NULL, SOCK_CLOEXEC | SOCK_NONBLOCK); if (s >= 0) { ++gpsConns; CK(cGps < 0, "second-connection", "a second connection to the GPS unit while the first is open"); cGps = s; int one = 1; setsockopt(s, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); vf_trace("GPS unit accepts"); } }
	if (iS >= 0 && p[iS].revents) {
		int s = accept4(lSrv, NULL, NULL, SOCK_CLOEXEC | SOCK_NONBLOCK);
		if (s >= 0) {
			++srvConns; vf_trace("server accepts"); if (cSrv >= 0) { // the daemon must have given up the old one
				stallSrv = false; for (uint64_t t = now(); cSrv >= 0;) { CK(now() - t < 5000, "second-connection", "a second connection to the server while the first is open"); pollfd q = { cSrv, POLLIN, 0 }; poll(&q, 1, 50); ssize_t k = recv(cSrv, buf, sizeof buf, MSG_DONTWAIT); if (k > 0) serverBytes(buf, k); else if (k == 0 || errno != EAGAIN) { close(cSrv); cSrv = -1; allMaybe(); } }
			}
			if (!noticed) allMaybe(); // what came before it noticed the loss may have been sent into the void
			if (holdSrv) { --holdSrv; drop(s, vf_chance(50)); } else { cSrv = s; sv = Srv(); sv.lastT = now(); int one = 1; setsockopt(s, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); }
		}
	}
	checkDead();
}
static void hardware()
{
#ifdef STD
	if (hw->bad == 1 && hw->badText[0]) FAIL("hardware", "%s", hw->badText);
#endif
}
static void alive() { hardware(); if (dead) FAIL(WIFSIGNALED(dstatus) ? "daemon-killed" : "daemon-ended", "the daemon ended (%s %d): %s", WIFSIGNALED(dstatus) ? "signal" : "status", WIFSIGNALED(dstatus) ? WTERMSIG(dstatus) : WEXITSTATUS(dstatus), tail("out.txt").c_str()); }
template <typename F> static bool until(F f, unsigned ms) { for (uint64_t t = now(); ; ) { step(5); alive(); if (f()) return true; vf_tick(); if (now() - t > ms) return false; } }
static void say(const Bytes & b) { app(outRx, b); }
static void flushRx() { until([] { return outRx.empty() || cRx < 0; }, 20000); }
static void burst(int n) { for (; n > 0 && cRx >= 0; --n) { if (vf_chance(8)) { Bytes g = gen_bytes(vf_range(1, 30), 0); for (auto & x : g) if (x == 0x1a) x = 0; say(g); Bytes z = frame(0); fr.back().maybe = true; say(z); } say(frame(2)); } }
#ifdef RC
static uint64_t beD(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
static bool fixPending; // position sent by the GPS unit, nothing known yet about its arrival
static void gpsFix()
{
	Bytes p = gen_bytes(69, 5); p[0] = 0x8f; p[1] = 0xac; uint8_t * q = &p[1]; q[1] = 7; q[2] = 0; q[8] = q[9] = 0; q[10] = 0; q[11] = 0; q[12] = 0; 
	double r[3] = { (vf_range(-900000, 900000) / 10000.0) / 57.29577951308232, (vf_range(-1800000, 1800000) / 10000.0) / 57.29577951308232, vf_range(-1000, 90000) / 7.0 };
	for (int i = 0; i < 3; ++i) for (int j = 0; j < 8; ++j) q[36 + 8 * i + j] = beD(r[i]) >> (56 - 8 * j);
	Pos f = { { r[0] * 57.2957795130823208767981548141051703, r[1] * 57.2957795130823208767981548141051703, r[2] } };
	Bytes w = { 0x10 }; for (uint8_t x : p) { w.push_back(x); if (x == 0x10 && w.size() > 2) w.push_back(x); } w.push_back(0x10); w.push_back(3);
	if (cGps < 0) return; if (send(cGps, w.data(), w.size(), MSG_NOSIGNAL) == (ssize_t)w.size()) { fixes.push_back(f); vf_trace("GPS unit: fix %zu", fixes.size()); }
}
#endif
static unsigned calms;
static void calm()
{
	stallSrv = false; holdRx = holdSrv = 0; up(&lRx, portRx); up(&lSrv, portSrv); answerMode = 0; if (lGps < 0 && portGps) up(&lGps, portGps);
	if (cSrv >= 0 && sv.asked && sv.login == 1) { serialNo = assigned; tbSerial(); }
	CK(until([] { return cRx >= 0 && cSrv >= 0 && sv.logged && outRx.empty(); }, 50000), "no-recovery", "receiver %s, server %s, login step %d, after 50 s without disturbance", cRx >= 0 ? "connected" : "not connected", cSrv >= 0 ? "connected" : "not connected", sv.login);
	unsigned sc = srvConns, rc = rxConns; auto same = [&] { CK(srvConns == sc && rxConns == rc && cRx >= 0 && cSrv >= 0, "connection-lost", "a connection was given up without reason"); };
	long a = fr.size(); uint64_t t = now(); 
	for (;;) { Bytes s = beast_frame('4', 0x123456, 1, gen_bytes(14, 10)); say(s); synced = true; fr.push_back(Fr{ s, false, false }); say(frame(0)); fr.back().maybe = sv.first < 0; flushRx(); same(); until([&] { return lastK >= a; }, 15); same(); if (lastK >= a) break; CK(now() - t < 30000, "stuck", "no frame reaches the server for 30 s"); }
	for (long i = a; i < (long)fr.size(); ++i) if (i > lastK) fr[i].maybe = false;
	burst(vf_range(1, backlog > 80 ? 40 : backlog / 3)); say(frame(0)); long last = fr.size() - 1; flushRx();
	CK(until([&] { return lastK >= last; }, 30000), "stuck", "frame %ld does not reach the server (last was %ld)", last, lastK); same();
#ifdef RC
	if (cGps < 0) CK(until([] { return cGps >= 0; }, 30000), "no-recovery", "no connection to the GPS unit after 30 s");
	if (sv.pos == 0) { fixPending = true; gpsFix(); CK(until([] { return sv.pos == 1; }, 30000), "no-position", "the position was needed, but was not sent in 30 s after a fix"); }
#else
	CK(until([] { return sv.pos == 1; }, 20000), "no-position", "no position on this connection");
#endif
#ifdef STD
	{ CK(until([] { return hw->pulses > 0; }, 20000), "watchdog", "the watchdog was never fed"); unsigned k = hw->pulses; if (vf_chance(30)) CK(until([&] { return hw->pulses > k + 1; }, 20000), "watchdog", "the watchdog is not fed any more (%u pulses)", k); }
	if (hw->on) CK(hw->programmed, "hardware", "the daemon works, but the FPGA is not configured"); else CK(!hw->fpgaTouched, "hardware", "the FPGA was touched");
#endif
	if (vf_chance(25)) { unsigned k = sv.keep; CK(until([&] { return sv.keep > k; }, timeoutMs + 20000), "no-keep-alive", "no keep-alive in %u ms without traffic (interval %u ms)", timeoutMs + 20000, timeoutMs); same(); }
	++calms;
}
static void toggle() // by remote command; afterwards the new policy is in force
{
	calm(); unsigned w = 1 + vf_below(3); bool e = ext, s = syncF; if (w & 2) e = !e; if (w & 1) s = !s; 
	uint8_t c[6] = { 0, 4, 0, 6, (uint8_t)w, (uint8_t)((s ? 1 : 0) | (e ? 2 : 0)) }; if (w == 1) c[5] |= vf_below(2) << 1;
	vf_trace("filter command %02x %02x", c[4], c[5]); send(cSrv, c, 6, MSG_NOSIGNAL);
	if (!(w & 2)) { syncF = s; return; } // synchronised: makes no difference until the receiver reconnects; much later than this
	uncertain = true; syncF = s;
	for (uint64_t t = now(); ; ) { // a frame of the other kind, then one which passes: shows the policy
		say(frame(1)); long k = fr.size() - 1; if (fr[k].raw[1] != '2' && fr[k].raw[1] != '3') continue; say(frame(0)); long z = fr.size() - 1; long before = lastK; (void)before; bool seen = false; flushRx();
		CK(until([&] { if (lastK == k) seen = true; return lastK >= z; }, 20000), "stuck", "frame %ld does not reach the server", z);
		// lastK jumps; the probe was delivered if it counts as received
		seen = std::find_if(fr.begin() + k, fr.begin() + k + 1, [](const Fr & f) { return f.maybe && f.raw.size() && f.adm; }) != fr.begin() + k + 1 && seen;
		if (seen == !e) break; CK(now() - t < 20000, "filter-command", "the filter command (mask %u, value %u) has no effect", c[4], c[5]);
	}
	uncertain = false; ext = e;
}
static Str opt(const char * k, const Str & v) { Str s; if (vf_chance(20)) s += vf_chance(50) ? "; comment\n" : "\n"; Str kk = k; if (vf_chance(30)) for (auto & c : kk) c = vf_chance(50) ? toupper(c) : tolower(c); s += kk; s += vf_chance(50) ? " = " : "="; s += v + "\n"; return s; }
static Str num(double d) { char b[60]; snprintf(b, sizeof b, "%.17g", d); return b; }
static Str boolean(bool b) { return b ? (vf_chance(50) ? "true" : "1") : (vf_chance(50) ? "false" : "0"); }
static uint64_t launched; static std::vector<Str> args;
#ifdef STD
static uint32_t hwSeed;
#endif
static void launch()
{
#ifdef STD
	hw->bad = 0; hw->badText[0] = 0; hw->pulses = hw->attempts = hw->wdSlept = 0; hw->programmed = hw->lineOpens = hw->gpsOpens = hw->fpgaTouched = hw->maps = 0; hw->nBits = 0; hw->wrongBit = -1; hwSeed = vf_rnd();
#endif
	launched = now(); sh->waiting = 0; sh->sleeps = sh->connects = 0; memset(sh->run, 0, sizeof sh->run); sh->runs = 0; dead = false; fflush(stdout); put("out.txt", "");
	dpid = fork();
	if (!dpid) {
		prctl(PR_SET_PDEATHSIG, SIGKILL); child = true; self = getpid();
		for (int fd : { lRx, lSrv, lGps }) if (fd >= 0) close(fd);
		int o = open("out.txt", O_WRONLY | O_APPEND | O_CREAT, 0600); dup2(o, 1); dup2(o, 2); close(o); int z = open("/dev/null", O_RDONLY); dup2(z, 0); close(z); for (int fd = 3; fd < 1024; ++fd) fdKnown[fd] = fcntl(fd, F_GETFD) >= 0;
		char n[] = "openskyd"; std::vector<char *> av = { n }; for (auto & a : args) av.push_back((char *)a.c_str()); av.push_back(NULL);
#ifdef STD
		hwArm(hwSeed);
#endif
		int rc = daemon_main(av.size() - 1, av.data()); fflush(stdout); _exit(rc);
	}
}

static int runs() { return sh->runs & 0xffff; }
// commands of the server to start programs: exactly those which this kind of daemon offers, and nothing else
#if defined(STD)
enum { OFFERED = 4 };
#elif defined(DUMP1090_DONATED)
enum { OFFERED = 1 };
#else
enum { OFFERED = 0 };
#endif
static void command()
{
	calm(); int n0 = runs(); bool white = std::find_if(args.begin(), args.end(), [](const Str & a) { return a.size() > 2 && !a.compare(0, 3, "--b"); }) == args.end(); Bytes out; std::vector<Str> want;
	for (unsigned k = vf_range(1, 4); k; --k) {
		uint16_t t = vf_chance(80) ? vf_below(4) : vf_chance(70) ? vf_range(6, 9) : vf_below(256) << 8 | vf_below(4); int ok = t == 0 ? 6 : 0, len = vf_chance(70) ? ok : vf_chance(70) ? vf_range(ok ? ok - 1 : 0, ok + 1) : vf_below(20); Bytes p = gen_bytes(len, 10);
		Bytes f = { (uint8_t)(t >> 8), (uint8_t)t, 0, (uint8_t)(4 + len) }; app(f, p); app(out, f); vf_trace("command %u with %d bytes", t, len); vf_count("commands", 1);
		if (t >= OFFERED || len != ok) { vf_count("commands_refused", 1); continue; }
		char b[120]; if (t == 0) snprintf(b, sizeof b, "/usr/bin/rcc: /usr/bin/rcc -t :22 -r %u.%u.%u.%u:%u -n", p[0], p[1], p[2], p[3], p[4] << 8 | p[5]); else if (t == 1) snprintf(b, sizeof b, "!openskyd: openskyd%s", white ? "" : " --black"); else if (t == 2) snprintf(b, sizeof b, "nobin/systemctl: nobin/systemctl reboot"); else { want.push_back("/usr/bin/pacman: /usr/bin/pacman --noconfirm --needed -Sy openskyd rcc"); want.push_back("nobin/systemctl: nobin/systemctl daemon-reload"); snprintf(b, sizeof b, "nobin/systemctl: nobin/systemctl restart openskyd"); }
		want.push_back(b);
	}
	unsigned sc = srvConns; send(cSrv, out.data(), out.size(), MSG_NOSIGNAL); bool all = until([&] { return runs() >= n0 + (int)want.size(); }, 20000); until([] { return false; }, vf_below(15)); calm();
	int n = runs() - n0; Str got; std::vector<Str> have; for (int i = n0; i < n0 + n && i < MAXRUN; ++i) { Str c = Str(sh->run[i].inDaemon ? "!" : "") + sh->run[i].cmd; have.push_back(c); got += " [" + c + "]"; CK(sh->run[i].fd < 0, "inherited-descriptor", "%s inherits descriptor %d of the daemon", c.c_str(), sh->run[i].fd); }
	std::sort(have.begin(), have.end()); std::sort(want.begin(), want.end()); Str w; for (auto & x : want) w += " [" + x + "]";
	CK(all && have == want, "programs", "programs started:%s, expected:%s", got.c_str(), w.c_str()); CK(srvConns == sc, "connection-lost", "the connection to the server was given up after a command");
	vf_count("programs_started", n);
	sh->runs = 0; 
}
static bool valgrind() { static const char * pre = getenv("LD_PRELOAD"); return pre && strstr(pre, "vgpreload"); }
static bool mainWaits() // the main thread sleeps in sigwait(): the kernel takes the signals waited for out of its mask (it may also sleep before, e.g. for a lock of valgrind)
{
	bool known = sh->waiting; if (!known && (now() - launched < 20000 || valgrind())) return false; // it may wait for the signal by other means
	for (int i = 0; i < (known ? 3 : 30); ++i) {
		char f[80], b[4000]; snprintf(f, sizeof f, "/proc/%d/task/%d/status", dpid, dpid); FILE * h = fopen(f, "r"); if (!h) return false; size_t n = fread(b, 1, sizeof b - 1, h); b[n] = 0; fclose(h);
		char * q = strstr(b, "\nState:"); if (!q || !strchr(q, 'S') || q[8] != 'S') return false;
		q = strstr(b, "\nSigBlk:"); if (!q || strtoull(q + 8, NULL, 16) >> (SIGINT - 1) & 1) return false;
		usleep(2000);
	}
	return true;
}
static void terminate()
{
	CK(until(mainWaits, 60000), "not-started", "the daemon does not finish its start"); 
	bool read_ = vf_chance(80); valgrind() ? syscall(SYS_tgkill, dpid, dpid, SIGINT) : kill(dpid, SIGINT); /* other threads of valgrind may take a signal sent to the process */ vf_trace("SIGINT"); uint64_t t = now(); stallSrv = !read_; uint64_t m = 0;
	while (!dead) { step(5); vf_tick(); m = now() - t; CK(m < 40000, "stop-hang", "the daemon does not end within 40 s after SIGINT"); }
	stallSrv = false;
	if (runs()) FAIL("programs", "a program was started without command: %s", sh->run[0].cmd);
	if (!(WIFEXITED(dstatus) && WEXITSTATUS(dstatus) == 0)) FAIL("unclean-end", "after SIGINT the daemon ends with %s %d: %s", WIFSIGNALED(dstatus) ? "signal" : "status", WIFSIGNALED(dstatus) ? WTERMSIG(dstatus) : WEXITSTATUS(dstatus), tail("out.txt").c_str());
	Str o = tail("out.txt"); 
	while (cSrv >= 0) { step(0); if (now() - t > 60000) break; }
	hardware();
#ifdef STD
	if (hw->on) CK(hw->programmed, "hardware", "the FPGA is not configured any more after the end");
	CK(hw->maps == 0, "hardware", "%d controllers stay mapped", hw->maps); vf_count("register_accesses", hw->accesses); hw->accesses = 0; vf_count("watchdog_pulses", hw->pulses); vf_max("attempts", hw->attempts); vf_count("switches", switchesSeen); switchesSeen = 0; if (hw->on) vf_count("bits", hw->nBits);
#endif
	drop(cRx, false); drop(cSrv, false); drop(cGps, false); outRx.clear(); allMaybe(); vf_max("stop_ms", m);
	// connections which were never accepted
	for (int l : { lRx, lSrv, lGps }) if (l >= 0) { int s; while ((s = accept4(l, NULL, NULL, SOCK_CLOEXEC)) >= 0) close(s); }
}
#ifdef PKG
#include "pkg.h"
#if defined(DUMP1090_DONATED)
#define PKGNAME "opensky-feeder-donated"
#elif defined(DUMP1090_KIT)
#define PKGNAME "opensky-feeder-kit"
#else
#define PKGNAME "opensky-feeder"
#endif
static bool pkgAssigned; // the server's number is in a file
static Str pkgVal(const char * n) { PkgQ * q = pkgQ(Str("openskyd/") + n); return q ? q->val : Str(); }
static void pkgExpect()
{ // what the daemon has to do with the answers
	static const char * const A[] = { "latitude", "longitude", "altitude" }; Pos P; for (int i = 0; i < 3; ++i) P.v[i] = strtod(pkgVal(A[i]).c_str(), NULL); fixes.clear(); minFix = 0; fixes.push_back(P); user = pkgVal("username");
	Str s = pkgVal("serial"), h = pkgVal("host"), p = pkgVal("port"); serialGiven = !s.empty() || pkgAssigned; serialNo = s.empty() ? assigned : strtoul(s.c_str(), NULL, 10);
	pkgHost = ntohl(inet_addr(h.empty() || h == "localhost" ? "127.0.0.1" : h.c_str())); pkgPort = p.empty() ? 30005 : atoi(p.c_str()); if (pkgVal("dump1090branch") == "hptoa") devType = 8; else if (devType == 8) devType = 5; sh->otherHost = sh->otherPort = 0;
}
#endif
static void wipe() { (void)!system("chmod -R u+rwX . 2>/dev/null; rm -rf var etc"); mkdir("etc", 0755); mkdir("etc/conf.d", 0755); if (vf_chance(70)) { mkdir("var", 0755); if (vf_chance(70)) mkdir("var/conf.d", 0755); } }
void vf_init(void)
{
#ifdef STD
	hwInit();
#endif
	signal(SIGPIPE, SIG_IGN); sh = (Shared *)mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
void vf_case(uint64_t)
{
	wipe(); drop(cRx, true); drop(cSrv, true); drop(cGps, true); down(&lRx); down(&lSrv); down(&lGps); outRx.clear(); fr.clear(); lastK = -1; delivered = 0; fixes.clear(); minFix = 0; srvConns = rxConns = gpsConns = serialRequests = keeps = logins = nPos = calms = 0; holdRx = holdSrv = 0; stallSrv = uncertain = wantClose = noticed = false; sv = Srv();
	args.clear();
#ifdef STD
	portRx = 1; portGps = 2; up(&lRx, 1);
#else
	portRx = anyPort(&lRx);
#endif
	 portSrv = anyPort(&lSrv); if (portGps != 2) portGps = 0;
	history = vf_chance(40); backlog = vf_chance(40) ? 200 : vf_range(60, 400); timeoutMs = vf_chance(50) ? 1500 : vf_range(20, 800); assigned = vf_chance(15) ? 0x1a1a1a1a : vf_rnd(); user.clear();
	std::vector<std::pair<Str, Str>> sec; auto cfg = [&](const char * s, const char * k, const Str & v) { sec.push_back({ s, opt(k, v) }); };
	cfg("NETWORK", "Host", "127.0.0.1"); cfg("NETWORK", "Port", std::to_string(portSrv)); 
#ifndef STD
#ifndef PKG
	cfg("INPUT", "host", "127.0.0.1"); cfg("INPUT", "port", std::to_string(portRx));
#endif
#endif

	if (history || vf_chance(20)) cfg("BUFFER", "History", boolean(history)); if (backlog != 200) cfg("BUFFER", "StaticBacklog", std::to_string(backlog)); if (timeoutMs != 1500) cfg("NETWORK", "Timeout", std::to_string(timeoutMs));
	if (vf_chance(30)) { cfg("BUFFER", "GC", "true"); cfg("BUFFER", "GCInterval", std::to_string(vf_range(1, 5))); cfg("BUFFER", "GCLevel", std::to_string(vf_range(1, 4))); } if (vf_chance(50)) { cfg("STATISTICS", "Enabled", boolean(vf_chance(70))); cfg("STATISTICS", "Interval", std::to_string(vf_range(5, 600))); }
	ext = true; if (vf_chance(50)) { ext = vf_chance(50); cfg("FILTER", "ModeSExtSquitterOnly", boolean(ext)); }
#ifdef RC
	syncF = true; serialNo = vf_rnd() & 0x7fffffff; serialGiven = true;
#ifdef STD
	devType = 2; up(&lGps, 2); (void)!system("rm -rf fw; mkdir fw"); hw->white = vf_chance(50); hw->on = !vf_chance(12); size_t fsz = vf_range(1, vf_chance(80) ? 120 : 500); Bytes rbf = gen_bytes(fsz, 0); memcpy(hw->file, rbf.data(), fsz); hw->bits = 8 * fsz; Str fwFile = "fw/openskyd.rbf"; unsigned fails = 0; 
	if (!hw->white) args.push_back(vf_chance(80) ? "--black" : "--bl");
	if (vf_chance(60)) { fwFile = vf_chance(50) ? "fw/x.rbf" : "y.rbf"; char cwd[PATH_MAX]; if (!getcwd(cwd, sizeof cwd)) _exit(2); cfg("FPGA", "File", fwFile == "y.rbf" ? Str(cwd) + "/y.rbf" : Str("x.rbf")); } else if (vf_chance(15)) cfg("FPGA", "File", ""); /* the default */ if (!hw->on || vf_chance(20)) cfg("FPGA", "Configure", boolean(hw->on));
	put(fwFile, Str((const char *)rbf.data(), fsz)); if (fwFile != "fw/openskyd.rbf") put("fw/openskyd.rbf", "an older file"); 
	while (fails < 2 && vf_chance(25)) ++fails; for (unsigned i = 0; i < 3; ++i) { hw->readyUs[i] = vf_below(400); hw->doneUs[i] = vf_below(400); hw->errAt[i] = -1; if (i < fails) switch (vf_below(3)) { case 0: hw->readyUs[i] = -1; break; case 1: hw->doneUs[i] = -1; break; default: hw->errAt[i] = vf_below(hw->bits); } }
#else
	devType = 3; portGps = anyPort(&lGps); cfg("GPS", "Host", "127.0.0.1"); cfg("GPS", "Port", std::to_string(portGps));
#endif
	 if (vf_chance(20)) { syncF = vf_chance(50); cfg("FILTER", "SyncFilter", boolean(syncF)); }
#else
	syncF = false; if (vf_chance(30)) { syncF = vf_chance(60); cfg("FILTER", "SyncFilter", boolean(syncF)); }
#ifdef PKG
#if defined(DUMP1090_DONATED)
	devType = 6;
#elif defined(DUMP1090_KIT)
	devType = 7;
#else
	devType = 5;
#endif
	pkgReset(); pkgAssigned = false; (void)!system("rm -rf var pk.txt"); bool complete = pkgConfigure(0, REPODIR "/debian", PKGNAME); pkgExpect();
#else
	pos[0] = vf_chance(15) ? (vf_chance(50) ? 90 : -90) : vf_range(-900000, 900000) / 10000.0; pos[1] = vf_chance(15) ? (vf_chance(50) ? 180 : -180) : vf_range(-1800000, 1800000) / 10000.0; pos[2] = vf_range(-1000, 90000) / 7.0;
	static const char * const A[] = { "Latitude", "Longitude", "Altitude" }; Pos P; for (int i = 0; i < 3; ++i) { Str t = num(pos[i]); P.v[i] = strtod(t.c_str(), NULL); cfg("GPS", A[i], t); } fixes.push_back(P);
	if (vf_chance(70)) { unsigned n = vf_chance(25) ? 40 : vf_range(1, 40); for (unsigned i = 0; i < n; ++i) user += (char)(vf_chance(90) ? "abcdefghijklmnopqrstuvwxyz0123456789_-ABCXYZ"[vf_below(44)] : "\x1a.@!\xfc"[vf_below(5)]); cfg("IDENT", "Username", user); }
	serialGiven = vf_chance(50); serialNo = serialGiven ? (uint32_t)vf_rnd() : assigned; if (serialGiven) cfg("Device", "serial", std::to_string(serialNo));
#if defined(DUMP1090_DONATED)
	devType = 6;
#elif defined(DUMP1090_KIT)
	devType = 7;
#else
	devType = 5; if (vf_chance(50)) { static const char * const T[] = { "hptoa", "OpenSky", "HPTOA", "default", "mutability", "open sky", "hptoax" }; int t = vf_below(7); cfg("Device", "Type", T[t]); devType = t < 3 ? 8 : 5; }
#endif
#endif
#endif
	// faults of the configuration
#ifdef PKG
	int bad = 0, badDir = 0; Str why = "none"; if (!complete) { // without a position the daemon must not start; other answers which were refused are not there
		if (pkgVal("latitude").empty() || pkgVal("longitude").empty() || pkgVal("altitude").empty()) { bad = 5; why = "no position"; vf_count("incomplete", 1); } else { vf_count("eval", 1); return; } }
	{ Str text, ls; for (auto & e : sec) { if (ls != e.first) { text += "[" + e.first + "]\n"; ls = e.first; } text += e.second; } put("etc/conf.d/20-local.conf", text); }
#else
	static const int BAD[] = {
#ifdef STD
		3, 7, 9, 9, 9, 9, 11, 12
#else
		1, 3, 5, 7,
#ifdef RC
		11, 12,
#endif
#endif
#ifndef RC
		5, 6, 7, 6, 7
#endif
	}; int bad = vf_chance(18) ? BAD[vf_below(sizeof BAD / sizeof *BAD)] : 0; Str why = "none"; auto without = [&](const char * s, const char * k) { for (size_t i = 0; i < sec.size();) if (sec[i].first == s && strcasestr(sec[i].second.c_str(), k)) sec.erase(sec.begin() + i); else ++i; };
	switch (bad) {
	case 1: cfg("INPUT", "port", "0"); why = "receiver port 0"; break;
	case 3: cfg("NETWORK", "Port", "0"); why = "server port 0"; break;
#ifdef RC
	case 5: cfg("GPS", "Port", "0"); why = "GPS port 0"; break;
	case 7: serialNo = 0xffffffffu; why = "no serial number"; break;
#ifdef STD
	case 9: without("FPGA", "configure"); hw->on = 1; cfg("FPGA", "configure", "true"); switch (vf_below(4)) { case 0: unlink(fwFile.c_str()); why = "no FPGA file"; break; case 1: for (auto & x : hw->readyUs) x = -1; why = "FPGA is never ready"; break; case 2: for (auto & x : hw->doneUs) x = -1; why = "FPGA is never done"; break; default: for (auto & x : hw->errAt) x = vf_below(hw->bits); why = "FPGA reports errors"; } break;
#endif
	case 11: { static const char * const A[] = { "--help", "-h", "--white", "-b", "--black=1", "--save", "-x" }; args.push_back(A[vf_below(7)]); why = "option " + args.back(); break; }
	case 12: args.push_back(vf_chance(50) ? "--save" : "--sa"); args.push_back(vf_chance(50) ? "missing/saved.conf" : "/dev/full"); why = "unwritable " + args.back(); break;
#else
	case 5: { int w = vf_below(3); without("GPS", A[w]); why = Str("no ") + A[w]; break; }
	case 6: { static const char * const L[] = { "90.00001", "-90.00001", "1e9", "nan", "inf", "-inf" }; cfg("GPS", "Latitude", L[vf_chance(50) ? vf_below(2) : vf_below(6)]); why = "bad latitude"; break; }
	case 7: { static const char * const L[] = { "180.00001", "-180.00001", "1e9", "nan", "inf", "-inf" }; cfg("GPS", "Longitude", L[vf_chance(50) ? vf_below(2) : vf_below(6)]); why = "bad longitude"; break; }
#endif
	}
	int badDir = 0;
#ifndef RC
	if (!bad && vf_chance(4)) { badDir = 1; (void)!system("rm -rf var"); if (vf_chance(50)) { mkdir("var", 0755); put("var/conf.d", "x"); } else put("var", "x"); bad = 8; why = "unusable directory"; }
#endif
	// later entries override earlier ones, so the order within a section is kept
#ifdef RC
	Str text; Str lastSec; for (auto & e : sec) { if (e.first != lastSec || vf_chance(10)) { text += "[" + e.first + "]\n"; lastSec = e.first; } text += e.second; } put("etc/openskyd.conf", text);
#else
	{ Str files[3]; static const char * const N[] = { "var/conf.d/10-a.conf", "etc/conf.d/10-debian.conf", "etc/conf.d/20-local.conf" }; Str ls[3]; int lo = access("var/conf.d/.", F_OK) ? 1 : 0; int w = vf_range(lo, 2); 
		for (auto & e : sec) { if (vf_chance(20) && w < 2) ++w; if (vf_chance(10) && !bad) { Str decoy = e.second; for (auto & c : decoy) if (c >= '0' && c <= '9') c = '1'; if (w > lo && decoy.find("nan") == Str::npos) { files[lo] += "[" + e.first + "]\n" + decoy; ls[lo] = ""; if (e.first == "BUFFER" || e.first == "NETWORK") { } } }
			if (ls[w] != e.first || vf_chance(10)) { files[w] += "[" + e.first + "]\n"; ls[w] = e.first; } files[w] += e.second; }
		for (int i = lo; i < 3; ++i) if (!files[i].empty()) put(N[i], files[i]);
		if (!bad && vf_chance(20)) { // a file which cannot be read does not keep the daemon from reading the others
			static const char * const B[] = { "var/conf.d/05-broken.conf", "var/conf.d/99-broken.conf", "etc/conf.d/05-broken.conf", "etc/conf.d/15-broken.conf", "etc/conf.d/99-broken.conf" }; Str b = B[lo ? 2 + vf_below(3) : vf_below(5)]; unlink(b.c_str());
			if (vf_chance(40)) { if (symlink("/nonexistent/x.conf", b.c_str())) CK(0, "harness", "symlink"); } else { static const char * const T[] = { "[BUFFER\n", "= 5\n", "[BUFFER]\nhistory\n", "history = 1\n[", "\x01\x02\x03" }; put(b, T[vf_below(5)]); }
			vf_count("broken_files", 1); } }
#endif
#endif
		vf_trace("%s; history %d, backlog %u, timeout %u, ext %d, sync filter %d, user '%s', serial %s %u", why.c_str(), history, backlog, timeoutMs, ext, syncF, user.c_str(), serialGiven ? "given" : "assigned", serialNo);
	if (bad) {
		launch(); uint64_t t = now(); while (!dead) { step(5); vf_tick(); CK(now() - t < 30000, "not-refused", "the daemon does not refuse to start (%s)", why.c_str()); }
		CK(!(WIFEXITED(dstatus) && WEXITSTATUS(dstatus) == 0), "not-refused", "the daemon ends with success (%s)", why.c_str());
		CK(WIFSIGNALED(dstatus) ? WTERMSIG(dstatus) == SIGABRT : WEXITSTATUS(dstatus) != 67 && WEXITSTATUS(dstatus) != 66, "daemon-crashed", "the daemon crashed (%s): %s", why.c_str(), tail("out.txt").c_str());
		hardware();
#ifdef STD
		if (bad == 9) { CK(hw->lineOpens == 0 && rxConns == 0, "not-refused", "the daemon opens the line of the receiver (%s)", why.c_str()); vf_count(hw->attempts ? "failed_programming" : "missing_files", 1); }
		else { CK(hw->accesses == 0 && hw->lineOpens == 0 && hw->gpsOpens == 0, "not-refused", "the daemon touches its hardware (%s)", why.c_str()); }
		hw->accesses = 0; if (bad != 9)
#endif
		CK(srvConns == 0 && rxConns == 0, "not-refused", "the daemon connects in spite of a bad configuration (%s)", why.c_str());
		vf_count("eval", 1); vf_count("refused_configurations", 1); uint64_t h = vf_hash(why.data(), why.size(), backlog); vf_distinct(h); return;
	}
#ifdef RC
	if (vf_chance(20)) { // the configuration is saved, and the daemon then started with it
		std::vector<Str> a0 = args; args.insert(args.begin() + vf_below(args.size() + 1), vf_chance(50) ? "--save=saved.conf" : "--sav=saved.conf"); put("saved.conf", "[INPUT]\nport=7\n"); launch(); uint64_t t = now();
		while (!dead) { step(5); vf_tick(); CK(now() - t < 30000, "save-hang", "the daemon does not end after it saved its configuration"); }
		CK(WIFEXITED(dstatus) && WEXITSTATUS(dstatus) == 0, "save-status", "saving the configuration ends with %s %d: %s", WIFSIGNALED(dstatus) ? "signal" : "status", WIFSIGNALED(dstatus) ? WTERMSIG(dstatus) : WEXITSTATUS(dstatus), tail("out.txt").c_str());
		CK(srvConns == 0 && rxConns == 0 && gpsConns == 0, "save-status", "the daemon connects although it is only to save its configuration");
#ifdef STD
		CK(hw->accesses == 0 && hw->lineOpens == 0, "hardware", "the daemon touches its hardware although it is only to save its configuration");
#endif
		if (rename("saved.conf", "etc/openskyd.conf")) vf_fail("harness", "rename"); args = a0; vf_count("saved_configurations", 1);
	}
#endif
	unsigned lives =
#ifdef PKG
		1 + vf_below(3)
#else
		vf_chance(30) ? 2 : 1
#endif
		, ops = 0; Str log; uint64_t h = vf_hash(user.data(), user.size(), backlog * 8 + history * 4 + ext * 2 + syncF);
	bool ext0 = ext, sync0 = syncF;
	for (unsigned life = 0; life < lives; ++life) {
		ext = ext0; syncF = sync0;
#ifdef PKG
		if (life && vf_chance(80)) { int w = 1 + vf_below(2); if (serialGiven && pkgVal("serial").empty()) pkgAssigned = true; log += w == 1 ? "upgrade; " : "reconfigure; "; if (!pkgConfigure(w, REPODIR "/debian", PKGNAME)) break; pkgExpect(); }
#endif
#ifdef RC
		fixes.clear(); minFix = 0;
#endif
		answerMode = vf_chance(60) ? 0 : 1 + vf_below(2); if (vf_chance(20)) down(&lSrv); if (vf_chance(20)) down(&lRx); if (vf_chance(20)) holdSrv = vf_range(1, 3); if (vf_chance(20)) holdRx = vf_range(1, 3);
		launch();
		if (vf_chance(12)) { until([] { return mainWaits(); }, 30000); uint64_t e = now() + vf_below(60); until([&] { return now() >= e; }, 100); log += "early stop; "; terminate(); holdRx = holdSrv = 0; up(&lRx, portRx); up(&lSrv, portSrv); vf_count("early_stops", 1); continue; }
		for (unsigned o = vf_range(1, OPS); o; --o) {
			int op = vf_below(12); ++ops; h = vf_hash(&op, sizeof op, h);
			if (
#ifdef CMD
				vf_chance(40)
#else
				vf_chance(4)
#endif
				) { log += "command; "; command(); continue; }
			switch (op) {
			case 0: case 1: log += "calm; "; calm(); break;
			case 2: if (cRx < 0) break; log += "burst; "; burst(vf_range(1, 40)); flushRx(); until([] { return false; }, vf_below(20)); break;
			case 3: log += "receiver ends; "; vf_trace("receiver closes"); flushRx(); if (cRx >= 0) { if (vf_chance(50)) { Bytes f = frame(0); fr.pop_back(); f.resize(vf_below(f.size())); send(cRx, f.data(), f.size(), MSG_NOSIGNAL | MSG_DONTWAIT); } bool rst = vf_chance(40); if (rst) allMaybe(); if (vf_chance(30)) down(&lRx); drop(cRx, rst); vf_count("receiver_losses", 1); } break;
			case 4: case 5: log += "server ends; "; if (cSrv >= 0) { vf_trace("server closes"); if (vf_chance(30)) down(&lSrv); if (vf_chance(30)) holdSrv = vf_range(1, 3); drop(cSrv, vf_chance(50)); allMaybe(); vf_count("server_losses", 1); } break;
			case 6: log += "server stalls; "; stallSrv = true; burst(vf_range(1, 30)); flushRx(); until([] { return false; }, vf_below(80)); stallSrv = false; break;
			case 7: if (cRx < 0) break; { log += "partial frame; "; Bytes f = frame(0); size_t c = vf_below(f.size()); Bytes x(f.begin(), f.begin() + c), y(f.begin() + c, f.end()); say(x); flushRx(); until([] { return false; }, vf_below(30)); if (cRx >= 0) say(y); flushRx(); } break;
			case 8: if (history) { // what the receiver sends while there is no server is kept
				log += "history; "; calm(); vf_trace("server outage"); down(&lSrv); drop(cSrv, false); allMaybe(); unsigned n0 = sh->connects; // the next attempt shows that it noticed
				CK(until([&] { return sh->connects > n0; }, 30000), "no-recovery", "the end of the connection to the server is not noticed in 30 s");
				noticed = true; say(beast_frame('4', 0x1234, 1, gen_bytes(14, 5))); synced = true; burst(vf_range(1, 40)); say(frame(0)); long last = fr.size() - 1; flushRx(); up(&lSrv, portSrv); holdSrv = 0;
				CK(until([&] { return lastK >= last; }, 40000), "stuck", "history: frame %ld does not reach the server", last); noticed = false; vf_count("history_outages", 1); } break;
			case 9: log += "idle; "; until([] { return false; }, vf_range(5, 150)); break;
			case 10: if (vf_chance(60)) { log += "filter command; "; toggle(); vf_count("filter_commands", 1); } break;
			case 11:
#ifdef RC
				log += "GPS; "; if (cGps >= 0) { if (vf_chance(50) && sv.logged && sv.pos == 1 && cSrv >= 0) gpsFix(); else { flushRx(); calm(); vf_trace("GPS unit ends"); drop(cGps, vf_chance(50)); vf_count("gps_losses", 1); if (vf_chance(40)) { // a login without a valid position
					CK(until([] { return cGps >= 0; }, 30000), "no-recovery", "no connection to the GPS unit after 30 s"); } } }
#else
				log += "server late; "; answerMode = vf_below(3);
#endif
				break;
			}
			if (answerMode == 1 && cSrv >= 0 && sv.asked && sv.login == 1 && vf_chance(60)) { serialNo = assigned; tbSerial(); }
			if (vf_chance(50)) { up(&lRx, portRx); up(&lSrv, portSrv); }
		}
		if (vf_chance(75)) { log += "calm; "; calm(); }
		if (vf_chance(30)) { if (cRx >= 0) burst(vf_range(1, 30)); }
		log += "stop"; terminate(); up(&lRx, portRx); up(&lSrv, portSrv); holdRx = holdSrv = 0; if (life + 1 < lives) log += " | ";
	}
	if (!serialGiven) CK(serialRequests <= srvConns, "serial-request", "%u requests", serialRequests);
	vf_count("eval", 1); vf_count("frames_delivered", delivered); vf_count("frames_sent", fr.size()); vf_count("server_connections", srvConns); vf_count("receiver_connections", rxConns); vf_count("logins", logins); vf_count("keep_alives", keeps); vf_count("positions", nPos); vf_count("calm_phases", calms); vf_count("stops", lives); vf_count("serial_requests", serialRequests);
	if (delivered) { h = vf_hash(&delivered, sizeof delivered, h); vf_distinct(h); if (vf_want_sample()) vf_sample("%s: %lu of %zu frames, %u server and %u receiver connections, %u logins", log.c_str(), delivered, fr.size(), srvConns, rxConns, logins); }
}
