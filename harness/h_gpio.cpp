// C27 (mode 0 pins, mode 1 watchdog) and C26 (mode 2 FPGA): register accesses are trapped one by one and given to a model of the hardware.
#include <config.h>
#include <vector>
#include <string>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <stdarg.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <setjmp.h>
#include <ucontext.h>
#include <limits.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <set>
#include <map>
#include "vf.h"
extern "C" {
#include "radarcape/gpio.h"
#include "radarcape/watchdog.h"
#include "radarcape/fpga.h"
#include "util/cfgfile.h"
#include "log_stub.h"
int __real_open(const char *, int, ...); void * __real_mmap(void *, size_t, int, int, int, off_t); int __real_munmap(void *, size_t); int __real_close(int);
}
typedef std::vector<uint8_t> Bytes; typedef std::string Str;
static long mode;
// ---- trapped memory -------------------------------------------------------------------------------
enum { OE = 0x134, IN = 0x138, OUT = 0x13c, CLR = 0x190, SET = 0x194 };
static const uint64_t BASES[4] = { 0x44e07000, 0x4804c000, 0x481ac000, 0x481ae000 };
struct Ctrl { int memfd; uint8_t * trap, * alias; bool mapped; uint32_t oe, out, ext; /* what external circuits drive */ };
static Ctrl C[4];
static Str bad; // first violation seen in a handler
static void note(const char * fmt, ...) { if (!bad.empty()) return; char b[300]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); bad = b; }
static unsigned long nAcc, nWr; static struct { int c; unsigned off; bool wr, active; uint32_t before; } cur;
static void changed(int c, uint32_t oldOut, uint32_t oldOe); // hardware behind the pins
static void atSleep(void);
static void beforeRead(void);
static uint32_t pins(int c) { return (C[c].out & ~C[c].oe) | (C[c].ext & C[c].oe); }
static uint32_t & al(int c, unsigned off) { return *(uint32_t *)(C[c].alias + off); }
static void onSegv(int, siginfo_t * si, void * u)
{
	ucontext_t * uc = (ucontext_t *)u; uint8_t * a = (uint8_t *)si->si_addr;
	for (int c = 0; c < 4; ++c) if (C[c].mapped && a >= C[c].trap && a < C[c].trap + 4096) {
		cur.c = c; cur.off = a - C[c].trap; cur.wr = uc->uc_mcontext.gregs[REG_ERR] & 2; cur.active = true;
		if (!cur.wr || cur.off == IN) beforeRead();
		al(c, OE) = C[c].oe; al(c, OUT) = C[c].out; al(c, SET) = C[c].out; al(c, CLR) = C[c].out; al(c, IN) = pins(c);
		cur.before = cur.off < 4093 ? al(c, cur.off & ~3u) : 0;
		mprotect(C[c].trap, 4096, PROT_READ | PROT_WRITE);
		uc->uc_mcontext.gregs[REG_EFL] |= 0x100;
		return;
	}
	signal(SIGSEGV, SIG_DFL); // a real one
}
static void onTrap(int, siginfo_t *, void * u)
{
	ucontext_t * uc = (ucontext_t *)u; uc->uc_mcontext.gregs[REG_EFL] &= ~0x100ll;
	if (!cur.active) return;
	cur.active = false; int c = cur.c; mprotect(C[c].trap, 4096, PROT_NONE);
	++nAcc;
	if (!cur.wr) return;
	++nWr;
	uint32_t v = al(c, cur.off & ~3u), oo = C[c].out, od = C[c].oe;
	if (cur.off & 3) note("unaligned write to register 0x%x of controller %d", cur.off, c);
	switch (cur.off) {
	case OE: C[c].oe = v; break;
	case OUT: C[c].out = v; break;
	case SET: C[c].out |= v; break;
	case CLR: C[c].out &= ~v; break;
	default: note("write of 0x%x to register 0x%x of controller %d", v, cur.off, c);
	}
	changed(c, oo, od);
}
// ---- system calls ---------------------------------------------------------------------------------
static int memFd = -1; static bool memOpenFails; static int mapFailsAt = -1; static unsigned maps, filesOpen; static long fileMaps; static std::map<void *, size_t> fileMap; static bool code; // inside the code under test
static std::set<int> fdsOpen;
static bool mayOpen(void);
static int doOpen(const char * p, int fl, int md)
{
	if (!code) return __real_open(p, fl, md);
	if (!strcmp(p, "/dev/mem")) { if (memOpenFails || !mayOpen()) { errno = EACCES; return -1; } memFd = __real_open("/dev/null", O_RDWR); fdsOpen.insert(memFd); return memFd; }
	if (!strncmp(p, "/dev/", 5)) { note("opened %s", p); errno = EACCES; return -1; }
	int f = __real_open(p, fl, md); if (f >= 0) fdsOpen.insert(f); return f;
}
extern "C" {
int __wrap_open(const char * p, int fl, ...) { va_list ap; va_start(ap, fl); int md = fl & O_CREAT ? va_arg(ap, int) : 0; va_end(ap); return doOpen(p, fl, md); }
int __wrap_open64(const char * p, int fl, ...) { va_list ap; va_start(ap, fl); int md = fl & O_CREAT ? va_arg(ap, int) : 0; va_end(ap); return doOpen(p, fl, md); }
int __wrap_close(int fd) { if (code) { if (!fdsOpen.erase(fd)) note("closed descriptor %d, which is not its own", fd); if (fd == memFd) memFd = -1; } return __real_close(fd); }
void * __wrap_mmap(void * a, size_t n, int pr, int fl, int fd, off_t off)
{
	if (!code) return __real_mmap(a, n, pr, fl, fd, off);
	if (memFd >= 0 && fd == memFd) {
		if ((int)maps == mapFailsAt) { errno = EPERM; return MAP_FAILED; }
		++maps;
		for (int c = 0; c < 4; ++c) if ((uint64_t)off == BASES[c]) {
			if (C[c].mapped) note("controller %d mapped twice", c);
			if (n < 0x198 || n > 4096 || (pr & (PROT_READ | PROT_WRITE)) != (PROT_READ | PROT_WRITE) || (fl & MAP_SHARED) == 0) note("controller %d mapped with size %zu, protection %d, flags %d", c, n, pr, fl);
			C[c].mapped = true; return C[c].trap;
		}
		note("physical address 0x%llx was mapped", (unsigned long long)off); errno = EPERM; return MAP_FAILED;
	}
	void * p = __real_mmap(a, n, pr, fl, fd, off);
	if (p != MAP_FAILED) { fileMap[p] = n; ++fileMaps; }
	return p;
}
int __wrap_munmap(void * p, size_t n)
{
	if (!code) return __real_munmap(p, n);
	for (int c = 0; c < 4; ++c) if (p == C[c].trap) { if (!C[c].mapped) note("controller %d unmapped twice", c); C[c].mapped = false; return 0; }
	auto it = fileMap.find(p); if (it == fileMap.end() || it->second != n) note("unmapped %zu bytes which were not mapped so", n); else fileMap.erase(it);
	return __real_munmap(p, n);
}
static uint64_t vtime; static void slept(uint64_t us);
int __wrap_usleep(useconds_t us) { slept(us); return 0; }
unsigned __wrap_sleep(unsigned s) { slept(s * 1000000ull); return 0; }
int __wrap_nanosleep(const struct timespec * t, struct timespec *) { slept(t->tv_sec * 1000000ull + t->tv_nsec / 1000); return 0; }
int __wrap_clock_nanosleep(clockid_t, int, const struct timespec * t, struct timespec *) { slept(t->tv_sec * 1000000ull + t->tv_nsec / 1000); return 0; }
}
struct Code { Code() { code = true; } ~Code() { code = false; } };
static void clean(const char * when) { if (!bad.empty()) vf_fail("hardware", "%s: %s", when, bad.c_str()); }
// ---- FPGA model -----------------------------------------------------------------------------------
struct Board { int confd, dclk, nstat, data0, nconf; };
static const Board BW = { 38, 39, 34, 44, 37 }, BB = { 45, 47, 46, 44, 61 };
static const Board * bd; 
struct Fault { long readyUs, doneUs; long errAt; long bits; /* bits needed */ };
static std::vector<Fault> faults; // per attempt
static struct { bool on, low, stat, done, err, everLow; uint64_t tLow, tReady, tDone; Bytes bitsSeen; long attempt; bool doneAt; long extra; uint64_t shortest; } F;
static bool driven(int pin);
static bool lvl(int pin) { return pins(pin >> 5) >> (pin & 31) & 1; }
static void drive(int pin, bool v) { uint32_t m = 1u << (pin & 31); if (v) C[pin >> 5].ext |= m; else C[pin >> 5].ext &= ~m; }
static bool driven(int pin) { return !(C[pin >> 5].oe >> (pin & 31) & 1); }
static void fpgaTick(void)
{
	if (!F.on || F.low || F.attempt < 0) return;
	if (!F.stat && !F.err && F.tReady && vtime >= F.tReady) F.stat = true;
	if (!F.done && F.tDone && vtime >= F.tDone) F.done = true;
	drive(bd->nstat, F.stat); drive(bd->confd, F.done);
}
static Fault & flt(void) { return faults[F.attempt < (long)faults.size() ? F.attempt : faults.size() - 1]; }
static int watchC = -1; static uint32_t watchMask; // mode 0: only this may change
static std::vector<std::pair<bool, uint64_t>> pulses; // mode 1
static void changed(int c, uint32_t oldOut, uint32_t oldOe)
{
	uint32_t d = (C[c].out ^ oldOut) | (C[c].oe ^ oldOe);
	if (mode == 3 && c == 1 && !(oldOut >> 28 & 1) && (C[1].out >> 28 & 1) && driven(60)) atSleep();
	if (watchC >= 0 && d && (c != watchC || d & ~watchMask)) note("pins 0x%x of controller %d changed, only 0x%x of controller %d may", d, c, watchMask, watchC);
	if ((mode == 1 || mode == 3) && c == 1 && ((C[1].out ^ oldOut) >> 28 & 1) && driven(60)) pulses.push_back({ C[1].out >> 28 & 1, vtime });
	if (!F.on || c != 1) return;
	if (driven(bd->nstat) || driven(bd->confd)) note("a pin driven by the FPGA is driven as output as well");
	auto was = [&](int pin) { uint32_t p = (oldOut & ~oldOe) | (C[1].ext & oldOe); return (bool)(p >> (pin & 31) & 1); };
	if (was(bd->nconf) && !lvl(bd->nconf)) { F.low = true; F.tLow = vtime; F.everLow = true; F.stat = F.done = F.err = false; F.tReady = F.tDone = 0; drive(bd->nstat, false); drive(bd->confd, false); }
	if (!was(bd->nconf) && lvl(bd->nconf) && F.low) {
		if (vtime - F.tLow < F.shortest) F.shortest = vtime - F.tLow;
		F.low = false; ++F.attempt; F.bitsSeen.clear(); F.extra = 0;
		F.tReady = flt().readyUs < 0 ? 0 : vtime + flt().readyUs; if (F.tReady == 0 && flt().readyUs == 0) F.tReady = 1;
		fpgaTick();
	}
	if (!was(bd->dclk) && lvl(bd->dclk) && !F.low && F.attempt >= 0) {
		if (!driven(bd->data0)) note("clock pulse while DATA0 is not driven");
		F.bitsSeen.push_back(lvl(bd->data0));
		long n = F.bitsSeen.size();
		if (!F.stat) ++F.extra;
		if (flt().errAt >= 0 && n == flt().errAt) { F.stat = false; F.err = true; F.tReady = 0; drive(bd->nstat, false); }
		if (!F.err && n == flt().bits && flt().doneUs >= 0) { F.tDone = vtime + flt().doneUs; if (!F.tDone) F.tDone = 1; fpgaTick(); }
	}
}
static void beforeRead(void) { if (F.on) fpgaTick(); }
static jmp_buf wdDone; static unsigned wdSleeps, wdLimit;
static void atSleep(void);
static void slept(uint64_t us) { if (!code) return; vtime += us; if (F.on) fpgaTick(); atSleep(); if ((mode == 1 || mode == 3) && ++wdSleeps > wdLimit) longjmp(wdDone, 1); }
// ---- C36: the credentials of the stand-alone watchdog, as a model --------------------------------------
#ifdef WDD
#include <pwd.h>
#include <grp.h>
#include <getopt.h>
#include <sys/wait.h>
extern "C" { int wd_main(int, char **); void UTIL_dropPrivileges(); }
static struct { uid_t r, e, s; gid_t gr, ge, gs; std::vector<gid_t> groups; bool kmem, dropDone; int calls; } P, P0;
static struct { int pw, gr, cd; uid_t u; gid_t pg, g; bool nomem; } N; // pw, gr: 0 there, 1 missing, 2 error; the account
extern "C" {
#define REAL(r, n, ...) r __real_##n(__VA_ARGS__); r __wrap_##n(__VA_ARGS__)
REAL(uid_t, getuid, void) { return code ? P.r : __real_getuid(); }
REAL(uid_t, geteuid, void) { return code ? P.e : __real_geteuid(); }
REAL(gid_t, getgid, void) { return code ? P.gr : __real_getgid(); }
REAL(gid_t, getegid, void) { return code ? P.ge : __real_getegid(); }
REAL(int, setgroups, size_t n, const gid_t * g) { if (!code) return __real_setgroups(n, g); ++P.calls; if (P.e) { errno = EPERM; return -1; } P.groups.assign(g, g + n); return 0; }
REAL(int, initgroups, const char * u, gid_t g) { if (!code) return __real_initgroups(u, g); ++P.calls; if (P.e) { errno = EPERM; return -1; } P.groups = { g }; return 0; }
static int setg(gid_t r, gid_t e, gid_t s)
{
	++P.calls; auto ok = [&](gid_t x) { return x == (gid_t)-1 || P.e == 0 || x == P.gr || x == P.ge || x == P.gs; };
	if (!ok(r) || !ok(e) || !ok(s)) { errno = EPERM; return -1; }
	if (r != (gid_t)-1) P.gr = r; if (e != (gid_t)-1) P.ge = e; if (s != (gid_t)-1) P.gs = s; return 0;
}
static int setu(uid_t r, uid_t e, uid_t s)
{
	++P.calls; auto ok = [&](uid_t x) { return x == (uid_t)-1 || P.e == 0 || x == P.r || x == P.e || x == P.s; };
	if (!ok(r) || !ok(e) || !ok(s)) { errno = EPERM; return -1; }
	if (r != (uid_t)-1) P.r = r; if (e != (uid_t)-1) P.e = e; if (s != (uid_t)-1) P.s = s; return 0;
}
REAL(int, setgid, gid_t g) { if (!code) return __real_setgid(g); return P.e == 0 ? setg(g, g, g) : setg(-1, g, -1); }
REAL(int, setegid, gid_t g) { if (!code) return __real_setegid(g); return setg(-1, g, -1); }
REAL(int, setregid, gid_t r, gid_t e) { if (!code) return __real_setregid(r, e); return setg(r, e, r != (gid_t)-1 ? e : -1); }
REAL(int, setresgid, gid_t r, gid_t e, gid_t s) { if (!code) return __real_setresgid(r, e, s); return setg(r, e, s); }
REAL(int, setuid, uid_t u) { if (!code) return __real_setuid(u); return P.e == 0 ? setu(u, u, u) : setu(-1, u, -1); }
REAL(int, seteuid, uid_t u) { if (!code) return __real_seteuid(u); return setu(-1, u, -1); }
REAL(int, setreuid, uid_t r, uid_t e) { if (!code) return __real_setreuid(r, e); return setu(r, e, r != (uid_t)-1 ? e : -1); }
REAL(int, setresuid, uid_t r, uid_t e, uid_t s) { if (!code) return __real_setresuid(r, e, s); return setu(r, e, s); }
REAL(int, chdir, const char * p) { if (!code) return __real_chdir(p); if (N.cd) { errno = ENOENT; return -1; } return 0; }
REAL(int, getpwnam_r, const char * n, struct passwd * p, char * b, size_t l, struct passwd ** r)
{
	if (!code) return __real_getpwnam_r(n, p, b, l, r);
	memset(p, 0, sizeof *p); *r = NULL; if (strcmp(n, "nobody")) return 0; if (N.pw == 2) return EIO; if (N.pw == 1) return 0; if (l < 100) return ERANGE;
	memset(b, 'p', l); strcpy(b, "nobody"); p->pw_name = b; p->pw_uid = N.u; p->pw_gid = N.pg; *r = p; return 0;
}
REAL(int, getgrnam_r, const char * n, struct group * p, char * b, size_t l, struct group ** r)
{
	if (!code) return __real_getgrnam_r(n, p, b, l, r);
	memset(p, 0, sizeof *p); *r = NULL; if (strcmp(n, "nobody")) return 0; if (N.gr == 2) return EIO; if (N.gr == 1) return 0; if (l < 100) return ERANGE;
	memset(b, 'g', l); strcpy(b, "nobody"); p->gr_name = b; p->gr_gid = N.g; *r = p; return 0;
}
REAL(long, sysconf, int n) { if (!code) return __real_sysconf(n); return vf_chance(30) ? -1 : n == _SC_GETGR_R_SIZE_MAX || n == _SC_GETPW_R_SIZE_MAX ? 100 + vf_below(3000) : __real_sysconf(n); }
REAL(void *, malloc, size_t n) { if (code && N.nomem) return NULL; return __real_malloc(n); }
}
static bool mayOpen(void) { return mode != 3 || P.e == 0 || P.kmem; }
static void dropped(const char * when)
{
	if (P0.r) { VF_CHECK(!P.calls, "credentials", "%s: not started as root, but %d attempts to change the credentials", when, P.calls); return; }
	uid_t u = N.pw || N.nomem ? 65534 : N.u; gid_t g = N.nomem ? 65534 : !N.gr ? N.g : !N.pw ? N.pg : 65534;
	VF_CHECK(P.r == u && P.e == u && P.s == u, "privileges", "%s: user ids are %u %u %u, expected %u", when, P.r, P.e, P.s, u);
	VF_CHECK(P.gr == g && P.ge == g && P.gs == g, "privileges", "%s: group ids are %u %u %u, expected %u", when, P.gr, P.ge, P.gs, g);
	VF_CHECK(P.groups.empty(), "privileges", "%s: still member of %zu supplementary groups", when, P.groups.size());
}
static void atSleep(void) { if (mode == 3) { dropped("while running"); P.dropDone = true; } }
static void rndHw(void); static unsigned pulsesRight(uint64_t t0);
static int inChild(void (*f)(void)) { fflush(NULL); pid_t p = fork(); if (!p) { f(); _exit(0); } int st; waitpid(p, &st, 0); return WIFEXITED(st) ? WEXITSTATUS(st) : -1; }
static void tryDrop(void) { if (__real_setgroups(0, NULL) || __real_setgid(65534) || __real_setuid(65534)) _exit(1); }
static void reallyDrop(void)
{
	UTIL_dropPrivileges();
	uid_t r, e, s; gid_t gr, ge, gs; getresuid(&r, &e, &s); getresgid(&gr, &ge, &gs); struct passwd * p = getpwnam("nobody"); uid_t u = p ? p->pw_uid : 65534;
	if (r != u || e != u || s != u) _exit(11); if (gr == 0 || ge != gr || gs != gr) _exit(12); if (getgroups(0, NULL)) _exit(13);
	if (!__real_setuid(0) || !__real_setgid(0)) _exit(14);
}
static void caseDaemon(void)
{
	rndHw(); memset(&N, 0, sizeof N);
	if (vf_chance(3) && __real_getuid() == 0 && inChild(tryDrop) == 0) { int r = inChild(reallyDrop); vf_count("real_drops", 1); VF_CHECK(r == 0, "privileges", "privileges not given up by a process started as root (%d: 11 user id, 12 group id, 13 groups, 14 they can be regained)", r); }
	P.groups.clear(); bool root = vf_chance(80); P.r = P.e = P.s = root ? 0 : 1 + vf_below(5000); P.gr = P.ge = P.gs = root ? 0 : 1 + vf_below(5000); for (unsigned n = vf_below(5); n; --n) P.groups.push_back(vf_below(100)); P.kmem = vf_chance(50); P.calls = 0; P.dropDone = false; P0 = P;
	N.pw = vf_chance(60) ? 0 : 1 + vf_below(2); N.gr = vf_chance(60) ? 0 : 1 + vf_below(2); N.u = vf_chance(50) ? 65534 : 1 + vf_below(70000); N.pg = vf_chance(50) ? 65534 : 1 + vf_below(70000); N.g = vf_chance(50) ? 65534 : 1 + vf_below(70000); N.cd = vf_chance(20); N.nomem = vf_chance(10);
	bool args = vf_chance(5); if (vf_chance(10)) { if (vf_chance(40)) memOpenFails = true; else mapFailsAt = vf_below(4); }
	static char a0[] = "rcwatchdog", a1[3][8] = { "-h", "--help", "--bogus" }; char * argv[] = { a0, args ? a1[vf_below(3)] : NULL, NULL };
	bool works = !args && !memOpenFails && mapFailsAt < 0 && mayOpen(); uint64_t h = vf_hash(&N, sizeof N, root + 2 * works + 4 * args);
	wdLimit = 3 + vf_below(20); watchC = 1; watchMask = 1u << 28; optind = 0; opterr = 0; pulses.clear(); uint64_t t0 = vtime; volatile int ret = -1; int out = -1;
	if (args) { fflush(stderr); out = dup(2); int n = __real_open("/dev/null", O_WRONLY); dup2(n, 2); __real_close(n); }
	if (!setjmp(wdDone)) { code = true; ret = wd_main(args ? 2 : 1, argv); code = false; if (out >= 0) { dup2(out, 2); __real_close(out); }
		clean("daemon");
		VF_CHECK(!works, "watchdog-ended", "the watchdog daemon ended with status %d", (int)ret);
		VF_CHECK(ret != 0, "status", "the daemon reports success although it %s", args ? "did not start" : "cannot reach the hardware");
		VF_CHECK(nWr == 0, "hardware", "hardware written to"); VF_CHECK(fdsOpen.empty(), "descriptor-leak", "%zu descriptors stay open", fdsOpen.size());
		vf_count("failed_starts", 1);
	} else {
		code = false; clean("watchdog loop"); VF_CHECK(works, "hardware", "daemon runs without hardware"); VF_CHECK(P.dropDone, "privileges", "privileges kept"); VF_CHECK(fdsOpen.empty(), "descriptor-leak", "%zu descriptors stay open", fdsOpen.size());
		pulsesRight(t0); vf_count(root ? "privileges_dropped" : "unprivileged", 1);
		for (int c = 0; c < 4; ++c) C[c].mapped = false;
	}
	watchC = -1; vf_count("eval", 1); vf_distinct(h);
	if (vf_want_sample()) vf_sample("daemon as %s, account %d, group %d: %s", root ? "root" : "user", N.pw, N.gr, works ? "runs unprivileged" : "does not start");
}
#else
static bool mayOpen(void) { return true; }
static void atSleep(void) {}
#endif
// ---- cases ----------------------------------------------------------------------------------------
void vf_init(void)
{
	mode = vf_opt("mode", 0); log_stub_trace = 0;
	for (auto & c : C) {
		c.memfd = memfd_create("gpio", 0); if (ftruncate(c.memfd, 4096)) _exit(2);
		c.trap = (uint8_t *)__real_mmap(NULL, 4096, PROT_NONE, MAP_SHARED, c.memfd, 0);
		c.alias = (uint8_t *)__real_mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, c.memfd, 0);
	}
	static uint8_t * ss = (uint8_t *)malloc(1 << 17); stack_t st = {}; st.ss_sp = ss; st.ss_size = 1 << 17; sigaltstack(&st, NULL);
	struct sigaction sa = {}; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; sa.sa_sigaction = onSegv; sigaction(SIGSEGV, &sa, NULL); sa.sa_sigaction = onTrap; sigaction(SIGTRAP, &sa, NULL);
	mkdir("fw", 0755);
}
static void rndHw(void)
{
	bad.clear(); F.on = false; nAcc = nWr = 0; vtime = 1; maps = 0; mapFailsAt = -1; memOpenFails = false; fileMaps = 0; fileMap.clear(); watchC = -1; pulses.clear(); wdSleeps = 0;
	for (auto & c : C) { c.oe = vf_chance(20) ? 0 : vf_chance(20) ? ~0u : vf_rnd(); c.out = vf_rnd(); c.ext = vf_rnd(); c.mapped = false; }
}
static bool setupGpio(bool faulty)
{
	if (faulty) { if (vf_chance(30)) memOpenFails = true; else mapFailsAt = vf_below(4); }
	bool ok; { Code k; ok = GPIO_comp.onConstruct(); } clean("construction");
	VF_CHECK(ok == !faulty, "construct", "construction %s although %s", ok ? "succeeded" : "failed", faulty ? "the hardware cannot be reached" : "everything is there");
	VF_CHECK(fdsOpen.empty(), "descriptor-leak", "%zu descriptors stay open after construction", fdsOpen.size());
	if (!ok) { for (int c = 0; c < 4; ++c) VF_CHECK(!C[c].mapped, "mapping-leak", "controller %d stays mapped after a failed construction", c); return false; }
	for (int c = 0; c < 4; ++c) VF_CHECK(C[c].mapped, "construct", "controller %d is not mapped", c);
	return true;
}
static void teardownGpio(void) { { Code k; GPIO_comp.onDestruct(); } clean("destruction"); for (int c = 0; c < 4; ++c) VF_CHECK(!C[c].mapped, "mapping-leak", "controller %d stays mapped after destruction", c); }
static void casePins(void)
{
	rndHw(); uint64_t h = 3;
	if (!setupGpio(vf_chance(5))) { vf_count("failed_constructions", 1); vf_count("eval", 1); return; }
	VF_CHECK(nWr == 0, "construct", "construction wrote to the hardware");
	unsigned n = 10 + vf_below(60);
	for (unsigned i = 0; i < n; ++i) {
		unsigned pin = vf_chance(20) ? 31 + 32 * vf_below(4) : vf_below(128), op = vf_below(5); int c = pin >> 5; uint32_t m = 1u << (pin & 31);
		if (vf_chance(30)) C[vf_below(4)].ext = vf_rnd(); if (vf_chance(10)) { C[vf_below(4)].oe = vf_rnd(); C[vf_below(4)].out = vf_rnd(); }
		uint32_t o = C[c].out, e = C[c].oe; watchC = c; watchMask = m; h = h * 131 + pin * 5 + op;
		unsigned long w0 = nWr;
		switch (op) {
		case 0: { Code k; GPIO_set(pin); } VF_CHECK(C[c].out == (o | m) && C[c].oe == e, "set", "GPIO_set(%u): outputs 0x%x -> 0x%x, directions 0x%x -> 0x%x", pin, o, C[c].out, e, C[c].oe); break;
		case 1: { Code k; GPIO_clear(pin); } VF_CHECK(C[c].out == (o & ~m) && C[c].oe == e, "clear", "GPIO_clear(%u): outputs 0x%x -> 0x%x, directions 0x%x -> 0x%x", pin, o, C[c].out, e, C[c].oe); break;
		case 2: { uint_fast32_t v; { Code k; v = GPIO_read(pin); } VF_CHECK(v == ((pins(c) & m) ? 1u : 0u), "read", "GPIO_read(%u) gives %lu, levels 0x%x", pin, (unsigned long)v, pins(c)); VF_CHECK(nWr == w0, "read", "GPIO_read(%u) wrote to the hardware", pin); break; }
		case 3: { Code k; GPIO_setDirection(pin, GPIO_DIRECTION_OUT); } VF_CHECK(C[c].oe == (e & ~m) && C[c].out == o, "direction", "GPIO_setDirection(%u, out): 0x%x -> 0x%x", pin, e, C[c].oe); break;
		default: { Code k; GPIO_setDirection(pin, GPIO_DIRECTION_IN); } VF_CHECK(C[c].oe == (e | m) && C[c].out == o, "direction", "GPIO_setDirection(%u, in): 0x%x -> 0x%x", pin, e, C[c].oe);
		}
		clean("pin operation");
	}
	watchC = -1; teardownGpio();
	vf_count("eval", 1); vf_count("pin_operations", n); vf_count("register_accesses", nAcc); vf_distinct(h);
	if (vf_want_sample()) vf_sample("%u pin operations, %lu register accesses, %lu writes", n, nAcc, nWr);
}
static unsigned pulsesRight(uint64_t t0)
{
	// a pulse at once and one every 30 seconds
	uint64_t last = t0; unsigned rises = 0;
	for (auto & p : pulses) if (p.first) { VF_CHECK(p.second - last <= 30000000, "watchdog-late", "%llu ms between two pulses of the watchdog", (unsigned long long)(p.second - last) / 1000);
		if (rises) VF_CHECK(p.second - last >= 29000000, "watchdog-interval", "only %llu ms between two pulses", (unsigned long long)(p.second - last) / 1000); last = p.second; ++rises; }
	VF_CHECK(vtime - last <= 30000000, "watchdog-late", "no pulse during the last %llu ms", (unsigned long long)(vtime - last) / 1000);
	VF_CHECK(rises >= 2 && pulses.size() >= 2 * rises - 1, "watchdog", "%u pulses in %u intervals", rises, wdSleeps);
	for (size_t i = 1; i < pulses.size(); ++i) VF_CHECK(pulses[i].first != pulses[i - 1].first, "watchdog", "the pin does not toggle");
	return rises;
}
static void caseWd(void)
{
	rndHw(); if (!setupGpio(false)) return;
	watchC = 1; watchMask = 1u << 28; wdLimit = 3 + vf_below(40);
	bool ok; { Code k; ok = WD_comp.onConstruct(); } clean("watchdog construction");
	VF_CHECK(ok && driven(60) && !lvl(60), "watchdog-pin", "after construction the watchdog pin is %s, level %d", driven(60) ? "an output" : "an input", lvl(60));
	pulses.clear(); uint64_t t0 = vtime;
	if (!setjmp(wdDone)) { code = true; WD_comp.main(); code = false; vf_fail("watchdog-ended", "the watchdog loop ended"); }
	code = false; clean("watchdog loop");
	unsigned rises = pulsesRight(t0);
	watchC = -1; teardownGpio();
	vf_count("eval", 1); vf_count("watchdog_pulses", rises); uint64_t h = wdLimit; vf_distinct(vf_hash(&C[1].out, 4, h));
	if (vf_want_sample()) vf_sample("%u pulses over %llu s", rises, (unsigned long long)(vtime - t0) / 1000000);
}
static void caseFpga(void)
{
	rndHw(); if (!setupGpio(false)) return;
	bool white = vf_chance(50); FPGA_bbwhite = white; bd = white ? &BW : &BB;
	char * name = NULL; size_t maxlen = 0;
	for (size_t i = 0; i < FPGA_comp.config->n_opt; ++i) if (FPGA_comp.config->options[i].type == CFG_VALUE_TYPE_STRING) { name = (char *)FPGA_comp.config->options[i].var; maxlen = FPGA_comp.config->options[i].maxlen; }
	// the file
	static char cw[PATH_MAX]; getcwd(cw, sizeof cw);
	Bytes data; size_t size = vf_chance(10) ? 0 : vf_chance(70) ? 1 + vf_below(12) : vf_below(120); if (vf_chance(1)) size = 4090 + vf_below(20); for (size_t i = 0; i < size; ++i) data.push_back(vf_chance(20) ? 0 : vf_chance(20) ? 255 : vf_rnd());
	Str nm, path; bool there = true; unsigned k = vf_below(12);
	auto write = [&](const Str & p) { FILE * f = fopen(p.c_str(), "w"); if (!f) return; if (!data.empty()) fwrite(data.data(), 1, data.size(), f); fclose(f); };
	if (vf_chance(50)) for (const char * d : { "a.rbf", "missing" }) if (FILE * f = fopen(d, "w")) { for (size_t i = 0; i < size; ++i) fputc(i < data.size() ? data[i] ^ 0x5a : 0, f); fclose(f); vf_count("decoy_files", 1); } // not in the firmware directory
	if (k < 4) { nm = "a.rbf"; path = Str("fw/") + nm; write(path); }
	else if (k < 7) { nm = Str(cw) + "/b.rbf"; path = nm; write(path); }
	else if (k == 7) { nm = "/c.rbf"; path = "fw/c.rbf"; write(path); } // not there as such: taken relative
	else if (k == 8) { nm = "missing"; there = false; }
	else if (k == 9) { nm = vf_chance(50) ? "/" : "."; there = false; }
	else { nm = Str(maxlen - 1 - (vf_chance(50) ? vf_below(8) : vf_below(maxlen - 2)), vf_chance(50) ? 'x' : '/'); if (vf_chance(30)) nm[0] = '/'; there = false; if (nm.find_first_not_of('/') == Str::npos || !strncmp(nm.c_str(), "//", 2)) there = false; }
	strcpy(name, nm.c_str());
	unsigned at = 0, ok = 3; faults.clear();
	for (unsigned a = 0; a < 3; ++a) {
		Fault f; f.readyUs = vf_chance(50) ? 0 : vf_below(300); f.doneUs = vf_chance(60) ? 0 : vf_below(300); f.errAt = -1; f.bits = 8 * size; bool good = true;
		if (vf_chance(45)) { good = false; switch (vf_below(4)) { case 0: f.readyUs = vf_chance(50) ? -1 : 20000; break; case 1: f.errAt = size ? 1 + vf_below(8 * size) : 0; if (!size) f.doneUs = -1; break; case 2: f.doneUs = vf_chance(50) ? -1 : 20000; break; default: f.bits = 8 * size + 1 + vf_below(20); } }
		faults.push_back(f); if (good && ok == 3) ok = a;
	}
	faults.push_back(Fault{ 0, 0, -1, (long)(8 * size) }); // a fourth attempt would succeed, but must not happen
	memset(&F.on, 0, 1); F.low = F.stat = F.done = F.err = F.everLow = false; F.tLow = F.tReady = F.tDone = 0; F.bitsSeen.clear(); F.attempt = -1; F.shortest = ~0ull;
	bool stale = vf_chance(40); // still configured from before
	C[1].oe |= 1u << (bd->nstat & 31) | 1u << (bd->confd & 31); drive(bd->nstat, stale); drive(bd->confd, stale);
	uint32_t mine = 0; for (int p : { bd->confd, bd->dclk, bd->nstat, bd->data0, bd->nconf }) mine |= 1u << (p & 31);
	watchC = 1; watchMask = mine;
	bool c; { Code kk; c = FPGA_comp.onConstruct(); } clean("FPGA construction");
	VF_CHECK(c && driven(bd->dclk) && driven(bd->data0) && driven(bd->nconf) && !driven(bd->nstat) && !driven(bd->confd), "directions", "pin directions are wrong after construction: 0x%x", C[1].oe);
	F.on = true; F.low = !lvl(bd->nconf); F.tLow = vtime; F.stat = F.done = stale && !F.low; fpgaTick(); if (F.low) { drive(bd->nstat, false); drive(bd->confd, false); }
	bool res; { Code kk; res = FPGA_comp.onStart(); }
	clean("programming");
	bool want = there && size > 0 && ok < 3;
	unsigned attempts = F.attempt + 1;
	if (!there || !size) VF_CHECK(!res, "false-success", "programming succeeded although %s (name of %zu bytes)", there ? "the file is empty" : "there is no such file", nm.size());
	else {
		VF_CHECK(res == want, res ? "false-success" : "false-failure", "programming reported %s; attempts %u, device: configuration done %d, first good attempt would be %u", res ? "success" : "failure", attempts, F.done, ok + 1);
		VF_CHECK(attempts == (want ? ok + 1 : 3), "attempts", "%u attempts instead of %u", attempts, want ? ok + 1 : 3);
		VF_CHECK(F.shortest >= 2 , "reset", "the reset pulse was only %llu us long", (unsigned long long)F.shortest);
	}
	if (res) {
		VF_CHECK(F.done, "false-success", "success reported, but the device does not signal configuration done");
		VF_CHECK(F.bitsSeen.size() == 8 * size, "bits", "%zu bits were clocked in, the file has %zu", F.bitsSeen.size(), 8 * size);
		for (size_t i = 0; i < 8 * size; ++i) VF_CHECK(F.bitsSeen[i] == (data[i / 8] >> (i % 8) & 1), "bits", "bit %zu of byte %zu was shifted in as %d", i % 8, i / 8, F.bitsSeen[i]);
	}
	VF_CHECK(fdsOpen.empty(), "descriptor-leak", "%zu descriptors stay open after programming", fdsOpen.size());
	VF_CHECK(fileMap.empty(), "mapping-leak", "the file stays mapped after programming %s", res ? "succeeded" : "failed");
	at = attempts; F.on = false; watchC = -1; teardownGpio(); CFG_unregisterAll();
	unlink("fw/a.rbf"); unlink("a.rbf"); unlink("missing"); unlink("b.rbf"); unlink("fw/c.rbf");
	uint64_t h = vf_hash(data.data(), data.size(), at * 2 + res); h = vf_hash(nm.data(), nm.size(), h); for (auto & f : faults) h = vf_hash(&f, sizeof f, h);
	vf_count("eval", 1); vf_count("programmed", res); vf_count("failed_programming", !res); vf_count("bits", F.bitsSeen.size()); vf_count("retries", at > 1 ? at - 1 : 0); vf_count("no_file", !there); vf_distinct(h);
	if (vf_want_sample()) vf_sample("%s board, %zu bytes, %u attempts: %s, %zu bits clocked in the last one, %lu register accesses", white ? "white" : "black", size, at, res ? "success" : "failure", F.bitsSeen.size(), nAcc);
}
void vf_case(uint64_t) { code = false; fdsOpen.clear(); memFd = -1; if (mode == 0) casePins(); else if (mode == 1) caseWd();
#ifdef WDD
	else if (mode == 3) caseDaemon();
#endif
	else caseFpga(); }
