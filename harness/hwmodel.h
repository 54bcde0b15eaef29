// Model of the GPIO controllers and of the FPGA behind them for a whole daemon (C37): the registers are trapped one by one in the daemon's process,
// what happens is recorded in memory shared with the harness. Serial lines are UNIX sockets in the directory of the case.
#include <stdarg.h>
#include <limits.h>
#include <ucontext.h>
#include <termios.h>
#include <pthread.h>
#include <sys/un.h>
struct HwShared {
	// given
	int white; int on; /* the file is to be clocked in */ long bits, readyUs[3], doneUs[3], errAt[3]; /* per attempt; -1: never */ uint8_t file[1024];
	// observed
	volatile int bad; char badText[400]; volatile unsigned long accesses; volatile unsigned pulses, attempts; volatile int programmed, lineOpens, gpsOpens, fpgaTouched, maps; volatile long wrongBit, nBits; volatile unsigned wdSlept, wdWorst;
};
static HwShared * hw;
enum { hwOE = 0x134, hwIN = 0x138, hwOUT = 0x13c, hwCLR = 0x190, hwSET = 0x194 };
static const uint64_t hwBase[4] = { 0x44e07000, 0x4804c000, 0x481ac000, 0x481ae000 };
struct HwBoard { int confd, dclk, nstat, data0, nconf; };
static const HwBoard hwWhite = { 38, 39, 34, 44, 37 }, hwBlack = { 45, 47, 46, 44, 61 };
struct HwCtrl { uint8_t * trap, * alias; bool mapped; uint32_t oe, out, ext; };
static HwCtrl hwC[4]; static int hwMem = -1; static uint64_t hwTime = 1; static bool hwArmed; static pthread_t hwMain;
static struct { int c; unsigned off; bool wr; } hwCur; static int hwBusy, hwActive; static pthread_t hwWho;
static struct { bool low, stat, done, err; uint64_t tReady, tDone; long attempt, n; bool wrong; } hwF;
static void hwNote(const char * fmt, ...) { if (__sync_lock_test_and_set(&hw->bad, 1)) return; va_list ap; va_start(ap, fmt); vsnprintf(hw->badText, sizeof hw->badText, fmt, ap); va_end(ap); }
static const HwBoard & hwBd() { return hw->white ? hwWhite : hwBlack; }
static uint32_t & hwAl(int c, unsigned off) { return *(uint32_t *)(hwC[c].alias + off); }
static uint32_t hwPins(int c) { return (hwC[c].out & ~hwC[c].oe) | (hwC[c].ext & hwC[c].oe); }
static bool hwLvl(int pin) { return hwPins(pin >> 5) >> (pin & 31) & 1; }
static void hwDrive(int pin, bool v) { uint32_t m = 1u << (pin & 31); if (v) hwC[pin >> 5].ext |= m; else hwC[pin >> 5].ext &= ~m; }
static bool hwDriven(int pin) { return !(hwC[pin >> 5].oe >> (pin & 31) & 1); }
static long hwAt(const long * a) { return a[hwF.attempt < 3 ? hwF.attempt : 2]; }
static void hwTick()
{
	if (hwF.low || hwF.attempt < 0) return;
	if (!hwF.stat && !hwF.err && hwF.tReady && hwTime >= hwF.tReady) hwF.stat = true;
	if (!hwF.done && hwF.tDone && hwTime >= hwF.tDone) { hwF.done = true; hw->programmed = !hwF.wrong && hwF.n == hw->bits; }
	hwDrive(hwBd().nstat, hwF.stat); hwDrive(hwBd().confd, hwF.done);
}
static uint32_t hwFpgaMask(int c) { uint32_t m = 0; for (int p : { hwBd().confd, hwBd().dclk, hwBd().nstat, hwBd().data0, hwBd().nconf }) if (p >> 5 == c) m |= 1u << (p & 31); return m; }
static void hwChanged(int c, uint32_t oo, uint32_t od)
{
	uint32_t d = (hwC[c].out ^ oo) | (hwC[c].oe ^ od), fp = hwFpgaMask(c), wd = c == 1 ? 1u << 28 : 0;
	if (d & fp) { hw->fpgaTouched = 1; if (!hw->on) hwNote("pins 0x%x of controller %d changed although the FPGA is not to be configured", d & fp, c); }
	if (d & ~(fp | wd)) hwNote("pins 0x%x of controller %d changed, which belong neither to the FPGA nor to the watchdog", d & ~(fp | wd), c);
	if (wd && !(oo >> 28 & 1) && (hwC[1].out >> 28 & 1) && hwDriven(60)) { ++hw->pulses; hw->wdSlept = 0; }
	if (c != 1) return;
	if (hwDriven(hwBd().nstat) || hwDriven(hwBd().confd)) { if (hw->fpgaTouched && (hwC[1].oe ^ od) == 0) hwNote("a pin driven by the FPGA is driven as output as well"); }
	auto was = [&](int pin) { uint32_t p = (oo & ~od) | (hwC[1].ext & od); return (bool)(p >> (pin & 31) & 1); };
	if (was(hwBd().nconf) && !hwLvl(hwBd().nconf)) { hwF.low = true; hwF.stat = hwF.done = hwF.err = false; hwF.tReady = hwF.tDone = 0; hw->programmed = 0; hwDrive(hwBd().nstat, false); hwDrive(hwBd().confd, false); }
	if (!was(hwBd().nconf) && hwLvl(hwBd().nconf) && hwF.low) { hwF.low = false; ++hwF.attempt; ++hw->attempts; hwF.n = 0; hwF.wrong = false; long r = hwAt(hw->readyUs); hwF.tReady = r < 0 ? 0 : hwTime + r; hwTick(); }
	if (!was(hwBd().dclk) && hwLvl(hwBd().dclk) && !hwF.low && hwF.attempt >= 0) {
		long n = hwF.n++; bool v = hwLvl(hwBd().data0); if (!hwDriven(hwBd().data0)) hwNote("clock pulse while DATA0 is not driven");
		if (n < hw->bits && v != (hw->file[n / 8] >> n % 8 & 1) && !hwF.wrong) { hwF.wrong = true; hw->wrongBit = n; }
		if (n >= hw->bits) { hwF.wrong = true; hw->programmed = 0; }
		hw->nBits = hwF.n; if (hwAt(hw->errAt) == n) { hwF.stat = false; hwF.err = true; hwF.tReady = 0; hwDrive(hwBd().nstat, false); }
		if (!hwF.err && hwF.n == hw->bits && hwAt(hw->doneUs) >= 0) { hwF.tDone = hwTime + hwAt(hw->doneUs); hwTick(); }
	}
}
static void hwSegv(int, siginfo_t * si, void * u)
{
	ucontext_t * uc = (ucontext_t *)u; uint8_t * a = (uint8_t *)si->si_addr;
	for (int c = 0; c < 4; ++c) if (hwC[c].mapped && a >= hwC[c].trap && a < hwC[c].trap + 4096) {
		while (__sync_lock_test_and_set(&hwBusy, 1)) ; // another thread is in the middle of an access
		hwWho = pthread_self(); hwCur.c = c; hwCur.off = a - hwC[c].trap; hwCur.wr = uc->uc_mcontext.gregs[REG_ERR] & 2;
		if (!hwCur.wr || hwCur.off == hwIN) hwTick();
		hwAl(c, hwOE) = hwC[c].oe; hwAl(c, hwOUT) = hwC[c].out; hwAl(c, hwSET) = hwC[c].out; hwAl(c, hwCLR) = hwC[c].out; hwAl(c, hwIN) = hwPins(c);
		hwActive = 1; mprotect(hwC[c].trap, 4096, PROT_READ | PROT_WRITE); uc->uc_mcontext.gregs[REG_EFL] |= 0x100; return;
	}
	signal(SIGSEGV, SIG_DFL); // a real one
}
static void hwTrap(int, siginfo_t *, void * u)
{
	((ucontext_t *)u)->uc_mcontext.gregs[REG_EFL] &= ~0x100ll; if (!hwActive || !pthread_equal(hwWho, pthread_self())) return;
	int c = hwCur.c; mprotect(hwC[c].trap, 4096, PROT_NONE); ++hw->accesses;
	if (hwCur.wr) {
		uint32_t v = hwAl(c, hwCur.off & ~3u), oo = hwC[c].out, od = hwC[c].oe;
		switch (hwCur.off) { case hwOE: hwC[c].oe = v; break; case hwOUT: hwC[c].out = v; break; case hwSET: hwC[c].out |= v; break; case hwCLR: hwC[c].out &= ~v; break; default: hwNote("write of 0x%x to register 0x%x of controller %d", v, hwCur.off, c); }
		hwChanged(c, oo, od);
	}
	hwActive = 0; __sync_lock_release(&hwBusy);
}
static void hwInit() // in the harness, once
{
	hw = (HwShared *)mmap(NULL, sizeof *hw, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	for (auto & c : hwC) { int fd = memfd_create("gpio", MFD_CLOEXEC); if (ftruncate(fd, 4096)) _exit(2); c.trap = (uint8_t *)mmap(NULL, 4096, PROT_NONE, MAP_SHARED, fd, 0); c.alias = (uint8_t *)mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd); }
}
static void hwArm(uint32_t seed) // in the daemon's process, before its main
{
	for (auto & c : hwC) { c.mapped = false; seed = seed * 1664525 + 1013904223; c.out = seed; seed = seed * 1664525 + 1013904223; c.oe = seed ^ seed >> 13; seed = seed * 1664525 + 1013904223; c.ext = seed; } for (int p : { hwBd().confd, hwBd().nstat, hwBd().dclk, hwBd().data0, hwBd().nconf }) hwC[p >> 5].oe |= 1u << (p & 31); // after power on
	memset(&hwF, 0, sizeof hwF); hwF.attempt = -1; hwTime = 1; hwMain = pthread_self(); hwBusy = hwActive = 0; hwDrive(hwBd().nconf, true); hwDrive(hwBd().nstat, true); hwDrive(hwBd().confd, false);
	static uint8_t ss[1 << 17]; stack_t st = {}; st.ss_sp = ss; st.ss_size = sizeof ss; sigaltstack(&st, NULL);
	struct sigaction sa = {}; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; sigfillset(&sa.sa_mask); sa.sa_sigaction = hwSegv; sigaction(SIGSEGV, &sa, NULL); sa.sa_sigaction = hwTrap; sigaction(SIGTRAP, &sa, NULL); hwArmed = true;
}
static bool hwIsMem(int fd) { return hwArmed && fd >= 0 && fd == hwMem; }
static int hwLine(const char * path, int fl) { int s = socket(AF_UNIX, SOCK_STREAM | (fl & O_CLOEXEC ? SOCK_CLOEXEC : 0) | SOCK_NONBLOCK, 0); sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX; strcpy(a.sun_path, path); if (connect(s, (sockaddr *)&a, sizeof a)) { close(s); errno = ENXIO; return -1; } return s; }
extern "C" {
int __real_open(const char *, int, ...); void * __real_mmap(void *, size_t, int, int, int, off_t); int __real_munmap(void *, size_t); int __real_close(int); int __real_usleep(useconds_t);
static int hwOpen(const char * p, int fl, int md)
{
	if (!hwArmed) return __real_open(p, fl, md);
	if (!strcmp(p, "/dev/mem")) return hwMem = __real_open("/dev/null", O_RDWR | (fl & O_CLOEXEC));
	if (!strcmp(p, "/dev/ttyS5")) {
		if (hw->on && !hw->programmed) hwNote("the line of the receiver is opened while the FPGA is not configured (%d attempts, %ld of %ld bits in the last one)", hw->attempts, (long)hw->nBits, hw->bits);
		++hw->lineOpens; return hwLine("rx.sock", fl);
	}
	if (!strcmp(p, "/dev/ttyS2")) { ++hw->gpsOpens; return hwLine("gps.sock", fl); }
	if (!strncmp(p, "/dev/tty", 8) || !strncmp(p, "/dev/sd", 7)) { hwNote("%s opened", p); errno = EACCES; return -1; }
	return __real_open(p, fl, md);
}
int __wrap_open(const char * p, int fl, ...) { va_list ap; va_start(ap, fl); int md = fl & O_CREAT ? va_arg(ap, int) : 0; va_end(ap); return hwOpen(p, fl, md); }
int __wrap_open64(const char * p, int fl, ...) { va_list ap; va_start(ap, fl); int md = fl & O_CREAT ? va_arg(ap, int) : 0; va_end(ap); return hwOpen(p, fl, md); }
int __wrap_close(int fd) { if (hwIsMem(fd)) hwMem = -1; return __real_close(fd); }
void * __wrap_mmap(void * a, size_t n, int pr, int fl, int fd, off_t off)
{
	if (!hwIsMem(fd)) return __real_mmap(a, n, pr, fl, fd, off);
	for (int c = 0; c < 4; ++c) if ((uint64_t)off == hwBase[c]) { if (hwC[c].mapped) hwNote("controller %d mapped twice", c); hwC[c].mapped = true; ++hw->maps; return hwC[c].trap; }
	hwNote("physical address 0x%llx was mapped", (unsigned long long)off); errno = EPERM; return MAP_FAILED;
}
int __wrap_munmap(void * p, size_t n)
{
	if (hwArmed) for (auto & c : hwC) if (p == c.trap) { if (!c.mapped) hwNote("a controller was unmapped twice"); c.mapped = false; --hw->maps; return 0; }
	return __real_munmap(p, n);
}
int __wrap_usleep(useconds_t us) { if (!hwArmed || !pthread_equal(hwMain, pthread_self())) return __real_usleep(us); hwTime += us; hwTick(); return 0; }
int __wrap_tcgetattr(int, struct termios * t) { memset(t, 0, sizeof *t); return 0; }
int __wrap_tcsetattr(int, int, const struct termios *) { return 0; }
int __wrap_tcflush(int, int) { return 0; }
int __wrap_tcdrain(int) { return 0; }
}
