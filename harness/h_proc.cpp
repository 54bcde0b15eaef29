// C28: the real util/proc.c starting real programs (this executable under other names, reporting what it was started with).
#include <config.h>
#include <vector>
#include <string>
#include <atomic>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <pthread.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/time.h>
#include "vf.h"
extern "C" {
#include "util/proc.h"
#include "util/log.h"
pid_t __real_fork(void);
}
typedef std::string Str;
// ---- the started program ------------------------------------------------------------------------
static void put(FILE * f, const char * k, const Str & v) { fprintf(f, "%s ", k); for (unsigned char c : v) fprintf(f, "%02x", c); fputc('\n', f); }
__attribute__((constructor)) static void program(int argc, char ** argv, char ** envp)
{
	if (argc < 4 || strcmp(argv[1], "@child")) return;
	Str out = argv[2]; FILE * f = fopen((out + ".tmp").c_str(), "w");
	if (!f) _exit(99);
	for (int i = 0; i < argc; ++i) put(f, "arg", argv[i]);
	int n = 0; for (char ** e = envp; *e; ++e) ++n; fprintf(f, "env %d\n", n);
	mode_t m = umask(0); fprintf(f, "umask %o\n", (unsigned)m);
	char b[300]; ssize_t l = readlink("/proc/self/fd/0", b, sizeof b - 1); b[l > 0 ? l : 0] = 0; put(f, "stdin", b);
	fprintf(f, "acc %d\n", fcntl(0, F_GETFL) & O_ACCMODE);
	l = readlink("/proc/self/cwd", b, sizeof b - 1); b[l > 0 ? l : 0] = 0; put(f, "cwd", b);
	fprintf(f, "ids %d %d %d\n", (int)getpid(), (int)getppid(), (int)getsid(0));
	fclose(f);
	rename((out + ".tmp").c_str(), out.c_str());
	int code = atoi(argv[3]);
	if (argc > 4 && !strncmp(argv[4], "sleep", 5)) usleep(atoi(argv[4] + 5));
	if (code >= 1000) { signal(code - 1000, SIG_DFL); sigset_t s; sigemptyset(&s); sigprocmask(SIG_SETMASK, &s, NULL); raise(code - 1000); _exit(98); }
	_exit(code);
}
// ---- the harness ----------------------------------------------------------------------------------
struct Shared { std::atomic<int> refused, exits, returned, finalizeReturned, forkedChild; };
static Shared * sh; static pid_t mainPid; static Str self; static std::atomic<int> failFork{-1}; static std::atomic<int> forks;
extern "C" pid_t __wrap_fork(void) { if (forks++ == failFork) { errno = EAGAIN; return -1; } return __real_fork(); }
static bool failDaemon; extern "C" { int __real_daemon(int, int); int __wrap_daemon(int a, int b) { if (failDaemon) { sh->refused++; errno = EAGAIN; return -1; } return __real_daemon(a, b); } }
static void sigh(int) {}
static void atExit(void) { if (getpid() != mainPid) { sh->exits++; _exit(0); } } // exit handlers are the caller's
void vf_init(void)
{
	char b[4096]; ssize_t l = readlink("/proc/self/exe", b, sizeof b - 1); b[l] = 0; self = b;
	sh = (Shared *)mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	mainPid = getpid(); atexit(atExit);
	struct sigaction sa = {}; sa.sa_handler = sigh; sigaction(SIGALRM, &sa, NULL); sigaction(SIGUSR1, &sa, NULL);
	freopen("/dev/null", "w", stdout);
}
static void guard(void) { if (getpid() != mainPid) { sh->returned++; _exit(0); } }
struct Prog { std::vector<Str> argv; Str out; int code; bool exists; std::vector<char *> c; };
static Str cwd; static unsigned seqNo;
static Prog make(unsigned thread)
{
	Prog p; char nm[64]; snprintf(nm, sizeof nm, "p%u_%u", thread, seqNo++);
	Str dir = cwd + "/" + nm; mkdir(dir.c_str(), 0755);
	Str exe = dir + "/" + (vf_chance(30) ? "odd name \t$(x);'\"%s%n" : "prog");
	p.out = dir + "/out";
	p.exists = !vf_chance(15);
	if (p.exists) symlink(self.c_str(), exe.c_str());
	else switch (vf_below(3)) { case 0: break; case 1: { FILE * f = fopen(exe.c_str(), "w"); if (f) { fputs("no program", f); fclose(f); } break; } default: mkdir(exe.c_str(), 0700); }
	switch (vf_below(6)) { case 0: case 1: p.code = 0; break; case 2: p.code = 1; break; case 3: p.code = vf_range(1, 255); break; case 4: { static const int s[] = { SIGKILL, SIGTERM, SIGABRT, SIGHUP, SIGINT, SIGPIPE }; p.code = 1000 + s[vf_below(6)]; break; } default: p.code = 0; }
	p.argv = { exe, "@child", p.out, std::to_string(p.code) };
	if (vf_chance(50)) p.argv.push_back("sleep" + std::to_string(vf_below(3000)));
	unsigned n = vf_below(6), total = vf_chance(25) ? vf_range(700, 1300) : vf_below(200); // around the size of the log line
	for (unsigned i = 0; i < n; ++i) {
		Str a; unsigned l = i + 1 == n ? total : vf_below(total + 1); if (l > total) l = total; total -= l;
		for (unsigned j = 0; j < l; ++j) a += (char)(vf_chance(80) ? vf_range(32, 126) : 1 + vf_below(255));
		p.argv.push_back(a);
	}
	return p;
}
static char ** args(Prog & p, std::vector<char *> & v) { for (auto & s : p.argv) { char * c = (char *)malloc(s.size() + 1); memcpy(c, s.c_str(), s.size() + 1); v.push_back(c); } v.push_back(NULL); return v.data(); }
static Str unhex(const char * s) { Str r; for (; s[0] && s[1] && s[0] != '\n'; s += 2) { unsigned v; sscanf(s, "%2x", &v); r += (char)v; } return r; }
struct Report { bool there = false; std::vector<Str> argv; int env = -1, mask = -1, acc = -1, pid = 0, ppid = 0, sid = 0; Str in, cwd; };
static Report report(const Prog & p, bool wait)
{
	Report r; uint64_t t0 = vf_now_ns(); FILE * f;
	while (!(f = fopen(p.out.c_str(), "r"))) {
		if (!wait || vf_now_ns() - t0 > 30ull * 1000000000) return r;
		usleep(500);
	}
	static __thread char b[20000]; r.there = true;
	while (fgets(b, sizeof b, f)) {
		if (!strncmp(b, "arg ", 4)) r.argv.push_back(unhex(b + 4));
		else if (!strncmp(b, "env ", 4)) r.env = atoi(b + 4);
		else if (!strncmp(b, "umask ", 6)) r.mask = strtol(b + 6, NULL, 8);
		else if (!strncmp(b, "acc ", 4)) r.acc = atoi(b + 4);
		else if (!strncmp(b, "stdin ", 6)) r.in = unhex(b + 6);
		else if (!strncmp(b, "cwd ", 4)) r.cwd = unhex(b + 4);
		else if (!strncmp(b, "ids ", 4)) sscanf(b + 4, "%d %d %d", &r.pid, &r.ppid, &r.sid);
	}
	fclose(f);
	return r;
}
static void judge(const Prog & p, const Report & r, bool finalize)
{
	VF_CHECK(r.there == p.exists, r.there ? "started-nothing" : "not-started", "program %s was %sstarted", p.argv[0].c_str(), r.there ? "" : "not ");
	if (!r.there) return;
	VF_CHECK(r.argv == p.argv, "arguments", "%s was started with %zu arguments instead of %zu, or with others", p.argv[0].c_str(), r.argv.size(), p.argv.size());
	VF_CHECK(r.env == 0, "environment", "%s got %d environment variables", p.argv[0].c_str(), r.env);
	if (finalize) {
		VF_CHECK(r.in == "/dev/null" && r.acc == O_RDONLY, "stdin", "%s has standard input %s", p.argv[0].c_str(), r.in.c_str());
		VF_CHECK(r.mask == 022, "umask", "%s has umask %o", p.argv[0].c_str(), r.mask);
	}
}
static void noChildren(const char * when) { int st; errno = 0; pid_t w = waitpid(-1, &st, WNOHANG); VF_CHECK(w == -1 && errno == ECHILD, "zombie", "%s: a child is left (waitpid gives %d)", when, (int)w); }
static std::atomic<bool> stopNoise; static std::atomic<uint64_t> noise;
static void * noiseT(void *) { while (!stopNoise) { LOG_logf(LOG_LEVEL_INFO, "NOISE", "%s %d", "some message which keeps the log busy", (int)noise++); } return NULL; }
static bool timer; static unsigned long nRun, nTrue, nFalse, nDaemon, nInterrupted;
static void runAndReturn(unsigned thread)
{
	Prog p = make(thread); std::vector<char *> v; char ** a = args(p, v);
	bool ok = PROC_execAndReturn(a); guard();
	bool w = p.exists && p.code == 0;
	VF_CHECK(ok == w, ok ? "false-success" : "false-failure", "%s (%s, %s %d) reported as %s", p.argv[0].c_str(), p.exists ? "there" : "missing", p.code >= 1000 ? "signal" : "status", p.code % 1000, ok ? "success" : "failure");
	judge(p, report(p, false), true);
	for (char * c : v) free(c);
	__atomic_add_fetch(&nRun, 1, __ATOMIC_SEQ_CST); __atomic_add_fetch(ok ? &nTrue : &nFalse, 1, __ATOMIC_SEQ_CST);
}
static uint64_t tseed;
static void * worker(void * a) { vf_thread_seed(tseed + (long)a); for (unsigned n = 1 + vf_below(3); n--; ) runAndReturn((long)a); return NULL; }
void vf_case(uint64_t no)
{
	char b[4096]; cwd = getcwd(b, sizeof b); char d[60]; snprintf(d, sizeof d, "/c%llu", (unsigned long long)no); cwd += d; mkdir(cwd.c_str(), 0755);
	sh->exits = sh->returned = sh->finalizeReturned = sh->forkedChild = 0; failFork = -1; forks = 0; seqNo = 0; nRun = nTrue = nFalse = nDaemon = nInterrupted = 0;
	mode_t um = umask(vf_chance(50) ? 0 : 077);
	pthread_t nt[2]; stopNoise = false; bool noisy = vf_chance(60);
	timer = vf_chance(30); if (timer) { itimerval tv = { { 0, 700 }, { 0, 700 } }; setitimer(ITIMER_REAL, &tv, NULL); }
	if (noisy) for (auto & t : nt) pthread_create(&t, NULL, noiseT, NULL);
	unsigned op = vf_below(6); uint64_t h = op;
	switch (op) {
	case 0: case 1: // sequential
		for (unsigned n = 1 + vf_below(4); n--; ) { runAndReturn(0); noChildren("after waiting"); }
		break;
	case 2: { // several threads wait for their own programs
		pthread_t t[4]; unsigned n = 2 + vf_below(3); tseed = vf_rnd() & 0xffffff;
		for (unsigned i = 0; i < n; ++i) pthread_create(&t[i], NULL, worker, (void *)(long)(1 + i));
		for (unsigned i = 0; i < n; ++i) pthread_join(t[i], NULL);
		noChildren("after all threads");
		break; }
	case 3: { // in the background
		Prog p = make(0); std::vector<char *> v; char ** a = args(p, v);
		PROC_forkAndExec(a); guard();
		noChildren("after starting a program in the background");
		Report r = report(p, p.exists); if (!p.exists) { usleep(3000); r = report(p, false); }
		judge(p, r, true);
		if (r.there) { VF_CHECK(r.sid != getsid(0), "not-detached", "the program runs in the daemon's session"); VF_CHECK(r.ppid != mainPid, "not-detached", "the program is a child of the daemon"); VF_CHECK(r.cwd == "/", "cwd", "the program runs in %s", r.cwd.c_str()); }
		++nDaemon; for (char * c : v) free(c);
		break; }
	case 4: { // explicit fork: true in the child only; raw exec replaces or returns
		Prog p = make(0); std::vector<char *> v; char ** a = args(p, v); bool fin = vf_chance(50);
		bool child = PROC_fork();
		if (child) {
			if (getpid() == mainPid) { sh->returned++; vf_fail("fork", "the parent was told to be the child"); }
			sh->forkedChild++;
			if (fin) { PROC_execAndFinalize(a); sh->finalizeReturned++; _exit(77); }
			PROC_execRaw(a); _exit(55); // could not be executed
		}
		guard();
		int st = 0; pid_t w; do w = waitpid(-1, &st, 0); while (w == -1 && errno == EINTR);
		VF_CHECK(w > 0 && sh->forkedChild == 1, "fork", "no child was forked");
		VF_CHECK(!sh->finalizeReturned, "finalize-returned", "PROC_execAndFinalize returned");
		judge(p, report(p, false), fin);
		if (!p.exists) VF_CHECK(WIFEXITED(st) && (fin ? WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 77 : WEXITSTATUS(st) == 55), "exec-failure", "status %x after a program which cannot be started", st);
		noChildren("after fork"); ++nRun; for (char * c : v) free(c);
		break; }
	default: { // forking fails
		if (vf_chance(30)) { // going into the background fails
			Prog p = make(0); std::vector<char *> v; char ** a = args(p, v); failDaemon = true; sh->refused = 0;
			PROC_forkAndExec(a); guard(); failDaemon = false; noChildren("after failing to go into the background");
			if (sh->refused) { VF_CHECK(!report(p, false).there, "started-nothing", "a program was started in the caller's session"); vf_count("failed_daemons", 1); }
			for (char * c : v) free(c); break; }
		failFork = 0; Prog p = make(0); std::vector<char *> v; char ** a = args(p, v);
		switch (vf_below(3)) {
		case 0: VF_CHECK(!PROC_execAndReturn(a), "false-success", "success although no process could be created"); break;
		case 1: PROC_forkAndExec(a); break;
		default: VF_CHECK(!PROC_fork(), "fork", "told to be the child although no process could be created");
		}
		guard(); VF_CHECK(!report(p, false).there, "started-nothing", "a program was started although no process could be created");
		noChildren("after failed fork"); for (char * c : v) free(c); ++nFalse;
		vf_count("failed_forks", 1); }
	}
	stopNoise = true; if (noisy) for (auto & t : nt) pthread_join(t, NULL);
	if (timer) { itimerval tv = {}; setitimer(ITIMER_REAL, &tv, NULL); }
	umask(um);
	VF_CHECK(!sh->exits, "exit-handlers", "a child ran the exit handlers of its caller");
	VF_CHECK(!sh->returned, "child-returned", "a child went on in its caller's code");
	vf_count("eval", 1); vf_count("programs", nRun); vf_count("succeeded", nTrue); vf_count("failed", nFalse); vf_count("background", nDaemon); vf_count("with_signals", timer); vf_count("with_busy_log", noisy);
	h = vf_hash(&no, 8, h); vf_distinct(h);
	if (vf_want_sample()) vf_sample("operation %u: %lu programs, %lu reported as success, %lu as failure, %lu in the background%s%s", op, nRun, nTrue, nFalse, nDaemon, noisy ? ", log busy" : "", timer ? ", signals" : "");
	Str rm = "rm -rf -- '" + cwd + "'"; (void)rm;
	for (unsigned t = 0; t < 8; ++t) for (unsigned s = 0; s < seqNo + 1; ++s) {
		snprintf(d, sizeof d, "/p%u_%u", t, s); Str q = cwd + d;
		for (const char * n : { "/odd name \t$(x);'\"%s%n", "/prog", "/out", "/out.tmp" }) { unlink((q + n).c_str()); rmdir((q + n).c_str()); }
		rmdir(q.c_str());
	}
	rmdir(cwd.c_str());
}
