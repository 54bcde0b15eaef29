// Recorder of program starts: fork is real, execve/daemon only write to shared memory. Wraps: fork execve execv execvp daemon fopen
#ifndef TBEXEC_H
#define TBEXEC_H
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include <setjmp.h>
#include <string>
#include <vector>
#include "vf.h"
#ifdef TB_CMDS
namespace px {
enum { MAXREC = 16, MAXARG = 12, ARGLEN = 128 };
struct Rec { int where; /* 0: the daemon itself, n: n-th generation child */ bool daemonized; int argc, envc; char path[ARGLEN]; char argv[MAXARG][ARGLEN]; };
struct Shared {
	int n; Rec rec[MAXREC];
	int forks, returned, exits; char opened[ARGLEN]; int nOpened;
	// plan
	int failFork, failDaemon; int execErr[8]; int status[8]; int execs; // execs counts calls over all processes
};
static Shared * sh; static pid_t mainPid; static int gen; static bool daemonized; static bool armed;
static jmp_buf replaced;
// a child must not run the exit handlers of the daemon, which flush and clean up what belongs to the daemon
static void atExit(void) { if (getpid() != mainPid) { __atomic_add_fetch(&sh->exits, 1, __ATOMIC_SEQ_CST); _exit(0); } }
static void init(void) { atexit(atExit); sh = (Shared *)mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); mainPid = getpid(); }
static void reset(void) { memset(sh, 0, sizeof *sh); sh->failFork = -1; }
// the code under test must not come back into its caller in a child
static void inCaller(void) { if (getpid() != mainPid) { __atomic_add_fetch(&sh->returned, 1, __ATOMIC_SEQ_CST); _exit(0); } }
static void reap(void) { int st; while (waitpid(-1, &st, 0) > 0 || errno == EINTR); }
static int doExec(const char * path, char * const argv[], char * const envp[])
{
	int k = __atomic_fetch_add(&sh->execs, 1, __ATOMIC_SEQ_CST);
	int i = __atomic_fetch_add(&sh->n, 1, __ATOMIC_SEQ_CST);
	if (i < MAXREC) {
		Rec & r = sh->rec[i]; r.where = gen; r.daemonized = daemonized; strncpy(r.path, path, ARGLEN - 1);
		for (r.argc = 0; argv[r.argc] && r.argc < MAXARG; ++r.argc) strncpy(r.argv[r.argc], argv[r.argc], ARGLEN - 1);
		for (r.envc = 0; envp && envp[r.envc]; ++r.envc);
	}
	if (sh->execErr[k & 7]) { errno = sh->execErr[k & 7]; return -1; }
	if (getpid() == mainPid) longjmp(replaced, 1);
	_exit(sh->status[k & 7]);
}
static std::string show(const Rec & r) { std::string s = r.path; for (int i = 0; i < r.argc; ++i) { s += i ? " " : " ["; s += r.argv[i]; } s += "]"; return s; }
}
extern "C" {
pid_t __real_fork(void); int __real_daemon(int, int); FILE * __real_fopen(const char *, const char *);
pid_t __wrap_fork(void)
{
	if (!px::armed) return __real_fork();
	int k = px::sh->forks++;
	if (k == px::sh->failFork) { errno = EAGAIN; return -1; }
	pid_t p = __real_fork();
	if (!p) ++px::gen;
	return p;
}
int __wrap_execve(const char * p, char * const a[], char * const e[]) { return px::doExec(p, a, e); }
extern char ** environ;
int __wrap_execv(const char * p, char * const a[]) { return px::doExec(p, a, environ); }
int __wrap_execvp(const char * p, char * const a[]) { return px::doExec(p, a, environ); }
int __wrap_daemon(int, int) { if (px::sh->failDaemon) { errno = EAGAIN; return -1; } px::daemonized = true; return 0; }
FILE * __wrap_fopen(const char * p, const char * m)
{
	if (!px::armed) return __real_fopen(p, m);
	strncpy(px::sh->opened, p, px::ARGLEN - 1); px::sh->nOpened++;
	return __real_fopen("/dev/null", m);
}
}
#endif
#endif
