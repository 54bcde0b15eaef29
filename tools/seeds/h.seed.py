H_PRE=r"""
import os, re, subprocess, sys
repo, tmp = sys.argv[1], sys.argv[2]
root = tmp + "/root"; os.makedirs(root + "/bin")
def stub(n, body): open(root + "/bin/" + n, "w").write("#!/bin/sh\n" + body); os.chmod(root + "/bin/" + n, 0o755)
def put(n, t): os.makedirs(os.path.dirname(root + "/" + n), exist_ok=True); open(root + "/" + n, "w").write(t)
# a script with the absolute paths of the system taken relative to the scratch root
def run(script, *args):
    t = open(repo + "/" + script).read(); h, _, b = t.partition("\n")
    b = re.sub(r"(^|[\s\"'=:;|&(<>`{-])/(sys|usr|var|lib|etc|run|proc)\b", r"\1./\2", b)
    put("script", h + "\n" + b); p = subprocess.run([h[2:].split()[0], "script"] + list(args), cwd=root, env={"PATH": "./bin:/usr/bin:/bin"}, stdin=subprocess.DEVNULL, capture_output=True, text=True)
    print(p.stdout, p.stderr); return p.returncode
"""
seed("s50-start-overlay","C39",
 [("openskyd-arch/openskyd-start.sh",'UART5=$(grep "BB-UART5" ${SLOTS} | wc -l)','UART5=$(grep "UART5" ${SLOTS} | wc -l)')],
 H_PRE+r"""
stub("uname", "echo 3.8.13-bone70\n"); stub("dmesg", "echo '[    0.39] bone-capemgr: compatible-baseboard=ti,beaglebone-black'\n")
put("usr/bin/openskyd-rc", "#!/bin/sh\necho \"$@\" > started\n"); os.chmod(root + "/usr/bin/openskyd-rc", 0o755)
# a second script: the slots file takes one line after the other
put("sys/devices/bone_capemgr.9/slots", " 4: ff:P-O-L Override Board Name,00A0,Override Manuf,ADAFRUIT-UART5\n 5: ff:P-O-L Override Board Name,00A0,Override Manuf,BB-UART2\n 6: ff:P-O-L Override Board Name,00A0,Override Manuf,BB-B-Radarcape\n")
st = run("openskyd-arch/openskyd-start.sh"); s = open(root + "/sys/devices/bone_capemgr.9/slots").read(); print(s)
sys.exit(not (st == 0 and s.strip() == "BB-UART5" and open(root + "/started").read() == "--black\n"))
""","kernel 3 with an overlay of another maker for the same serial line loaded before, whose name ends like the one needed","the overlay BB-UART5 is not loaded",[],lang="py")
seed("s51-purge-group","C39",
 [("debian/opensky-feeder.postrm","		deluser --system --remove-home openskyd\n	fi\n	if getent group openskyd >/dev/null; then\n		delgroup --system openskyd\n	fi\n","		deluser --system --remove-home openskyd\n		if getent group openskyd >/dev/null; then\n			delgroup --system openskyd\n		fi\n	fi\n")],
 H_PRE+r"""
stub("getent", "[ $1 = group ] && [ -e group ]\n"); stub("deluser", "exit 1\n"); stub("delgroup", "rm -f group\n")
put("usr/share/debconf/confmodule", "db_version() { :; }\ndb_purge() { :; }\ndb_stop() { :; }\n"); put("group", ""); put("var/lib/openskyd/x", "")
st = run("debian/opensky-feeder.postrm", "purge")
sys.exit(not (st == 0 and not os.path.exists(root + "/group") and not os.path.exists(root + "/var/lib/openskyd")))
""","purging a package whose account was removed by hand before, but not its group","the group stays behind",[],lang="py")
seed("s52-proc-exit","C28",
 [("src/util/proc.c","		_Exit(EXIT_FAILURE);\n	} else {","		exit(EXIT_FAILURE);\n	} else {")],
 r'''
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <errno.h>
#include "util/proc.h"
static pid_t me;
static void bye(void) { if (getpid() != me) close(open("ran", O_CREAT | O_WRONLY, 0600)); }
int daemon(int a, int b) { errno = EAGAIN; return -1; }
int main()
{
	me = getpid(); atexit(&bye);
	char * a[] = { "/bin/true", NULL };
	PROC_forkAndExec(a);
	return access("ran", F_OK) == 0;
}
'''.replace("#include <errno.h>","#include <errno.h>\n#include <fcntl.h>"), "the child cannot fork again to go into the background (limit of processes)", "the child runs the exit handlers of the daemon and flushes its buffers a second time",
 ["util/proc.c","util/log_stdio.c"])
seed("s53-cfg-order","C15",
 [("src/util/cfgfile.c","	return idx_a < idx_b ? -1 : idx_a == idx_b ? 0 : 1;","	return (int)(idx_a - idx_b);")],
 r'''
#include <config.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include "util/cfgfile.h"
static uint_fast32_t v;
static struct CFG_Section s = { .name = "A", .n_opt = 1, .options = { { .name = "v", .type = CFG_VALUE_TYPE_INT, .var = &v } } };
static void put(const char * n, const char * t) { FILE * f = fopen(n, "w"); fputs(t, f); fclose(f); }
int main()
{
	mkdir("d", 0700);
	put("d/1-a.conf", "[A]\nv=1\n"); put("d/3000000000-b.conf", "[A]\nv=2\n");
	CFG_registerSection(&s); CFG_loadDefaults();
	if (!CFG_readDirectory("d", true, true, false, true)) return 3;
	printf("%u\n", (unsigned)v);
	return v != 2;
}
''', "configuration files whose numbers are more than two thousand millions apart", "the files are read in the wrong order, and an earlier one overrides a later one",
 ["util/cfgfile.c","util/port/mmap-posix.c","util/log_stdio.c"])
seed("s54-buf-second","C06",
 [("src/core/buffer.c","	if (ts.tv_nsec >= 1000000000) {","	if (ts.tv_nsec > 1000000000) {")],
 r'''
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <time.h>
#include <sys/wait.h>
#include "core/buffer.h"
#include "util/component.h"
#include "util/cfgfile.h"
#include "core/openskytypes.h"
int __real_clock_gettime(clockid_t c, struct timespec * t);
int __wrap_clock_gettime(clockid_t c, struct timespec * t) { int r = __real_clock_gettime(c, t); t->tv_nsec = 500000000; return r; }
int main()
{
	COMP_register(&BUF_comp);
	CFG_loadDefaults();
	COMP_fixup();
	if (!COMP_initAll()) return 2;
	alarm(5);
	return BUF_getFrameTimeout(500) != NULL;
}
''', "the deadline of the consumer's waiting is exactly a full second", "the deadline is invalid: waiting fails, and the daemon dies",
 ["core/buffer.c","util/component.c","util/cfgfile.c","util/port/mmap-posix.c","util/log_stdio.c"], flags="-Wl,--wrap=clock_gettime")
seed("s55-rand-limit","C29",
 [("src/util/util.c","	do rnd = rand(); while (rnd >= limit);\n	return rnd % n;","	do rnd = rand(); while (rnd > limit);\n	return rnd / (limit / n);")],
 r'''
#include <stdio.h>
#include <stdlib.h>
#include "util/util.h"
static int seq[] = { 0, 0, 0 }, k;
int rand(void) { return seq[k < 2 ? k++ : 2]; }
int main()
{
	uint32_t n;
	for (n = 1; n < 50; ++n) {
		k = 0; seq[0] = RAND_MAX - RAND_MAX % n; seq[1] = 0; seq[2] = 1;
		uint32_t r = UTIL_randInt(n);
		if (r >= n) { printf("%u of %u\n", r, n); return 1; }
	}
	return 0;
}
''', "the random number generator gives exactly the limit", "a random number as large as the number of values is returned (an address beyond the list is chosen)",
 ["util/util.c","util/log_stdio.c"])
seed("s56-inherit-conn","C14",
 [("src/util/net_common-posix.c","		sock = SOCK_socket(host->ai_family, host->ai_socktype | SOCK_CLOEXEC,","		sock = SOCK_socket(host->ai_family, host->ai_socktype,")],
 r'''
#include <config.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <arpa/inet.h>
#include <sys/socket.h>
#include "util/net_common.h"
#include "util/port/socket.h"
int main()
{
	int l = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); struct sockaddr_in a; socklen_t n = sizeof a;
	memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	if (bind(l, (struct sockaddr *)&a, sizeof a) || listen(l, 5) || getsockname(l, (struct sockaddr *)&a, &n)) return 0;
	int s = NETC_connect("T", "127.0.0.1", ntohs(a.sin_port));
	if (s < 0) return 0;
	char c[100]; snprintf(c, sizeof c, "test ! -e /proc/self/fd/%d", s);
	int st; pid_t p = fork();
	if (!p) { execl("/bin/sh", "sh", "-c", c, (char *)NULL); _exit(0); }
	waitpid(p, &st, 0);
	return !WIFEXITED(st) || WEXITSTATUS(st);
}
''', "a program is started by a remote command while the daemon is connected", "the program inherits the connections of the daemon, which stay open after the daemon gave them up",
 ["util/net_common-posix.c","util/util.c","util/log_stdio.c"])
