seed("s38-uart-crnl","C35",
 [("src/radarcape/uart.c","	t.c_iflag = IGNPAR;\n	t.c_oflag = ONLCR;","	t.c_iflag &= ~(IXON | IXOFF | IXANY | ISTRIP | PARMRK | INPCK);\n	t.c_iflag |= IGNPAR;\n	t.c_oflag = ONLCR;")],
 r"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <fcntl.h>
#include <termios.h>
#include "radarcape/rc-input.h"
int __real_open(const char * p, int f, ...);
static int m;
int __wrap_open(const char * p, int f, ...)
{
	m = posix_openpt(O_RDWR | O_NOCTTY); grantpt(m); unlockpt(m);
	int s = __real_open(ptsname(m), O_RDWR | O_NOCTTY); struct termios t;
	tcgetattr(s, &t); t.c_iflag |= ICRNL | IXON; tcsetattr(s, TCSANOW, &t); /* as a terminal is used by getty */
	return s;
}
int main()
{
	uint8_t b[20]; size_t n = 0;
	RC_INPUT_init(); RC_INPUT_connect();
	if (write(m, "a\rb\nc\x11" "d", 7) != 7) return 3;
	while (n < 7) n += RC_INPUT_read(b + n, sizeof b - n);
	printf("read %.2s %02x\n", b, b[1]);
	return memcmp(b, "a\rb\nc\x11" "d", 7) != 0;
}
""", "the line was set up for use as a console before, i.e. carriage returns are translated", "bytes 0x0d of the receiver are read as 0x0a",
 ["radarcape/uart.c","util/log_stdio.c"], flags="-Wl,--wrap=open")

seed("s39-gpsnet-close","C35",
 [("src/trimble/trimble_input_network.c","		closeConn();\n		return 0;","		SOCK_shutdown(sock, SHUT_RDWR);\n		sock = SOCK_INVALID;\n		return 0;")],
 r"""
#include <config.h>
#include <stdio.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <errno.h>
#include <sys/socket.h>
#include "trimble/trimble_input.h"
#include "util/cfgfile.h"
#include "util/port/socket.h"
#include "util/net_common.h"
static int peer;
int __wrap_NETC_connect(const char * p, const char * h, uint16_t port) { int s[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, s)) return -1; peer = s[1]; return s[0]; }
ssize_t __wrap_recv(int fd, void * b, size_t n, int f) { errno = ECONNRESET; return -1; }
int main()
{
	uint8_t b[10]; int k, first = dup(0); close(first);
	TRIMBLE_INPUT_register(); CFG_loadDefaults(); TRIMBLE_INPUT_init();
	for (k = 0; k < 5; ++k) { TRIMBLE_INPUT_connect(); TRIMBLE_INPUT_read(b, sizeof b); TRIMBLE_INPUT_disconnect(); close(peer); }
	int last = dup(0); close(last);
	printf("%d descriptors left open\n", last - first);
	return last != first;
}
""", "receiving from the GPS unit on the network fails with an error", "the descriptor of the connection stays open: after some hundred losses none are left",
 ["trimble/trimble_input_network.c","util/cfgfile.c","util/port/mmap-posix.c","util/log_stdio.c","util/net_common-posix.c","util/util.c"], flags="-Wl,--wrap=NETC_connect -Wl,--wrap=recv")

seed("s40-gpsuart-drain","C35",
 [("src/trimble/trimble_input_uart.c","	if (tcsetattr(fd, TCSADRAIN, &t)) {","	if (tcsetattr(fd, TCSANOW, &t)) {")],
 r"""
#include <stdio.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <fcntl.h>
#include <termios.h>
#include "trimble/trimble_input.h"
/* a slow line: what is written leaves at the speed set when it is drained */
static speed_t speed; static int pending, wrong;
int __wrap_open(const char * p, int f, ...) { return dup(1); }
int __wrap_tcgetattr(int fd, struct termios * t) { memset(t, 0, sizeof *t); return 0; }
int __wrap_tcsetattr(int fd, int a, const struct termios * t) { if (a != TCSANOW) pending = 0; if (pending && speed != cfgetospeed(t)) ++wrong; speed = cfgetospeed(t); return 0; }
int __wrap_tcflush(int fd, int q) { if (q != TCIFLUSH && pending) ++wrong; return 0; }
int __wrap_tcdrain(int fd) { pending = 0; return 0; }
ssize_t __wrap_write(int fd, const void * b, size_t n) { pending = 1; return n; }
int main()
{
	TRIMBLE_INPUT_init(); TRIMBLE_INPUT_connect();
	printf("%d commands lost, last pending: %d\n", wrong, pending);
	return wrong || pending;
}
""", "the command has not left the buffer of the line when its speed is changed", "the GPS unit never understands the command to change its speed",
 ["trimble/trimble_input_uart.c","util/log_stdio.c"], flags="-Wl,--wrap=open -Wl,--wrap=tcgetattr -Wl,--wrap=tcsetattr -Wl,--wrap=tcflush -Wl,--wrap=tcdrain -Wl,--wrap=write")

PRIV = r"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <pwd.h>
#include <grp.h>
#include "util/util.h"
static uid_t uid; static gid_t gid; static int ngroups = 3; static int nomem, haveGroup;
uid_t __wrap_getuid(void) { return uid; }
int __wrap_setgroups(size_t n, const gid_t * g) { if (uid) return -1; ngroups = n; return 0; }
int __wrap_setgid(gid_t g) { if (uid) return -1; gid = g; return 0; }
int __wrap_setuid(uid_t u) { if (uid) return -1; uid = u; return 0; }
int __wrap_chdir(const char * p) { return 0; }
void * __real_malloc(size_t n);
void * __wrap_malloc(size_t n) { return nomem ? NULL : __real_malloc(n); }
int __wrap_getpwnam_r(const char * n, struct passwd * p, char * b, size_t l, struct passwd ** r) { memset(p, 0, sizeof *p); p->pw_uid = 77; p->pw_gid = 78; *r = p; return 0; }
int __wrap_getgrnam_r(const char * n, struct group * p, char * b, size_t l, struct group ** r) { memset(p, 0, sizeof *p); *r = NULL; if (haveGroup) { p->gr_gid = 79; *r = p; } return 0; }
void LOG_log(int l, const char * p, const char * s) {}
void LOG_logf(int l, const char * p, const char * f, ...) {}
void LOG_errno(int l, const char * p, const char * f, ...) {}
void LOG_errno2(int l, int e, const char * p, const char * f, ...) {}
static int try(int mem, int grp, uid_t u, gid_t g)
{
	uid = gid = 0; ngroups = 3; nomem = !mem; haveGroup = grp;
	UTIL_dropPrivileges();
	nomem = 0;
	printf("user %u, group %u, %d groups; expected %u, %u, none\n", uid, gid, ngroups, u, g);
	return uid != u || gid != g || ngroups;
}
int main() { return try(1, 1, 77, 79) | try(1, 0, 77, 78) | try(0, 0, 65534, 65534); }
"""
PRIVFL = " ".join("-Wl,--wrap=" + f for f in ("getuid", "setgroups", "setgid", "setuid", "chdir", "malloc", "getpwnam_r", "getgrnam_r"))
seed("s41-priv-group","C36",
 [("src/util/util.c","		if (!grp_err && grp_res == &grp)\n			g_nobody = grp.gr_gid;","		if (!grp_err)\n			g_nobody = grp.gr_gid;")],
 PRIV, "a system without a group called nobody", "the daemon runs with a random group, possibly that of root",
 ["util/util.c"], flags=PRIVFL)
seed("s42-priv-supplementary","C36",
 [("src/util/util.c","		free(buffer);\n	}","		free(buffer);\n		setgroups(0, NULL);\n	}"),("src/util/util.c","		\"gid %u\\n\", (unsigned)u_nobody, (unsigned)g_nobody);\n	setgroups(0, NULL);","		\"gid %u\\n\", (unsigned)u_nobody, (unsigned)g_nobody);")],
 PRIV, "there is no memory for looking up the account", "the daemon keeps the supplementary groups of root",
 ["util/util.c"], flags=PRIVFL)
