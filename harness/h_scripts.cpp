// C39: start script and service/removal scripts of the packages, run for real by an unprivileged user in a scratch directory which stands for the root:
// absolute paths of the scripts are taken relative to it; system tools which would change the system are stand-ins that keep a model of it.
#include <string>
#include <vector>
#include <map>
#include <set>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <fcntl.h>
#include <grp.h>
#include <errno.h>
#include <dirent.h>
#include <signal.h>
#include <poll.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include "vf.h"
typedef std::string Str;
static Str slurp(const Str & f) { Str s; FILE * h = fopen(f.c_str(), "r"); if (!h) return s; char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, h))) s.append(b, k); fclose(h); return s; }
static void put(const Str & f, const Str & c, int mode = 0666) { unlink(f.c_str()); FILE * h = fopen(f.c_str(), "w"); if (!h) vf_fail("harness", "cannot write %s", f.c_str()); fwrite(c.data(), 1, c.size(), h); fclose(h); chmod(f.c_str(), mode); }
static void dir(const Str & d) { for (size_t p = 0; ; ) { p = d.find('/', p + 1); Str s = d.substr(0, p); mkdir(s.c_str(), 0777); chmod(s.c_str(), 0777); if (p == Str::npos) break; } }
static void wipe(const Str & d) { DIR * h = opendir(d.c_str()); if (!h) { unlink(d.c_str()); return; } while (dirent * e = readdir(h)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) { struct stat st; Str f = d + "/" + e->d_name; if (!lstat(f.c_str(), &st) && S_ISDIR(st.st_mode)) wipe(f); else unlink(f.c_str()); } closedir(h); rmdir(d.c_str()); }
static bool has(const Str & s, const Str & t) { return s.find(t) != Str::npos; }
static unsigned times(const Str & s, const Str & t) { unsigned n = 0; for (size_t p = 0; (p = s.find(t, p)) != Str::npos; p += t.size()) ++n; return n; }
// absolute paths become relative to the scratch root (the working directory)
static Str localise(const Str & t)
{
	static const char * const D[] = { "sys", "usr", "var", "lib", "etc", "run", "opt", "srv", "home", "root", "tmp", "proc", "dev/shm" };
	Str o; size_t i = 0; if (t.compare(0, 2, "#!") == 0) { i = t.find('\n'); o = t.substr(0, i); }
	for (; i < t.size(); ++i) {
		bool start = t[i] == '/' && (i == 0 || strchr(" \t\n\"'=:;|&(<>`{-", t[i - 1])); bool in = false;
		if (start) for (auto d : D) { size_t n = strlen(d); in |= t.compare(i + 1, n, d) == 0 && (i + 1 + n >= t.size() || !isalnum((unsigned char)t[i + 1 + n])); }
		if (in) o += '.'; o += t[i];
	}
	return o;
}
static void stub(const Str & n, const Str & body) { put("R/bin/" + n, "#!/bin/sh\nunset LD_PRELOAD\n" + body, 0755); }
// run in the scratch root; returns the wait status
static pid_t lastPid;
static int run(std::vector<Str> args, bool preload)
{
	pid_t p = fork(); if (p < 0) vf_fail("harness", "fork");
	if (!p) {
		prctl(PR_SET_PDEATHSIG, SIGKILL); setpgid(0, 0); int e = open("out.txt", O_WRONLY | O_CREAT | O_TRUNC, 0666), n = open("/dev/null", O_RDONLY); dup2(n, 0); dup2(e, 1); dup2(e, 2); if (chdir("R")) _exit(98);
		if (getuid() == 0 && (setgroups(0, NULL) || setresgid(65534, 65534, 65534) || setresuid(65534, 65534, 65534))) _exit(98);
		umask(022); struct rlimit l = { 1000000, 1000000 }; setrlimit(RLIMIT_FSIZE, &l);
		const char * env[] = { "PATH=./bin:/usr/bin:/bin", "LC_ALL=C", "HOME=/nonexistent", "DEBIAN_HAS_FRONTEND=1", preload ? "LD_PRELOAD=./slots.so" : NULL, NULL }; std::vector<char *> av; for (auto & a : args) av.push_back((char *)a.c_str()); av.push_back(NULL);
		execve(av[0], av.data(), (char **)env); _exit(97);
	}
	setpgid(p, p); lastPid = p; int st = 0; uint64_t t0 = vf_now_ns(); bool late = false;
	while (waitpid(p, &st, WNOHANG) != p) { usleep(500); vf_tick(); if (!late && vf_now_ns() - t0 > 40000000000ull) { late = true; kill(-p, SIGKILL); kill(p, SIGKILL); } }
	kill(-p, SIGKILL);
	if (late) vf_fail("script-hang", "%s does not end in 40 s: %s", args.back().c_str(), slurp("out.txt").c_str());
	if (WIFEXITED(st) && (WEXITSTATUS(st) == 98 || WEXITSTATUS(st) == 97)) vf_fail("harness", "cannot run %s", args[0].c_str());
	return st;
}
static Str interpreter(const Str & t) { if (t.compare(0, 2, "#!")) return "/bin/sh"; Str l = t.substr(2, t.find('\n') - 2); while (!l.empty() && l[0] == ' ') l.erase(0, 1); return l.substr(0, l.find(' ')); }
static Str script(const Str & f) { Str t = slurp(Str(REPODIR "/") + f); if (t.empty()) vf_fail("harness", "cannot read %s", f.c_str()); put("R/script", localise(t), 0755); return interpreter(t); }
static void fresh()
{
	wipe("R"); dir("R/bin"); dir("R/usr/bin");
	for (const char * t : { "grep", "egrep", "find", "cut", "wc", "sed", "awk", "cat", "head", "tail", "tr", "sort", "uniq", "test", "[", "echo", "printf", "env", "expr", "basename", "dirname", "mawk", "logger", "true", "false", "tee", "xargs" }) (void)!symlink((Str("/usr/bin/") + t).c_str(), (Str("R/usr/bin/") + t).c_str());
}
// ---- start script
static const char * const PRE = // opening the list of overlays for writing never truncates it, every write adds a slot
	"#define _GNU_SOURCE\n#include <dlfcn.h>\n#include <fcntl.h>\n#include <stdarg.h>\n#include <string.h>\n"
	"static int fix(const char * p, int f) { size_t n = p ? strlen(p) : 0; if (n >= 6 && !strcmp(p + n - 6, \"/slots\") && (f & O_ACCMODE) != O_RDONLY) f = (f & ~(O_TRUNC | O_CREAT | O_EXCL)) | O_APPEND; return f; }\n"
	"#define F(name) int name(const char * p, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); return ((int (*)(const char *, int, ...))dlsym(RTLD_NEXT, #name))(p, fix(p, f), m); }\nF(open)\nF(open64)\n"
	"#define G(name) int name(int d, const char * p, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); return ((int (*)(int, const char *, int, ...))dlsym(RTLD_NEXT, #name))(d, p, fix(p, f), m); }\nG(openat)\nG(openat64)\n";
static Str so;
static void start()
{
	fresh(); Str in = script("openskyd-arch/openskyd-start.sh"); put("R/slots.so", so, 0755);
	static const char * const K3[] = { "3.8.13-bone70", "3.8.13", "3.14.29-ti-r47", "3.2.0-4" }, * const K4[] = { "4.4.0-ti-r12", "4.14.108-ti-r131", "4.9.82", "4.19-rc1", "4.1.15-ti-rt-r43" }, * const K5[] = { "5.10.168-ti-r72", "5.4.106-ti-r25", "6.1.0-arm", "6.18.1", "10.0.1" };
	int gen = vf_chance(45) ? 3 : vf_chance(70) ? 4 : 5; Str rel = gen == 3 ? K3[vf_below(4)] : gen == 4 ? K4[vf_below(5)] : K5[vf_below(5)];
	int board = vf_below(4); // 0 black, 1 white, 2 another one, 3 unknown
	stub("uname", "case \"$1\" in -r|--kernel-release) echo '" + rel + "';; *) exec /usr/bin/uname \"$@\";; esac\n");
	// kernel messages
	Str msg = "[    0.000000] Booting Linux on physical CPU 0x0\n[    0.000000] Machine: Generic AM33XX (Flattened Device Tree), model: TI AM335x BeagleBone\n[    0.301204] bone-capemgr bone_capemgr.9: Baseboard: 'A335BNLT,00A5,3014BBBK1234'\n";
	static const char * const B3[] = { "beaglebone-black", "beaglebone", "beaglebone-green-x", "" };
	bool told = gen == 3 || vf_chance(20); if (told && board != 3) msg += Str("[    0.314159] bone-capemgr bone_capemgr.9: compatible-baseboard=ti,") + B3[board] + "\n";
	for (unsigned i = vf_below(5); i; --i) msg += "[    " + std::to_string(i) + ".100000] usb 1-1: new device, number " + std::to_string(vf_below(100)) + ", high-speed\n";
	put("R/msg", msg); stub("dmesg", "cat msg\n");
	// device tree
	static const std::vector<Str> C4[] = { { "ti,am335x-bone-black", "ti,am335x-bone-green", "ti,am335x-bone-black-wireless" }, { "ti,am335x-bone" }, { "ti,am335x-evm", "raspberrypi,4-model-b", "ti,am57xx-beagle-x15" } };
	bool tree = (gen >= 4 || vf_chance(30)) && board != 3;
	if (tree) { Str c = C4[board][vf_below(C4[board].size())]; if (c == "ti,am335x-bone-green" || c == "ti,am335x-bone-black-wireless") c += Str(1, 0) + "ti,am335x-bone-black"; if (board == 0) c += Str(1, 0) + "ti,am335x-bone"; c += Str(1, 0) + (board == 2 ? "brcm,bcm2711" : "ti,am33xx") + Str(1, 0); dir("R/sys/firmware/devicetree/base"); put("R/sys/firmware/devicetree/base/compatible", c, 0444); }
	// overlays
	bool slots = gen == 3 || vf_chance(30); Str sd = "R/sys/devices/" + Str(vf_chance(50) ? "bone_capemgr." + std::to_string(vf_below(12)) : "platform/bone_capemgr"), sf = sd + "/slots"; Str list;
	const Str cape[2] = { "BB-B-Radarcape", "BB-W-Radarcape" }; std::vector<Str> need = { "BB-UART2", "BB-UART5", cape[board == 1] }; std::vector<bool> there;
	dir("R/sys/devices/system/cpu"); dir("R/sys/devices/ocp.3/44e0b000.i2c"); put("R/sys/devices/ocp.3/44e0b000.i2c/name", "slots of OMAP");
	if (slots) { dir(sd); for (int i = 0; i < 4; ++i) list += " " + std::to_string(i) + ": 5" + std::to_string(4 + i) + ":PF--- \n"; int n = 4; auto slot = [&](const Str & o) { list += " " + std::to_string(n++) + ": ff:P-O-L Override Board Name,00A0,Override Manuf," + o + "\n"; };
		for (const char * o : { "BB-BONELT-HDMI", "BB-UART1", "BB-UART4", "BB-SPIDEV0", "ADAFRUIT-UART5", "ADAFRUIT-UART2", cape[board != 1].c_str(), "Other-Radarcape", "BB-UART", "BB-Radarcape" }) if (vf_chance(30)) slot(o);
		for (auto & o : need) { there.push_back(vf_chance(45)); if (there.back()) slot(o); }
		put(sf, list); }
	stub("../usr/bin/openskyd-rc", "{ echo \"$$\"; for a; do echo \"arg $a\"; done; } >> started\n[ -f " + sf.substr(2) + " ] && cat " + sf.substr(2) + " > at-start\nexit 0\n");
	int st = run({ in, "./script" }, true);
	Str got = slurp("R/started"), now = slurp(sf), at = slurp("R/at-start"), said = slurp("out.txt");
	Str d = "Linux " + rel + ", board " + (board == 0 ? "black" : board == 1 ? "white" : board == 2 ? "another one" : "unknown"); vf_trace("%s; overlays before: %s; started: %s; overlays after: %s; says: %s", d.c_str(), list.c_str(), got.c_str(), now.c_str(), said.c_str());
	if (board < 2) {
		VF_CHECK(!got.empty(), "not-started", "%s: the daemon is not started", d.c_str());
		VF_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "start-status", "%s: the script ends with status %#x", d.c_str(), st);
		Str wantArgs = board == 0 ? "arg --black\n" : ""; size_t nl = got.find('\n'); VF_CHECK(got.substr(nl + 1) == wantArgs, "wrong-variant", "%s: started with: %s", d.c_str(), got.c_str());
		VF_CHECK(atoi(got.c_str()) == lastPid, "not-main", "%s: the daemon is not the service's main process", d.c_str());
		if (gen == 3) {
			VF_CHECK(now.compare(0, list.size(), list) == 0, "overlay", "%s: overlays were removed", d.c_str()); VF_CHECK(at == now, "overlay-late", "%s: overlays are loaded after the start", d.c_str());
			Str added = now.substr(list.size()); for (size_t i = 0; i < need.size(); ++i) VF_CHECK(times(added, need[i] + "\n") == (there[i] ? 0u : 1u), "overlay", "%s: overlay %s was %sloaded, and is loaded %u times", d.c_str(), need[i].c_str(), there[i] ? "" : "not ", times(added, need[i] + "\n"));
			unsigned n = 0; for (bool b : there) n += !b; VF_CHECK(times(added, "\n") == n, "overlay", "%s: other overlays are loaded: %s", d.c_str(), added.c_str()); vf_count("overlays_loaded", n);
		} else VF_CHECK(now == list, "overlay", "%s: overlays are loaded", d.c_str());
		vf_count("started", 1);
	} else {
		VF_CHECK(got.empty(), "started", "%s: the daemon is started", d.c_str()); VF_CHECK(WIFEXITED(st) && WEXITSTATUS(st) != 0, "start-status", "%s: success is reported though nothing was started", d.c_str());
		VF_CHECK(now == list, "overlay", "%s: overlays are loaded for a board which is not known", d.c_str()); vf_count("not_started", 1);
	}
	vf_distinct(vf_hash(list.data(), list.size(), gen * 10 + board)); if (vf_want_sample()) vf_sample("%s: started as process %s", d.c_str(), got.c_str());
}
// ---- services
struct Unit { bool enabled, running; int loaded, run; };
static std::map<Str, Unit> units; static int disk; // version of the files
static void saveUnits() { Str s; for (auto & u : units) { put("R/st/" + u.first + ".enabled", u.second.enabled ? "1" : "0"); put("R/st/" + u.first + ".running", u.second.running ? "1" : "0"); put("R/st/" + u.first + ".loaded", std::to_string(u.second.loaded)); put("R/st/" + u.first + ".run", std::to_string(u.second.run)); } put("R/st/disk", std::to_string(disk)); put("R/st/log", ""); }
static void loadUnits() { for (auto & u : units) { u.second.enabled = slurp("R/st/" + u.first + ".enabled")[0] == '1'; u.second.running = slurp("R/st/" + u.first + ".running")[0] == '1'; u.second.loaded = atoi(slurp("R/st/" + u.first + ".loaded").c_str()); u.second.run = atoi(slurp("R/st/" + u.first + ".run").c_str()); } }
static void systemctl()
{
	stub("systemctl", R"sh(echo "systemctl $*" >> st/log
w() { printf %s "$2" > st/$1; }
cmd= units= now=
for a; do case $a in --now) now=1;; -*) ;; *) if [ -z "$cmd" ]; then cmd=$a; else units="$units ${a%.service}"; fi;; esac; done
d=$(cat st/disk)
[ "$cmd" = daemon-reload ] && { for u in st/*.loaded; do printf %s $d > $u; done; exit 0; }
[ -n "$units" ] || exit 1
rc=0
for u in $units; do
[ -f st/$u.enabled ] || { echo "Unit $u not found." >&2; exit 5; }
up() { w $u.running 1; w $u.run "$(cat st/$u.loaded)"; }
case $cmd in
enable) [ "$(cat st/$u.loaded)" = 0 ] && w $u.loaded $d; w $u.enabled 1; [ -n "$now" ] && up;;
reenable) w $u.enabled 1;;
disable) w $u.enabled 0; [ -n "$now" ] && w $u.running 0;;
start) [ "$(cat st/$u.running)" = 1 ] || up;;
stop) w $u.running 0;;
restart|reload-or-restart) up;;
try-restart|condrestart) [ "$(cat st/$u.running)" = 1 ] && up;;
is-enabled) [ "$(cat st/$u.enabled)" = 1 ] && echo enabled || { echo disabled; rc=1; };;
is-active) [ "$(cat st/$u.running)" = 1 ] && echo active || { echo inactive; rc=3; };;
*) echo "Unknown operation $cmd" >&2; exit 1;;
esac
done
exit $rc
)sh");
}
static void step(const char * f, const char * func, const char * args)
{
	Str in = func ? "/bin/bash" : script(f); if (func) { Str t = slurp(Str(REPODIR "/") + f); if (t.empty()) vf_fail("harness", "cannot read %s", f); put("R/script", localise(t) + "\nif type " + func + " >/dev/null 2>&1; then " + func + " " + args + "; fi\n", 0755); }
	std::vector<Str> a = { in, "./script" }; if (!func) a.push_back(args); saveUnits(); int st = run(a, false); loadUnits(); Str lg = slurp("R/st/log"); vf_trace("%s %s: %s", f, func ? func : "", lg.c_str());
	if (func && !strncmp(func, "pre_", 4)) st = 0; VF_CHECK(WIFEXITED(st) && (func || WEXITSTATUS(st) == 0), "script-status", "%s %s ends with status %#x: %s", f, func ? func : "", st, slurp("out.txt").c_str()); vf_count("script_runs", 1);
}
static void services()
{
	fresh(); dir("R/st"); systemctl(); units.clear(); int kind = vf_below(3); // 0, 1: pacman packages, 2: opkg
	static const char * const F[] = { "openskyd-arch/openskyd.install", "openskyd-arch/openskyd-wd.install" }; Str own = kind == 1 ? "openskyd-wd" : "openskyd", hist;
	for (const char * n : { "openskyd", "openskyd-wd", "radarcaped", "rcc" }) { Unit u; u.enabled = n != own && vf_chance(60); u.running = n != own && vf_chance(60); u.loaded = n == own ? 0 : 1; u.run = 1; units[n] = u; }
	std::map<Str, Unit> others = units; bool installed = false; disk = 1;
	auto file = [&](bool there) { dir("R/lib/systemd/system"); if (there) put("R/lib/systemd/system/openskyd.service", "[Unit]\n"); else unlink("R/lib/systemd/system/openskyd.service"); };
	for (unsigned n = 1 + vf_below(5); n; --n) {
		Unit & u = units[own]; Unit b = u;
		if (!installed) {
			hist += "install "; if (kind == 2) step("openskyd-opkg/CONTROL/preinst", NULL, "install"); else step(F[kind], "pre_install", "1.0");
			if (kind == 2) file(true); ++disk; if (kind == 2) step("openskyd-opkg/CONTROL/postinst", NULL, "configure"); else step(F[kind], "post_install", "1.0");
			VF_CHECK(u.enabled, "not-enabled", "%s: %s is not started at boot after its installation", hist.c_str(), own.c_str()); if (kind == 2) VF_CHECK(u.running, "not-running", "%s: %s does not run after its installation", hist.c_str(), own.c_str());
			VF_CHECK(u.loaded == disk, "stale-unit", "%s: the service manager does not know the installed unit", hist.c_str()); installed = true; vf_count("installs", 1);
		} else if (vf_chance(55)) {
			if (u.enabled && vf_chance(60) && !u.running) { u.running = true; u.run = u.loaded; } // booted
			b = u; hist += "upgrade "; if (kind == 2) { step("openskyd-opkg/CONTROL/preinst", NULL, "upgrade"); } else step(F[kind], "pre_upgrade", "1.1 1.0");
			++disk; if (kind == 2) step("openskyd-opkg/CONTROL/postinst", NULL, "configure"); else step(F[kind], "post_upgrade", "1.1 1.0");
			VF_CHECK(!b.enabled || u.enabled, "not-enabled", "%s: %s is not started at boot any more after an upgrade", hist.c_str(), own.c_str()); VF_CHECK(!b.running || u.running, "not-running", "%s: %s does not run any more after an upgrade", hist.c_str(), own.c_str());
			VF_CHECK(!u.running || u.run == disk, "old-version", "%s: %s still runs in the old version after an upgrade", hist.c_str(), own.c_str()); vf_count("upgrades", 1);
		} else {
			if (vf_chance(60)) { u.running = true; u.run = u.loaded; } hist += "remove "; if (kind == 2) step("openskyd-opkg/CONTROL/prerm", NULL, "remove"); else step(F[kind], "pre_remove", "1.0");
			VF_CHECK(!u.running, "still-running", "%s: %s runs when its files are removed", hist.c_str(), own.c_str()); VF_CHECK(!u.enabled, "still-enabled", "%s: %s is still enabled when its files are removed", hist.c_str(), own.c_str());
			if (kind == 2) file(false); else step(F[kind], "post_remove", "1.0"); ++disk; installed = false; u.loaded = 0; vf_count("removals", 1);
		}
		for (auto & o : units) if (o.first != own) VF_CHECK(o.second.enabled == others[o.first].enabled && o.second.running == others[o.first].running && o.second.run == others[o.first].run, "other-service", "%s: service %s was changed", hist.c_str(), o.first.c_str());
	}
	vf_distinct(vf_hash(hist.data(), hist.size(), kind)); if (vf_want_sample()) vf_sample("%s: %s", own.c_str(), hist.c_str());
}
// ---- removal of the feeder packages
static void removal()
{
	fresh(); dir("R/usr/share/debconf"); dir("R/st"); static const char * const P[] = { "opensky-feeder", "opensky-feeder-donated", "opensky-feeder-kit" }; Str f = Str("debian/") + P[vf_below(3)] + ".postrm";
	put("R/usr/share/debconf/confmodule", "for f in version purge stop get set input go capb title fset fget reset beginblock endblock unregister; do eval \"db_$f() { echo \\\"$f \\$*\\\" >> st/debconf; RET=; return 0; }\"; done\n");
	bool user = vf_chance(70), group = user || vf_chance(50), data = vf_chance(85), autoGroup = vf_chance(50), fails = vf_chance(10);
	if (user) put("R/st/user", ""); if (group) put("R/st/group", ""); put("R/st/log", "");
	stub("getent", "case \"$1:$2\" in passwd:openskyd) [ -e st/user ] && echo 'openskyd:x:110:120::/var/lib/openskyd:/bin/false' && exit 0; exit 2;; group:openskyd) [ -e st/group ] && echo 'openskyd:x:120:' && exit 0; exit 2;; passwd:) echo root:x:0:0::/:/bin/sh; [ -e st/user ] && echo 'openskyd:x:110:120::/var/lib/openskyd:/bin/false'; exit 0;; group:) echo root:x:0:; [ -e st/group ] && echo 'openskyd:x:120:'; exit 0;; esac; exit 2\n");
	Str last = "for a; do l=$a; done; echo \"${0##*/} $l\" >> st/log; [ \"$l\" = openskyd ] || exit 1\n";
	stub("deluser", last + "[ -e st/user ] || exit 2\n" + (fails ? "exit 8\n" : "rm -f st/user\n") + (autoGroup ? "rm -f st/group\n" : "") + "case \" $* \" in *' --remove-home '*|*' --remove-all-files '*) rm -rf ./var/lib/openskyd;; esac\nexit 0\n"); stub("userdel", last + "rm -f st/user\n" + (autoGroup ? "rm -f st/group\n" : ""));
	stub("delgroup", last + "[ -e st/group ] || exit 3\nrm -f st/group\n"); stub("groupdel", last + "rm -f st/group\n"); for (const char * n : { "systemctl", "deb-systemd-helper", "deb-systemd-invoke", "dpkg-statoverride", "update-rc.d" }) stub(n, "echo \"${0##*/} $*\" >> st/log\n");
	Str serial = "[Device]\nserial = " + std::to_string(vf_rnd() & 0x7fffffff) + "\n"; dir("R/var/lib/other"); put("R/var/lib/other/keep", "x"); dir("R/var/lib/openskyd-x"); put("R/var/lib/openskyd-x/keep", "x");
	if (data) { dir("R/var/lib/openskyd/conf.d"); put("R/var/lib/openskyd/conf.d/05-serial.conf", serial); put("R/var/lib/openskyd/conf.d/10-debconf.conf", "[GPS]\nLatitude = 1\n"); if (vf_chance(30)) { dir("R/var/lib/openskyd/a b"); put("R/var/lib/openskyd/a b/.c d", "x"); } }
	static const char * const A[][3] = { { "purge", "", "" }, { "remove", "", "" }, { "upgrade", "2.2.0-1", "" }, { "failed-upgrade", "2.0.1", "" }, { "abort-install", "", "" }, { "abort-upgrade", "2.0.1", "" }, { "disappear", "other", "1.0" }, { "abort-install", "2.0.1", "" } };
	unsigned k = vf_chance(45) ? 0 : vf_below(8); Str in = script(f); std::vector<Str> a = { in, "./script" }; for (int i = 0; i < 3 && A[k][i][0]; ++i) a.push_back(A[k][i]);
	int st = run(a, false); Str lg = slurp("R/st/log"), dc = slurp("R/st/debconf"); struct stat sb; bool still = !stat("R/var/lib/openskyd", &sb), u2 = !stat("R/st/user", &sb), g2 = !stat("R/st/group", &sb); const char * w = A[k][0]; const char * fn = f.c_str();
	vf_trace("%s %s: user %d group %d data %d; %s; %s; %s", fn, w, user, group, data, lg.c_str(), dc.c_str(), slurp("out.txt").c_str());
	VF_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "script-status", "%s %s ends with status %#x: %s", fn, w, st, slurp("out.txt").c_str());
	VF_CHECK(slurp("R/var/lib/other/keep") == "x" && slurp("R/var/lib/openskyd-x/keep") == "x", "other-data", "%s %s removes data of others", fn, w);
	for (size_t p = 0, e; p < lg.size(); p = e + 1) { e = lg.find('\n', p); Str l = lg.substr(p, e - p); if (l.compare(0, 3, "del") == 0 || has(l, "userdel") || has(l, "groupdel")) VF_CHECK(l.size() > 9 && l.compare(l.size() - 9, 9, " openskyd") == 0, "other-account", "%s %s: %s", fn, w, l.c_str()); }
	if (k == 0) {
		VF_CHECK(!still, "data-left", "%s %s leaves the data", fn, w); VF_CHECK(has(dc, "purge"), "answers-left", "%s %s leaves the answers", fn, w); if (!fails) VF_CHECK(!u2, "account-left", "%s %s leaves the account", fn, w); VF_CHECK(!g2, "account-left", "%s %s leaves the group", fn, w);
		VF_CHECK(user || !has(lg, "deluser"), "no-account", "%s %s removes an account which does not exist", fn, w); vf_count("purges", 1);
	} else {
		VF_CHECK(still == data && (!data || slurp("R/var/lib/openskyd/conf.d/05-serial.conf") == serial), "data-lost", "%s %s removes the data", fn, w); VF_CHECK(!has(dc, "purge") && !has(dc, "unregister"), "answers-lost", "%s %s removes the answers", fn, w);
		VF_CHECK(u2 == user && g2 == group, "account-lost", "%s %s removes the account", fn, w); vf_count("kept", 1);
	}
	uint64_t h = vf_hash(&user, 1, k); h = vf_hash(&group, 1, h); h = vf_hash(&data, 1, h); vf_distinct(vf_hash(f.data(), f.size(), h * 4 + autoGroup * 2 + fails)); if (vf_want_sample()) vf_sample("%s %s: %s", fn, w, lg.c_str());
}
void vf_init(void)
{
	umask(0); put("slots.c", PRE); if (system("cc -shared -fPIC -O1 -w -o slots.so slots.c -ldl") || (so = slurp("slots.so")).empty()) vf_fail("harness", "cannot build the stand-in of the overlay list");
}
void vf_case(uint64_t)
{
	int m = vf_opt("mode", 0); if (m == 0) start(); else if (m == 1) services(); else removal();
	vf_count("eval", 1); wipe("R");
}
