// C38: the maintainer scripts of a package are run against a debconf front end and a user played by the harness; the configuration they leave is what the
// daemon is then started with. The scripts run as an unprivileged user in namespaces of their own, with /var/lib a directory of the harness.
#pragma once
#include <sched.h>
#include <grp.h>
#include <sys/mount.h>
#include <deque>
#include <map>
#include <set>
struct PkgQ { const char * name; bool critical, format; Str def, val; bool seen, isSet; std::deque<std::pair<Str, bool>> plan; };
static std::vector<PkgQ> pkgQs; static std::map<Str, bool> pkgOkRound, pkgValid; // whether a text is a valid answer, by question and text
static bool pkgMounts = true;
static PkgQ * pkgQ(const Str & n) { for (auto & q : pkgQs) if (n == Str("openskyd/") + q.name) return &q; return NULL; }
static bool pkgOk(const PkgQ & q) { auto i = pkgValid.find(Str(q.name) + '=' + q.val); if (i == pkgValid.end()) vf_fail("harness", "unknown answer '%s' to %s", q.val.c_str(), q.name); return i->second; }
static Str slurp(const Str & f) { Str s; FILE * h = fopen(f.c_str(), "r"); if (!h) return s; char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, h))) s.append(b, k); fclose(h); return s; }
static const char * pkgAnswer(const char * q, bool ok, Str & out)
{
	auto digits = [](unsigned n) { Str s; while (n--) s += (char)('0' + vf_below(10)); return s; };
	auto pick = [&](std::vector<const char *> v) { out = v[vf_below(v.size())]; };
	auto frac = [&] { return vf_chance(80) ? "." + digits(vf_below(9)) : Str(); };
	Str sgn = vf_chance(45) ? "-" : vf_chance(20) ? "+" : "";
	if (!strcmp(q, "latitude") || !strcmp(q, "longitude")) {
		int m = q[1] == 'a' ? 90 : 180;
		if (ok) { if (vf_chance(15)) out = sgn + std::to_string(m) + (vf_chance(50) ? "" : vf_chance(50) ? "." : ".0000"); else if (vf_chance(10)) out = sgn + "." + digits(vf_range(1, 6)); else out = sgn + (vf_chance(5) ? "00" : "") + std::to_string(vf_below(m)) + frac(); }
		else switch (vf_below(4)) { case 0: out = sgn + std::to_string(m) + ".0" + digits(3) + "1"; break; case 1: out = sgn + std::to_string(vf_range(m + 1, vf_chance(50) ? m + 5 : 1000000)) + frac(); break; default: pick({ "", "abc", "48,5", "48.5N", "1e1", "4 8", "--3", "+", "-", ".", "0x10", "48.5.1", "nan", "inf", "N48", "48.5 ", "1.-", "48'5" }); }
	} else if (!strcmp(q, "altitude")) { if (ok) out = sgn + std::to_string(vf_below(9000)) + frac(); else pick({ "", "100m", "1e3", "1,5", "ten", "--1", "-", ".", "0x10", "1 0", "inf", "5ft" }); }
	else if (!strcmp(q, "port")) { if (ok) { if (vf_chance(15)) out = ""; else if (vf_chance(30)) pick({ "1", "65535", "30005", "9", "10" }); else out = std::to_string(vf_range(1, 65535)); } else if (vf_chance(30)) out = std::to_string(vf_range(65536, 2000000000)); else pick({ "0", "65536", "-1", "-30005", "80a", "1e3", "8 0", "+", "0x50", "30005.0", "99999999999999999999", "030005", "00080", "08", "http", "18446744073709551617" }); }
	else if (!strcmp(q, "serial")) { if (ok) { if (vf_chance(40)) out = ""; else if (vf_chance(15)) pick({ "1", "4294967295", "2147483648", "10" }); else out = std::to_string(1 + (uint32_t)vf_rnd() % 0xfffffffeu); } else pick({ "4294967296", "99999999999999999999", "-5", "-1", "12x", "1 2", "0x12", "1e5", "12.0", "abc", "0123", "00", "08", "18446744073709551617", "-4294967295" }); }
	else if (!strcmp(q, "host")) { if (vf_chance(30)) pick({ "localhost", "127.0.0.1", "" }); else out = "127." + std::to_string(vf_below(256)) + "." + std::to_string(vf_below(256)) + "." + std::to_string(vf_range(1, 254)); }
	else if (!strcmp(q, "username")) { out = ""; unsigned n = ok ? vf_chance(25) ? 0 : vf_chance(25) ? 40 : vf_range(1, 40) : vf_range(41, vf_chance(70) ? 42 : 200); for (unsigned i = 0; i < n; ++i) out += (char)(vf_chance(80) ? "abcdefghijklmnopqrstuvwxyz0123456789_-ABCXYZ"[vf_below(44)] : i && i + 1 < n ? "$`\"'\\ #;=%&*?~|<>(){}[]@!:/\xc3\xfc"[vf_below(28)] : '.'); }
	else if (!strcmp(q, "dump1090branch")) pick({ "default", "hptoa" });
	pkgValid[Str(q) + '=' + out] = ok; return out.c_str();
}
static void pkgReset()
{
	pkgQs.clear(); pkgValid.clear(); static const struct { const char * n; bool c, f; const char * d; } T[] = { { "latitude", true, true, "" }, { "longitude", true, true, "" }, { "altitude", true, true, "" },
#ifdef PKG_TYPE
		{ "dump1090branch", false, false, "" },
#endif
		{ "username", false, true, "" }, { "serial", false, true, "" }, { "port", false, true, "30005" }, { "host", false, false, "localhost" } };
	for (auto & t : T) { PkgQ q; q.name = t.n; q.critical = t.c; q.format = t.f; q.def = q.val = t.d; q.seen = q.isSet = false; pkgQs.push_back(q); pkgValid[Str(t.n) + '=' + t.d] = !t.c; }
	(void)!system("rm -rf pk"); for (const char * d : { "pk", "pk/lib", "pk/lib/.bin" }) { mkdir(d, 0777); chmod(d, 0777); }
}
static void pkgExec(const char * file, std::vector<Str> args, const char * script, bool recfg)
{ // in the child, in pk
	if (getuid() == 0 && (setgroups(0, NULL) || setresgid(65534, 65534, 65534) || setresuid(65534, 65534, 65534))) _exit(98);
	umask(022);
	if (pkgMounts) {
		unsigned u = getuid(), g = getgid(); auto w = [](const char * f, const Str & s) { int fd = open(f, O_WRONLY); bool ok = fd >= 0 && write(fd, s.data(), s.size()) == (ssize_t)s.size(); if (fd >= 0) close(fd); return ok; };
		prctl(PR_SET_DUMPABLE, 1);
		if (unshare(CLONE_NEWUSER | CLONE_NEWNS) || !w("/proc/self/uid_map", std::to_string(u) + " " + std::to_string(u) + " 1") || !w("/proc/self/setgroups", "deny") || !w("/proc/self/gid_map", std::to_string(g) + " " + std::to_string(g) + " 1") || mount("lib", "/var/lib", NULL, MS_BIND, NULL)) _exit(99);
	}
	prctl(PR_SET_PDEATHSIG, SIGKILL); char cwd[PATH_MAX]; if (!getcwd(cwd, sizeof cwd)) _exit(98);
	Str path = Str("PATH=") + (pkgMounts ? "/var/lib/.bin" : "lib/.bin") + ":/usr/bin:/bin"; const char * env[] = { path.c_str(), "DEBIAN_HAS_FRONTEND=1", "LC_ALL=C", "HOME=/nonexistent", recfg ? "DEBCONF_RECONFIGURE=1" : NULL, NULL };
	std::vector<const char *> av = { file, script }; for (auto & a : args) av.push_back(a.c_str()); av.push_back(NULL); execve(file, (char **)av.data(), (char **)env); _exit(97);
}
// mode: 0 the configuration script, 1 the post-installation script
struct PkgUser { bool interactive, reshow; int prio; }; // prio: 0 everything, 1 high, 2 critical
static int pkgRun(bool config, const Str & script, std::vector<Str> args, const PkgUser & u, bool recfg, unsigned * shown, bool * noted, unsigned * nrounds)
{
	Str text = slurp(script); if (text.empty()) vf_fail("harness", "cannot read %s", script.c_str());
	for (int again = 0; ; ++again) {
		if (!pkgMounts) { char cwd[PATH_MAX]; if (!getcwd(cwd, sizeof cwd)) _exit(2); (void)!system("chmod o+x . .. 2>/dev/null"); for (size_t p = 0; (p = text.find("/var/lib", p)) != Str::npos; ) { text.replace(p, 8, "lib"); p += 3; } }
		put("pk/script", text); chmod("pk/script", 0755); int a[2], b[2]; if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) vf_fail("harness", "pipe");
		pid_t p = fork(); if (p < 0) vf_fail("harness", "fork");
		if (!p) { int e = open("pk.txt", O_WRONLY | O_CREAT | O_APPEND, 0666); dup2(a[0], 0); dup2(b[1], 1); dup2(e, 2); setpgid(0, 0); if (chdir("pk")) _exit(98); pkgExec(config ? "/usr/bin/perl" : "/bin/sh", args, "./script", recfg); }
		close(a[0]); close(b[1]); FILE * in = fdopen(b[0], "r"); setvbuf(in, NULL, _IONBF, 0);
		Str buf; unsigned lines = 0, round = 0; std::set<Str> queue; bool last = false; Str fault; uint64_t t0 = now();
		auto say = [&](const Str & s) { Str l = s + "\n"; (void)!::write(a[1], l.data(), l.size()); };
		auto bad = [&](const char * k, const Str & s) { if (fault.empty()) fault = Str(k) + "|" + s; };
		while (fault.empty()) {
			size_t nl = buf.find('\n');
			if (nl == Str::npos) { pollfd q = { b[0], POLLIN, 0 }; int rc = poll(&q, 1, 1000); vf_tick(); if (now() - t0 > 60000) { bad("script-hang", "the script does not end in 60 s"); break; } if (rc <= 0) continue; char c[1024]; ssize_t k = read(b[0], c, sizeof c); if (k <= 0) break; buf.append(c, k); continue; }
			Str l = buf.substr(0, nl); buf.erase(0, nl + 1); if (++lines > 1500) { bad("script-loop", "the script does not end: " + std::to_string(round) + " rounds of questions without an end"); break; }
			std::vector<Str> w; { Str x = l; for (size_t p; w.size() < 3 && (p = x.find(' ')) != Str::npos; x = x.substr(p + 1)) w.push_back(x.substr(0, p)); w.push_back(x); } w.resize(4); Str c = w[0]; for (auto & ch : c) ch = toupper(ch);
			PkgQ * q = pkgQ(w[1]);
			if (c == "VERSION") say("0 2.0"); else if (c == "CAPB") say("0 "); else if (c == "SETTITLE" || c == "TITLE" || c == "BEGINBLOCK" || c == "ENDBLOCK" || c == "INFO") say("0 ok");
			else if (c == "STOP") { close(a[1]); a[1] = -1; break; }
			else if (c == "GET") { if (q) say("0 " + q->val); else say("10 " + w[1] + " doesn't exist"); }
			else if (c == "SET") { if (!config) bad("answer-changed", "the post-installation script changes " + w[1]); if (q) q->val = w[3].empty() ? w[2] : w[2] + " " + w[3]; say("0 value set"); }
			else if (c == "RESET") { if (q) { q->val = q->def; q->seen = false; } say("0 ok"); }
			else if (c == "FSET") { if (q && w[2] == "seen") q->seen = w[3] == "true"; say("0 " + w[3]); }
			else if (c == "FGET") say(Str("0 ") + (q && q->seen ? "true" : "false"));
			else if (c == "INPUT") { Str n = w[2]; PkgQ * x = pkgQ(n); bool err = !x; int pr = w[1] == "critical" ? 2 : w[1] == "high" ? 1 : 0; bool vis = u.interactive && (err || (pr >= u.prio && (u.reshow || !x->seen))); if (config && last) bad("script-end", "a question after the note about the username"); if (vis) queue.insert(n); say(vis ? "0 question will be asked" : "30 question skipped"); }
			else if (c == "GO") {
				if (queue.count("openskyd/usernamechanged")) { *noted = true; last = true; }
				else if (config && u.interactive) {
					for (auto & x : pkgQs) { bool is = queue.count(Str("openskyd/") + x.name), note = queue.count(Str("openskyd/") + x.name + "format"), can = (x.critical ? 2 : 1) >= u.prio;
						if (round == 0) { bool want = can && (u.reshow || !x.seen); if (want != is) bad("asked", Str(x.name) + (want ? " is not asked" : " is asked again") + " in the first round"); if (note) bad("note", Str("a note about the format of ") + x.name + " in the first round"); }
						else { bool want = !pkgOkRound[x.name]; if (is != (want && can)) bad("asked", Str(x.name) + (is ? " is asked again although it is valid" : " is not asked again although it is not valid")); if (x.format && note != want) bad("note", Str(note ? "an unfounded note" : "no note") + " about the format of " + x.name); } }
				}
				for (auto & x : pkgQs) if (queue.count(Str("openskyd/") + x.name)) { ++*shown; x.seen = x.isSet = true; if (!x.plan.empty()) { x.val = x.plan.front().first; x.plan.pop_front(); } }
				for (auto & x : pkgQs) pkgOkRound[x.name] = pkgOk(x);
				++round; queue.clear(); say("0 ok");
			} else say("20 Unsupported command");
		}
		if (!fault.empty()) { kill(-p, SIGKILL); kill(p, SIGKILL); } if (a[1] >= 0) close(a[1]);
		int st = 0; for (uint64_t t = now(); ; ) { if (waitpid(p, &st, WNOHANG) == p) break; vf_tick(); char c[1024]; pollfd q = { b[0], POLLIN, 0 }; if (poll(&q, 1, 20) > 0 && read(b[0], c, sizeof c) < 0) {} if (now() - t > 30000) { kill(p, SIGKILL); bad("script-hang", "the script does not end"); } }
		fclose(in); *nrounds = round;
		if (fault.empty() && pkgMounts && WIFEXITED(st) && WEXITSTATUS(st) == 99 && !again) { pkgMounts = false; vf_count("no_namespaces", 1); continue; }
		if (fault.empty() && WIFEXITED(st) && (WEXITSTATUS(st) == 98 || WEXITSTATUS(st) == 97)) vf_fail("harness", "cannot run %s: status %d", script.c_str(), WEXITSTATUS(st));
		if (!fault.empty()) { size_t p2 = fault.find('|'); FAIL(fault.substr(0, p2).c_str(), "%s: %s", strrchr(script.c_str(), '/') + 1, fault.substr(p2 + 1).c_str()); }
		return st;
	}
}

static Str pkgConf() { return slurp("pk/lib/openskyd/conf.d/10-debconf.conf"); }
static void pkgMirror(bool out) { (void)!system(out ? "rm -rf var; if [ -d pk/lib/openskyd ]; then cp -r pk/lib/openskyd var; fi" : "rm -rf pk/lib/openskyd; if [ -d var ]; then cp -r var pk/lib/openskyd; chmod -R a+rwX pk/lib/openskyd; fi"); }
// what: 0 installation, 1 upgrade, 2 reconfiguration. Returns whether the answers are complete and valid.
static bool pkgConfigure(int what, const char * dir, const char * pkg)
{
	PkgUser u; u.interactive = vf_chance(what ? 80 : 65); u.reshow = what == 2; u.prio = vf_chance(75) ? 1 : vf_below(3); static const char * const V[] = { "2.1.6-1", "2.0.1", "1.9.3-2" }; Str ver = what ? V[vf_below(3)] : ""; Str script = Str(dir) + "/" + pkg;
	bool incomplete = !u.interactive && what == 0 && vf_chance(35); Str t; unsigned wrong = 0;
	auto now_ = [](const char * n) { PkgQ * q = pkgQ(Str("openskyd/") + n); return q ? q->val : Str(); };
	for (auto & q : pkgQs) {
		q.plan.clear(); bool choice = !strcmp(q.name, "dump1090branch") || !strcmp(q.name, "host");
		if (what == 0 && (u.interactive ? vf_chance(15) : incomplete ? vf_chance(50) : q.critical || vf_chance(70))) { bool ok = choice || (u.interactive ? vf_chance(60) : !incomplete || vf_chance(60)); pkgAnswer(q.name, ok, t); q.val = t; q.seen = true; q.isSet = true; }
		if (vf_chance(what == 2 ? 50 : 90)) { if (!choice) while (vf_chance(25) && q.plan.size() < 4) { pkgAnswer(q.name, false, t); q.plan.push_back({ t, false }); ++wrong; } pkgAnswer(q.name, true, t); if (!strcmp(q.name, "username") && !q.val.empty() && pkgOk(q) && vf_chance(50)) { /* a similar one */ t = q.val; switch (vf_below(4)) { case 0: for (auto & c : t) if (vf_chance(50)) c = isupper((uint8_t)c) ? tolower(c) : toupper(c); break; case 1: t.pop_back(); break; case 2: t[vf_below(t.size())] = 'x'; break; default: if (t.size() < 40) t += 'x'; } if (!t.empty() && t.back() == ' ') t.back() = 'x'; if (!t.empty() && t[0] == ' ') t[0] = 'x'; pkgValid["username=" + t] = true; } q.plan.push_back({ t, true }); }
		else if (!pkgOk(q)) { pkgAnswer(q.name, true, t); q.plan.push_back({ t, true }); } // otherwise the user leaves what is there
	}
	Str user0 = now_("username"); std::map<Str, Str> before; for (auto & q : pkgQs) before[q.name] = q.val; std::map<Str, bool> ok0; for (auto & q : pkgQs) ok0[q.name] = pkgOk(q);
	{ for (auto & q : pkgQs) if (what && Str(q.name) == "serial") q.seen = true; pkgOkRound.clear();
	unsigned shown = 0, rounds = 0; bool noted = false; int st = pkgRun(true, script + ".config", { what == 2 ? "reconfigure" : "configure", ver }, u, what == 2, &shown, &noted, &rounds);
	CK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "script-status", "%s.config ends with status %#x: %s", pkg, st, slurp("pk.txt").c_str());
	bool all = true; for (auto & q : pkgQs) { bool can = (q.critical ? 2 : 1) >= u.prio; if (u.interactive && can) CK(pkgOk(q), "accepted", "%s.config accepts '%s' as %s", pkg, q.val.c_str(), q.name); if (ok0[q.name] && (!u.interactive || !can)) CK(q.val == before[q.name], "answer-changed", "%s was '%s', is '%s' without a question", q.name, before[q.name].c_str(), q.val.c_str()); all = all && pkgOk(q); }
	if (u.interactive) { bool want = !user0.empty() && now_("username") != user0; CK(want == noted, "username-note", "username changes from '%s' to '%s': %s", user0.c_str(), now_("username").c_str(), noted ? "a note" : "no note"); if (noted) vf_count("username_notes", 1); }
	vf_count("questions", shown); vf_count("rounds", rounds); vf_count(u.interactive ? "interactive" : "noninteractive", 1);
	if (u.interactive && vf_chance(20) && what != 2) { unsigned s2 = 0; bool n2 = false; std::map<Str, Str> v; for (auto & q : pkgQs) v[q.name] = q.val; st = pkgRun(true, script + ".config", { "configure", ver }, u, false, &s2, &n2, &rounds); CK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "script-status", "%s.config, again, ends with status %#x", pkg, st); CK(!s2 && !n2, "asked", "%u questions when the script is run again", s2); for (auto & q : pkgQs) CK(v[q.name] == q.val, "answer-changed", "%s is changed when the script is run again", q.name); vf_count("second_runs", 1); }
	// ---- post-installation
	bool hasUser = vf_chance(what ? 90 : 20), hasGroup = vf_chance(what ? 90 : 20), override = vf_chance(15); auto stub = [](const char * n, const Str & body) { Str f = Str("pk/lib/.bin/") + n; put(f, "#!/bin/sh\nd=${0%/*}; echo \"${0##*/} $*\" >> $d/log\n" + body); chmod(f.c_str(), 0755); };
	unlink("pk/lib/.bin/log"); put("pk/lib/.bin/log", ""); chmod("pk/lib/.bin/log", 0666); Str root = pkgMounts ? "/var/lib/openskyd" : "lib/openskyd";
	stub("getent", Str("case \"$1\" in group) printf 'root:x:0:\\nopenskydx:x:2:\\n") + (hasGroup ? "openskyd:x:120:\\n" : "") + "';; passwd) printf 'root:x:0:0::/:/bin/sh\\nxopenskyd:x:3:\\n" + (hasUser ? "openskyd:x:110:120::/:/bin/false\\n" : "") + "';; esac\n[ -z \"$2\" ] || [ " + ((hasUser || hasGroup) ? "x = x" : "x = y") + " ]\n");
	for (const char * n : { "addgroup", "adduser", "groupadd", "useradd", "deluser", "delgroup", "systemctl", "deb-systemd-helper", "deb-systemd-invoke" }) stub(n, "exit 0\n"); stub("usermod", "exit 0\n"); stub("dpkg-statoverride", override ? "echo x; exit 0\n" : "exit 1\n");
	stub("chown", "find " + root + " >> $d/log; echo end >> $d/log\n"); stub("chgrp", "exit 0\n");
	pkgMirror(false); if (what == 0 && vf_chance(20)) { (void)!system("mkdir -p pk/lib/openskyd; chmod 777 pk/lib/openskyd"); }
	std::map<Str, Str> v; for (auto & q : pkgQs) v[q.name] = q.val;
	Str old = slurp("pk/lib/openskyd/conf.d/05-serial.conf"); bool renamed = false; if (what == 1 && !old.empty() && vf_chance(60)) { if (rename("pk/lib/openskyd/conf.d/05-serial.conf", "pk/lib/openskyd/conf.d/10-serial.conf")) vf_fail("harness", "rename"); renamed = true; vf_count("renamed_serials", 1); }
	if (getuid() == 0) (void)!system("chown -R 65534:65534 pk/lib"); bool n3 = false; unsigned s3 = 0; st = pkgRun(false, script + ".postinst", { "configure", ver }, u, what == 2, &s3, &n3, &rounds);
	CK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "script-status", "%s.postinst ends with status %#x: %s", pkg, st, slurp("pk.txt").c_str()); CK(s3 == 0, "asked", "the post-installation script asks questions");
	for (auto & q : pkgQs) CK(v[q.name] == q.val, "answer-changed", "%s is changed by the post-installation script", q.name);
	Str lg = slurp("pk/lib/.bin/log"); bool au = lg.find("adduser ") != Str::npos || lg.find("useradd ") != Str::npos, ag = lg.find("addgroup ") != Str::npos || lg.find("groupadd ") != Str::npos;
	CK(ag == !hasGroup && (au == !hasUser || !hasGroup), "account", "group %s and user %s exist: %s", hasGroup ? "does" : "does not", hasUser ? "does" : "does not", lg.c_str());
	size_t c = lg.find("chown "); CK((c != Str::npos) == !override, "owner", "chown %s although %s: %s", override ? "was used" : "was not used", override ? "the administrator has set the owner" : "there is no override", lg.c_str());
	if (!override) { size_t e = lg.find('\n', c); Str cl = lg.substr(c, e - c); CK(cl.find(" openskyd") != Str::npos && cl.size() > root.size() && cl.find(root) != Str::npos && cl.find("R") != Str::npos && lg.find("10-debconf.conf", e) != Str::npos, "owner", "the files are not given to the daemon's user: %s", lg.c_str()); struct stat sb; CK(stat("pk/lib/openskyd", &sb) == 0 && (sb.st_mode & 0707) == 0700, "owner", "mode %o of the directory", sb.st_mode & 07777); }
	if (renamed) CK(slurp("pk/lib/openskyd/conf.d/05-serial.conf") == old && access("pk/lib/openskyd/conf.d/10-serial.conf", F_OK), "serial-lost", "the file with the assigned serial number is not taken over by the upgrade");
	else CK(slurp("pk/lib/openskyd/conf.d/05-serial.conf") == old, "serial-lost", "the file with the assigned serial number was changed");
	pkgMirror(true); vf_trace("%s %s: %s, priority %d, %u questions, lat '%s' lon '%s' alt '%s' user '%s' serial '%s' host '%s' port '%s' type '%s'", what == 0 ? "installed" : what == 1 ? "upgraded" : "reconfigured", pkg, u.interactive ? "interactive" : "noninteractive", u.prio, shown, now_("latitude").c_str(), now_("longitude").c_str(), now_("altitude").c_str(), now_("username").c_str(), now_("serial").c_str(), now_("host").c_str(), now_("port").c_str(), now_("dump1090branch").c_str());
	vf_count(what == 0 ? "installations" : what == 1 ? "upgrades" : "reconfigurations", 1); vf_count("wrong_answers", wrong); return all; }
}
