
G_PRE=r"""
import os, subprocess, sys, threading
repo, tmp = sys.argv[1], sys.argv[2]
# a debconf front end: answers(question, n) gives the n-th answer to a displayed question; returns the values, the notes shown and the status
def front(argv, vals, answers, seen=(), env={}):
    p = subprocess.Popen(argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, cwd=tmp, env=dict(os.environ, DEBIAN_HAS_FRONTEND="1", **env))
    seen = set(seen); queue = []; notes = []; count = {}; n = 0
    for l in p.stdout:
        n += 1
        if n > 500: p.kill(); print("no end"); sys.exit(1)
        w = l.rstrip("\n").split(" "); c = w[0].upper(); q = w[1].split("/")[-1] if len(w) > 1 else ""; r = "0"
        if c == "STOP": break
        elif c == "GET": r = "0 " + vals.get(q, "")
        elif c == "RESET": vals[q] = {"port": "30005", "host": "localhost"}.get(q, ""); seen.discard(q)
        elif c == "FSET": seen.add(q)
        elif c == "INPUT":
            q = w[2].split("/")[-1]
            if q.endswith("format") or q.endswith("changed"): notes.append(q)
            elif q in seen: r = "30"
            else: queue.append(q)
        elif c == "GO":
            for q in queue:
                seen.add(q); k = count.get(q, 0); count[q] = k + 1; a = answers.get(q)
                if a: vals[q] = a[min(k, len(a) - 1)]
            queue = []
        p.stdin.write(r + "\n"); p.stdin.flush()
    p.stdin.close(); return vals, notes, p.wait(), seen
def config(vals, answers, ver="", seen=(), name="opensky-feeder"):
    return front(["perl", repo + "/debian/" + name + ".config", "configure", ver], vals, answers, seen)
def postinst(vals, ver="", name="opensky-feeder"):
    home = tmp + "/home"; bin = tmp + "/bin"; os.makedirs(bin, exist_ok=True)
    t = open(repo + "/debian/" + name + ".postinst").read().replace("/var/lib/openskyd", home); open(tmp + "/p", "w").write(t)
    for b in "getent addgroup adduser usermod chown dpkg-statoverride chmod".split(): open(bin + "/" + b, "w").write("#!/bin/sh\nexit 0\n"); os.chmod(bin + "/" + b, 0o755)
    r = front(["sh", tmp + "/p", "configure", ver], vals, {}, env={"PATH": bin + ":/usr/bin:/bin"}); return home, r[2]
# what the daemon reads: the files in their order, later values win
def conf(home):
    v = {}; s = ""
    for f in sorted(os.listdir(home + "/conf.d")):
        for l in open(home + "/conf.d/" + f):
            l = l.rstrip("\n")
            if l.startswith("["): s = l[1:-1].lower()
            elif "=" in l: k, x = l.split("=", 1); v[s + "." + k.lower()] = x
    return v
good = dict(latitude="48.1", longitude="11.2", altitude="500", dump1090branch="default", username="me", serial="", port="30005", host="localhost")
"""
seed("s46-pkg-range","C38",
 [("debian/opensky-feeder.config","(!defined $max || $val <= $max);","(!defined $max || int($val) <= $max);")],
 G_PRE+r"""
v, notes, st, _ = config({}, dict({k: [x] for k, x in good.items()}, latitude=["90.25", "48.1"]))
print(v, notes, st); sys.exit(not (st == 0 and v["latitude"] == "48.1" and "latitudeformat" in notes))
""","a latitude or longitude beyond the pole by less than one degree is typed","a position the daemon does not start with is accepted",[],lang="py")
seed("s47-pkg-serial-upgrade","C38",
 [("debian/opensky-feeder-donated.postinst","[ -n \"$2\" ] && [ -f $DAEMON_HOME/conf.d/10-serial.conf ]; then","[ -n \"$2\" ] && [ -z \"$SERIAL\" ] && [ -f $DAEMON_HOME/conf.d/10-serial.conf ]; then")],
 G_PRE+r"""
os.makedirs(tmp + "/home/conf.d"); open(tmp + "/home/conf.d/10-serial.conf", "w").write("[Device]\nserial=4711\n")
home, st = postinst(dict(good, serial="1234"), "1.9.3", "opensky-feeder-donated"); v = conf(home)
print(v, st); sys.exit(not (st == 0 and v["device.serial"] == "1234"))
""","an upgrade from a version with 10-serial.conf of a receiver for which a serial number was entered, after one was assigned","the assigned serial number, not the entered one, is used",[],lang="py")
seed("s48-pkg-user-echo","C38",
 [("debian/opensky-feeder-kit.postinst","[IDENT]\nUsername=$USER\n\n[INPUT]\nHost=$HOST\nPort=$PORT\nEOF\n","[INPUT]\nHost=$HOST\nPort=$PORT\nEOF\n\n	if [ -n \"$USER\" ]; then\n		echo >> $DAEMON_HOME/conf.d/10-debconf.conf\n		echo \"[IDENT]\" >> $DAEMON_HOME/conf.d/10-debconf.conf\n		echo \"Username=$USER\" >> $DAEMON_HOME/conf.d/10-debconf.conf\n	fi\n")],
 G_PRE+r"""
home, st = postinst(dict(good, username="a\\nb"), "", "opensky-feeder-kit"); v = conf(home)
print(v, st); sys.exit(not (st == 0 and v.get("ident.username") == "a\\nb"))
""","a username which contains a backslash","the daemon logs in with another username, or does not start",[],lang="py")
seed("s49-pkg-user-note","C38",
 [("debian/opensky-feeder.config","(!defined($newuser) || $user ne $newuser)) {","(!defined($newuser) || lc($user) ne lc($newuser))) {")],
 G_PRE+r"""
v, notes, st, _ = config(dict(good, username="pilot"), dict(username=["Pilot"]), seen=[k for k in good if k != "username"])
print(v, notes, st); sys.exit(not (st == 0 and v["username"] == "Pilot" and "usernamechanged" in notes))
""","the username is changed in its case only","the user is not told that the change has no effect",[],lang="py")
