"""Build harnesses from /repo's working tree, run them sharded, judge, write evidence."""
import json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.realpath(os.path.join(os.path.dirname(__file__), ".."))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
HAR = os.path.join(ROOT, "harness")
NCPU = min(8, os.cpu_count() or 4)

BASE = ["-g", "-DHAVE_CONFIG_H", "-I" + os.path.join(HAR, "include"), "-I" + HAR, "-I" + SRC, "-w",
        "-fno-omit-frame-pointer", "-U_FORTIFY_SOURCE", "-pthread", "-fno-builtin-memcmp"]
VARIANTS = {
    # asserts stay enabled: a failing one is a violation
    "asan": dict(cc="gcc", cxx="g++", fl=["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                                         "-fno-common", "-fstack-protector-all"]),
    "tsan": dict(cc="gcc", cxx="g++", fl=["-O1", "-fsanitize=thread", "-U_FORTIFY_SOURCE", "-fno-builtin"]),
    "plain": dict(cc="gcc", cxx="g++", fl=["-O2"]),
    "ndebug": dict(cc="gcc", cxx="g++", fl=["-O3", "-DNDEBUG"]),
    # uninstrumented build run under valgrind: uses of undefined and foreign memory, also through library code
    "memcheck": dict(cc="gcc", cxx="g++", fl=["-O1", "-DVF_MEMCHECK"]),
    # coverage-guided input generation (libFuzzer) in front of the same oracle
    "fuzz": dict(cc="clang", cxx="clang++", fl=["-O1", "-fsanitize=fuzzer-no-link,address,undefined", "-fno-sanitize=function", "-fno-sanitize-recover=all", "-fno-common", "-DFUZZ"], ldfl=["-fsanitize=fuzzer,address,undefined"]),
    "msan": dict(cc="clang", cxx="clang++", fl=["-O1", "-fsanitize=memory", "-fno-sanitize-recover=all",
                                              "-fsanitize-memory-track-origins", "-fsanitize-ignorelist=" + os.path.join(HAR, "msan.ignore")]),
}
SANENV = {
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=67:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_abort=0:strict_string_checks=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=67",
    "MSAN_OPTIONS": "exitcode=67",
}


class BuildError(Exception):
    pass


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def build(stage, bdir, pool):
    """Compile stage's sources; returns path of the executable."""
    v = VARIANTS[stage["variant"]]
    os.makedirs(bdir, exist_ok=True)
    jobs = []
    objs = []
    files = [(os.path.join(SRC, f) if isinstance(f, str) else os.path.join(SRC, f[0]),
              [] if isinstance(f, str) else f[1]) for f in stage.get("src", [])]
    files += [(os.path.join(HAR, f) if isinstance(f, str) else os.path.join(HAR, f[0]),
               [] if isinstance(f, str) else f[1]) for f in stage["har"] + stage.get("rt", ["vf.cpp"])]
    for i, (path, fl) in enumerate(files):
        o = os.path.join(bdir, "%d_%s.o" % (i, re.sub(r"\W", "_", os.path.basename(path))))
        cpp = path.endswith((".cc", ".cpp"))
        std = "-std=gnu++17" if cpp else "-std=gnu11"
        cmd = [v["cxx"] if cpp else v["cc"], std] + BASE + v["fl"] + stage.get("defs", []) + [x.replace("@SRC@", SRC) for x in fl] + ["-c", path, "-o", o]
        objs.append(o)
        jobs.append((path, pool.submit(run, cmd)))
    for path, j in jobs:
        r = j.result()
        if r.returncode:
            raise BuildError("compiling %s failed:\n%s" % (path, r.stdout[-4000:]))
    exe = os.path.join(bdir, "h_" + stage["name"])
    wraps = ["-Wl,--wrap=" + w for w in stage.get("wraps", [])]
    r = run([v["cxx"], "-o", exe] + v.get("ldfl", v["fl"]) + ["-pthread"] + objs + wraps + stage.get("ld", []) + ["-lm", "-lrt", "-ldl"])
    if r.returncode:
        raise BuildError("linking %s failed:\n%s" % (stage["name"], r.stdout[-4000:]))
    return exe


REPOFILES = {f for _, _, fs in os.walk(SRC) for f in fs}
FR = re.compile(r"#\d+ +(?:0x[0-9a-f]+ +)?(?:in +)?(\S+?)(?:\([^)]*\))? +(/\S+|\S+\.(?:c|cc|h|cpp))(?::\d+)*")


def classify(rc, err, variant):
    """Map a dead process to (key, headline)."""
    kind = None
    m = re.search(r"ERROR: AddressSanitizer:? ([\w-]+)", err)
    if m:
        kind = "asan-" + m.group(1)
    m2 = re.search(r"runtime error: (.*)", err)
    if not kind and m2:
        kind = "ubsan-" + re.sub(r"[^a-z]+", "-", re.sub(r"0x[0-9a-f]+|-?\d+|'[^']*'", "", m2.group(1)).lower())[:50].strip("-")
    m3 = re.search(r"WARNING: ThreadSanitizer: ([^\(\n]+)", err)
    if not kind and m3:
        kind = "tsan-" + m3.group(1).strip().replace(" ", "-")
    if not kind and "MemorySanitizer" in err:
        kind = "msan-uninitialized"
    m5 = re.search(r"^==\d+== (Conditional jump|Use of uninit|Syscall param|Invalid \w+|Source and destination|Mismatched free|Argument '.*?' of function|Jump to)", err, re.M)
    if not kind and m5:
        fr = next((m.group(1) for m in re.finditer(r"^==\d+==    (?:at|by) 0x[0-9A-F]+: (\S+) \((\w+\.cc?):\d+\)", err, re.M) if os.path.basename(m.group(2)) in REPOFILES), "")
        return "memcheck-" + m5.group(1).lower().replace(" ", "-") + (":" + fr if fr else ""), next(l for l in err.splitlines() if m5.group(1) in l)
    m4 = re.search(r"(\S+):\d+: (\S+): Assertion [`'](.*?)' failed", err) or \
        re.search(r"(\S+):\d+: .*?(\w+)\(.*?: Assertion [`'](.*?)' failed", err)
    if not kind and m4:
        kind = "assert:%s:%s" % (m4.group(2), m4.group(3)[:60])
        return kind, m4.group(0)
    if not kind and "stack smashing" in err:
        kind = "stack-smashing"
    if not kind:
        kind = "died-signal-%d" % -rc if rc < 0 else "died-exit-%d" % rc
    frame = ""
    for m in FR.finditer(err):
        if "/repo/src" in m.group(2) or SRC in m.group(2):
            frame = m.group(1)
            break
    head = next((l for l in err.splitlines() if "ERROR:" in l or "runtime error" in l or "WARNING: Thread" in l), err[-300:])
    return (kind + (":" + frame if frame else "")), head


def sanenv(variant, supp):
    e = dict(os.environ)
    e.update(SANENV)
    t = "halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4:report_signal_unsafe=0"
    if supp:
        t += ":suppressions=" + supp
    e["TSAN_OPTIONS"] = t
    e["LC_ALL"] = "C.UTF-8"
    return e


class Shard:
    def __init__(self, exe, stage, seed, a, b, base, supp, scale=1):
        self.exe, self.stage, self.seed, self.a, self.b = exe, stage, seed, a, b
        self.base, self.supp = base, supp
        self.timeout = stage.get("case_timeout", 60) * scale
        self.proc = None

    def cmd(self):
        c = [self.exe, "--seed", str(self.seed), "--from", str(self.a), "--to", str(self.b), "--out", self.base]
        for k, v in self.stage.get("opts", {}).items():
            c += ["--opt", "%s=%s" % (k, v)]
        if self.stage["variant"] == "tsan":
            c = ["setarch", "-R"] + c
        if self.stage["variant"] == "memcheck":
            c = ["valgrind", "-q", "--error-exitcode=68", "--exit-on-first-error=yes", "--track-origins=yes", "--fair-sched=yes", "--undef-value-errors=yes", "--leak-check=no",
                 "--read-var-info=no", "--num-callers=20", "--suppressions=" + os.path.join(HAR, "memcheck.supp")] + c
        return c

    def start(self):
        for s in (".prog", ".sum", ".dist", ".viol"):
            try:
                os.unlink(self.base + s)
            except FileNotFoundError:
                pass
        self.errf = open(self.base + ".err", "wb")
        self.wd = tempfile.mkdtemp(prefix="w", dir=os.path.dirname(self.base))
        self.proc = subprocess.Popen(self.cmd(), stdout=self.errf, stderr=self.errf, stdin=subprocess.DEVNULL,
                                     env=sanenv(self.stage["variant"], self.supp), cwd=self.wd, start_new_session=True)
        self.last = (None, time.monotonic())

    def prog(self):
        try:
            with open(self.base + ".prog", "rb") as f:
                return struct.unpack("QQ", f.read(16))
        except Exception:
            return (self.a, 0)

    def poll(self):
        """None while running, else ('ok'|'viol'|'crash'|'hang', rc)"""
        rc = self.proc.poll()
        if rc is None:
            p = self.prog()
            now = time.monotonic()
            if p != self.last[0]:
                self.last = (p, now)
            elif now - self.last[1] > self.timeout:
                self.stacks = self.dump_stacks()
                self.kill()
                return ("hang", None)
            try:
                if os.path.getsize(self.base + ".err") > 200_000_000:
                    os.truncate(self.base + ".err", 0)
            except OSError:
                pass
            return None
        self.kill()
        if rc == 0:
            return ("ok", rc)
        if rc == 10:
            return ("viol", rc)
        return ("crash", rc)

    def dump_stacks(self):
        try:
            pid = self.proc.pid
            r = run(["gdb", "-p", str(pid), "-batch", "-ex", "thread apply all bt 12"], timeout=30)
            return "\n".join(l for l in r.stdout.splitlines() if l.startswith("#") or l.startswith("Thread"))[-4000:]
        except Exception as e:
            return "no stacks: %s" % e

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        self.proc.wait()
        self.errf.close()
        shutil.rmtree(self.wd, ignore_errors=True)

    def err(self):
        with open(self.base + ".err", "rb") as f:
            try:
                f.seek(-60000, 2)
            except OSError:
                f.seek(0)
            return f.read().decode(errors="replace")

    def results(self):
        s, d, v = None, b"", []
        try:
            s = json.load(open(self.base + ".sum"))
        except Exception:
            pass
        try:
            d = open(self.base + ".dist", "rb").read()
        except Exception:
            pass
        try:
            for l in open(self.base + ".viol", encoding="utf-8", errors="replace"):
                try:
                    x = json.loads(l, strict=False)
                    x["key"], x["case"], x["msg"], x.setdefault("trace", "")
                except Exception:  # cut short: the harness died while writing it
                    x = dict(key="malformed", case=self.a, msg="incomplete violation record: " + l[:300], trace="")
                v.append(x)
        except FileNotFoundError:
            pass
        return s, d, v


class Result:
    def __init__(self):
        self.counters, self.maxes, self.samples, self.dist, self.viol, self.notes = {}, {}, [], set(), [], []
        self.inconclusive = 0

    def merge(self, st, s, d):
        if s:
            for k, n in s["counters"].items():
                if k.startswith("inconclusive:"):
                    self.inconclusive += n
                self.counters[k] = self.counters.get(k, 0) + n
            for k, n in s["maxes"].items():
                self.maxes[k] = max(self.maxes.get(k, 0), n)
            if len(self.samples) < 8:
                self.samples += ["[%s] %s" % (st["name"], x) for x in s["samples"][: 2]]
        for i in range(0, len(d) - 7, 8):
            self.dist.add((st["name"], d[i:i + 8]))


def run_stage(st, exe, seed, ncases, wd, known, res, deadline, first=0):
    """Run cases [first, first+ncases) of a stage over shards."""
    supp = os.path.join(ROOT, "harness", st["supp"]) if st.get("supp") else None
    nsh = max(1, min(st.get("shards", NCPU), ncases))
    step = (ncases + nsh - 1) // nsh
    queue = [(first + i * step, min(first + ncases, first + (i + 1) * step)) for i in range(nsh)]
    queue = [q for q in queue if q[0] < q[1]]
    live, n, retries = [], 0, {}
    stop = False
    hangs = []
    while queue or live:
        while queue and len(live) < nsh and not stop:
            a, b = queue.pop(0)
            sh = Shard(exe, st, seed, a, b, os.path.join(wd, "%s_%d" % (st["name"], n)), supp)
            n += 1
            sh.start()
            live.append(sh)
        if stop and not live:
            break
        time.sleep(0.02)
        for sh in list(live):
            r = sh.poll()
            if r is None:
                if time.monotonic() > deadline:
                    sh.kill()
                    live.remove(sh)
                    s, d, v = sh.results()
                    res.notes.append("stage %s: stopped by the time limit" % st["name"])
                    res.truncated = True
                continue
            live.remove(sh)
            kind, rc = r
            s, d, v = sh.results()
            res.merge(st, s, d)
            case = sh.prog()[0]
            newv = []
            for x in v:
                newv.append(dict(key=st["name"] + ":" + x["key"], case=x["case"], msg=x["msg"], trace=x.get("trace", "")))
            if kind == "crash":
                err = sh.err()
                key, head = classify(rc, err, st["variant"])
                if rc == 2 or (rc == 127) or (rc < 0 and -rc == signal.SIGKILL):
                    # the machine (out of memory, missing tool), not the code: retry once
                    retries[case] = retries.get(case, 0) + 1
                    if retries[case] <= 2:
                        queue.append((case, sh.b))
                        continue
                    raise RuntimeError("harness %s cannot run (exit %s):\n%s" % (st["name"], rc, err[-3000:]))
                newv.append(dict(key=st["name"] + ":" + key, case=case, msg=head, trace=err[-6000:]))
            if kind == "hang" and stop:
                continue # one is enough: confirming each takes long
            if kind == "hang":
                ok = confirm_hang(sh, st, exe, seed, case, wd, supp)
                hangs.append(case)
                if ok or len(hangs) >= 3:
                    newv.append(dict(key=st["name"] + ":hang", case=case, msg="no progress for %d s in case %d" % (sh.timeout, case),
                                     trace=sh.stacks))
                else:
                    res.inconclusive += 1
                    res.notes.append("stage %s case %d: a stall that did not recur: %s" % (st["name"], case, sh.stacks[:1500]))
            for x in newv:
                x["stage"] = st["name"]
                x["seed"] = seed
                x["opts"] = st.get("opts", {})
                res.viol.append(x)
                if x["key"] not in known:
                    stop = True
            if kind != "ok" and case + 1 < sh.b and not stop:
                # go on behind the case (bounded: known findings only)
                queue.append((case + 1, sh.b))
        if stop:
            for sh in live:
                sh.kill()
                res.merge(st, *sh.results()[:2])
            live = []
            break


def run_fuzz(st, exe, seed, n, wd, res, deadline, rep):
    """n executions of a libFuzzer target over all cores; the input of a violation is kept in the replay file."""
    base = os.path.join(wd, "fz_" + st["name"])
    os.makedirs(base)
    env = sanenv("asan", None)
    if rep:
        f = os.path.join(base, "input")
        open(f, "wb").write(bytes.fromhex(rep["input"]))
        r = run([exe, f], env=env, cwd=base)
        res.counters["eval"] = 1
        res.dist.add((st["name"], b"input"))
        procs = [(r.returncode, r.stdout, base, rep["input"])]
    else:
        ws = []
        for w in range(NCPU):
            d = os.path.join(base, "w%d" % w)
            os.makedirs(d + "/corpus")
            for i, x in enumerate(st["fuzz"]):
                open(d + "/corpus/s%d" % i, "wb").write(x)
            out = open(d + "/out", "wb")
            left = max(10, int(deadline - time.monotonic()))
            ws.append((d, out, subprocess.Popen([exe, "-seed=%d" % (seed * 1000 + w + 1), "-runs=%d" % (n // NCPU), "-max_len=700", "-len_control=20", "-timeout=25", "-rss_limit_mb=2000",
                                                 "-max_total_time=%d" % left, "-print_final_stats=1", "-verbosity=1", "-artifact_prefix=" + d + "/", d + "/corpus"],
                                                stdout=out, stderr=out, stdin=subprocess.DEVNULL, env=env, cwd=d, start_new_session=True)))
        procs = []
        for d, out, p in ws:
            try:
                p.wait(max(10, deadline - time.monotonic()) + 60)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                res.notes.append("fuzz worker ended by the time limit")
                continue
            out.close()
            t = open(d + "/out", errors="replace").read()
            m = re.search(r"stat::number_of_executed_units: (\d+)", t)
            res.counters["eval"] = res.counters.get("eval", 0) + (int(m.group(1)) if m else 0)
            res.counters["fuzz_execs"] = res.counters.get("fuzz_execs", 0) + (int(m.group(1)) if m else 0)
            for c in re.findall(r"cov: (\d+)", t)[-1:]:
                res.maxes["fuzz_cov:" + st["name"]] = max(res.maxes.get("fuzz_cov:" + st["name"], 0), int(c))
            for f in os.listdir(d + "/corpus"):
                res.dist.add((st["name"], f.encode()))
            bad = [f for f in os.listdir(d) if f.startswith(("crash-", "timeout-", "oom-", "leak-"))]
            procs.append((p.returncode, t, d, open(os.path.join(d, bad[0]), "rb").read().hex() if bad else ""))
    for rc, t, d, inp in procs:
        if rc == 0:
            continue
        m = re.search(r"VFFAIL (\S+) (.*)", t)
        if m:
            key, head = m.group(1), m.group(2)
        elif "libFuzzer: timeout" in t:
            key, head = "hang", "no progress for 25 s"
        elif not inp and not rep:
            raise BuildError("fuzz worker failed without an input:\n" + t[-2000:])
        else:
            key, head = classify(rc, t, "asan")
        res.viol.append(dict(key=st["name"] + ":" + key, case=0, msg=head, trace=t[-6000:], stage=st["name"], seed=seed, opts={}, input=inp))


def confirm_hang(sh, st, exe, seed, case, wd, supp):
    for i in range(2):
        s2 = Shard(exe, st, seed, case, case + 1, os.path.join(wd, "%s_hang%d_%d" % (st["name"], case, i)), supp)
        s2.start()
        while True:
            r = s2.poll()
            if r:
                break
            time.sleep(0.05)
        if r[0] == "hang":
            return True
    return False


def load_known(pid):
    known = {}
    try:
        for l in open(os.path.join(ROOT, "known_findings.txt")):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                known[m.group(2)] = m.group(3).strip()
    except FileNotFoundError:
        pass
    return known


def main(CHECKS):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--stage")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--from", dest="first", type=int, default=0)
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    pid = a.id
    chk = CHECKS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    limit = 780 if a.tier == "quick" else 6 * 3600
    deadline = time.monotonic() + limit
    os.makedirs(os.path.join(ROOT, "build"), exist_ok=True)
    wd = tempfile.mkdtemp(prefix=pid + ".", dir=os.path.join(ROOT, "build"))
    known = load_known(pid)
    res = Result()
    res.truncated = False
    rc = 2
    rep = json.load(open(a.replay)) if a.replay else None
    try:
        stages = chk["stages"]
        if rep:
            stages = [s for s in stages if s["name"] == rep["stage"]]
        if a.stage:
            stages = [s for s in stages if s["name"] == a.stage]
        with ThreadPoolExecutor(NCPU) as pool:
            # compile everything first (link sequentially)
            exes = {}
            for st in stages:
                if "py" in st:
                    continue
                exes[st["name"]] = build(st, os.path.join(wd, "b_" + st["name"]), pool)
        for st in stages:
            n = st["quick"] if a.tier == "quick" else st.get("thorough", st["quick"] * 10)
            first = a.first
            if a.cases:
                n = a.cases
            if rep:
                seed, first, n = rep["seed"], rep["case"], 1
            ts = time.time()
            if "py" in st:
                st["py"](st, seed, n, wd, res, deadline, first)
            elif st["variant"] == "fuzz":
                run_fuzz(st, exes[st["name"]], seed, n, wd, res, deadline, rep)
            else:
                run_stage(st, exes[st["name"]], seed, n, wd, known, res, deadline, first)
            res.counters["stage_seconds:" + st["name"]] = int(time.time() - ts)
            if any(v["key"] not in known for v in res.viol):
                break
        unknown = [v for v in res.viol if v["key"] not in known]
        ev = res.counters.get("eval", 0)
        seen_known = sorted({v["key"] for v in res.viol if v["key"] in known})
        cov = dict(evaluations=ev, distinct_nontrivial=len(res.dist), rule=chk["rule"], samples=res.samples[:8],
                   observed={k: v for k, v in sorted(res.counters.items()) if k != "eval"}, maxima=res.maxes,
                   inconclusive=res.inconclusive, notes=res.notes[:20], known_findings_seen=seen_known)
        evid = dict(property=pid, tier=a.tier if a.tier in ("quick", "thorough") else "quick", seed=seed, level=chk.get("level", "exploration"),
                    coverage=cov, assumptions=chk.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(unknown))
        if not rep and not a.stage:
            os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
            p = os.path.join(ROOT, "evidence", pid + ".json")
            with open(p + ".tmp", "w") as f:
                json.dump(evid, f, indent=1)
            os.replace(p + ".tmp", p)
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, known[k]))
        if unknown:
            rd = os.path.join(ROOT, "evidence", "replay")
            os.makedirs(rd, exist_ok=True)
            for i, v in enumerate(unknown[:3]):
                rp = os.path.join(rd, "%s-%d.json" % (pid, i))
                json.dump(v, open(rp, "w"), indent=1)
                print("VIOLATION property=%s replay=%s" % (pid, rp))
                print("  key=%s case=%s seed=%s\n  %s" % (v["key"], v["case"], v["seed"], v["msg"][:1500]))
                if v.get("trace"):
                    print("  | " + "\n  | ".join(v["trace"].splitlines()[-40:]))
            rc = 1
        elif not rep and not a.stage:
            need = chk.get("need", {})
            short = ["%s=%d < %d" % (k, res.counters.get(k, res.maxes.get(k, 0)), m) for k, m in need.items()
                     if res.counters.get(k, res.maxes.get(k, 0)) < m]
            if ev == 0 or not res.dist:
                short.append("nothing evaluated")
            if short and not a.cases:
                print("ERROR: the run did not observe what it must: " + "; ".join(short))
                rc = 2
            else:
                rc = 0
        else:
            rc = 0
        print("%s %s: %d evaluations, %d distinct, %d inconclusive, %.1f s, exit %d" % (
            pid, a.tier, ev, len(res.dist), res.inconclusive, time.time() - t0, rc))
        if a.cases or a.stage or rep:
            print(json.dumps(cov, indent=1)[:6000])
    except BuildError as e:
        print("ERROR: " + str(e))
        rc = 2
    finally:
        if not a.keep:
            shutil.rmtree(wd, ignore_errors=True)
        else:
            print("kept " + wd)
    sys.stdout.flush()
    sys.exit(rc)
