#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from seed files (tools/seeds/*.seed.py) and confirms each in the scratch copy /tmp/wt
(built by itself with /tmp/vps/{build,test}.sh): patch applies, builds, stable tests pass, demo 0 without and !=0 with it.
usage: mk.py [id...]"""
import sys, os, json, subprocess, glob, shutil
WT="/tmp/wt"; OUT=os.path.join(os.path.dirname(os.path.abspath(__file__)), "../../seeded")
SEEDS={}
def seed(id, prop, edits, demo, needs, breaks, srcs, flags="", lang="c", tsan=False, extra=None, run="", timeout=60):
    SEEDS[id]=dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, srcs=srcs, flags=flags, lang=lang, tsan=tsan, extra=extra or {}, run=run, timeout=timeout)
for f in sorted(glob.glob(os.path.dirname(os.path.abspath(__file__))+"/*.seed.py")):
    exec(open(f).read())
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, errors="replace", **k)
base=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
bad=0
for id,s in SEEDS.items():
    if sys.argv[1:] and id not in sys.argv[1:]: continue
    d=f"{OUT}/{id}"; os.makedirs(d, exist_ok=True)
    sh("git -C /tmp/wt checkout -q -- .")
    for f,old,new in s["edits"]:
        p=f"{WT}/{f}"; t=open(p).read()
        if t.count(old)!=1: print(id,"EDIT does not match once:",f,t.count(old),repr(old[:60])); bad+=1; break
        open(p,"w").write(t.replace(old,new))
    diff=sh("git -C /tmp/wt diff").stdout
    sh("git -C /tmp/wt checkout -q -- .")
    open(d+"/patch.diff","w").write(diff)
    json.dump({"property":s["prop"],"needs":s["needs"],"what_it_breaks":s["breaks"]}, open(d+"/meta.json","w"), indent=1)
    ext={"c":"c","c++":"cpp","py":"py"}[s["lang"]]
    open(d+"/demo."+ext,"w").write(s["demo"].lstrip("\n"))
    for n,c in s["extra"].items(): open(d+"/"+n,"w").write(c.lstrip("\n"))
    san="-fsanitize=thread" if s["tsan"] else ""
    pre="setarch -R " if s["tsan"] else ""
    csrc=" ".join("src/"+x for x in s["srcs"])
    if s["lang"]=="c":
        comp=f'gcc $F "$D/demo.c" {csrc} {s["flags"]} -o "$T/demo" -lpthread -lm || exit 2'
    else:
        comp="\n".join([f'for f in {csrc}; do gcc $F -c "$f" {s["flags"]} -o "$T/$(echo "$f" | tr / _).o" || exit 2; done' if csrc else "",
              f'g++ $F "$D/demo.cpp" "$T"/*.o {s["flags"]} -o "$T/demo" -lpthread -lm || exit 2'])
    open(d+"/demo.sh","w").write(f'''#!/bin/bash
# run with cwd = the repository, after the build
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
F="-g -O1 -w -D_GNU_SOURCE -DHAVE_CONFIG_H -I_build -Isrc {san}"
{comp}
cd "$T" || exit 2
timeout {s["timeout"]} {pre}./demo {s["run"]} > out.txt 2>&1
rc=$?
tail -5 out.txt
exit $rc
''')
    if s["lang"]=="py": open(d+"/demo.sh","w").write(f'''#!/bin/bash
# run with cwd = the repository, after the build
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
timeout {s["timeout"]} python3 "$D/demo.py" "$PWD" "$T" > "$T/out.txt" 2>&1
rc=$?
tail -5 "$T/out.txt"
exit $rc
''')
    os.chmod(d+"/demo.sh",0o755)
    tmp="/tmp/demo_"+id; shutil.rmtree(tmp,ignore_errors=True); shutil.copytree(d,tmp)
    for x in ("patch.diff","meta.json"): os.remove(tmp+"/"+x)
    sh("bash /tmp/vps/build.sh")
    r0=sh(f"bash {tmp}/demo.sh", cwd=WT)
    a=sh(f"git -C /tmp/wt apply {d}/patch.diff")
    t=sh("bash /tmp/vps/test.sh /tmp/seed.json")
    passed=set(json.load(open("/tmp/seed.json"))["passed"])
    r1=sh(f"bash {tmp}/demo.sh", cwd=WT)
    sh("git -C /tmp/wt checkout -q -- .")
    shutil.rmtree(tmp)
    ok=a.returncode==0 and r0.returncode==0 and r1.returncode not in (0,2) and not (base-passed)
    bad+=not ok
    print(f"{'ok ' if ok else 'BAD'} {id} apply={a.returncode} clean={r0.returncode} patched={r1.returncode} tests_broken={sorted(base-passed)[:3]}", "" if ok else (r0.stdout+r0.stderr)[-600:]+" | "+(r1.stdout+r1.stderr)[-300:], flush=True)
sys.exit(bad>0)
