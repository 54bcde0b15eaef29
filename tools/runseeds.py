#!/usr/bin/env python3
"""apply each seeded change to a scratch copy of /repo, run the check of its property (or those given with -c) on it. usage: runseeds.py [-c C01,C02] [id...]"""
import sys, os, json, subprocess, time, shutil
V=os.path.abspath(os.path.join(os.path.dirname(__file__), "..")); S=V+"/seeded"; args=sys.argv[1:]; checks=None
if args and args[0]=="-c": checks=args[1].split(","); args=args[2:]
W="/tmp/rs-%d"%os.getpid()
subprocess.run(f"cp -a /repo {W}", shell=True, check=True)
try:
    for id in sorted(os.listdir(S)):
        if args and id not in args: continue
        prop=json.load(open(f"{S}/{id}/meta.json"))["property"]
        for c in checks or [prop]:
            subprocess.run(f"git -C {W} apply {S}/{id}/patch.diff", shell=True, check=True)
            t=time.time()
            try:
                r=subprocess.run([V+"/bin/check",c,"--tier","quick"], cwd=V, capture_output=True, text=True, errors="replace", env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick", VERIF_REPO=W))
            finally:
                subprocess.run(f"git -C {W} checkout -q -- .", shell=True)
            v=[l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print(f"{id} {c} exit={r.returncode} {time.time()-t:.0f}s {'CAUGHT' if r.returncode==1 and v else 'MISSED'} {v[:1]}", flush=True)
finally:
    shutil.rmtree(W)
