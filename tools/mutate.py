#!/usr/bin/env python3
"""Mutation campaign: random small changes of the sources that pass the tests, run against the checks of the properties anchored in the file.
usage: mutate.py OUT [-n per-file] [-s seed] [-t total seconds] [file...]   (scratch copy in /tmp/mu, removed at the end)"""
import sys, os, re, json, random, subprocess, time, shutil, argparse
V=os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)),".."))
ap=argparse.ArgumentParser(); ap.add_argument("out"); ap.add_argument("-n",type=int,default=10); ap.add_argument("-s",type=int,default=1); ap.add_argument("-t",type=int,default=3600); ap.add_argument("files",nargs="*"); A=ap.parse_args()
MU=f"/tmp/mu{os.getpid()}"; rnd=random.Random(A.s)
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,errors="replace",**k)
props={}
for l in open(V+"/properties.jsonl"):
    p=json.loads(l)
    for f in json.dumps(p).replace('"',' ').split():
        f=f.strip(",").split(":")[0]
        if re.fullmatch(r"src/\S+\.(c|h|cc)",f): props.setdefault(f,[]); p["id"] in props[f] or props[f].append(p["id"])
shutil.copytree("/repo",MU,symlinks=True); shutil.rmtree(MU+"/_build",ignore_errors=True)
os.makedirs(MU+".s")
for n in ("build.sh","test.sh"): open(f"{MU}.s/{n}","w").write(open("/tmp/vps/"+n).read().replace("/tmp/wt",MU).replace("/tmp/vps",MU+".s"))
for x in os.listdir("/tmp/vps"):
    if x not in ("build.sh","test.sh"): sh(f"cp -a /tmp/vps/{x} {MU}.s/")
base=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
sh(f"bash {MU}.s/build.sh")
SUB=[(r" < "," <= "),(r" <= "," < "),(r" > "," >= "),(r" >= "," > "),(r" == "," != "),(r" != "," == "),(r" && "," || "),(r" \|\| "," && "),(r" \+ 1\b",""),(r" - 1\b",""),(r"\btrue\b","false"),(r"\bfalse\b","true"),(r" \+ "," - "),(r" - "," + "),(r"\+\+","--"),(r" \+= "," = "),(r" -= "," += "),(r"\b([2-9]|[1-9]\d+)\b",lambda m:str(int(m.group(1))+1)),(r"\bif \((.*)\) \{$",r"if (!(\1)) {"),(r"\bif \((.*)\)$",r"if (!(\1))"),(r"\bwhile \((.*)\) \{$",None),(r"sizeof (\w+)",r"(sizeof \1 - 1)"),(r" \| "," & "),(r" & "," | "),(r"\bbreak;",";"),(r"\bcontinue;",";")]
def mutants(f):
    L=open(f"/repo/{f}").read().split("\n"); M=[]; depth=0; incom=False
    for i,l in enumerate(L):
        if "/*" in l and "*/" not in l: incom=True
        if incom:
            if "*/" in l: incom=False
            continue
        if not l.startswith("\t") or l.strip().startswith(("*","/*","//","#")) or re.search(r"LOG_|assert|printf|__attribute__|PFX|\.name|\.description",l): continue
        for pat,rep in SUB:
            if rep is None: continue
            for m in re.finditer(pat,l):
                n=l[:m.start()]+m.expand(rep) if isinstance(rep,str) else None
                n=(m.expand(rep) if isinstance(rep,str) else rep(m)); n=l[:m.start()]+n+l[m.end():]
                if n!=l: M.append((i,l,n))
        if re.fullmatch(r"\t+[A-Za-z_*(+-][^{}]*;",l) and not re.match(r"\t+(return|break|continue|goto|struct|static|const|u?int\w*|size_t|ssize_t|bool|char|void|enum|union|double|float|sock_t|fd_set)\b",l) and not l.strip().startswith("}"):
            M.append((i,l,re.match(r"\t+",l).group()+";"))
    return L,M
out=open(A.out,"a",buffering=1); end=time.time()+A.t; st=dict(killed=0,caught=0,missed=0,nobuild=0)
files=A.files or sorted(props)
todo=[]
for f in files:
    if not os.path.exists("/repo/"+f): continue
    L,M=mutants(f); rnd.shuffle(M); todo+=[(k,f,L,m) for k,m in enumerate(M[:A.n])]
todo.sort(key=lambda x:x[0])
for k,f,L,(i,old,new) in todo:
    if time.time()>end: break
    T=list(L); T[i]=new; open(f"{MU}/{f}","w").write("\n".join(T))
    r=sh(f"timeout 120 bash {MU}.s/build.sh")
    if r.returncode: st["nobuild"]+=1; open(f"{MU}/{f}","w").write("\n".join(L)); continue
    sh(f"timeout 100 bash {MU}.s/test.sh {MU}.s/o.json")
    try: ok=not (base-set(json.load(open(f"{MU}.s/o.json"))["passed"]))
    except Exception: ok=False
    if not ok: st["killed"]+=1
    else:
        got=None
        for p in props.get(f,[]):
            t=time.time(); r=sh(f"timeout 900 {V}/bin/check {p}",env=dict(os.environ,VERIF_REPO=MU,VERIF_EARLY="1"))
            if r.returncode!=0: got=(p,r.returncode,(re.findall(r"key=(\S+)",r.stdout) or [r.stdout[-200:]])[0],int(time.time()-t)); break
        st["caught" if got else "missed"]+=1
        out.write(f"{'caught' if got else 'MISSED'} {f}:{i+1} {got or props.get(f)}\n  - {old.strip()}\n  + {new.strip()}\n")
    open(f"{MU}/{f}","w").write("\n".join(L))
out.write(json.dumps(st)+"\n"); shutil.rmtree(MU); shutil.rmtree(MU+".s")
