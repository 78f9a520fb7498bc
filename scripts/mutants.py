#!/usr/bin/env python3
"""Self-test of the checks: applies textual edits to scratch copies of /repo and runs checks on them.
usage: mutants.py [-k SUBSTR] [PROPERTY...]
Edit files: scripts/mut/*.txt, blocks separated by lines '=== <props> bad|good <name>', then
'--- file', then '<<<<' old '====' new '>>>>' (repeatable).  bad: the named checks must report; good: must be quiet."""
import os, re, sys, glob, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def parse(fn):
    out=[];cur=None;f=None
    L=open(fn).read().split("\n");i=0
    while i<len(L):
        l=L[i]
        if l.startswith("=== "):
            _,props,kind,name=l.split(None,3)
            cur=dict(props=props.split(","),kind=kind,name=name,edits=[]);out.append(cur)
        elif l.startswith("--- "): f=l[4:].strip()
        elif l=="<<<<":
            j=L.index("====",i);k=L.index(">>>>",j)
            cur["edits"].append((f,"\n".join(L[i+1:j]),"\n".join(L[j+1:k])));i=k
        i+=1
    return out
def run(m):
    d=tempfile.mkdtemp(prefix="mut-",dir="/tmp")
    try:
        r=d+"/repo"; shutil.copytree("/repo",r,ignore=shutil.ignore_patterns(".git"))
        for f,o,n in m["edits"]:
            s=open(r+"/"+f).read()
            if s.count(o)<1: return m,"EDIT-MISSING "+f+": "+o[:60],[]
            s=s.replace(o,n,1); open(r+"/"+f,"w").write(s)
        b=subprocess.run(["go","build","./..."],cwd=r,capture_output=True,text=True)
        if b.returncode: return m,"NOBUILD "+b.stdout[-300:]+b.stderr[-300:],[]
        os.makedirs(d+"/v",exist_ok=True)
        if os.path.exists(R+"/known_findings.txt"): shutil.copy(R+"/known_findings.txt",d+"/v")
        res=[]
        for p in m["props"]:
            c=subprocess.run([os.environ.get("SA_BIN",R+"/bin/sa"),"check",p],env=dict(os.environ,SA_REPO=r,SA_VERIF=d+"/v"),capture_output=True,text=True,timeout=900)
            det=[x for x in c.stdout.split("\n") if ": rule " in x]
            det2=[x for x in c.stdout.split("\n") if x.startswith("    ")]
            res.append((p,c.returncode,"; ".join(x.split(": rule ")[-1][:110] for x in det[:2])+" | "+(det2[0].strip()[:150] if det2 else "")+(c.stderr[-200:] if c.returncode not in(0,1) else "")))
        return m,None,res
    finally: shutil.rmtree(d)
def main():
    a=sys.argv[1:];k=None
    verbose="-v" in a
    if verbose: a.remove("-v")
    if a[:1]==["-k"]: k=a[1];a=a[2:]
    subprocess.check_call([R+"/build.sh"])
    ms=[m for f in sorted(glob.glob(R+"/scripts/mut/*.txt")) for m in parse(f)]
    ms2=[]
    for m in ms:
        if k and k not in m["name"]: continue
        if m["props"]==["*"]: m["props"]=a or subprocess.check_output([R+"/bin/sa","list"],text=True).split()
        elif a: m["props"]=[p for p in m["props"] if p in a]
        if m["props"]: ms2.append(m)
    bad=0
    with ThreadPoolExecutor(6) as ex:
        for m,err,res in ex.map(run,ms2):
            if err: print("ERR ",m["name"],err);bad+=1;continue
            want=1 if m["kind"]=="bad" else 0
            for p,rc,det in res:
                ok=rc==want
                bad+=not ok
                if not ok or verbose: print("ok  " if ok else "MISS" if want else "FALSE-ALARM",p,m["name"],det if rc else "")
    print("mutants:",len(ms2),"unexpected:",bad)
if __name__=="__main__": main()
