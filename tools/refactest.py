#!/usr/bin/env python3
# Runs checks against behaviour-preserving edits (refactor/*.py), each in a
# scratch copy: tools/refactest.py [id...]   (developer tool; no check uses it)
import os,sys,glob,subprocess,shutil,tempfile,concurrent.futures as cf,time
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV=dict(os.environ,PATH="/opt/veriftools/go1.24.13/bin:"+os.environ["PATH"],GOTOOLCHAIN="local",GOPROXY="off",GOFLAGS="-mod=readonly",GOWORK="off")
R=[]
def R_(id,props,edits): R.append((id,props.split(),edits))
for f in sorted(glob.glob(V+"/refactor/*.py")): exec(open(f).read())
want=[a for a in sys.argv[1:] if not a.startswith("-")]
def one(r):
    id,props,edits=r
    t=tempfile.mkdtemp(prefix="rft"); res=[]
    try:
        subprocess.check_call(["cp","-a","/repo/.",t]); subprocess.check_call(["git","-C",t,"checkout","-q","--","."])
        for f,a,b in edits:
            p=os.path.join(t,f); s=open(p).read()
            if a is None: s+=b
            else:
                if s.count(a)!=1: return f"{id}: pattern occurs {s.count(a)} times in {f}: {a[:40]!r}"
                s=s.replace(a,b)
            open(p,"w").write(s)
        b=subprocess.run(["bash","-c","gofmt -l srpc rpcstream echo; go build ./... && go test -count=1 -skip TestE2E_ClientSet ./... 2>&1 | grep -v 'no test files'"],cwd=t,env=ENV,capture_output=True,text=True)
        if b.returncode!=0 or 'FAIL' in b.stdout or not b.stdout.startswith('ok'): return f"{id}: build: {b.stdout[-600:]} {b.stderr[-600:]}"
        for P in props:
            o=tempfile.mkdtemp(prefix="rfo")
            for x in ("bin","contracts","known-findings.txt","replay","overlay","gen"): subprocess.check_call(["cp","-a",f"{V}/{x}",o])
            s=time.time()
            p=subprocess.run([V+"/bin/gcv","check",P],env=dict(os.environ,VERIF_DIR=o,VERIF_SEED="1",GCV_REPO=t),capture_output=True,text=True)
            if p.returncode!=0:
                out=[l[:150] for l in (p.stdout+p.stderr).splitlines()]
                res.append(f"{P} rc={p.returncode} {int(time.time()-s)}s: "+" ; ".join(out[:3]+out[-1:]))
            shutil.rmtree(o)
    finally: shutil.rmtree(t)
    return f"{id}: "+("quiet ("+" ".join(props)+")" if not res else "ALARM\n   "+"\n   ".join(res))
todo=[r for r in R if not want or r[0] in want or any(r[0].startswith(w) for w in want)]
with cf.ThreadPoolExecutor(2) as ex:
    for l in ex.map(one,todo): print(l,flush=True)
