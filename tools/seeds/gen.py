#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from seeds_*.py next to this file and confirms each in a scratch copy of /repo:
the patch applies, builds, passes the repository's tests, and the demonstration fails with it and passes without.
usage: gen.py [id ...]"""
import os,sys,subprocess,shutil,json,glob,importlib.util
H=os.path.dirname(os.path.abspath(__file__)); V=os.path.abspath(H+"/../..")
env=dict(os.environ,GOTOOLCHAIN="local",GOPROXY="off",GOFLAGS="-mod=mod",GOWORK="off",PATH="/opt/veriftools/go1.27.3/bin:"+os.environ["PATH"])
seeds=[]
for f in sorted(glob.glob(H+"/seeds_*.py")):
    sp=importlib.util.spec_from_file_location("s",f); m=importlib.util.module_from_spec(sp); sp.loader.exec_module(m); seeds+=m.SEEDS
want=set(sys.argv[1:])
S="/tmp/seedgen"; shutil.rmtree(S,ignore_errors=True); os.makedirs(S)
subprocess.run(["git","clone","-q","/repo",S+"/repo"],check=True)
R=S+"/repo"
def sh(c,cwd=R,t=200):
    try: return subprocess.run(c,shell=True,cwd=cwd,env=env,capture_output=True,text=True,timeout=t)
    except subprocess.TimeoutExpired: return subprocess.CompletedProcess(c,99,"timeout","")
bad=0
for s in seeds:
    i=s["id"]
    if want and i not in want: continue
    if not want and os.path.exists(f"{V}/seeded/{i}/meta.json"): continue
    d=f"{S}/{i}"; os.makedirs(d)
    shutil.copy(H+"/lib.go",d+"/lib.go")
    open(d+"/main.go","w").write(s["demo"])
    fl="-race" if s.get("race") else ""
    open(d+"/demo.sh","w").write(open(H+"/demo.sh").read().replace("FLAGS",fl)); os.chmod(d+"/demo.sh",0o755)
    open(d+"/expected.txt","w").write("")
    sh("git checkout -q -- .")
    # expected output from the unchanged tree
    t=S+"/t"; shutil.rmtree(t,ignore_errors=True); os.makedirs(t)
    for g in glob.glob(d+"/*.go"): shutil.copy(g,t)
    open(t+"/go.mod","w").write("module demo\n\ngo 1.21\n\nrequire github.com/Wieku/gosu-pp v0.0.0\nrequire golang.org/x/text v0.3.7\n\nreplace github.com/Wieku/gosu-pp => %s\n"%R); shutil.copy(R+"/go.sum",t)
    r=sh(f"go build {fl} -o demo . && ./demo",cwd=t)
    if r.returncode: print(i,"DEMO BROKEN",r.stdout[-500:],r.stderr[-800:]); bad+=1; continue
    open(d+"/expected.txt","w").write(r.stdout)
    r=sh(d+"/demo.sh")
    if r.returncode: print(i,"demo fails clean",r.stdout[-300:]); bad+=1; continue
    err=""
    for f,o,n in s["edits"]:
        p=R+"/"+f; x=open(p).read()
        if x.count(o)!=1: err=f"edit matches {x.count(o)} times in {f}: {o[:60]!r}"; break
        open(p,"w").write(x.replace(o,n))
    if err: print(i,err); bad+=1; continue
    r=sh("gofmt -l . | grep -v '^test' ; go vet ./... 2>&1 | head -5; go test -vet=off -count=1 ./... 2>&1 | tail -15; exit ${PIPESTATUS[0]}")
    r=sh("go build ./... && go test -vet=off -count=1 ./...")
    if r.returncode: print(i,"tests fail / no build",(r.stdout+r.stderr)[-600:]); bad+=1; continue
    r=sh(d+"/demo.sh")
    if r.returncode==0: print(i,"DEMO PASSES WITH PATCH"); bad+=1; continue
    p=sh("git diff").stdout
    out=f"{V}/seeded/{i}"; shutil.rmtree(out,ignore_errors=True); shutil.copytree(d,out)
    open(out+"/patch.diff","w").write(p)
    json.dump({"property":s["property"],"needs":s["needs"],"what_it_breaks":s["breaks"]},open(out+"/meta.json","w"),indent=1)
    print(i,"ok (demo rc %d)"%r.returncode)
shutil.rmtree(S)
sys.exit(bad>0)
