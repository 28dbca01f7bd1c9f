#!/usr/bin/env python3
"""Mutation study (development aid, not a check): applies the mutants of tools/mutate one at a time to scratch
copies of /repo; those that compile and pass the tests are run against the mapped checks.
usage: mutrun.py MUTANTS.jsonl OUT.jsonl [workers] [only-file-substring]"""
import json,os,resource,subprocess,sys,threading,queue,shutil,random
V=os.path.dirname(os.path.abspath(__file__))+"/.."
MAP={
"performance/osu/pp.go":"C25 C26 C27","beatmap/parser.go":"C07 C04 C05 C06 C02 C31 C01 C03","math/curves/multicurve.go":"C32 C10 C11 C09",
"beatmap/difficulty/mods.go":"C16 C17 C15 C14","performance/osu/skills/speed.go":"C19 C20","performance/osu/skills/aim.go":"C19 C20",
"beatmap/stackleniency.go":"C13","beatmap/difficulty/difficulty.go":"C15 C14","performance/osu/difficulty.go":"C23 C21 C22 C20 C24 C01",
"beatmap/objects/slider.go":"C09 C14 C10 C06 C01","math/curves/bezierapproximator.go":"C11 C10 C12","beatmap/beatmap.go":"C08 C05 C04 C31 C13 C01",
"beatmap/validate.go":"C05 C01 C06","math/curves/catmull.go":"C12 C11","performance/osu/skills/skill.go":"C19 C22 C20","beatmap/timing/timing.go":"C08 C09 C28",
"math/curves/bezier.go":"C12 C11","math/vector/vector2f.go":"C33 C12 C14 C11 C13 C18","performance/osu/preprocessing/lazyslider.go":"C18 C20",
"math/curves/cirarc.go":"C12 C11","performance/osu/preprocessing/object.go":"C18 C19 C20","beatmap/objects/hitobject.go":"C14 C06 C13 C07 C28",
"performance/osu/skills/flashlight.go":"C19 C20","math/curves/approximation.go":"C12 C11 C10","math/mutils/utils.go":"C33 C15 C18 C25 C05 C10 C19",
"beatmap/objects/baseobject.go":"C06 C14","performance/osu/preprocessing/objects.go":"C18 C20","beatmap/objects/util.go":"C06 C01","beatmap/pause.go":"C04",
"math/math32/math.go":"C33 C12 C11","beatmap/objects/spinner.go":"C06 C14","files/utf.go":"C03 C02","beatmap/audio/hitsound.go":"C06","math/curves/linear.go":"C12 C11",
}
muts=[json.loads(l) for l in open(sys.argv[1])]
out=sys.argv[2]; workers=int(sys.argv[3]) if len(sys.argv)>3 else 3; sub=sys.argv[4] if len(sys.argv)>4 else ""
muts=[m for m in muts if sub in m["File"]]
done=set()
if os.path.exists(out): done={json.loads(l)["ID"] for l in open(out)}
q=queue.Queue()
random.Random(1).shuffle(muts)
for m in muts:
    if m["ID"] not in done: q.put(m)
lock=threading.Lock()
def lim(): resource.setrlimit(resource.RLIMIT_AS,(10<<30,10<<30))

env0=dict(os.environ,GOTOOLCHAIN="local",GOPROXY="off",GOFLAGS="-mod=mod",GOWORK="off",GOMAXPROCS="3",PATH="/opt/veriftools/go1.27.3/bin:"+os.environ["PATH"])
def work(k):
    d=f"/tmp/mut/w{k}"; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    subprocess.run(["cp","-a","/repo",d+"/repo"],check=True)
    shutil.copytree(V+"/mc",d+"/mc")
    s=open(d+"/mc/go.mod").read().replace("=> /repo","=> "+d+"/repo"); open(d+"/mc/go.mod","w").write(s)
    while True:
        try: m=q.get_nowait()
        except queue.Empty: return
        p=d+"/repo/"+m["File"]; src=open("/repo/"+m["File"],"rb").read()
        open(p,"wb").write(src[:m["From"]]+m["New"].encode()+src[m["To"]:])
        st="survived"; msg=""
        try:
            r=subprocess.run(["go","test","-vet=off","-count=1","-timeout","60s","./..."],cwd=d+"/repo",env=env0,capture_output=True,text=True,timeout=120,preexec_fn=lim)
            if r.returncode!=0: st="nobuild" if "build failed" in r.stdout+r.stderr else "tests"
            else:
                r=subprocess.run(["go","build","-o",d+"/bin","."],cwd=d+"/mc",env=env0,capture_output=True,text=True,timeout=200)
                if r.returncode!=0: st="mcbuild"
                else:
                    for c in MAP.get(m["File"],"C20").split():
                        e=dict(env0,VERIF_EVIDENCE=d+"/ev.json",VERIF_REPLAYS=d+"/rp",VERIF_DEADLINE_S="90")
                        r=subprocess.run([d+"/bin","run",c,"quick"],cwd=d,env=e,capture_output=True,text=True,timeout=200,preexec_fn=lim)
                        if r.returncode!=0: st="killed:"+c; msg=r.stdout[-300:] if r.returncode==1 else "crash"; break
        except subprocess.TimeoutExpired: st="timeout"
        open(p,"wb").write(src)
        with lock:
            with open(out,"a") as f: f.write(json.dumps(dict(m,status=st,msg=msg[:200]))+"\n")
ts=[threading.Thread(target=work,args=(k,)) for k in range(workers)]
[t.start() for t in ts]; [t.join() for t in ts]
shutil.rmtree("/tmp/mut",ignore_errors=True) if not os.environ.get("KEEP") else None
