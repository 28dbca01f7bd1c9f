# Sourced by check.sh: builds the instrumented copy of the library and decides C29.
lib="$out/lib"; mkdir -p "$lib"
sed "s#=> /repo#=> $lib#" mc/go.mod > "$out/gol.mod"; cp mc/go.sum "$out/gol.sum"
ev="${VERIF_EVIDENCE:-evidence/C29.json}"
instr_ok=1
(cd mc && go build -modfile="$out/go.mod" -o "$out/instr" ./c29/instr) || exit 2
if ! "$out/instr" "$repo" "$lib" mc/c29/vsched > "$out/instr.log" 2>&1; then instr_ok=0; fi
if [ $instr_ok = 1 ] && ! (cd mc && go build -modfile="$out/gol.mod" -o "$out/explore" ./c29/explore) 2> "$out/err"; then instr_ok=0; cat "$out/err" >> "$out/instr.log"; fi
if [ "$1" = replay ]; then
  [ $instr_ok = 1 ] || { cat "$out/instr.log"; exit 2; }
  "$out/explore" replay "$2"; exit $?
fi

# Free-running companion pass on the plain library.
race="$out/race.json"; secs=10; [ "$tier" = thorough ] && secs=60
flags="-race"
if ! (cd mc && go build $flags -modfile="$out/go.mod" -o "$out/race" ./c29/race) 2> "$out/err"; then
  flags=""
  if ! (cd mc && go build -modfile="$out/go.mod" -o "$out/race" ./c29/race); then echo "check.sh: the library does not build" >&2; exit 2; fi
fi
GORACE="halt_on_error=1 exitcode=66" timeout 300 "$out/race" $secs > "$out/race.out" 2>&1; rc=$?
python3 - "$out/race.out" "$rc" "$flags" > "$race" <<'PY'
import json,sys,re
t=open(sys.argv[1],errors='replace').read(); rc=int(sys.argv[2])
m=re.search(r'iterations (\d+)',t)
f=""
if rc==124: note="the free run did not finish in time"; f="gosu-pp free run: the threads never finished\n" if 'iterations' not in t else ""
else: note="race detector on" if sys.argv[3] else "built without the race detector (not available)"
if rc not in (0,124) and 'gosu-pp' in t and (rc in (65,66) or 'panic' in t or 'fatal error' in t): f=t[:6000]
elif rc not in (0,124): note="the free run failed outside the library: "+t[:300]
print(json.dumps({"Ran":rc==0,"Iterations":int(m.group(1)) if m else 0,"Note":note,"Failure":f}))
PY
if [ $instr_ok = 1 ]; then
  "$out/explore" run "$tier" "$ev" "$race"; exit $?
fi
echo "C29: the library uses constructs the controlled scheduler does not model ($(head -c 300 "$out/instr.log")); only the free-running pass was done"
python3 - "$race" "$ev" "$tier" <<'PY'
import json,sys,os
r=json.load(open(sys.argv[1])); os.makedirs(os.path.dirname(sys.argv[2]) or '.',exist_ok=True)
n=r["Iterations"]
json.dump({"property":"C29","tier":sys.argv[3],"seed":int(os.environ.get("VERIF_SEED","0") or 0),"level":"model_checking","coverage":{"states":n,"transitions":n,"traces_validated_against_impl":n,"exhaustive":False,"samples":["free-running pass only"],"race_pass":r},"wall_s":0.0,"violations":1 if r["Failure"] else 0},open(sys.argv[2],"w"))
if r["Failure"]:
    os.makedirs("replays",exist_ok=True); open("replays/C29-race.txt","w").write(r["Failure"])
    print(r["Failure"][:1500]); print("VIOLATION property=C29 replay=replays/C29-race.txt"); sys.exit(1)
PY
exit $?
