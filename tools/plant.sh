#!/bin/bash
# Confirms planted bugs: plant.sh [-c] ID...
# In a scratch copy of /repo (/tmp/wt) each patch must apply, build, pass the stable tests, change
# lines of the original repository, and its demo must pass without and fail with it. With -c the
# quick check of the bug's property is then run against /repo with the patch applied.
check=; [ "$1" = -c ] && { check=1; shift; }
wt=/tmp/wt
[ -d "$wt" ] || cp -a /repo "$wt"
git -C "$wt" checkout -q -- .
[ "$(git -C "$wt" rev-parse HEAD)" = "$(git -C /repo rev-parse HEAD)" ] || { echo "stale $wt"; exit 2; }
for s in build test; do sed "s#/repo#$wt#g" /opt/vp/$s.sh > /tmp/wt-$s.sh; done
base=$(git -C /repo rev-list --max-parents=0 HEAD | tail -1); base=$(git -C /repo rev-parse 'ae444df^')
for id in "$@"; do
  d=/verif/seeded/$id; r=
  if ! git -C "$wt" apply "$d/patch.diff"; then echo "$id: does not apply"; continue; fi
  bash /tmp/wt-build.sh >/tmp/wt-build.log 2>&1 || r+=" BUILD-FAILS"
  bash /tmp/wt-test.sh /tmp/wt-out.json >/dev/null 2>&1
  t=$(python3 - <<P
import json
o=json.load(open('/tmp/wt-out.json')); b=json.load(open('/opt/vp/BASELINE.json'))
def names(x):
    for k in ('passed','pass','stable'):
        if k in x: return set(map(str,x[k]))
    return set()
m=names(b)-names(o)
print(len(names(b)),'missing',len(m), sorted(m)[:3])
P
)
  case $t in *"missing 0"*) ;; *) r+=" TESTS[$t]";; esac
  (cd "$wt" && timeout 300 "$d/demo.sh" >/tmp/wt-demo.log 2>&1); with=$?
  # blame: is at least one removed line from the original
  python3 - "$wt" "$base" >/tmp/wt-blame <<'P'
import subprocess,sys,re
wt,base=sys.argv[1:]
diff=subprocess.run(['git','-C',wt,'diff','-U0'],capture_output=True,text=True).stdout
orig=new=0;f=None
for l in diff.splitlines():
    if l.startswith('--- a/'): f=l[6:]
    m=re.match(r'@@ -(\d+)(?:,(\d+))? ',l)
    if m:
        a=int(m[1]);n=int(m[2]) if m[2] is not None else 1
        if n:
            bl=subprocess.run(['git','-C',wt,'blame','-l','-s','-L',f'{a},+{n}','HEAD','--',f],capture_output=True,text=True).stdout
            for x in bl.splitlines():
                h=x.split()[0].lstrip('^')
                anc=subprocess.run(['git','-C',wt,'merge-base','--is-ancestor',h,base]).returncode==0
                orig+=anc; new+=not anc
print(orig,new)
P
  read -r o n </tmp/wt-blame; [ "$o" -gt 0 ] || r+=" ONLY-NEW-LINES"
  git -C "$wt" checkout -q -- .
  (cd "$wt" && timeout 300 "$d/demo.sh" >/tmp/wt-demo0.log 2>&1); without=$?
  [ $with -ne 0 ] && [ $with -ne 2 ] || r+=" DEMO-WITH=$with"; [ $without -eq 0 ] || r+=" DEMO-WITHOUT=$without"
  if [ -n "$check" ] && [ -z "$r" ]; then
    p=${id%%-*}
    git -C /repo apply "$d/patch.diff" && (cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash ./check.sh "$p" >/tmp/wt-check.log 2>&1); rc=$?
    git -C /repo checkout -q -- .
    if [ $rc -eq 1 ] && grep -q "^VIOLATION property=$p " /tmp/wt-check.log; then r+=" caught"; else r+=" MISSED(rc=$rc)"; fi
  fi
  echo "$id: demo $without/$with lines orig=$o new=$n$r"
done
