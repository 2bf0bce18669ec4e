#!/bin/bash
# seed.sh new ID PROP [miri|run]  : record /repo's current diff as a planted bug (main.rs, needs, breaks read from /tmp/seed/)
# seed.sh test ID [check]         : confirm a planted bug (applies, builds, tests pass, demo 0 clean / nonzero patched), run its check
set -u
V=/verif
case "$1" in
new)
  S=$V/seeded/$2; mkdir -p "$S"
  git -C /repo diff > "$S/patch.diff"; git -C /repo checkout -q -- .
  mode=${4:-run}
  if [ "$mode" = miri ]; then R='MIRIFLAGS="${MF:--Zmiri-disable-isolation -Zmiri-many-seeds=0..16}" timeout 280 cargo +nightly miri run --offline -q'; else R='timeout 200 cargo run --offline -q'; fi
  python3 - "$S" "$R" <<'P'
import sys,shutil
s,r=sys.argv[1:]
t=open('/verif/tools/demo_template.sh').read().replace('@RUN@',r)
open(s+'/demo.sh','w').write(t)
shutil.copy('/tmp/seed/main.rs',s+'/main.rs')
P
  python3 -c "import json,sys;json.dump({'property':sys.argv[1],'needs':open('/tmp/seed/needs').read().strip(),'what_it_breaks':open('/tmp/seed/breaks').read().strip()},open(sys.argv[2]+'/meta.json','w'),indent=1)" "$3" "$S"
  ;;
test)
  S=$V/seeded/$2
  P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  if [ "${3:-all}" = all ]; then
    (cd /repo && bash "$S/demo.sh" >/tmp/seed.demo0 2>&1; echo "demo clean: $? (want 0)")
  fi
  git -C /repo apply "$S/patch.diff" || { echo "does not apply"; exit 1; }
  if [ "${3:-all}" = all ]; then
    bash /opt/vp/build.sh >/tmp/seed.build 2>&1 || echo "BUILD FAILS"
    bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.test 2>&1
    python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.json'))
def names(x):
    for k in ('passed','stable','tests','pass'):
        if k in x: return set(x[k] if isinstance(x[k],list) else x[k])
B=names(b); R=names(r)
m=B-R
print('tests:', len(B&R),'of',len(B), sorted(m)[:5])
P
    (cd /repo && bash "$S/demo.sh" >/tmp/seed.demo1 2>&1; echo "demo patched: $? (want nonzero)")
  fi
  (cd $V && python3 checks/run.py "$P" 2>&1 | tail -6; )
  git -C /repo checkout -q -- .
  ;;
esac
