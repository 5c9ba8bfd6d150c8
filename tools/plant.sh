#!/bin/bash
# tools/plant.sh ID [CHECK...]: confirms a planted bug in private copies of /repo and
# /verif (bind mounts of this process only) and runs the given checks (default: the
# property of meta.json) against it.
id=$1; shift
seed=/verif/seeded/$id
checks="$*"
[ -n "$checks" ] || checks=$(python3 -c "import json;print(json.load(open('$seed/meta.json'))['property'])")
work=$(mktemp -d /tmp/plant.XXXXXX)
cp -a /repo "$work/repo"
mkdir "$work/verif"; (cd /verif && cp -a check mc tools known_findings.json "$work/verif/" && cp -a target "$work/verif/target" 2>/dev/null)
mkdir "$work/demo"; cp -a "$seed"/. "$work/demo/"; rm -f "$work/demo/meta.json"
patch=$work/p.diff; mv "$work/demo/patch.diff" "$patch"
cat > "$work/run.sh" <<R
mount --bind $work/repo /repo; mount --bind $work/verif /verif
cd /repo
git checkout -q -- . 
if [ -z "\$SKIP" ]; then
bash /opt/vp/build.sh >$work/b0.log 2>&1 || { echo "CLEAN BUILD FAILS"; exit 1; }
timeout 300 bash $work/demo/demo.sh >$work/d0.log 2>&1; r=\$?
[ \$r = 0 ] || { echo "DEMO FAILS ON CLEAN TREE \$r"; tail -20 $work/d0.log; exit 1; }
fi
git apply $patch || { echo "PATCH DOES NOT APPLY"; exit 1; }
if [ -z "\$SKIP" ]; then
bash /opt/vp/build.sh >$work/b1.log 2>&1 || { echo "PATCHED BUILD FAILS"; tail -30 $work/b1.log; exit 1; }
bash /opt/vp/test.sh $work/t.json >$work/t.log 2>&1
python3 - <<P
import json
t=json.load(open('$work/t.json')); b=json.load(open('/opt/vp/BASELINE.json'))
m=set(b['stable'])-set(t['passed'])
print('TESTS PASS' if not m else 'TESTS FAIL %s'%sorted(m)[:6])
P
timeout 300 bash $work/demo/demo.sh >$work/d1.log 2>&1; r=\$?
[ \$r != 0 ] && echo "DEMO OK: \$r: \$(tail -2 $work/d1.log | cut -c1-300)" || echo "DEMO PASSES WITH THE BUG"
fi
for c in $checks; do
  timeout 900 /verif/check \$c >$work/c.log 2>&1; r=\$?
  echo "CHECK \$c -> \$r \$(grep -c ^VIOLATION $work/c.log) violations; \$(grep -A2 -m1 'violated by' $work/c.log | cut -c1-250 | tr '\n' ' ') \$(tail -1 $work/c.log | cut -c1-200)"
done
R
unshare -m bash "$work/run.sh" 2>&1 | sed "s/^/[$id] /"
rm -rf "$work"
