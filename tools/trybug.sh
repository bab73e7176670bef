#!/bin/bash
# trybug.sh [-n] ID : in a private mount namespace with a scratch copy of /repo, builds the planted
# bug, runs the stable tests (-n: skip), the demo with and without it, and the property's quick check.
NT=; [ "$1" = -n ] && { NT=1; shift; }
ID=$1; S=/verif/seeded/$ID; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])"); P=${2:-$P}
W=$(mktemp -d /tmp/trybug.XXXXXX); cp -a /repo "$W/repo"; cp -a "$S" "$W/s"
cat > "$W/run.sh" <<X
mount --bind $W/repo /repo; cd /repo
bash /opt/vp/build.sh >/dev/null 2>&1; bash $W/s/demo.sh >$W/d0 2>&1; echo "demo clean: \$?"
git apply $S/patch.diff || exit 9
bash /opt/vp/build.sh >$W/b 2>&1 || { echo BUILD FAILED; tail -5 $W/b; }
bash $W/s/demo.sh >$W/d1 2>&1; echo "demo bug: \$? \$(tail -1 $W/d1)"
[ -n "$NT" ] || { bash /opt/vp/test.sh $W/t.json >/dev/null 2>&1; python3 -c "
import json;d=json.load(open('$W/t.json'));b=json.load(open('/opt/vp/BASELINE.json'))['stable'];m=[x for x in b if x not in set(d['passed'])];print('tests:', len(b)-len(m), 'of', len(b), m[:3])"; }
mkdir -p $W/v; cp -a /verif/harness /verif/*.py /verif/*.jsonl /verif/*.txt /verif/tools $W/v/; [ -d /verif/regress ] && cp -a /verif/regress $W/v/
mkdir -p $W/v/evidence; cd $W/v; export VERIF_SEED=\${VERIF_SEED:-1} VERIF_TIER=\${VERIF_TIER:-quick}
for p in $P; do s=\$(date +%s); timeout 900 python3 check.py \$p > $W/c 2>&1; r=\$?; echo "check \$p: \$r \$((\$(date +%s)-s))s \$(grep -a VIOLATION $W/c|head -2; grep -a -m1 -A3 'fail' $W/c|cut -c1-300)"; done
X
echo "== $ID"; unshare -m bash "$W/run.sh"; case "$W" in /tmp/trybug.*) rm -rf -- "$W";; esac
