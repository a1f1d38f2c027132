#!/bin/bash
# seed_verify.sh ID...: confirms a planted bug in a scratch copy of /repo (mounted over /repo in a
# mount namespace): applies, builds, stable tests pass, demo 0 without and nonzero with the patch.
S=/tmp/seedscratch
mkdir -p $S
[ -d $S/repo ] || cp -a /repo $S/repo
cat > $S/inner.sh <<'I'
id=$1
mount --bind /tmp/seedscratch/repo /repo || exit 9
cd /repo && git checkout -q -- . || exit 9
[ -n "$QUICK" ] || bash /opt/vp/build.sh >/dev/null 2>&1
D=/tmp/seedscratch/demo; rm -rf /tmp/seedscratch/demo; mkdir $D
cp -r /verif/seeded/$id/. $D/; rm -f $D/*.diff $D/meta.json
(cd /repo; timeout 300 bash $D/demo.sh) >/tmp/seedscratch/$id.clean.log 2>&1; c=$?
git apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; exit 1; }
if [ -z "$QUICK" ]; then
bash /opt/vp/build.sh >/tmp/seedscratch/$id.build.log 2>&1; bu=$?
bash /opt/vp/test.sh /tmp/seedscratch/$id.json >/tmp/seedscratch/$id.test.log 2>&1
t=$(python3 - $id <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open(f'/tmp/seedscratch/{sys.argv[1]}.json'))
p=set(o.get('passed') or [k for k,v in o.items() if v in('pass','passed',True)])
m=[x for x in b if x not in p]
print(len(m), m[:4])
P
)
fi
s=$(date +%s)
(cd /repo; timeout 300 bash $D/demo.sh) >/tmp/seedscratch/$id.bug.log 2>&1; b=$?
e=$(date +%s)
git checkout -q -- .; git status --short | head -3
echo "$id: clean=$c bug=$b (demo $((e-s))s) build=$bu failing=$t"
I
for id in "$@"; do unshare -m bash $S/inner.sh $id; done
