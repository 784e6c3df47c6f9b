#!/bin/bash
# tools/trybug.sh ID [SECS]: confirm a planted bug in a scratch copy of /repo and run its check there.
# The scratch copies are bind-mounted over /repo and /verif in a private namespace.
ID=$1; SECS=${2:-20}; S=/verif/seeded/$ID
[ -f "$S/patch.diff" ] || { echo "no $S"; exit 2; }
cp -n /verif/tools/kit/demo_kit.hpp "$S/" 2>/dev/null; [ -f "$S/demo.sh" ] || cp /verif/tools/kit/demo.sh "$S/"
mkdir -p /tmp/wt /tmp/vf
rsync -a --delete --exclude=.git /repo/ /tmp/wt/ 2>/dev/null || { /bin/rm -r -f /tmp/wt; cp -a /repo /tmp/wt; }
rsync -a --delete --exclude=.git --exclude=seeded /verif/ /tmp/vf/ 2>/dev/null || { [ -d /tmp/vf/sim ] || cp -a /verif/. /tmp/vf/; cp -a /verif/sim /verif/tools /verif/run.py /verif/known-findings.txt /tmp/vf/; }
/bin/rm -r -f /tmp/seedcopy; cp -a "$S" /tmp/seedcopy
unshare -Urm bash -c '
mount --bind /tmp/wt /repo; mount --bind /tmp/vf /verif; cd /repo
bash /tmp/seedcopy/demo.sh >/tmp/demo0.log 2>&1; echo "demo unchanged: $? (want 0)"
git init -q . 2>/dev/null; patch -p1 -s < /tmp/seedcopy/patch.diff || { echo PATCH FAILED; exit 1; }
bash /opt/vp/build.sh >/tmp/bug-build.log 2>&1 || { echo BUILD FAILED; tail -5 /tmp/bug-build.log; exit 1; }
bash /opt/vp/test.sh /tmp/bug-test.json >/dev/null 2>&1
python3 - <<P
import json
b=json.load(open("/opt/vp/BASELINE.json")); b=b["stable"]
p=set(json.load(open("/tmp/bug-test.json"))["passed"]); m=[x for x in b if x not in p]; print("tests missing:",len(m),m[:3])
P
bash /tmp/seedcopy/demo.sh >/tmp/demo1.log 2>&1; echo "demo patched: $? (want 1)"; tail -2 /tmp/demo1.log
P=$(python3 -c "import json;print(json.load(open(\"/tmp/seedcopy/meta.json\"))[\"property\"])")
cd /verif; SIM_SECS='$SECS' VERIF_SEED=1 VERIF_TIER=quick python3 run.py $P 2>&1 | grep -a "VIOLATION\|KNOWN\|runs" | head -3
'
