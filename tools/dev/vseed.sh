#!/bin/bash
# vseed.sh ID... : verify seeds in private mount namespaces, on copies of /repo and /verif
one() {
ID=$1; T=/tmp/vsx.$ID; mkdir -p $T; cp -a /repo $T/repo; mkdir $T/verif; cp -a /verif/build /verif/engine /verif/witness /verif/tools /verif/*.json /verif/*.jsonl /verif/*.txt $T/verif/ 2>/dev/null; cp -a /verif/seeded/$ID $T/seed
unshare -m bash -c '
mount --bind '$T/repo' /repo; mount --bind '$T/verif' /verif
ID='$ID'; T='$T'; D=$T/seed
P=$(python3 -c "import json;print(json.load(open(\"$D/meta.json\"))[\"property\"])")
bash /opt/vp/build.sh >/dev/null 2>&1
cd /repo; bash $D/demo.sh >$T/clean 2>&1; c=$?
git -C /repo apply $D/patch.diff || { echo "$ID apply failed"; exit; }
bash /opt/vp/test.sh $T/vs.json >$T/build 2>&1
t=$(python3 - $T <<Y
import json,sys
b=json.load(open("/opt/vp/BASELINE.json")); r=json.load(open(sys.argv[1]+"/vs.json"))
k=b if isinstance(b,list) else b.get("passed") or b.get("tests") or b.get("stable") or list(b.values())[0]
m=[x for x in k if x not in r["passed"]]
print("tests-ok" if not m else "TESTS-FAIL %s"%m[:3])
Y
)
bash $D/demo.sh >$T/bug 2>&1; d=$?
k=-; if [ -z "${NOCHK:-}" ]; then cd /verif; timeout 900 python3 engine/check.py $P >$T/chk 2>&1; k=$?; fi
echo "$ID prop=$P clean-demo=$c patched-demo=$d $t check-exit=$k $(grep -c VIOLATION $T/chk)
$(grep -m2 -E "contract|: .*: " $T/chk | cut -c1-220)"
[ $c = 0 ] || head -5 $T/clean
'
rm -rf $T
}
export -f one
printf '%s\n' "$@" | xargs -P ${J:-3} -I{} bash -c 'one {}'
