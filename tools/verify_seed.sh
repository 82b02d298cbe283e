#!/bin/bash
# verify_seed.sh ID [--notest] [CHECK..]: confirm a planted bug in a scratch copy bound over /repo in a private mount namespace
ID=$1; shift
NOTEST=; [ "$1" = --notest ] && { NOTEST=1; shift; }
S=/verif/seeded/$ID
W=$(mktemp -d /tmp/seed-XXXXXX)
cp -a /repo "$W/repo"; cp -a /opt/viscid-build "$W/vb"; cp -a "$S" "$W/demo"
( cd "$W/repo" && git apply --check "$S/patch.diff" ) || { echo "$ID: patch does not apply"; exit 1; }
unshare -m bash -c '
W=$1; ID=$2; NOTEST=$3; shift 3
mount --bind $W/repo /repo && mount --bind $W/vb /opt/viscid-build || exit 9
cd /repo
bash /opt/vp/build.sh >/dev/null 2>$W/err || { echo "$ID: base build fails"; cat $W/err; }
timeout 300 bash $W/demo/demo.sh > $W/d0 2>&1; echo "$ID: demo on base: $?"
git apply /verif/seeded/$ID/patch.diff || exit 8
bash /opt/vp/build.sh 2>&1 | tail -3
timeout 300 bash $W/demo/demo.sh > $W/d1 2>&1; r=$?; echo "$ID: demo with patch: $r ($(tail -1 $W/d1 | cut -c1-200))"
[ -z "$NOTEST" ] && { echo "$ID: $(bash /opt/vp/test.sh $W/t.json 2>/dev/null | tail -1) $(grep -h FAIL /opt/viscid-build/results/all.txt | tr "\n" " ")"; git checkout -q tests 2>/dev/null; }
for c in "$@"; do ( cd /verif && t0=$SECONDS; bash run.sh $c > $W/c.out 2>&1; rc=$?; echo "$ID: check $c exit $rc $((SECONDS-t0))s: $(grep -A0 "why :" $W/c.out | head -1 | cut -c1-220)"; [ $rc -gt 1 ] && tail -5 $W/c.out ); done
' _ "$W" "$ID" "$NOTEST" "$@"
[[ "$W" == /tmp/seed-* ]] && rm -rf "$W"
