#!/bin/bash
# seed.sh ID [test] [demo] [check [PROPERTY...]]: tries the planted bug seeded/ID in a scratch copy of /repo that is mounted over
# /repo in a private mount namespace.  Nothing outside of the scratch copy is changed (evidence goes to the scratch copy too).
set -u
ID=$1; shift
S=/verif/seeded/$ID
W=$(mktemp -d /tmp/seed-$ID.XXXX)
trap 'rm -rf "$W"' EXIT
cp -a /repo $W/repo
rm -rf $W/repo/_build/test
mkdir $W/verif; cp -a /verif/mc /verif/harness /verif/known-findings.txt $W/verif/
export S W ID
unshare -m bash -c '
  mount --bind $W/repo /repo; cd /repo; git checkout -q -- . 
  if [[ " $* " = *" demo "* ]]; then bash $S/demo.sh >$W/demo0.log 2>&1; echo "$ID demo unchanged rc=$?"; fi
  git apply $S/patch.diff || { echo "$ID patch does not apply"; exit 1; }
  if [[ " $* " = *" test "* ]]; then bash /opt/vp/test.sh $W/out.json >$W/test.log 2>&1; echo "$ID tests: $(tail -1 $W/test.log)"; grep -h "^FAIL" _build/test/*.lines | head -5; fi
  if [[ " $* " = *" demo "* ]]; then bash $S/demo.sh >$W/demo.log 2>&1; echo "$ID demo patched rc=$? $(tail -1 $W/demo.log | cut -c1-200)"; fi
  if [[ " $* " = *" check "* ]]; then
    for p in $(echo " $* " | grep -oE " [CX][0-9]{2}\b" || python3 -c "import json;print(json.load(open(\"$S/meta.json\"))[\"property\"])"); do
      (cd $W/verif; VIRMC_SCRATCH=1 python3 mc/driver.py $p >$W/c.log 2>&1; echo "$ID check $p rc=$? $(tail -2 $W/c.log | head -1 | cut -c1-300)")
    done
  fi
' _ "$@"
