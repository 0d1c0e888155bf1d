#!/bin/bash
# run the concrete engine (or the full check with FULL=1) of every seeded change in a scratch copy
cd /verif
for d in ${@:-seeded/*}; do
  id=$(basename $d); prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  W=$(mktemp -d /tmp/seedXXXX); cp -a /repo/. $W/; git -C $W apply /verif/$d/patch.diff || { echo "$id patch fails"; rm -rf $W; continue; }
  if [ -n "$FULL" ]; then
    r=$(VERIF_REPO=$W python3-vt check.py $prop | tail -30); echo "== $id $prop"; echo "$r" | grep -E "VIOLATION|not discharged|OUT OF|held|failing" | cut -c1-220 | head -${LINES_MAX:-12}
  else
    r=$(/opt/venv/bin/python conc/engine.py search $prop --repo $W --seconds ${SECS:-10} --out /tmp/seed_r.json)
    echo "$id $prop $(echo "$r" | python3 -c "import json,sys; d=json.loads(sys.stdin.read().strip().splitlines()[-1]); print(d['scenarios'], d['fail'])")"
  fi
  rm -rf $W
done
