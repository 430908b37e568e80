#!/bin/bash
# bugs.sh [id...]: which checks report each planted bug (own property must).
cd /verif
for b in ${@:-$(ls seeded)}; do
  git -C /repo apply /verif/seeded/$b/patch.diff || { echo "$b: patch does not apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")
  hit=$(bin/njcheck -verif /tmp/ve -prop all 2>/dev/null | grep -o '^VIOLATION property=C[0-9]*' | grep -o 'C[0-9]*' | tr '\n' ' ')
  git -C /repo checkout -q -- .
  case " $hit " in *" $p "*) s=caught;; *) s=MISSED;; esac
  echo "$b $p $s [$hit]"
done
