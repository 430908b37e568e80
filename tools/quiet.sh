#!/bin/bash
# Runs checks on behaviour-preserving edits of /repo (tools/quiet/*.diff).
# usage: tools/quiet.sh [-p C01,C02] [name…]
here=$(cd "$(dirname "$0")/.." && pwd)
props=all
if [ "$1" = -p ]; then props=$2; shift 2; fi
names=("$@"); [ ${#names[@]} = 0 ] && names=($(cd $here/tools/quiet && ls *.diff | sed 's/.diff$//'))
. /opt/vp/env.sh 2>/dev/null
(cd $here/checker && go build -o /tmp/njq .) || exit 2
run() {
  n=$1; d=/tmp/quiet.$n; /bin/rm -rf "$d"; mkdir -p $d /tmp/quiet.$n.ev; cp $here/known-findings.txt /tmp/quiet.$n.ev/; cp -a /repo/. $d/
  if ! git -C $d apply $here/tools/quiet/$n.diff 2>$d.err; then echo "$n: DOES NOT APPLY $(head -1 $d.err)"; /bin/rm -rf "$d"; return; fi
  if [ -n "$TESTS" ]; then (cd $d && go build ./... && go test ./... >/tmp/quiet.$n.test 2>&1) || echo "$n: TESTS FAIL"; else (cd $d && go vet ./... >/tmp/quiet.$n.test 2>&1) || echo "$n: VET FAILS $(head -3 /tmp/quiet.$n.test)"; fi
  ( ulimit -v 12000000; timeout 600 /tmp/njq -repo $d -verif /tmp/quiet.$n.ev -prop $props ) 2>&1 | cut -c1-600 > /tmp/quiet.$n.out
  if grep -q 'VIOLATION\|panic\|fatal' /tmp/quiet.$n.out || ! grep -q hold /tmp/quiet.$n.out; then echo "$n: ALARM"; grep -v ' hold ' /tmp/quiet.$n.out | head -${LINES_:-12}; else echo "$n: quiet"; fi
  /bin/rm -rf "$d" "/tmp/quiet.$n.ev"
}
for n in "${names[@]}"; do run $n & while [ $(jobs -r | wc -l) -ge 4 ]; do sleep 0.2; done; done; wait
