#!/bin/bash
# trybug.sh SEED...: apply each planted bug to a copy of /repo and run its property's check on it
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
  t=$(mktemp -d)
  cp -a /repo $t/repo; git -C $t/repo apply $d/patch.diff || echo "$id: does not apply"
  (cd /verif && ./.build/gv check -repo $t/repo -verif /verif ${PROP:-$p} > $t/out 2>&1; echo "$id ($p): exit $? $(grep -m1 VIOLATION $t/out)"; [ -n "$V" ] && cat $t/out)
  rm -rf "$t"
done
