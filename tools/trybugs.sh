#!/bin/bash
# trybugs.sh [ids]: the check of each planted bug's property on a private patched copy
cd /verif/seeded || exit 1
for b in ${@:-*}; do
  p=$(python3 -c "import json;print(json.load(open('$b/meta.json'))['property'])")
  out=$(/verif/tools/iso.sh /verif/seeded/$b/patch.diff /verif/bin/check $p 2>&1); rc=$?
  echo "$b $p rc=$rc $(echo "$out" | grep -m1 VIOLATION)$(echo "$out" | grep -m1 '^note:' | cut -c1-200)"
done
