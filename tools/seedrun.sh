#!/bin/bash
# seedrun.sh ID [checks...] : run checks with the planted bug (in /repo's working tree), then undo it
set -u
id=$1; shift
p=/verif/seeded/$id/patch.diff
git -C /repo apply "$p" || exit 9
c=("$@"); [ ${#c[@]} = 0 ] && c=($(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])"))
for q in "${c[@]}"; do /verif/run.sh $q quick 2>&1 | tail -6; echo "[$id $q] exit ${PIPESTATUS[0]}"; done
git -C /repo checkout -- .
