#!/bin/bash
# seed.sh <id>: confirm a planted bug against /repo (must be clean), then undo it.
id=$1; d=/verif/seeded/$id; tier=${2:-quick}
[ -z "$(git -C /repo status --porcelain)" ] || { echo "repo not clean"; exit 2; }
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
(cd /repo && bash "$d/demo.sh" >/tmp/seed.clean 2>&1); c0=$?
git -C /repo apply "$d/patch.diff" || { echo "$id: patch does not apply"; exit 2; }
trap 'git -C /repo checkout -- .' EXIT
t=$(bash /verif/tools/stable.sh)
(cd /repo && bash "$d/demo.sh" >/tmp/seed.bug 2>&1); c1=$?
for s in 1 2; do VERIF_SEED=$s bash /verif/run.sh $prop $tier > /tmp/seed.check.$s 2>&1; r="$r $?"; done
echo "$id $prop demo clean=$c0 bug=$c1 | tests $t | check exits$r | $(grep -h -A1 VIOLATION /tmp/seed.check.1 | tail -1 | cut -c1-160)"
