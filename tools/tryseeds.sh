#!/bin/bash
# tryseeds.sh [id ...]: runs the check of each planted bug's property (or CHECK=Cxx) against a scratch copy with the bug
cd "$(dirname "$0")/.."
w=/tmp/seedtry; mkdir -p $w
for id in ${@:-$(ls seeded)}; do
  rm -rf $w/repo; mkdir $w/repo; (cd /repo; tar cf - --exclude=./_build --exclude=./.git .) | tar xf - -C $w/repo
  (cd $w/repo && git apply --unsafe-paths --directory=. /verif/seeded/$id/patch.diff 2>/dev/null || patch -s -p1 < /verif/seeded/$id/patch.diff) || { echo "$id: patch failed"; continue; }
  p=${CHECK:-$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")}
  o=$(OSQP_REPO=$w/repo VERIF_SEED=${SEED:-1} python3 check.py $p quick 2>&1); rc=$?
  echo "$id [$p] exit $rc: $(echo "$o" | grep -v VIOLATION | grep -v 'histories (' | head -1 | cut -c1-150) $(echo "$o" | grep -c VIOLATION)"
done
rm -rf /tmp/seedtry
