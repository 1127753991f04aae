#!/bin/bash
# seedrun.sh ID [PROP] : runs the quick check of the property with the planted bug applied to /repo, then undoes it.
id=$1; d=/verif/seeded/$id; prop=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
git -C /repo apply "$d/patch.diff" || exit 9
trap 'git -C /repo checkout -q -- .' EXIT
cd /verif; s=$(date +%s); VERIF_SEED=${VERIF_SEED:-1} bin/check $prop quick > /tmp/seedrun.$id.log 2>&1; rc=$?
echo "$id: $prop exit $rc, $(grep -c ^VIOLATION /tmp/seedrun.$id.log) violations, $(( $(date +%s)-s )) s; $(grep -m1 'session .* event' /tmp/seedrun.$id.log | cut -c1-160)"
