#!/bin/bash
# trybug.sh SECS ID...: apply each planted change to /repo, run the check of its
# property (or of PROP, if set), undo the change.
secs=$1; shift
cd /verif || exit 1
for id in "$@"; do
	prop=${PROP:-$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")}
	git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: DOES NOT APPLY"; continue; }
	out=$(VERIF_SECS=$secs ./check $prop quick 2>&1); rc=$?
	git -C /repo checkout -q -- .
	echo "$id [$prop]: exit $rc $(echo "$out" | grep -E '^VIOLATION|rule|error' | head -3 | tr '\n' ' ')"
done
