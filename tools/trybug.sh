#!/bin/bash
# trybug.sh SEED [PROP...]: run checks against a planted bug, then undo it
d=/verif/seeded/$1; p=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
git -C /repo apply $d/patch.diff || exit 3
cd /verif; timeout 900 python3 check.py $p --tier quick > /tmp/trybug.out 2>&1; rc=$?
git -C /repo checkout -- .
echo "$1 $p rc=$rc $(grep -h '^VIOLATION\|UNDECIDED' /tmp/trybug.out | head -1 | cut -c1-150)"
