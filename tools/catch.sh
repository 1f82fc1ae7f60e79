#!/bin/bash
# tools/catch.sh ID [PROP...] : run the quick checks of PROP (default: the bug's own property) on /tmp/wt/ID
id=$1; shift; d=/verif/seeded/$id
props=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
for p in $props; do
  out=$(EVOGIL_SIM_REPO=/tmp/wt/$id EVOSIM_EVIDENCE=/tmp/ev timeout 900 /verif/check $p --tier quick 2>&1); rc=$?
  echo "$id $p rc=$rc $(echo "$out" | grep -m1 -E 'class=|VIOLATION' | cut -c1-200)"
done
