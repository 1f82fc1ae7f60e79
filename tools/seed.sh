#!/bin/bash
# tools/seed.sh ID : make /tmp/wt/ID's diff into seeded/ID/patch.diff and confirm the demonstration both ways
# tools/seed.sh new ID : scratch copy of /repo at /tmp/wt/ID
set -u
if [ "$1" = new ]; then
  mkdir -p /tmp/wt && rm -rf "/tmp/wt/$2" && cp -a /repo "/tmp/wt/$2" && mkdir -p "/verif/seeded/$2" && echo "/tmp/wt/$2"; exit
fi
id=$1; d=/verif/seeded/$id; w=/tmp/wt/$id
git -C "$w" diff > "$d/patch.diff"
t=$(mktemp -d /tmp/demo.XXXX); cp "$d"/* "$t"/; rm -f "$t"/*.diff "$t"/meta.json
git -C /repo apply --check "$d/patch.diff" || exit 1
(cd /repo && timeout 300 bash "$t/demo.sh" >/tmp/demo.clean 2>&1); a=$?
(cd "$w" && timeout 300 bash "$t/demo.sh" >/tmp/demo.bug 2>&1); b=$?
echo "$id: clean exit $a, patched exit $b"; tail -2 /tmp/demo.bug
rm -rf "$t"
[ $a = 0 ] && [ $b != 0 ]
