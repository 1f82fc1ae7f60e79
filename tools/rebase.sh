#!/bin/bash
# tools/rebase.sh : re-make every seeded patch against the current /repo HEAD (3-way), in fresh scratch copies
for d in /verif/seeded/*; do i=$(basename $d)
  git -C /repo apply --check $d/patch.diff 2>/dev/null && continue
  rm -rf /tmp/wt/$i; mkdir -p /tmp/wt; cp -a /repo /tmp/wt/$i
  if git -C /tmp/wt/$i apply -3 $d/patch.diff >/dev/null 2>&1; then git -C /tmp/wt/$i reset -q; /verif/tools/seed.sh $i; else echo "$i: CONFLICT"; fi
done
