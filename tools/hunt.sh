#!/bin/bash
# hunt.sh ID[:CHECK]...: runs the quick check of the property of each planted bug (or the check named) with the bug
# applied. Works on copies of /repo and /verif in /tmp/hunt, shown at the usual paths in a mount namespace of its own.
if [ -z "$HUNTING" ]; then
  mkdir -p /tmp/hunt
  rsync -a --delete --exclude /target /repo/ /tmp/hunt/repo/
  [ -d /tmp/hunt/repo/target ] || cp -a /repo/target /tmp/hunt/repo/ 2>/dev/null
  rsync -a --delete --exclude target --exclude evidence --exclude replays /verif/ /tmp/hunt/verif/
  [ -d /tmp/hunt/verif/harness/target ] || cp -a /verif/harness/target /tmp/hunt/verif/harness/
  export HUNTING=1
  exec unshare -m bash -c 'mount --bind /tmp/hunt/repo /repo; mount --bind /tmp/hunt/verif /verif; exec bash /verif/tools/hunt.sh "$@"' hunt "$@"
fi
cd /verif || exit 2
for a in "$@"; do
  b=${a%%:*}
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  [ "$a" = "$b" ] || p=${a#*:}
  git -C /repo apply "$PWD/seeded/$b/patch.diff" || { echo "$b DOES NOT APPLY"; continue; }
  s=$(date +%s)
  timeout 900 bash check.sh "$p" > "/tmp/hunt.$b" 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$b $p rc=$rc $(( $(date +%s) - s ))s $(grep -m1 VIOLATION "/tmp/hunt.$b")"
done
