#!/bin/sh
# catch.sh [id...]: which seeded bugs the quick checks of their properties catch (in scratch copies of /repo)
cd /verif/seeded || exit 1
[ $# -gt 0 ] || set -- *
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  d=$(mktemp -d /tmp/catch.XXXXXX); cp -a /repo/celest "$d/celest"
  (cd "$d" && patch -s -p1 < /verif/seeded/$id/patch.diff)
  mkdir "$d/evidence"
  s=$(date +%s)
  out=$(CELEST_REPO="$d" VERIF_EVIDENCE="$d/evidence" python3 /verif/harness/check.py $p --tier quick 2>&1); rc=$?
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep ^violated: | grep -v property | awk '{printf "%s ", $2}')"
  case "$d" in /tmp/catch.*) rm -r "$d";; esac
done
