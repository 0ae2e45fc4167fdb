#!/bin/bash
# Sensitivity: revert each fix: commit in a copy of /repo; the check of its property must report it.
# usage: reverts.sh [COMMIT..]
V="$(cd "$(dirname "$0")/.." && pwd)"
W=$(mktemp -d /tmp/rev.XXXXXX)
python3 - "$V" "$@" <<'P' >"$W/list"
import json, sys
for l in json.load(open(sys.argv[1] + "/known_findings.json"))["fixed"]:
    w = l.split()
    if len(sys.argv) < 3 or w[2] in sys.argv[2:]:
        print(w[2], w[1].split("=")[1])
P
while read -r c p; do
  rm -rf "${W:?}/repo" "${W:?}/verif"
  cp -a /repo "$W/repo"; git -C "$W/repo" checkout -q -- .
  if ! git -C "$W/repo" show "$c" | git -C "$W/repo" apply -R --3way - >/dev/null 2>&1; then
    echo "$c $p cannot be reverted on its own"; continue
  fi
  mkdir "$W/verif"; cp -a "$V"/{check.py,data,dst,known} "$V"/*.json "$W/verif/"
  sed -i "s#\"/repo/#\"$W/repo/#" "$W"/verif/dst/*.py "$W"/verif/dst/props/*.py
  (cd "$W/verif" && DST_SHRINK=2 VERIF_SEED=1 timeout 880 python3 check.py "$p" quick >"$W/out" 2>&1 </dev/null; echo "$c $p rc=$? $(grep -E "^$p: [a-z-]+: " "$W/out" | head -1 | cut -c1-110)")
done <"$W/list"
rm -rf "$W"
