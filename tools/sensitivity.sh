#!/bin/bash
# Revert each repair in turn in a scratch copy and see that the check of its property reports it again.
cd "$(dirname "$0")/.." || exit 2
grep '^fixed:' KNOWN_FINDINGS.txt | while read -r _ p c rest; do
  p=${p#property=}
  d=$(mktemp -d /tmp/sens.XXXXXX)
  git clone -q /repo "$d/r"
  if git -C "$d/r" -c user.name=x -c user.email=x@x revert --no-edit "$c" >/dev/null 2>&1 || { git -C "$d/r" revert --abort; false; }; then
    out=$(VERIF_REPO="$d/r" ./check.sh "$p" 2>&1 | grep -E '^(VIOLATION|OK|ERROR|violation)' | cut -c1-150 | tr '\n' '|')
  else
    out="revert conflicts"
  fi
  echo "$c $p: $out"
  rm -rf "$d"
done
