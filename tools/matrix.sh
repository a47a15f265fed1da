#!/bin/bash
# matrix.sh [id...] - applies each seeded bug to a scratch copy of /repo and runs
# its property's quick check (or those in $CHECKS) there; prints which caught it.
root="$(cd "$(dirname "$0")/.." && pwd)"
[ $# = 0 ] && set -- $(ls "$root/seeded")
one() {
  d=$(mktemp -d /tmp/matrix.XXXXXX); cp -a /repo "$d/repo"
  git -C "$d/repo" apply "$root/seeded/$1/patch.diff" || { echo "$1 NOAPPLY"; rm -rf -- "$d"; return; }
  p=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$root/seeded/$1/meta.json")
  for c in ${CHECKS:-$p}; do
    s=$(date +%s); VERIF_REPO="$d/repo" timeout 900 "$root/check" "$c" ${TIER:-quick} >"$d/out" 2>&1; rc=$?
    echo "$1 $c rc=$rc $(( $(date +%s) - s ))s $(grep -c '^VIOLATION' "$d/out") $(grep -m1 '^VIOLATION' "$d/out" | cut -c1-60)"
  done
  rm -rf -- "$d"
}
export -f one; export root CHECKS TIER
printf '%s\n' "$@" | xargs -P "${P:-3}" -I{} bash -c 'one {}'
