#!/bin/bash
# tools/refactorings.sh [id...]: every obligation group of the files a refactoring touches must stay quiet on it.
# MODES="plain confine pure" selects the analyses; scratch clones under a directory that is removed again.
here=$(cd "$(dirname "$0")/.." && pwd)
repo=${REPO:-/repo}
s=$(mktemp -d)
[ $# -gt 0 ] || set -- $(cd "$here/refactorings" && ls *.diff | sed 's/\.diff$//')
for p in "$@"; do
  w=$s/$p
  git clone -q "$repo" "$w" && git -C "$w" apply "$here/refactorings/$p.diff" || { echo "$p: does not apply"; continue; }
  f=$(git -C "$w" diff --name-only | paste -sd,)
  echo "== $p ($f)"
  for m in ${MODES:-plain}; do SA_REPO=$w timeout 3000 python3 "$here/tools/groups.py" $m $f; done
  rm -rf "$w"
done
rmdir "$s"
