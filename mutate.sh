#!/bin/bash
# usage: mutate.sh PATCH CHECK...   runs checks against a scratch copy of /repo with PATCH applied
set -e
patch=$(readlink -f "$1"); shift
d=$(mktemp -d /tmp/mut.XXXXXX)
cp -a /repo/. "$d/"
(cd "$d" && git checkout -q -- . && git apply "$patch")
for c in "$@"; do
  VF_OUT="$d/out" VF_REPO="$d" PYTHONPATH="$d" ./run_check "$c" 2>&1 | cut -c1-600; echo "== $c rc=${PIPESTATUS[0]}"
done
rm -rf "$d"
