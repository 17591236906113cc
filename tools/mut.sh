#!/bin/bash
# dev helper: mut.sh PATCH CHECK...  -- run checks against a patched clone of /repo (not used by any check)
unset MCV_DEVTREE
p=$(realpath "$1"); shift
d=$(mktemp -d /tmp/mut.XXXX)
git clone -q /repo $d/r && git -C $d/r apply $R "$p" || { echo APPLY FAILED; rm -rf $d; exit 9; }
cd /verif
for c in "$@"; do MCV_REPO=$d/r python3 checks/$c.py; echo "== $c exit $?"; done
rm -rf "$d"
