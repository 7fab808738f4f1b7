#!/bin/bash
# Run a counterexample written by check.py as compiled code: replay.sh FILE [-v]
V=$(cd "$(dirname "$0")" && pwd)
e=$(sed -n 's/^#entry //p' "$1")
d=$(mktemp -d /tmp/vreplay.XXXXXX); chmod 755 "$d"
grep -v '^#' "$1" > "$d/in"; mkdir "$d/s"
"$V/build/ntarget/release/vnative" "$e" "$d/in" "$d/s" $2; rc=$?
rm -rf "$d"
exit $rc
