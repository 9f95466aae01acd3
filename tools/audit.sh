#!/bin/bash
# audit.sh [N]: the first N runs of every property in two processes must have the same trace hashes
here=$(cd "$(dirname "$0")/.." && pwd); . "$here/harness/env.sh"
( cd "$here/harness" && cargo build -q --offline ) || exit 2
n=${1:-300}; pad=$(printf -- "- %.0s" $(seq 72)); s=$here/harness/target/debug/simcheck; rc=0
for p in C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C20; do
    a=$("$s" hashes $p 7 0 $n $pad 2>&1 | md5sum); b=$("$s" hashes $p 7 0 $n $pad 2>&1 | md5sum)
    [ "$a" = "$b" ] && echo "$p same" || { echo "$p DIFFERENT"; rc=1; }
done
exit $rc
