#!/bin/bash
# check.sh PROPERTY [quick|thorough]: build the simulator against /repo's
# current tree and search for a violation of the property.
set -u
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
. "$here/harness/env.sh"
log=$(cd "$here/harness" && cargo build --offline --quiet 2>&1)
if [ $? -ne 0 ]; then
    echo "$log" | grep -A8 '^error' | head -60 >&2
    echo "check.sh: the simulator does not build against /repo" >&2
    exit 2
fi
grep "property=$prop " "$here/known-findings.txt" 2>/dev/null | grep '^KNOWN-FINDING:'
exec "$here/harness/target/debug/simcheck" check "$prop" --tier "$tier" --seed "$seed" --out "$here"
