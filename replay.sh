#!/bin/bash
# replay.sh FILE: re-execute a replay file against /repo's current tree.
here=$(cd "$(dirname "$0")" && pwd)
f=$(realpath "$1")
. "$here/harness/env.sh"
(cd "$here/harness" && cargo build --offline --quiet 2>/dev/null) || exit 2
exec "$here/harness/target/debug/simcheck" replay "$f"
