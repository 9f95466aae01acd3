#!/bin/bash
# Build the simulator once (offline); every check rebuilds what has changed.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
. "$here/harness/env.sh"
cd "$here/harness"
cargo build --offline --quiet
