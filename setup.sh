#!/bin/bash
# Builds the monitors once, to fail early; every check rebuilds what it needs from /repo anyway.
cd "$(dirname "$0")" || exit 1
here=$PWD
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/target" PYO3_PYTHON=/usr/bin/python3
mkdir -p evidence run
(cd vh_core && cargo build --release --offline --quiet) || exit 1
(cd vh_grpph && cargo build --release --offline --quiet) || exit 1
(cd /repo/phlite_rips && CARGO_TARGET_DIR="$here/target/cli" cargo build --release --offline --quiet --bin phlite_rips_cli) || exit 1
(cd /repo/phlite_grpph && CARGO_TARGET_DIR="$here/target/py" CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=true \
    CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true cargo build --release --offline --quiet --lib) || exit 1
# the instrumented builds of C26; its check builds them itself where this is not done yet
python3 tools/prebuild.py || exit 1
echo "setup done"
