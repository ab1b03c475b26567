#!/bin/bash
# builds the extractor and the harness once; every check can also do this by itself
cd "$(dirname "$0")/.." || exit 1
. /opt/vp/env.sh >/dev/null 2>&1
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR
(cd tools/rzx && cargo build --offline --quiet) || exit 1
(cd harness && cargo build --offline --quiet --bins --all-features) || echo "harness prebuild failed; checks build their own part"
exit 0
