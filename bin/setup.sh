#!/bin/bash
# Build everything once, so that the checks only rebuild what changed.
set -u
V=$(cd "$(dirname "$0")/.." && pwd)
. /opt/vp/env.sh >/dev/null 2>&1
(cd "$V/miri" && RUSTUP_TOOLCHAIN=nightly CARGO_TARGET_DIR=$V/.build/miri cargo miri setup)
for c in sim tty cli; do
	(cd "$V/$c" && CARGO_TARGET_DIR=$V/.build/$c cargo build --release --locked --offline) || exit 1
done
. "$V/bin/builds.sh"
builds || exit 1
. "$V/bin/tool.sh"
