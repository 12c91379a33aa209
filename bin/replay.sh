#!/bin/bash
# Usage: replay.sh FILE - rebuild from /repo's working tree and replay a recorded violation.
set -u
V=$(cd "$(dirname "$0")/.." && pwd)
. /opt/vp/env.sh >/dev/null 2>&1
if grep -q '^scenario=c17_miri$' "$1"; then
	exec python3 "$V/bin/miri.py" replay "$1"
fi
if grep -q '^property=C19$' "$1"; then
	. "$V/bin/builds.sh"
	mkdir -p "$V/.build"
	builds || { tail -n 20 "$V"/.build/build-{sim,log,bare,plain}.log; exit 2; }
	exec "$V/.build/sim/release/dxlsim" replay "$1"
fi
CRATE=sim BIN=dxlsim
grep -q '^scenario=c15_' "$1" && CRATE=tty BIN=dxltty
grep -q '^scenario=c16_' "$1" && CRATE=cli BIN=dxlcli
export CARGO_TARGET_DIR=$V/.build/$CRATE
mkdir -p "$V/.build"
(cd "$V/$CRATE" && cargo build --release --locked --offline) >"$V/.build/replay.log" 2>&1 || { tail -20 "$V/.build/replay.log"; exit 2; }
if [ $CRATE = cli ]; then
	. "$V/bin/tool.sh" || { tail -20 "$V/.build/tool.log"; exit 2; }
fi
exec "$CARGO_TARGET_DIR/release/$BIN" replay "$1"
