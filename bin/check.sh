#!/bin/bash
# Usage: check.sh PROPERTY [quick|thorough] - rebuild the simulator from /repo's working tree and search.
set -u
cd "$(dirname "$0")/.." || exit 2
V=$PWD
PROP=$1
TIER=${2:-${VERIF_TIER:-quick}}
. /opt/vp/env.sh >/dev/null 2>&1
export CARGO_TARGET_DIR=$V/.build/sim
mkdir -p "$V/.build" "$V/evidence" "$V/replays"
# Cargo looks at modification times; the contents decide.
stamp() {
	local h
	h=$( (cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name 'Cargo.*' \) -print0 | sort -z | xargs -0 sha256sum) | sha256sum)
	if [ "$(cat "$CARGO_TARGET_DIR/repo.stamp" 2>/dev/null)" != "$h" ]; then
		(cd "$1" && cargo clean --profile "${2:-release}" --offline -p dynamixel2) >/dev/null 2>&1
		mkdir -p "$CARGO_TARGET_DIR"
		echo "$h" >"$CARGO_TARGET_DIR/repo.stamp"
	fi
}
build() { (cd "$1" && shift && cargo build --release --locked --offline "$@") >"$V/.build/$PROP.log" 2>&1; }
case $PROP in
C19)
	. "$V/bin/builds.sh"
	for b in sim log bare plain; do
		CARGO_TARGET_DIR=$V/.build/$b
		stamp sim "$(profile $b)"
	done
	if ! builds; then
		echo "$PROP: the simulator does not build against /repo:"
		grep -h -E -A8 '^error' "$V"/.build/build-{sim,log,bare,plain}.log | head -40
		exit 2
	fi
	DXL_KNOWN=$V/KNOWN_FINDINGS.txt DXL_EVIDENCE=$V/evidence DXL_REPLAYS=$V/replays \
		exec "$V/.build/sim/release/dxlsim" check "$PROP" --tier "$TIER"
	;;
C17)
	exec python3 "$V/bin/miri.py" check "$TIER"
	;;
*)
	# C15 and C16 need the system calls replaced.
	CRATE=sim BIN=dxlsim
	case $PROP in
	C15) CRATE=tty BIN=dxltty ;;
	C16) CRATE=cli BIN=dxlcli ;;
	esac
	CARGO_TARGET_DIR=$V/.build/$CRATE
	stamp $CRATE
	if ! build $CRATE; then
		echo "$PROP: the simulator does not build against /repo:"
		grep -E -A8 '^error' "$V/.build/$PROP.log" | head -40
		exit 2
	fi
	if [ "$PROP" = C16 ] && ! . "$V/bin/tool.sh"; then
		echo "$PROP: the command line tool does not build:"
		grep -E -A8 '^error' "$V/.build/tool.log" | head -40
		exit 2
	fi
	DXL_KNOWN=$V/KNOWN_FINDINGS.txt DXL_EVIDENCE=$V/evidence DXL_REPLAYS=$V/replays \
		exec "$CARGO_TARGET_DIR/release/$BIN" check "$PROP" --tier "$TIER"
	;;
esac
