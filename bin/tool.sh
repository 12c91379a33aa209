# Build the command line tool from /repo's working tree; sets what the simulation of C16 needs.
# V: /verif.
export DXL_CLI=$V/.build/tool/debug/dynamixel2 DXL_PRELOAD=$V/.build/cli/release/libdxlpre.so
(
	# Outside of /repo, with the checks for overflow of a debug build.
	export CARGO_TARGET_DIR=$V/.build/tool CARGO_PROFILE_DEV_OPT_LEVEL=1
	h=$( (cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name 'Cargo.*' \) -print0 | sort -z | xargs -0 sha256sum) | sha256sum)
	if [ "$(cat "$CARGO_TARGET_DIR/repo.stamp" 2>/dev/null)" != "$h" ]; then
		(cd /repo && cargo clean --offline --locked -p dynamixel2 -p dynamixel2-cli) >/dev/null 2>&1
		mkdir -p "$CARGO_TARGET_DIR"
		echo "$h" >"$CARGO_TARGET_DIR/repo.stamp"
	fi
	cd /repo && cargo build --locked --offline -p dynamixel2-cli
) >"$V/.build/tool.log" 2>&1
