# The builds of the crate that C19 compares; sets what it needs. V: /verif.
B=$V/.build
export DXL_BUILDS=log=$B/log/release/dxlsim,log-off=$B/log/release/dxlsim,bare=$B/bare/release/dxlsim,plain=$B/plain/plain/dxlsim
profile() { [ "$1" = plain ] && echo plain || echo release; }
# Each into a directory of its own, at the same time.
builds() {
	local b pids=() ok=0
	for b in sim log bare plain; do
		(
			export CARGO_TARGET_DIR=$B/$b
			f=()
			[ $b = log ] && f=(--features log)
			[ $b = bare ] && f=(--no-default-features)
			cd "$V/sim" && cargo build --profile "$(profile $b)" --locked --offline "${f[@]}"
		) >"$B/build-$b.log" 2>&1 &
		pids+=($!)
	done
	for b in "${pids[@]}"; do
		wait "$b" || ok=1
	done
	return $ok
}
