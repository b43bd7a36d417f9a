#!/bin/sh
# usage: sh check.sh ID     (VERIF_SEED, VERIF_TIER and SIM_RUNS are honoured)
# Builds the simulator against /repo's working tree, in the shipped configuration
# ("release") and with debug assertions and overflow checks ("checked"), and runs
# the simulations for one property. `sh check.sh build` builds only;
# `sh check.sh replay FILE` executes a replay file again.
cd "$(dirname "$0")" || exit 2
VERIF_ROOT=$(pwd)
. ./env.sh
build() {
	(cd sim && cargo build --offline --profile "$1" >"$CARGO_TARGET_DIR/build-$1.log" 2>&1) || {
		echo "build of the simulator ($1) failed:" >&2
		tail -n 60 "$CARGO_TARGET_DIR/build-$1.log" >&2
		return 1
	}
}
mkdir -p "$CARGO_TARGET_DIR" evidence/replay
build release & P=$!
build checked; A=$?
wait $P; B=$?
[ $A = 0 ] && [ $B = 0 ] || exit 3
R="$CARGO_TARGET_DIR/release/sim"
C="$CARGO_TARGET_DIR/checked/sim"
case "$1" in
	build) exit 0 ;;
	replay) exec "$R" replay "$2" "$C" ;;
	*) exec "$R" check "$1" "$C" ;;
esac
