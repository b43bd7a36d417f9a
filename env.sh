# The toolchain /repo is pinned to, and where the simulator is built.
PATH=/root/.cargo/bin:$PATH
export PATH
export RUSTUP_TOOLCHAIN=1.70.0
export RUSTC=/root/.rustup/toolchains/nightly-2023-01-28-x86_64-unknown-linux-gnu/bin/rustc
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS=
export CARGO_TARGET_DIR="${CARGO_TARGET_DIR:-$VERIF_ROOT/target}"
export VERIF_ROOT
