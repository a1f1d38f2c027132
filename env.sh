# Sourced by every script: the repository's own pinned toolchain, offline, with our own target dir.
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/root/.cargo/bin
export HOME=/root LANG=C.UTF-8
unset RUST_BACKTRACE RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
export RUSTUP_TOOLCHAIN=nightly-2026-08-20 RUSTC_WRAPPER=
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export VERIF_DIR=${VERIF_DIR:-/verif}
export CARGO_TARGET_DIR=$VERIF_DIR/target
