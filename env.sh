# what /opt/vp/env.sh sets, so that the checks do not depend on it
export HOME=${HOME:-/root}
export PATH=/usr/local/bin:/root/.cargo/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
# rustc 1.99 denies this lint by default; the library's macros trip it
export RUSTFLAGS="--warn=semicolon_in_expressions_from_macros"
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR
