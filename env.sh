# Sourced by the checks: same toolchain as the repository's own build.
export HOME=${HOME:-/root} LANG=C.UTF-8
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.96
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset CARGO_TARGET_DIR RUSTFLAGS
