export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUST_BACKTRACE=0 TZ=UTC
export CARGO_TARGET_DIR=/verif/target
unset RUSTFLAGS
