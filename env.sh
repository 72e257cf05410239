export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR=/verif/target RUSTC_WRAPPER=
unset CARGO_PROFILE_DEV_DEBUG RUSTFLAGS
