export HOME=/root
export CARGO_NET_OFFLINE=true
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable}"
export CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
export PATH="/root/.cargo/bin:$PATH"
