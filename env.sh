# toolchain used for every build in /verif (same as the repository's own)
export PATH=/root/.cargo/bin:/opt/soroban/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export RUSTUP_TOOLCHAIN=1.79.0-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true
unset CARGO_TARGET_DIR RUSTFLAGS CARGO_BUILD_TARGET
