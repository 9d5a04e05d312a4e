export PATH="/usr/local/cargo/bin:/root/.cargo/bin:/usr/local/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR=/verif/build/target CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_INCREMENTAL=1 OPENBLAS_NUM_THREADS=1 RUST_BACKTRACE=0
