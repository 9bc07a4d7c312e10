# Sourced by check.sh and setup.sh: build settings of the harness
export HOME="${HOME:-/root}"
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_INCREMENTAL=1
export CARGO_TARGET_DIR="$HERE/.build/target"
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUST_BACKTRACE
# the build scripts of /repo do not track the C code; they do watch CFLAGS
CFLAGS="-DC_CODE_HASH=0x$(cd /repo && find russell_*/c_code -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-16)"
export CFLAGS
# hcross and everything below it, the standard library and the C code included, with ThreadSanitizer
build_tsan() {
  RUSTUP_TOOLCHAIN=nightly RUSTFLAGS=-Zsanitizer=thread CARGO_TARGET_DIR="$HERE/.build/tsan" CC=clang \
    CFLAGS="$CFLAGS -fsanitize=thread -g" \
    cargo build --manifest-path "$HERE/harness/Cargo.toml" --offline -Zbuild-std --target x86_64-unknown-linux-gnu \
    --features cross --bin hcross
}
# the command-line solver of the repository
build_cli() {
  cargo build --manifest-path "$HERE/harness/Cargo.toml" --offline --features cli --bin solve_matrix_market
}
