# Sourced by the check scripts: offline toolchain settings and the harness build directory.
export HOME="${HOME:-/root}"
export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR="${VH_TARGET:-/verif/target}"
unset RUSTDOCFLAGS DATABASE_URL CARGO_ENCODED_RUSTFLAGS
# the guard of the hook in /repo (src/verify.rs)
export RUSTFLAGS="--cfg clickhouse_rs_verify"
# the cityhash build script does not watch its C++ sources: hash them into a variable it does watch
CXXFLAGS="-DVP_SOURCE_HASH=h$(cd /repo && find clickhouse-rs-cityhash-sys/src/cc clickhouse-rs-cityhash-sys/build.rs -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-16)"
export CXXFLAGS
