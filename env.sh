export VERIF_DIR="$PWD"
export CARGO_TARGET_DIR="$PWD/target"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable
# the crate denies lints that newer compilers renamed or extended
export RUSTFLAGS="--cap-lints warn"
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
export RUST_BACKTRACE=0
