VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
export HOME=/root PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=1.83.0 CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR=$VERIF/build/target
export Ankr_Api_Key=ankr-key Llama_Api_Key=llama-key
unset RUSTFLAGS
