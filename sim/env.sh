# sourced by the scripts: how the harness is built
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export RUSTFLAGS="-C target-cpu=x86-64 --cfg bct_sim --cap-lints allow -C link-arg=-Wl,--export-dynamic"
export CARGO_TARGET_DIR=/verif/target
unset RUST_BACKTRACE RUST_LIB_BACKTRACE
