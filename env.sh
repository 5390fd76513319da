# Sourced by every script: the toolchain, as /opt/vp/build.sh uses it.
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=/root RUSTUP_TOOLCHAIN=1.80.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export RUST_BACKTRACE=0
unset CARGO_TARGET_DIR RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUST_LOG
export MC_ROOT=/verif MC_TARGET=/verif/target MC_BIN=/repo/target/debug
