# the toolchain and offline settings of this sandbox
. /opt/vp/env.sh
export CARGO_TARGET_DIR=/verif/target
export CARGO_INCREMENTAL=0
export RUSTFLAGS="--cap-lints=warn"
