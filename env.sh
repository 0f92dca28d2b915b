. /opt/vp/env.sh
export CARGO_TARGET_DIR=/verif/target CARGO_INCREMENTAL=0
unset CARGO_PROFILE_DEV_DEBUG
