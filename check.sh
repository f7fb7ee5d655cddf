#!/bin/bash
# usage: check.sh build | check.sh <property> [--only STREAM INDEX | --text TEXT]
# Builds the monitor against /repo's current tree and runs one check.
# Exit code: 0 the property held, 1 a violation was reported, 2 the check could not be carried out.
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export CARGO_HOME=/root/.cargo RUSTUP_HOME=/root/.rustup
export RUSTUP_TOOLCHAIN=1.77.2-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_TARGET_DIR=/verif/target
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}" VERIF_ROOT=/verif
unset RUSTFLAGS RUSTDOCFLAGS RUSTC_WRAPPER CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
mkdir -p /verif/target /verif/evidence /verif/replays
log=/verif/target/build-$$.log
if ! (cd /verif/harness/monitor && cargo build --offline --locked) >"$log" 2>&1; then
    grep -E '^error' -A12 "$log" | head -60 >&2
    rm -f "$log"
    echo "the monitor does not build against /repo's current tree" >&2
    exit 2
fi
rm -f "$log"
[ "$1" = build ] && exit 0
ulimit -c 0
/verif/target/debug/monitor "$@"
code=$?
[ $code -le 1 ] && exit $code
exit 2
