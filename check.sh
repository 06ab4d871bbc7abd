#!/bin/bash
# Builds what a check needs from /repo's current tree and runs it.
#   check.sh Pnn [quick|thorough] [--case ID]   check.sh replay FILE
#   check.sh list Pnn [quick|thorough]
set -u
cd "$(dirname "$0")" || exit 3
export MC_VERIF="$PWD"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset CARGO_TARGET_DIR RUSTFLAGS RUSTDOCFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
REPO=/repo
mkdir -p work

die() { echo "ENGINE ERROR: $*"; exit 3; }
build() { # DIR ARGS...: cargo build, quiet unless it fails
    local dir=$1; shift
    (cd "$dir" && cargo build --offline "$@" >"$MC_VERIF/work/build.$$.log" 2>&1) || {
        cat "$MC_VERIF/work/build.$$.log"; rm -f "$MC_VERIF/work/build.$$.log"; return 1; }
    rm -f "$MC_VERIF/work/build.$$.log"
}
harness() { build harness --release || die "the harness does not build against /repo"; }
evl() {
    # the evaluation program, from a copy of the current tree (its lock file is
    # not under version control, and the build must not write into /repo)
    rm -rf "$MC_VERIF/work/tree"
    mkdir -p work/tree/evaluation
    cp -p $REPO/Cargo.toml work/tree/ && cp -rp $REPO/src work/tree/ &&
        cp -p $REPO/evaluation/Cargo.toml work/tree/evaluation/ &&
        cp -rp $REPO/evaluation/src work/tree/evaluation/ &&
        cp -p locks/evaluation.lock work/tree/evaluation/Cargo.lock || die "cannot copy /repo"
    CARGO_TARGET_DIR="$MC_VERIF/work/evl-target" build work/tree/evaluation || die "evaluation does not build"
    export MC_EVL="$MC_VERIF/work/evl-target/debug/evl"
}

P=${1:?property}
T=${2:-${VERIF_TIER:-quick}}
if [ "$P" = replay ]; then
    F=$(realpath "$2")
    case "$F" in *P24*) ;; *) harness ;; esac
    case "$F" in *P19*|*P22*|*P24*) evl ;; esac
    case "$F" in *P16*|*P21*) exec python3 ./configs.py replay "$F" ;; esac
    case "$F" in *P24*) exec python3-vt ./experiments.py replay "$F" ;; esac
    exec harness/target/release/mc replay "$F"
fi
if [ "$P" = setup ]; then
    harness
    evl
    exec python3 ./configs.py build
fi
if [ "$P" = list ]; then
    harness
    exec harness/target/release/mc list "$2" --tier "${3:-quick}"
fi
shift; [ $# -gt 0 ] && shift
export VERIF_TIER=$T
rm -f evidence/$P.json
case "$P" in
    P16|P21) exec python3 ./configs.py "$P" "$T" ;;
    P24) evl; exec python3-vt ./experiments.py "$T" ;;
    P19|P22) harness; evl; exec harness/target/release/mc check "$P" --tier "$T" "$@" ;;
    *) harness; exec harness/target/release/mc check "$P" --tier "$T" "$@" ;;
esac
