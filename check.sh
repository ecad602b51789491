#!/bin/bash
# check.sh setup            build everything from the working tree of /repo
# check.sh run Cxx          build, then decide one property
# check.sh replay Cxx N     build, then run case N of a property again
set -u
V=$(cd "$(dirname "$0")" && pwd)
export VH_VERIF=$V
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export RUSTFLAGS="--cap-lints warn"
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset CARGO_TARGET_DIR RUSTC_WRAPPER RUSTDOCFLAGS
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
REPO=$(cd "$V/../repo" && pwd)
T=$V/target
mkdir -p "$V/evidence" "$T"

# cargo goes by modification times; go by content as well
fresh() {
    local h
    h=$(cd "$REPO" && find . \( -name .git -o -name target \) -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
    if [ "$h" != "$(cat "$T/repo.sum" 2>/dev/null)" ]; then
        find "$T" -type d -path '*/.fingerprint/dir-signature-*' -prune -exec rm -rf {} +
        echo "$h" >"$T/repo.sum"
    fi
}

quietly() { # run, show the output only if it fails
    local out
    out=$(mktemp)
    if ! "$@" >"$out" 2>&1; then
        echo "build failed: $*"; grep -A12 "^error" "$out" | head -60; tail -5 "$out"; rm -f "$out"; exit 2
    fi
    rm -f "$out"
}

harness() { quietly cargo build --locked --manifest-path "$V/harness/Cargo.toml" --target-dir "$T"; }

# the command-line tool: $1 = threads or nothreads
cli() {
    local feat=()
    [ "$1" = nothreads ] && feat=(--no-default-features)
    CARGO_PROFILE_DEV_OPT_LEVEL=2 CARGO_PROFILE_DEV_DEBUG=0 \
        quietly cargo build --manifest-path "$REPO/Cargo.toml" --bin index "${feat[@]}" --target-dir "$T/cli-$1"
}

needs() { # what a property needs besides the harness
    case $1 in
        C05) cli nothreads; export VH_CLI_NOTHREADS=$T/cli-nothreads/debug/index ;;
        C21) cli nothreads; cli threads
             export VH_CLI_NOTHREADS=$T/cli-nothreads/debug/index VH_CLI=$T/cli-threads/debug/index ;;
    esac
}

case ${1:-} in setup|run|replay) fresh ;; esac
case ${1:-} in
setup)
    harness; cli threads; cli nothreads
    [ -x "$V/sanitize.py" ] && "$V/sanitize.py" build
    exit 0 ;;
run)
    if [ "$2" = C22 ]; then exec "$V/sanitize.py" run; fi
    harness; needs "$2"
    exec "$T/debug/vh" run "$2" ;;
replay)
    if [ "$2" = C22 ]; then exec "$V/sanitize.py" replay "$3"; fi
    harness; needs "$2"
    exec "$T/debug/vh" replay "$2" "$3" ;;
*)
    echo "usage: check.sh setup|run ID|replay ID CASE"; exit 2 ;;
esac
