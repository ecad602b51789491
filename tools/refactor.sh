#!/bin/bash
# refactor.sh DIR [PATCH...]: copies /repo and /verif to DIR and runs all quick
# checks there with each patch of tools/refactors; prints those not quiet.
set -u
D=$1; shift
mkdir -p "$D"
[ -d "$D/repo" ] || git clone -q /repo "$D/repo"
[ -d "$D/verif" ] || cp -a /verif "$D/verif"
[ $# -gt 0 ] || set -- /verif/tools/refactors/*.patch
for p in "$@"; do
    git -C "$D/repo" checkout -q -- . && git -C "$D/repo" apply "$p" || { echo "$(basename "$p"): does not apply"; continue; }
    (cd "$D/repo" && cargo build --offline -q --target-dir "$D/t" >/dev/null 2>&1) || { echo "$(basename "$p"): does not build"; continue; }
    for c in ${CHECKS:-$(seq -f 'C%02g' 1 30)}; do
        timeout 900 "$D/verif/check.sh" run "$c" >"$D/out" 2>&1; rc=$?
        [ $rc = 0 ] || { echo "$(basename "$p") $c: exit $rc"; cp "$D/out" "$D/out.$(basename "$p").$c"; }
    done
    echo "$(basename "$p") done $(date +%T)"
done
git -C "$D/repo" checkout -q -- .
