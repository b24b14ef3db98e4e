#!/bin/bash
# build.sh [ID [TIER]]: the harness (and, for C24 or without ID, the command line program) from /repo's working tree.
cd "$(dirname "$0")" || exit 2
ROOT=$PWD
REPO=${FCHECK_REPO:-/repo}
. ./env.sh
mkdir -p target
exec 9> target/lock
flock 9
# cargo trusts modification times, which a copied or patched tree need not change: rebuild on changed content
sum=$(cd "$REPO" && find lib cli Cargo.toml Cargo.lock -type f -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum)
log=target/build.log
if [ "$(cat target/harness.sum 2>/dev/null)" != "$sum" ]; then
    rm -f target/harness.sum
    (cd harness && cargo clean --offline -q -p ferrous-chloride) > $log 2>&1
fi
(cd harness && cargo build --offline) > $log 2>&1 || { tail -60 $log >&2; exit 2; }
echo "$sum" > target/harness.sum
if [ -z "$1" ] || [ "$1" = C24 ]; then
    if [ "$(cat target/cli.sum 2>/dev/null)" != "$sum" ]; then
        rm -f target/cli.sum
        rm -rf "$ROOT"/target/cli/debug/.fingerprint/fecl-* "$ROOT"/target/cli/debug/.fingerprint/ferrous-chloride-* 2>/dev/null
    fi
    (cd "$REPO/cli" && cargo build --offline --locked --target-dir "$ROOT/target/cli") > $log 2>&1 || { tail -60 $log >&2; exit 2; }
    echo "$sum" > target/cli.sum
fi
if [ "$2" = thorough ]; then
    # once more with edge counters in the library, for the coverage-guided stage
    if [ "$(cat target/guided.sum 2>/dev/null)" != "$sum" ]; then
        rm -f target/guided.sum
        (cd harness && cargo clean --offline -q -p ferrous-chloride --target-dir "$ROOT/target/guided") > $log 2>&1
    fi
    (cd harness && RUSTC_WRAPPER="$ROOT/tools/sancov.sh" cargo build --offline --target-dir "$ROOT/target/guided") > $log 2>&1 || { tail -60 $log >&2; exit 2; }
    echo "$sum" > target/guided.sum
fi
exit 0
