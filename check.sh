#!/bin/bash
# check.sh ID [quick|thorough]: build from /repo's working tree, run one property's check.
cd "$(dirname "$0")" || exit 2
ROOT=$PWD
. ./env.sh
TIER=${2:-${VERIF_TIER:-quick}}
./build.sh "$1" "$TIER" || { echo "build failed" >&2; exit 2; }
export FCHECK_ROOT=$ROOT FCHECK_REPO=${FCHECK_REPO:-/repo} FCHECK_GUIDED=$ROOT/target/guided/debug/fcheck FCHECK_CLI=$ROOT/target/cli/debug/fecl
exec "$ROOT/harness/target/debug/fcheck" "$1" "$TIER"
