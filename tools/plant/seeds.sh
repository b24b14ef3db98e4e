export FCHECK_ROOT=/tmp/szroot FCHECK_REPO=/repo FCHECK_CLI=/verif/target/cli/debug/fecl
cp /verif/harness/target/debug/fcheck /tmp/fcheck.run
for s in "$@"; do for p in $(seq -w 1 30); do VERIF_SEED=$s /tmp/fcheck.run C$p quick | tail -1; done; done
