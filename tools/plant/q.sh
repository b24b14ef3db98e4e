export FCHECK_ROOT=/tmp/szroot FCHECK_REPO=/repo FCHECK_CLI=/verif/target/cli/debug/fecl
for p in "$@"; do /usr/bin/time -f "   %e s %U cpu" /verif/harness/target/debug/fcheck $p quick | tail -1; done
