#!/bin/bash
# run.sh CRATE PROPERTY      builds the harness against /repo's working tree and runs one check
# run.sh CRATE replay FILE   re-executes the case recorded in a replay file
VERIF_ROOT=$(cd "$(dirname "$0")" && pwd); export VERIF_ROOT
crate=$1; shift
[ -f /opt/vp/rs/env.sh ] && . /opt/vp/rs/env.sh
export CARGO_INCREMENTAL=0
unset CARGO_PROFILE_DEV_DEBUG
export CARGO_TARGET_DIR=$VERIF_ROOT/target
cd "$VERIF_ROOT/$crate" || exit 2
log=$(mktemp)
if ! cargo build --offline --locked >"$log" 2>&1; then
    echo "the harness does not build against /repo:"; grep -E '^error' -A8 "$log" | head -60
    rm -f "$log"; exit 2
fi
rm -f "$log"
# runaway allocations must end the check and not the sandbox
ulimit -v 26000000
ulimit -c 0
cd "$VERIF_ROOT" || exit 2
mkdir -p evidence replay
bins=$crate
case "$crate $1" in
    # Kissat cannot be linked together with CaDiCaL and has a binary of its own
    "mcs P20" | "mcs P21" | "mcs P22" | "mcs P25") bins="mcs mck" ;;
    "mcs replay") grep -q '"bin": "mck"' "$2" && bins=mck ;;
esac
worst=0
for bin in $bins; do
    "$CARGO_TARGET_DIR/debug/$bin" "$@"
    rc=$?
    if [ $rc -ge 128 ] || [ $rc -eq 101 ]; then
        # killed by a signal (abort, stack overflow, memory error): the code under test crashed the process
        p=$1
        echo "{\"property\": \"$p\", \"bin\": \"$bin\", \"group\": \"process\", \"case\": \"whole run\", \"message\": \"process ended with status $rc\"}" > "replay/$p-crash.json"
        echo "the process under test ended abnormally with status $rc"
        echo "VIOLATION property=$p replay=$VERIF_ROOT/replay/$p-crash.json"
        rc=1
    fi
    # the second binary adds to the evidence of the first
    export MC_MERGE=1
    [ $rc -ne 0 ] && [ $worst -ne 1 ] && worst=$rc
done
exit $worst
