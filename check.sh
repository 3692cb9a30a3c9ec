#!/bin/bash
# check.sh <ID> [law]: rebuilds the harness against /repo's working tree and searches the property.
# Exit 0: held on everything explored; 1: violation (with a VIOLATION line); 2: no answer.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
id=$1
case $id in
C01 | C02 | C03 | C04) feature=psk ;;
C05 | C06 | C07 | C08 | C09) feature=cdma ;;
C10 | C11 | C16) feature=ofdm ;;
C12 | C13) feature=hop ;;
C14) feature=tones ;;
C15 | C17) feature=chaos ;;
C18 | C19) feature=iters ;;
C20 | C21) feature=metrics ;;
C22 | C23) feature=spectral ;;
C25 | C28) feature=meta ;;
C24 | C26 | C27 | C29 | C34) feature=py ;;
C30 | C31 | C32 | C33) feature=inner ;;
replay) feature=psk,cdma,ofdm,hop,tones,chaos,iters,metrics,spectral,meta,py ;;
*) echo "usage: check.sh <property id> [law] | replay <file>" >&2; exit 2 ;;
esac
export KVERIF_ROOT=$here KVERIF_REPO=${KVERIF_REPO:-/repo}
export CARGO_TARGET_DIR=${KVERIF_TARGET:-$here/harness/target}
case $id$(basename "$2") in
C3[0-3]* | replayC3[0-3]*)
    # The hooks are on for these only, in a build of their own.
    feature=inner
    export RUSTFLAGS="--cfg kverif" CARGO_TARGET_DIR=$CARGO_TARGET_DIR/hooked
    ;;
esac
log=$(mktemp)
if ! cargo build --offline --quiet --manifest-path "$here/harness/Cargo.toml" --no-default-features --features "$feature" >"$log" 2>&1; then
    grep -A12 '^error' "$log" | head -60 >&2
    echo "$id: the harness does not build against $KVERIF_REPO" >&2
    rm -f "$log"
    exit 2
fi
rm -f "$log"
bin=$CARGO_TARGET_DIR/debug/kverif
if [ "$id" = replay ]; then
    exec "$bin" replay "$2"
fi
# Runaway allocation aborts the process here rather than bringing in the sandbox's memory guard.
ulimit -v 20000000
"$bin" check "$@"
rc=$?
if [ $rc = 137 ]; then
    echo "$id: killed from outside: no answer" >&2
    exit 2
fi
if [ $rc -ge 128 ]; then
    # The code under test took the process down: again, one case at a time, to find which.
    mkdir -p "$here/replays"
    replay=$here/replays/$id-crash.json
    rm -f "$replay"
    KVERIF_TRACE=$replay timeout 600 "$bin" check "$@"
    rc=$?
    if [ $rc -ge 124 ] && { [ $rc -le 125 ] || [ $rc = 137 ]; }; then
        echo "$id: the run that should name the failing case did not finish: no answer" >&2
        exit 2
    fi
    if [ $rc -ge 128 ]; then
        echo "the process died (status $rc) on the case in $replay"
        echo "VIOLATION property=$id replay=$replay"
        rc=1
    fi
fi
exit $rc
