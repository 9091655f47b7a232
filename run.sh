#!/bin/bash
# Usage: run.sh <property id> [quick|thorough]  - build the harness against
# /repo's current tree and decide one property.
#        run.sh replay <file>                   - re-run one recorded input.
# Exit 0: held. Exit 1: violated (with a VIOLATION line). Exit 2: no answer.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_ROOT="$here"
export CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR
id="$1"
tier="${2:-${VERIF_TIER:-quick}}"
log="$(mktemp)"
trap 'rm -f "$log"' EXIT
if ! (cd "$here/harness" && cargo build --release --offline --locked) >"$log" 2>&1; then
    cat "$log" >&2
    echo "the harness does not build against /repo" >&2
    exit 2
fi
bin="$here/harness/target/release/mcu-harness"
ulimit -v 25165824 2>/dev/null
if [ "$id" = replay ]; then
    "$bin" replay "$2"
    exit $?
fi
if [ "$tier" = quick ]; then
    export VERIF_WATCHDOG_S="${VERIF_WATCHDOG_S:-840}"
fi
"$bin" check "$id" "$tier"
