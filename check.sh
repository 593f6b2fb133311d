#!/bin/bash
# check.sh ID [quick|thorough]            decide one property on /repo's working tree
# check.sh replay ID SEED INDEX [tier]    re-run one case, verbosely
# check.sh build                          build the harness
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export XLMON_VERIF=$HERE
build() {
    local log
    log=$(mktemp)
    if ! (cd "$HERE/harness" && cargo build --locked --offline) >"$log" 2>&1; then
        tail -40 "$log" >&2
        rm -f "$log"
        echo "harness build failed" >&2
        exit 2
    fi
    rm -f "$log"
}
build
BIN=$HERE/harness/target/debug/xlmon
case "$1" in
build) exit 0 ;;
replay) shift; exec "$BIN" replay "$@" ;;
esac
export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
if [ "$1" = C09 ] && [ "$VERIF_TIER" = thorough ]; then
    # The same cases under ThreadSanitizer, with an instrumented std.
    T=$(mktemp -d)
    if (cd "$HERE/harness" && RUSTUP_TOOLCHAIN=nightly RUSTFLAGS=-Zsanitizer=thread cargo build --locked --offline \
        -Zbuild-std --target x86_64-unknown-linux-gnu --target-dir target/tsan) >"$T/build" 2>&1; then
        XLMON_VERIF=$T VERIF_TIER=quick "$HERE/harness/target/tsan/x86_64-unknown-linux-gnu/debug/xlmon" run C09 \
            >"$T/out" 2>"$T/err"
        n=$(grep -ac 'WARNING: ThreadSanitizer' "$T/err")
        export XLMON_TSAN_REPORTS=$n XLMON_TSAN_CASES=$(grep -aoE '[0-9]+ cases' "$T/out" | grep -oE '[0-9]+')
        if [ "$n" != 0 ]; then
            mkdir -p "$HERE/replay"
            cp "$T/err" "$HERE/replay/C09_tsan.txt"
            echo "VIOLATION property=C09 replay=$HERE/replay/C09_tsan.txt sig=data race"
            RACE=1
        fi
    else
        tail -5 "$T/build" >&2
        echo "ThreadSanitizer build not available" >&2
    fi
    rm -rf "$T"
fi
ERR=$(mktemp)
"$BIN" run "$1" 2>"$ERR"
rc=$?
if [ $rc -ne 0 ]; then
    grep -aE '^(HARNESS|INCONCLUSIVE|thread|error)|^  ' "$ERR" | head -40 >&2
fi
rm -f "$ERR"
[ $rc -eq 0 ] && exit ${RACE:-0}
exit $rc
