#!/bin/bash
# check.sh Cxx            the check of one property (VERIF_TIER, VERIF_SEED)
# check.sh replay Cxx F   one input, as that check judges it
set -u
cd /verif
. /verif/tools/build.sh
mkdir -p target scratch replays evidence
replay=""
if [ "${1:-}" = replay ]; then
    replay="$3"
    id="$2"
else
    id="$1"
fi

need_ts=""
case "$id" in C01 | C02 | C08 | C17 | C18) need_ts=1 ;; esac
build dev &
dev=$!
raw=""
if [ "$id" = C01 ]; then
    build raw &
    raw=$!
fi
if [ -n "$need_ts" ]; then
    build ts
    ts_rc=$?
fi
wait $dev
dev_rc=$?
if [ -n "$raw" ]; then
    wait $raw && export MONITOR_RAW=/verif/target/raw/debug/monitor
fi
if [ $dev_rc -ne 0 ]; then
    echo "the monitor does not build:"
    tail -40 /verif/target/dev.log
    exit 2
fi
if [ -n "$need_ts" ] && [ $ts_rc -ne 0 ]; then
    if [ "$id" = C17 ]; then
        cp /verif/target/ts.log /verif/replays/C17-build.log
        echo "VIOLATION property=C17 replay=/verif/replays/C17-build.log"
        echo "  the default build compiles, the thread-safe one, or the use of its types on several threads, does not:"
        grep -E -A6 '^error' /verif/target/ts.log | head -30
        exit 1
    fi
    export MONITOR_TS=none
fi
exe=/verif/target/dev/debug/monitor
[ -f target/jdk.pack ] || python3 /verif/tools/jdkpack.py /verif/target/jdk.pack 30000 >/dev/null 2>&1
if [ -z "$replay" ]; then
    case "$id" in
        C01) miri=miri32 san=asan ;;
        C17) miri=mirits san=tsan ;;
        C18) miri=miribe san=asan ;;
        *) miri="" san="" ;;
    esac
    if [ -n "$miri" ]; then
        small $san >target/$san.cmd &
        MONITOR_MIRI=$(small $miri)
        wait $!
        export MONITOR_MIRI
        export MONITOR_ASAN="" MONITOR_TSAN=""
        case $san in asan) MONITOR_ASAN=$(cat target/asan.cmd) ;; tsan) MONITOR_TSAN=$(cat target/tsan.cmd) ;; esac
        [ -n "$MONITOR_MIRI" ] || echo "note: no interpreter: $(tail -1 target/$miri.log)"
        [ -s target/$san.cmd ] || echo "note: no sanitizer: $(tail -1 target/$san.log)"
    fi
fi
if [ -n "$replay" ]; then
    [ "$id" = C17 ] && exe=/verif/target/ts/debug/monitor
    exec "$exe" replay "$id" "$replay"
fi
exec "$exe" check "$id"
