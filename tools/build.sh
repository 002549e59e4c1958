# Sourced by setup.sh and check.sh. Builds one variant of the monitor from /repo's working tree.
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR

# build VARIANT: dev (default features), ts (thread-safe), raw (cafebabe not optimised at all, so
# that its stack frames are as large as they get).
# What cargo knows of cafebabe and the monitor is dropped first: it goes by modification times,
# which say nothing about a tree that was copied.
build() {
    local features="" out="/verif/target/$1"
    case "$1" in
        dev) ;;
        ts) features="--features ts" ;;
        raw) features="--config profile.dev.package.cafebabe.opt-level=0" ;;
        *) echo "no variant $1"; return 1 ;;
    esac
    (
        cd /verif/harness/monitor || exit 1
        export CARGO_TARGET_DIR="$out"
        cargo clean --offline -q -p cafebabe -p monitor 2>/dev/null
        timeout 600 cargo build --offline $features >"$out.log" 2>&1
    )
}

TRIPLE=x86_64-unknown-linux-gnu
NIGHTLY=nightly

# small VARIANT: builds harness/small for an interpreter or a sanitizer, and prints the command that
# runs it; nothing when it cannot be built here.
small() {
    local out="/verif/target/$1"
    local m="--manifest-path /verif/harness/small/Cargo.toml"
    export XDG_CACHE_HOME=/verif/target/cache
    (
        cd /verif/harness/small || exit 1
        export CARGO_TARGET_DIR="$out"
        cargo clean --offline -q -p cafebabe -p small 2>/dev/null
        case "$1" in
            miri32 | miribe | mirits)
                case "$1" in
                    miri32) t="--target i686-unknown-linux-gnu" ;;
                    miribe) t="--target s390x-unknown-linux-gnu" ;;
                    mirits) t="--target $TRIPLE --features ts" ;;
                esac
                : >"$out.pack"
                MIRIFLAGS=-Zmiri-disable-isolation timeout 400 cargo +$NIGHTLY miri run --offline -q $m $t -- each "$out.pack" >"$out.log" 2>&1 &&
                    echo "env CARGO_TARGET_DIR=$out XDG_CACHE_HOME=$XDG_CACHE_HOME cargo +$NIGHTLY miri run --offline -q $m $t --"
                ;;
            asan)
                RUSTFLAGS=-Zsanitizer=address timeout 300 cargo +$NIGHTLY build --offline $m --target $TRIPLE >"$out.log" 2>&1 &&
                    echo "$out/$TRIPLE/debug/small"
                ;;
            tsan)
                RUSTFLAGS=-Zsanitizer=thread timeout 500 cargo +$NIGHTLY build --offline $m --features ts -Zbuild-std --target $TRIPLE >"$out.log" 2>&1 &&
                    echo "$out/$TRIPLE/debug/small"
                ;;
        esac
    )
}
