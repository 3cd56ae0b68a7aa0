# Sourced by check.sh and setup.sh: builds one variant of the monitor (and with
# it liso, from /repo's working tree).
export CARGO_NET_OFFLINE=true
build() {
    local log
    log=$(mktemp)
    case $1 in
    base)
        CARGO_TARGET_DIR=$PWD/target cargo build --offline --quiet \
            --manifest-path harness/Cargo.toml >"$log" 2>&1 ;;
    noglobal)
        CARGO_TARGET_DIR=$PWD/target/noglobal cargo build --offline --quiet \
            --no-default-features --manifest-path harness/Cargo.toml >"$log" 2>&1
        export LISOMON_NOGLOBAL=$PWD/target/noglobal/debug/lisomon ;;
    stderr)
        CARGO_TARGET_DIR=$PWD/target/stderr cargo build --offline --quiet \
            --features stderr --manifest-path harness/Cargo.toml >"$log" 2>&1
        export LISOMON_STDERR=$PWD/target/stderr/debug/lisomon ;;
    asan)
        RUSTFLAGS=-Zsanitizer=address CARGO_TARGET_DIR=$PWD/target/asan \
            cargo +nightly build --offline --quiet --features stderr \
            --target x86_64-unknown-linux-gnu --manifest-path harness/Cargo.toml >"$log" 2>&1
        export LISOMON_ASAN=$PWD/target/asan/x86_64-unknown-linux-gnu/debug/lisomon ;;
    tsan)
        RUSTFLAGS=-Zsanitizer=thread CARGO_TARGET_DIR=$PWD/target/tsan \
            cargo +nightly build --offline --quiet -Zbuild-std --features stderr \
            --target x86_64-unknown-linux-gnu --manifest-path harness/Cargo.toml >"$log" 2>&1
        export LISOMON_TSAN=$PWD/target/tsan/x86_64-unknown-linux-gnu/debug/lisomon ;;
    esac
    local rc=$?
    if [ $rc != 0 ]; then
        cat "$log"; rm -f "$log"; echo "build failed ($1)"; return 1
    fi
    rm -f "$log"
}
