# Sourced by check.sh and setup.sh: how the monitors are built, against /repo's working tree.
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_PROFILE_DEV_DEBUG
here=${here:-$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)}
target=$here/mon/target
CHECKED=$target/debug/mon
RELEASE=$target/release/mon
ASAN=$target/asan/x86_64-unknown-linux-gnu/release/mon
ASAN_WHY=
TSAN=$target/tsan/x86_64-unknown-linux-gnu/release/mon
TSAN_WHY=

# cargo compares mtimes only: forget what it knows about the crate under test and the monitors, so that
# a file put back with an old mtime cannot leave a stale build
_forget() {
    [ -d "$1" ] && find "$1" -maxdepth 1 \( -name 'unixfs-v1-*' -o -name 'mon-*' \) -exec rm -rf {} +
    return 0
}

_cargo() { # toolchain, log, arguments
    local log=$target/$2 tc=$1
    shift 2
    mkdir -p "$target"
    if ! (cd "$here/mon" && RUSTUP_TOOLCHAIN=$tc cargo build --offline "$@") >"$log" 2>&1; then
        echo "ERROR: the monitors do not build:"
        tail -40 "$log"
        return 1
    fi
}

build_checked() {
    _forget "$target/debug/.fingerprint"
    CARGO_TARGET_DIR=$target _cargo stable-x86_64-unknown-linux-gnu checked.log
}

build_release() {
    _forget "$target/release/.fingerprint"
    CARGO_TARGET_DIR=$target _cargo stable-x86_64-unknown-linux-gnu release.log --release
}

build_asan() {
    _forget "$target/asan/x86_64-unknown-linux-gnu/release/.fingerprint"
    # the stable compiler: an old dependency does not build with the nightly one
    RUSTC_BOOTSTRAP=1 RUSTFLAGS="-Zsanitizer=address -Coverflow-checks=on -Cdebug-assertions=on" CARGO_TARGET_DIR=$target/asan \
        _cargo stable-x86_64-unknown-linux-gnu asan.log --release --target x86_64-unknown-linux-gnu || {
        ASAN_WHY="see $target/asan.log"
        return 1
    }
}

# with the standard library, or its locks would look like races
build_tsan() {
    _forget "$target/tsan/x86_64-unknown-linux-gnu/release/.fingerprint"
    RUSTC_BOOTSTRAP=1 RUSTFLAGS="-Zsanitizer=thread -Coverflow-checks=on -Cdebug-assertions=on" CARGO_TARGET_DIR=$target/tsan \
        _cargo stable-x86_64-unknown-linux-gnu tsan.log --release -Zbuild-std --target x86_64-unknown-linux-gnu || {
        TSAN_WHY="see $target/tsan.log"
        return 1
    }
}
