# Sourced by check.sh and setup.sh: how each build is made. All is offline.
export VERIF_ROOT="${VERIF_ROOT:-/verif}"
export PATH=/opt/vp/tools/bin:/root/.cargo/bin:/usr/local/cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset CARGO_TARGET_DIR RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
B="$VERIF_ROOT/build"
mkdir -p "$B"

repo_hash() {
    (cd /repo && find src Cargo.toml -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
}

# fresh TARGET_DIR: when the sources of /repo changed since the last build there,
# forget the library's fingerprints so that cargo rebuilds it whatever the file times are
fresh() {
    local h
    h=$(repo_hash)
    if [ "$(cat "$1/.repo_hash" 2>/dev/null)" != "$h" ]; then
        mkdir -p "$1"
        find "$1" -type d -path '*/.fingerprint/cosmian_abe_gpsw-*' -prune -exec rm -rf {} + 2>/dev/null
        rm -f "$1/.repo_hash"
    fi
    echo "$h"
}

# build NAME TARGET_DIR COMMAND...
build() {
    local name=$1 dir=$2 h rc
    shift 2
    exec 9>"$B/$name.lock"
    flock 9
    h=$(fresh "$dir")
    "$@" >"$B/$name.log" 2>&1
    rc=$?
    if [ $rc -eq 0 ]; then
        echo "$h" >"$dir/.repo_hash"
    else
        echo "ERROR: build $name failed" >&2
        tail -n 40 "$B/$name.log" >&2
    fi
    flock -u 9
    exec 9>&-
    return $rc
}

# the harness; with the transparent groups, unless the library's traits are no longer those
harness() {
    env RUSTUP_TOOLCHAIN=1.99.1 cargo build --release --offline \
        --manifest-path "$VERIF_ROOT/harness/Cargo.toml" --target-dir "$B/native" "$@"
}
native() {
    harness --features clear || { echo "without the transparent groups" && harness; }
}
build_native() {
    build native "$B/native" native
}

# the harness and the library with AddressSanitizer
build_asan() {
    build asan "$B/asan" env RUSTUP_TOOLCHAIN=nightly RUSTFLAGS=-Zsanitizer=address cargo build --release --offline \
        --manifest-path "$VERIF_ROOT/harness/Cargo.toml" --target-dir "$B/asan" --target x86_64-unknown-linux-gnu
}

# the harness, the library and the standard library with ThreadSanitizer
build_tsan() {
    build tsan "$B/tsan" env RUSTUP_TOOLCHAIN=nightly RUSTFLAGS=-Zsanitizer=thread cargo build --release --offline \
        -Zbuild-std --manifest-path "$VERIF_ROOT/harness/Cargo.toml" --target-dir "$B/tsan" --target x86_64-unknown-linux-gnu
}

repo_lock() {
    # the lock file is not in the repository's commits
    [ -f /repo/Cargo.lock ] || cp /opt/vp/Cargo.lock /repo/Cargo.lock
}
module_build() {
    env RUSTUP_TOOLCHAIN=1.99.1 CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=true \
        cargo build --release --offline --manifest-path /repo/Cargo.toml --lib "$@"
}

# the Python module
python_module() {
    repo_lock
    module_build --features python --target-dir "$B/python" && mkdir -p "$B/python/module" &&
        cp "$B/python/release/libcosmian_abe_gpsw.so" "$B/python/module/cosmian_abe_gpsw.so"
}
build_python() {
    build python "$B/python" python_module
}

# the WebAssembly module, for node
wasm_module() {
    repo_lock
    module_build --features wasm_bindgen --target wasm32-unknown-unknown --target-dir "$B/wasm" &&
        wasm-bindgen --target nodejs --out-dir "$B/wasm/module" "$B/wasm/wasm32-unknown-unknown/release/cosmian_abe_gpsw.wasm"
}
build_wasm() {
    build wasm "$B/wasm" wasm_module
}

# the shared library of the C functions
build_cdylib() {
    build cdylib "$B/cdylib" c_library
}
c_library() {
    repo_lock
    module_build --features ffi --target-dir "$B/cdylib"
}

# run_part NAME ID COMMAND...: one of the parts of a check; worst() tells how the check ends
WORST=0
run_part() {
    local part=$1 rc
    shift
    "$@"
    rc=$?
    echo "part $part: exit $rc"
    case $rc in
    0) ;;
    1) WORST=1 ;;
    *) [ $WORST -eq 0 ] && WORST=2 ;;
    esac
}
asan() {
    env VMON_PART=asan VMON_NO_RLIMIT=1 VMON_HEAP=1 VMON_NO_FLOOR=1 \
        ASAN_OPTIONS=exitcode=86:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1 \
        "$B/asan/x86_64-unknown-linux-gnu/release/vmon" run "$1"
}
tsan() {
    env VMON_PART=tsan VMON_NO_RLIMIT=1 VMON_TSAN=1 VMON_NO_FLOOR=1 \
        TSAN_OPTIONS=exitcode=86:halt_on_error=1:second_deadlock_stack=1 \
        "$B/tsan/x86_64-unknown-linux-gnu/release/vmon" run "$1"
}

# the modules, for the checks that call them
with_python() {
    export VMON_PYTHON="python3 $VERIF_ROOT/harness/peers/peer.py $B/python/module"
}
with_wasm() {
    export VMON_WASM="node $VERIF_ROOT/harness/peers/peer.js $B/wasm/module"
}
