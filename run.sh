#!/bin/bash
# usage: run.sh <ID>|setup      Builds waterbear from /repo's working tree and the
# harness from /verif/harness, then decides one property.
# exit 0 held, 1 violation (with a VIOLATION line), 2 no answer.
set -u
V="$(cd "$(dirname "$0")" && pwd)"
R="${WB_REPO:-/repo}"
export PATH="/usr/local/bin:/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export CARGO_PROFILE_DEV_DEBUG=0 CARGO_PROFILE_DEV_OPT_LEVEL=1
unset CARGO_TARGET_DIR RUSTFLAGS CARGO_BUILD_TARGET_DIR
T="${WB_TARGET:-$V/target}"
mkdir -p "$T" || exit 2
LOG="$T/build.log"

build() {
    # The stamp is the content of everything that goes into the binary, so a
    # restored or older file never leaves a stale binary behind.
    local stamp
    stamp="$(cd "$R" && { find src waterbear-instruction-derive libwaterbear -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.h' -o -name '*.c' \) -not -path '*/target/*' -print0
             find . -maxdepth 1 -type f \( -name 'Cargo.*' -o -name build.rs \) -print0; } | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)" || return 1
    if [ ! -x "$T/wb/debug/waterbear" ] || [ "$(cat "$T/wb.stamp" 2>/dev/null)" != "$stamp" ]; then
        rm -f "$T/wb.stamp"
        if [ -d "$T/wb" ]; then
            (cd "$R" && cargo clean --offline --target-dir "$T/wb" -p waterbear -p waterbear-instruction-derive) >>"$LOG" 2>&1
        fi
        (cd "$R" && cargo build --offline --target-dir "$T/wb" --lib --bin waterbear) >>"$LOG" 2>&1 || return 1
        echo "$stamp" >"$T/wb.stamp"
    fi
    if [ ! -f "$T/clock.so" ] || [ "$V/harness/c/clock.c" -nt "$T/clock.so" ]; then
        gcc -shared -fPIC -O1 -o "$T/clock.so" "$V/harness/c/clock.c" -ldl >>"$LOG" 2>&1 || return 1
    fi
    (cd "$V/harness" && cargo build --release --offline --target-dir "$T/h") >>"$LOG" 2>&1 || return 1
}

# The C library and a C program that calls it; rebuilt every time (under a second).
capi() {
    mkdir -p "$T/capi" || return 1
    rustc --edition 2015 --crate-name waterbear --crate-type staticlib --out-dir "$T/capi" "$R/libwaterbear/src/lib.rs" \
        --extern waterbear="$T/wb/debug/libwaterbear.rlib" -L dependency="$T/wb/debug/deps" >>"$LOG" 2>&1 || return 1
    gcc -I"$R/libwaterbear/include" -o "$T/capi/waterbear" "$V/harness/c/driver.c" "$T/capi/libwaterbear.a" -lpthread -ldl -lm >>"$LOG" 2>&1 || return 1
}

exec 9>"$T/lock"
flock 9
: >"$LOG"
if ! build || { [ "${1:-}" = C27 ] && ! capi; }; then
    tail -40 "$LOG" >&2
    echo "build failed" >&2
    exit 2
fi
flock -u 9
exec 9>&-
[ "${1:-}" = setup ] && exit 0
export WB_VERIF="$V" WB_BIN="$T/wb/debug/waterbear" WB_REPO="$R" WB_TARGET="$T"
exec "$T/h/release/wbcheck" check "$1"
