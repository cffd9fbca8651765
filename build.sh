#!/bin/bash
# Builds the tool and the simulator from /repo's current tree into build/target.
set -e
V=$(cd "$(dirname "$0")" && pwd)
. "$V/build.env"
R=${TWSIM_REPO:-/repo}
T=$V/build/target
S=$V/build/sim
W=$V/build/web
mkdir -p "$V/build"
exec 9>"$V/build/lock"
flock 9
# Cargo trusts modification times. Do not: compare what the sources say.
sum=$(cd "$R" && find . -name target -prune -o -name .git -prune -o -path ./twiggy/tests -prune -o -type f \( -name '*.rs' -o -name 'Cargo.*' \) -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
if [ "$(cat "$V/build/sources.sum" 2>/dev/null)" != "$sum" ]; then
    rm -f "$V/build/sources.sum"
    for d in "$T/debug" "$S/debug" "$W/debug" "$W/wasm32-unknown-unknown/debug"; do
        if [ -d "$d/.fingerprint" ]; then
            find "$d/.fingerprint" -maxdepth 1 \( -name 'twiggy*' -o -name 'job_runner*' \) -exec rm -r {} +
        fi
    done
fi
log=$V/build/build.log
if ! { cargo build --offline --manifest-path "$R/Cargo.toml" -p twiggy --target-dir "$T" &&
       RUSTC_WRAPPER="$V/rustc-wrap.sh" cargo build --offline --manifest-path "$V/sim/Cargo.toml" --target-dir "$S" &&
       mkdir -p "$V/build/bin"; } >"$log" 2>&1; then
    tail -40 "$log" >&2
    exit 3
fi
if [ -f "$V/shim/shim.c" ] && [ ! "$V/build/bin/shim.so" -nt "$V/shim/shim.c" ]; then
    gcc -O1 -g -Wall -shared -fPIC -o "$V/build/bin/shim.so.tmp" "$V/shim/shim.c" -ldl >>"$log" 2>&1 || { tail "$log" >&2; exit 3; }
    mv "$V/build/bin/shim.so.tmp" "$V/build/bin/shim.so"
fi
if [ "$1" = jobs ]; then
    # The CI job runner, for C22.
    if ! cargo build --offline --manifest-path "$R/Cargo.toml" -p job_runner --target-dir "$T" >>"$log" 2>&1; then
        tail -40 "$log" >&2
        exit 3
    fi
fi
if [ "$1" = web ]; then
    # The WebAssembly build, for C17. What others wrote is built as for a release:
    # wasmparser adds up 32-bit sizes that may overflow, before it checks them.
    if ! CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=0 cargo build --offline \
        --config 'profile.dev.package."*".overflow-checks=false' --config 'profile.dev.package."*".debug-assertions=false' \
        --manifest-path "$R/Cargo.toml" -p twiggy-wasm-api --target wasm32-unknown-unknown --target-dir "$W" >>"$log" 2>&1; then
        tail -40 "$log" >&2
        exit 3
    fi
fi
echo "$sum" >"$V/build/sources.sum"
