#!/bin/bash
# Builds the four contracts from /repo's current working tree (as /opt/vp/env.sh build_wasm does, without the size
# optimiser) and prints the folder that holds them. Results are kept by content hash, so an unchanged tree costs nothing.
# A build deletes cargo's fingerprints first: only the content of the sources decides, never their dates.
set -u
. "$(dirname "$(readlink -f "$0")")/env.sh"
V=$(dirname "$(readlink -f "$0")")
REPO=${BLEND_REPO:-/repo}
mkdir -p "$V/work/wasm"
exec 9>"$V/work/wasm.lock"
flock 9
cd "$REPO" || exit 2
H=$(find emitter pool-factory backstop pool moderc3156 Cargo.toml Cargo.lock comet.wasm rust-toolchain* -type f \
    \( -name '*.rs' -o -name 'Cargo.*' -o -name '*.wasm' -o -name 'rust-toolchain*' \) -print0 2>/dev/null \
    | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -c1-24)
OUT=$V/work/wasm/$H
if [ -f "$OUT/done" ]; then echo "$OUT"; exit 0; fi
W=target/wasm32-unknown-unknown/release
imports() {
    local crate=$1 stamp now
    shift
    stamp=$W/.wasm-imports/$crate
    now=$(sha256sum "$@" 2>&1)
    mkdir -p "${stamp%/*}"
    printf '%s\n' "$now" > "$stamp"
}
for pkg in emitter pool-factory backstop pool; do
    case $pkg in
        backstop) imports $pkg comet.wasm $W/emitter.wasm $W/pool_factory.wasm ;;
        pool) imports $pkg $W/backstop.wasm ;;
    esac
    find "$W/.fingerprint" -maxdepth 1 -type d -name "$pkg-????????????????" -exec rm -rf {} + 2>/dev/null
    if ! CARGO_INCREMENTAL=0 cargo rustc --manifest-path=$pkg/Cargo.toml --crate-type=cdylib \
            --target=wasm32-unknown-unknown --release --locked --offline >"$V/work/wasm-$pkg.log" 2>&1 9>&-; then
        echo "building $pkg failed:" >&2
        tail -n 30 "$V/work/wasm-$pkg.log" >&2
        exit 2
    fi
done
T=$OUT.tmp.$$
mkdir -p "$T"
cp "$W/emitter.wasm" "$W/pool_factory.wasm" "$W/backstop.wasm" "$W/pool.wasm" "$T/" && cp comet.wasm "$T/" && touch "$T/done" && mv "$T" "$OUT" || exit 2
echo "$OUT"
