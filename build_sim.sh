#!/bin/bash
# Builds the simulator when its sources changed.
set -u
V=$(dirname "$(readlink -f "$0")")
. "$V/env.sh"
mkdir -p "$V/work"
exec 9>"$V/work/sim.lock"
flock 9
cd "$V/sim" || exit 2
H=$(find src vendor Cargo.toml Cargo.lock -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
B=target/release/blendsim
if [ -x $B ] && [ -f "$V/work/sim.stamp" ] && [ "$(cat "$V/work/sim.stamp")" = "$H" ]; then exit 0; fi
find target/release/.fingerprint -maxdepth 1 -type d -name 'blendsim-*' -exec rm -rf {} + 2>/dev/null
if ! cargo build --release --offline --locked >"$V/work/sim.log" 2>&1 9>&-; then
    tail -n 30 "$V/work/sim.log" >&2
    exit 2
fi
printf '%s\n' "$H" > "$V/work/sim.stamp"
