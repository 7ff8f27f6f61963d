#!/bin/bash
# check.sh ID: decides one property by seeded simulation. VERIF_SEED and VERIF_TIER select seed and depth.
set -u
V=$(dirname "$(readlink -f "$0")")
. "$V/env.sh"
P=${1:?usage: check.sh PROPERTY}
TIER=${VERIF_TIER:-quick}
SEED=${VERIF_SEED:-1}
"$V/build_sim.sh" || exit 2
D=$("$V/build_wasm.sh") || exit 2
if [ "$TIER" = thorough ]; then SECS=${VERIF_SECS:-1200}; else SECS=${VERIF_SECS:-60}; fi
mkdir -p "$V/evidence" "$V/work/replays"
export BLEND_WASM=$D BLEND_COMET=$D/comet.wasm
exec "$V/sim/target/release/blendsim" run --prop "$P" --tier "$TIER" --seed "$SEED" --secs "$SECS" \
    --threads "${VERIF_THREADS:-8}" --evidence "$V/evidence/$P.json" --replays "$V/work/replays" --known "$V/known-findings.json"
