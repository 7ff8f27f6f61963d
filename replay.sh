#!/bin/bash
# replay.sh FILE: runs a replay file against the contracts as they are in /repo now. Exit 1: the violation reproduces.
set -u
V=$(dirname "$(readlink -f "$0")")
. "$V/env.sh"
F=$(readlink -f "${1:?usage: replay.sh FILE}")
"$V/build_sim.sh" || exit 2
D=$("$V/build_wasm.sh") || exit 2
export BLEND_WASM=$D BLEND_COMET=$D/comet.wasm
exec "$V/sim/target/release/blendsim" replay "$F"
