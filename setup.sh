#!/bin/bash
# setup_cmd: simulator and contracts, offline.
set -u
V=$(dirname "$(readlink -f "$0")")
"$V/build_sim.sh" || exit 2
"$V/build_wasm.sh" || exit 2
