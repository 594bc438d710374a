#!/bin/bash
# check.sh ID [TIER]: decides one property on /repo's current tree.
cd "$(dirname "$0")" || exit 2
./build.sh || exit 2
export JSIM_ROOT=$PWD JSIM_CLI=$PWD/.build/cli/debug/jsparse JSIM_SHIM=$PWD/.build/shim.so
exec .build/sim/debug/jsim check "$1" "${VERIF_SEED:-1}" "${2:-${VERIF_TIER:-quick}}"
