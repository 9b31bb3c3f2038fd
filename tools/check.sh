#!/bin/bash
# check.sh PROPERTY: builds the simulator from the current tree of /repo and decides one property.
cd "$(dirname "$0")/.." || exit 2
T=${VERIF_TIER:-quick}
[ -n "$2" ] && T=$2
bash tools/build.sh || exit 2
exec .build/metisim check -prop "$1" -tier "$T" -seed "${VERIF_SEED:-1}"
