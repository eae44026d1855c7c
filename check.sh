#!/bin/bash
# check.sh Cxx: build from /repo's working tree, then search for violations of
# one property.  VERIF_TIER selects quick or thorough, VERIF_SEED the seed.
HERE=$(cd "$(dirname "$0")" && pwd)
bash "$HERE/build.sh" || exit 3
exec "${VERIF_OUT:-$HERE/build}/simcheck" check --property "$1" --tier "${VERIF_TIER:-quick}" --seed "${VERIF_SEED:-1}" --root "$HERE"
