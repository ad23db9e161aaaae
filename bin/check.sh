#!/bin/bash
# check.sh PROPERTY: build against /repo's working tree and search. VERIF_SEED and VERIF_TIER choose the search.
V=$(cd "$(dirname "$0")/.." && pwd)
"$V/bin/build.sh" || exit 2
cd "$V" || exit 2
exec "$V/target/release/lxisim" run --prop "$1" --dir "$V" --tier "${VERIF_TIER:-quick}" --seed "${VERIF_SEED:-1}"
