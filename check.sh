#!/bin/bash
# usage: check.sh <property id> [extra options for `sim check`]
# Rebuilds the simulator and the crate under test from /repo's working tree, then runs the check.
set -u
root="$(cd "$(dirname "$0")" && pwd)"
id="$1"; shift
. "$root/build.sh" || exit 2
exec "$BASE" check "$id" --tier "${VERIF_TIER:-quick}" --seed "${VERIF_SEED:-1}" \
    --bins "base=$BASE,ship=$SHIP,alt=$ALT" --root "$root" "$@"
