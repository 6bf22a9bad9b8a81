#!/bin/bash
# Builds the three variants of the simulator against /repo's working tree, offline.
#  base: default features, debug assertions and overflow checks (what developers run)
#  ship: default features, optimised arithmetic, no assertions (what users ship)
#  alt:  as ship, with every behavioural feature switched over
root="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
cd "$root/sim" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
log="$root/sim/target"; mkdir -p "$log"
variant() { # name profile features...
    n="$1"; p="$2"; shift 2
    cargo build --offline --locked --quiet --profile "$p" --target-dir "$root/sim/target/$n" "$@" >"$log/$n.log" 2>&1
}
variant base simdbg & b=$!
variant ship simrel --features misc & s=$!
variant alt simrel --features alt & a=$!
rc=0
wait $b || rc=2; wait $s || rc=2; wait $a || rc=2
if [ $rc -ne 0 ]; then
    grep -hE -A12 '^error' "$log/base.log" "$log/ship.log" "$log/alt.log" | head -60
    echo "build failed"
    exit 2
fi
BASE="$root/sim/target/base/simdbg/sim"
SHIP="$root/sim/target/ship/simrel/sim"
ALT="$root/sim/target/alt/simrel/sim"
cd "$root"
