#!/bin/bash
# usage: replay.sh <replay file>   rebuilds from /repo and re-executes the recorded run
# exit 1: the recorded violation occurred again (with an identical execution digest on the same code)
root="$(cd "$(dirname "$0")" && pwd)"
f="$(readlink -f "$1")"
. "$root/build.sh" || exit 2
case "$(grep -o '"variant":"[a-z]*"' "$f" | head -1)" in
    *alt*) exec "$ALT" replay "$f" ;;
    *ship*) exec "$SHIP" replay "$f" ;;
    *) exec "$BASE" replay "$f" ;;
esac
