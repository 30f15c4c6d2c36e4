#!/bin/bash
# check.sh ID [quick|thorough]: rebuilds the harness from /repo's working tree
# and explores the space of one property. check.sh --replay FILE replays one
# recorded violation.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/build.sh"
if [ "$1" = --replay ]; then
  case "$(grep -o '"property": *"[^"]*"' "$2")" in
    *C31*) build_cli ;;
    *C25*) build_sched; exec "$here/bin/vh-sched" replay "$2" ;;
  esac
  build vh; exec "$here/bin/vh" replay "$2"
fi
id=$1
[ -n "$2" ] && export VERIF_TIER="$2"
case "$id" in
  C31) build_cli ;;
  C25) build_sched; exec "$here/bin/vh-sched" run "$id" ;;
esac
build vh
exec "$here/bin/vh" run "$id"
