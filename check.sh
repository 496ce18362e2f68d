#!/bin/bash
# check.sh ID [quick|thorough]: one property, judged on /repo's current working tree.
[ -n "$2" ] && export VERIF_TIER="$2"
exec bash "$(dirname "$0")/vx.sh" check "$1"
