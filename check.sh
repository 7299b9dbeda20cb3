#!/bin/bash
# check.sh PROPERTY: decides one property for the current tree of /repo (tier from VERIF_TIER).
cd "$(dirname "$0")" || exit 2
. ./env.sh
newest=$(find engine -newer bin/gosmt 2>/dev/null | head -1)
if [ ! -x bin/gosmt ] || [ -n "$newest" ]; then bash ./setup.sh || exit 2; fi
exec ./bin/gosmt check "$1"
