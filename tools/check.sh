#!/bin/bash
# check.sh PROPERTY TIER: decides one property on /repo's current tree.
cd "$(dirname "$0")/.."
if [ ! -x bin/gover ] || [ -n "$(find gover -name '*.go' -newer bin/gover -print -quit 2>/dev/null)" ]; then
  bash tools/setup.sh || exit 3
fi
exec bin/gover -verif "$PWD" -repo /repo -prop "$1" -tier "$2"
