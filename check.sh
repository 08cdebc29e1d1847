#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decides one property on /repo's current source.
cd "$(dirname "$0")" || exit 2
. ./env.sh
if [ ! -x bin/analyzer ] || [ -n "$(find analyzer -newer bin/analyzer -name '*.go' -print -quit)" ]; then
  ./build.sh || exit 2
fi
exec ./bin/analyzer -repo "${VERIF_REPO:-/repo}" -verif "$PWD" -prop "$1" -tier "${2:-quick}"
