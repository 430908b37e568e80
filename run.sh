#!/bin/bash
# run.sh <property> [tier]: decide one property from /repo's current source.
cd "$(dirname "$0")" || exit 1
. ./build.sh || exit 1
exec ./bin/njcheck -repo "${NJ_REPO:-/repo}" -verif "$PWD" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"
