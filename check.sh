#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decides one property on /repo's current working tree
cd "$(dirname "$0")" || exit 2
[ -x bin/gvc ] || bash build.sh || exit 2
T="${2:-${VERIF_TIER:-quick}}"
exec ./bin/gvc -tier "$T" check "$1"
