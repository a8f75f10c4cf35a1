#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough] [extra gosym flags]
# Builds the engine if it is missing or older than its sources, then decides
# the property on /repo's current working tree.
set -u
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
shift; [ $# -gt 0 ] && shift
. "$here/build.sh" || exit 3
exec "$here/build/gosym" check -prop "$prop" -tier "$tier" "$@"
