#!/bin/bash
# Builds the engine and warms its build cache.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/build.sh" || exit 1
"$here/build/gosym" prebuild || true
exit 0
