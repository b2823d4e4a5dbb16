#!/bin/bash
# check.sh <property> quick|thorough            decide a property on /repo's working tree
# check.sh <property> replay <family> <choices> [tier]   run one case again
# Exit 0: held. Exit 1 and a VIOLATION line: broken. Anything else: the check itself failed.
set -u
cd "$(dirname "$0")" || exit 98
export VERIF_DIR=$PWD
. ./build.sh || { echo "ENGINE ERROR: build failed" >&2; exit 98; }
if [ "${2:-}" = replay ]; then
    MC_TIER=${5:-quick} exec target/release/mc "$1" replay "$3" "$4"
fi
exec target/release/mc "$1" "${2:-quick}"
