#!/bin/bash
# check.sh ID quick|thorough [engine options]
# Rebuilds the harness of property ID from /repo's working tree and runs it.
cd "$(dirname "$0")" || exit 2
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export VERIF_DIR=$PWD
export LC_ALL=C
id=$1; tier=$2; shift 2
python3 build.py "$id" || exit 2
export VERIF_SPIFF=$PWD/build/spiff
exec "$PWD/build/$id" --tier "$tier" "$@"
