#!/bin/bash
# builds every check from the committed files (a check rebuilds what changed)
V=$(cd "$(dirname "$0")" && pwd)
cd $V && mkdir -p evidence replays
for f in props/*.cc; do
    id=$(basename $f | cut -d_ -f1)
    ./build.sh $id >/dev/null || exit 1
done
exit 0
