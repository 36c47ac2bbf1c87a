#!/bin/bash
# check.sh ID [engine flags]: decides one property on /repo's current working tree.
cd "$(dirname "$0")"
if [ ! -x bin/gosym ] || [ -n "$(find engine -name '*.go' -newer bin/gosym -print -quit)" ]; then
  ./build.sh || { echo "the engine does not build"; exit 2; }
fi
exec bin/gosym check "$@"
