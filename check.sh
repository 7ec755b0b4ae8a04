#!/bin/bash
# check.sh <ID> [--case <tier> <n>]: builds from /repo's working tree and runs one check.
here=$(cd "$(dirname "$0")" && pwd)
bash "$here/build.sh" "$1" || exit 2
case "$1" in
C09 | C11 | C12 | C19 | C20 | C21 | C22) bash "$here/build_real.sh" || exit 2 ;;
esac
export CEDMC_ROOT="$here"
exec "$here/harness/cedmc" "$@"
