#!/bin/bash
# run.sh PROPERTY TIER [more arguments for mc]
# Builds the contracts from /repo's working tree and the model checker, then runs one property.
# Exit: 0 held, 1 violation, 3 could not decide (build or engine failure).
here=$(cd "$(dirname "$0")" && pwd)
prop=$1; tier=$2; shift 2
. "$here/build.sh" || exit 3
exec "$here/.build/mc/release/mc" "$prop" --tier "$tier" --wasm "$here/.build/out" --out "$here" "$@"
