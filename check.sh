#!/bin/bash
# check.sh <property id> <quick|thorough>: rebuild from /repo's working tree and explore.
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$here"
(
  flock 9
  "$here/build.sh" native || exit 2
) 9>"$here/.lock" || exit 2
mc="$here/target/native/release/mc"
also=()
if "$mc" list | grep -q "^$1 both$"; then
  ( flock 9; "$here/build.sh" tfhe || exit 2 ) 9>"$here/.lock" || exit 2
  also=(--also "$here/target/tfhe/prod/mc")
fi
exec "$mc" check "$1" "${2:-quick}" "${also[@]}"
