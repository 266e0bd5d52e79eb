#!/bin/bash
# replay.sh <replay file>: re-run the exploration that found a violation.
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$here"
"$here/build.sh" native && "$here/build.sh" tfhe || exit 2
exec "$here/target/native/release/mc" replay "$1" --also "$here/target/tfhe/prod/mc"
