#!/bin/bash
# Build both explorers (native and tfhe-ntt back ends).
here="$(cd "$(dirname "$0")" && pwd)"
"$here/build.sh" native && "$here/build.sh" tfhe
