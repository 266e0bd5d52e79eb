#!/bin/bash
# Build the explorer against /repo's working tree. Usage: build.sh native|tfhe
set -e
export HOME="${HOME:-/root}" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
unset CARGO_TARGET_DIR RUSTC_WRAPPER RUSTFLAGS CARGO_BUILD_TARGET_DIR
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here/harness"
cfg="$1"
td="$here/target/$cfg"
mkdir -p "$td"
# cargo trusts modification times; make the decision depend on the contents instead
sum="$(find /repo/crates /repo/Cargo.toml -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.proto' -o -name '*.md' \) -not -path '*/target/*' -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)"
feat=()
prof=release
if [ "$cfg" = tfhe ]; then
  feat=(--features tfhe-ntt)
  prof=prod # no debug assertions, no overflow checks: what users ship
  # the second build also compiles the AVX2 variants of the scalar code, where the CPU can run them
  if grep -qw avx2 /proc/cpuinfo; then export RUSTFLAGS="-C target-feature=+avx2"; fi
fi
if [ "$(cat "$td/.srcsum" 2>/dev/null)" != "$sum" ]; then
  rm -f "$td/.srcsum"
  cargo clean --offline --profile "$prof" --target-dir "$td" -p fhe -p fhe-math -p fhe-util -p fhe-traits -p mc >/dev/null 2>&1 || true
fi
if ! cargo build --profile "$prof" --offline --locked --target-dir "$td" "${feat[@]}" >"$td/build.log" 2>&1; then
  tail -60 "$td/build.log" >&2
  exit 2
fi
echo "$sum" > "$td/.srcsum"
