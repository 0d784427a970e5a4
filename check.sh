#!/bin/bash
# check.sh <PROPERTY|build> <quick|thorough> [--only <case>]
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true HOME=/root
export PATH=/root/.cargo/bin:$PATH
cd "$(dirname "$0")" || exit 3
V=$(pwd)
export CARGO_TARGET_DIR=$V/target VERIF_ROOT=$V
mkdir -p "$CARGO_TARGET_DIR"
# cargo decides by time stamps; decide by content instead
exec 9>"$V/target/.buildlock"; flock 9
H=$( (cd /repo && find src Cargo.toml -type f | LC_ALL=C sort | xargs sha256sum | sha256sum) | cut -c1-64)
if [ "$(cat target/.repohash 2>/dev/null)" != "$H" ]; then
  for d in "$V"/target/release/.fingerprint/vpin-*; do [ -d "$d" ] && rm -rf "$d"; done
  rm -f "$V/target/.repohash"
fi
if ! cargo build --release --offline --manifest-path mc/Cargo.toml >target/build.log 2>&1; then
  tail -60 target/build.log; echo "BUILD FAILED"; exit 3
fi
echo "$H" > target/.repohash
flock -u 9
[ "$1" = build ] && exit 0
exec target/release/mc "$@"
