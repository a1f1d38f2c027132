#!/bin/bash
# The stand-in cargo, the tool under test and the file fault shim.
cd "$(dirname "$0")" || exit 3
. ../../env.sh
mkdir -p "$CARGO_TARGET_DIR"
out=$CARGO_TARGET_DIR/simio.so
if [ ! -f "$out" ] || [ ../../shims/simio/simio.c -nt "$out" ]; then
  gcc -shared -fPIC -O2 -w -o "$out.$$" ../../shims/simio/simio.c && mv "$out.$$" "$out" || exit 3
fi
cargo build --offline -q --bin fakecargo --bin cargo-cpp_api_from_rust
