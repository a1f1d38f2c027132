#!/bin/bash
# The real tools, the stand-in formatter and the file fault shims.
cd "$(dirname "$0")" || exit 3
. ../../env.sh
mkdir -p "$CARGO_TARGET_DIR"
for n in simio ambient; do
  out=$CARGO_TARGET_DIR/$n.so
  if [ ! -f "$out" ] || [ ../../shims/$n/$n.c -nt "$out" ]; then
    gcc -shared -fPIC -O2 -w -o "$out.$$" ../../shims/$n/$n.c && mv "$out.$$" "$out" || exit 3
  fi
done
cargo build --offline -q --bin extract_cpp_from_rust --bin rust_with_cpp_fmt --bin collect --bin faketool
