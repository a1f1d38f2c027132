#!/bin/bash
# The real generator, the stand-in formatter, the file fault shim and the input crates.
cd "$(dirname "$0")" || exit 3
here=$PWD
. ../../env.sh
mkdir -p "$CARGO_TARGET_DIR"
out=$CARGO_TARGET_DIR/simio.so
if [ ! -f "$out" ] || [ ../../shims/simio/simio.c -nt "$out" ]; then
  gcc -shared -fPIC -O2 -w -o "$out.$$" ../../shims/simio/simio.c && mv "$out.$$" "$out" || exit 3
fi
out=$CARGO_TARGET_DIR/ambient.so
if [ ! -f "$out" ] || [ ../../shims/ambient/ambient.c -nt "$out" ]; then
  gcc -shared -fPIC -O2 -w -o "$out.$$" ../../shims/ambient/ambient.c && mv "$out.$$" "$out" || exit 3
fi
p=$CARGO_TARGET_DIR/genpool
if [ ! -f "$p/done" ] || [ -n "$(find crates prepare.sh -newer "$p/done")" ]; then
  mkdir -p "$p"
  cp crates/*.rs "$p/"
  { echo '//! Larger than a pipe.'; for i in $(seq 1 420); do echo "/// Doc of item $i.
pub fn function_number_$i(a: i32, b: &i64) -> i32 { a + *b as i32 + $i }"; done; echo 'pub fn zz_last_function() {}'; } >"$p/big.rs"
  cd "$p" || exit 3
  r() { rustc --edition 2021 --crate-type lib --emit metadata="lib$1.rmeta" --crate-name "$1" -A warnings -L . "${@:2}" "$1.rs" || exit 3; }
  r dep
  for c in tiny empty rich errors traits mustbind big nostd; do r $c & done
  r user --extern dep=libdep.rmeta
  wait
  for c in tiny empty rich errors traits mustbind big nostd user; do [ -f lib$c.rmeta ] || exit 3; done
  touch done
fi
cd "$here" || exit 3
cargo build --offline -q --bin cc_bindings_from_rs --bin fakefmt
