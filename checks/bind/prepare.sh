#!/bin/bash
# The bindings of crates `vals` and `calls`, by the real generator.
cd "$(dirname "$0")" || exit 3
here=$PWD
. ../../env.sh
(cd ../gen && cargo build --offline -q --bin cc_bindings_from_rs) || exit 3
s=$(rustc --print sysroot)
g=$CARGO_TARGET_DIR/bind
bindings() { # crate, folder, flags
  local c=$1 d=$2; shift 2
  mkdir -p "$d/tmp/gen" && cd "$d/tmp" || exit 3
  if [ -d "$here/${c}_gen" ]; then cp -r "$here/${c}_gen/." . || exit 3; else touch gen/core.h gen/alloc.h; fi
  touch gen/std.h
  rustc --edition 2021 --crate-type lib --emit metadata=lib$c.rmeta --crate-name $c "$here/$c/src/lib.rs" -A warnings || exit 3
  LD_LIBRARY_PATH=$s/lib "$CARGO_TARGET_DIR/debug/cc_bindings_from_rs" --h-out api.h --rs-out impl.rs \
    --crubit-support-path-format '"support/{header}"' --source-crate-name $c --extern $c=lib$c.rmeta --sysroot "$s" -Ldependency=. \
    --default-features=supported,experimental --crate-header=core=gen/core.h --crate-header=alloc=gen/alloc.h --crate-header=std=gen/std.h || exit 3
  mkdir -p "$d/gen"
  for f in gen/core.h gen/alloc.h gen/std.h api.h impl.rs; do cmp -s $f "$d/$f" || cp $f "$d/$f" || exit 3; done
}
bindings vals "$g"
bindings calls "$g/calls"
