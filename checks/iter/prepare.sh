#!/bin/bash
# The bindings of crate `iters`, by the real generator.
cd "$(dirname "$0")" || exit 3
here=$PWD
. ../../env.sh
(cd ../gen && cargo build --offline -q --bin cc_bindings_from_rs) || exit 3
s=$(rustc --print sysroot)
d=$CARGO_TARGET_DIR/iter
mkdir -p "$d/tmp/gen" "$d/gen" && cd "$d/tmp" || exit 3
cp -r "$here/iters_gen/." . && touch gen/std.h || exit 3
rustc --edition 2021 --crate-type lib --emit metadata=libiters.rmeta --crate-name iters "$here/iters/src/lib.rs" -A warnings || exit 3
LD_LIBRARY_PATH=$s/lib "$CARGO_TARGET_DIR/debug/cc_bindings_from_rs" --h-out api.h --rs-out impl.rs \
  --crubit-support-path-format '"support/{header}"' --source-crate-name iters --extern iters=libiters.rmeta --sysroot "$s" -Ldependency=. \
  --default-features=supported,experimental --crate-header=core=gen/core.h --crate-header=alloc=gen/alloc.h --crate-header=std=gen/std.h || exit 3
for f in gen/core.h gen/alloc.h gen/std.h api.h impl.rs; do cmp -s $f "$d/$f" || cp $f "$d/$f" || exit 3; done
