#!/bin/bash
# The service's sources, verbatim, with its router made reachable.
cd "$(dirname "$0")" || exit 3
. ../../env.sh
d=$CARGO_TARGET_DIR/explorer
mkdir -p "$d" "$d.new"
cp /repo/crubit_explorer/src/*.rs "$d.new/"
echo '
#[allow(missing_docs)]
pub fn sim_app(frontend: Option<std::path::PathBuf>) -> axum::Router { app(frontend) }' >>"$d.new/main.rs"
for f in "$d.new"/*.rs; do
  cmp -s "$f" "$d/${f##*/}" || cp "$f" "$d/${f##*/}"
done
rm -rf "$d.new"
cargo build --offline -q --bin explorer_tool
