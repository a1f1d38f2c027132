#!/bin/bash
# Builds every check once, from the committed files and /repo.
cd "$(dirname "$0")" || exit 3
export VERIF_DIR=$PWD
. ./env.sh
mkdir -p target
rc=0
for d in checks/*/; do
  [ -x "$d/prepare.sh" ] && { "$d/prepare.sh" >/dev/null 2>&1 || { echo "prepare $d failed"; rc=1; }; }
  [ -f "$d/Cargo.toml" ] && { (cd "$d" && cargo build --offline -q 2>&1 | grep -A8 '^error') && rc=1; }
done
exit $rc
