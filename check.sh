#!/bin/bash
# check.sh ID [quick|thorough|replay FILE|soak N]: builds what the check needs from /repo's working
# tree and runs it. Exit 0: held; 1: VIOLATION; anything else: the check could not run.
cd "$(dirname "$0")" || exit 3
export VERIF_DIR=$PWD
. ./env.sh
id=$1; shift
mkdir -p target build
case "$id" in
  C01) crate=ctor; bin=c01 ;;
  C02) crate=ctor; bin=c02 ;;
  C03) crate=rsstd; bin=c03 ;;
  C04) crate=rsstd; bin=c04 ;;
  C05) crate=rsstd; bin=c05 ;;
  C19) crate=rsstd; bin=c19 ;;
  C06) crate=bind; bin=c06 ;;
  C07) crate=bind; bin=c07 ;;
  C08) crate=pure; bin=c08 ;;
  C09) crate=pure; bin=c09 ;;
  C10) crate=pure; bin=c10 ;;
  C11) crate=tools; bin=c11 ;;
  C12) crate=gen; bin=c12 ;;
  C13) crate=gen; bin=c13 ;;
  C14) crate=cargo; bin=c14 ;;
  C15) crate=ccstd; bin=c15 ;;
  C16) crate=ccstd; bin=c16 ;;
  C17) crate=scan; bin=c17 ;;
  C18) crate=explorer; bin=c18 ;;
  C20) crate=pure; bin=c20 ;;
  C21) crate=iter; bin=c21 ;;
  C22) crate=irgen; bin=c22 ;;
  C23) crate=irgen; bin=c23 ;;
  C24) crate=irgen; bin=c24 ;;
  C25) crate=irgen; bin=c25 ;;
  *) echo "unknown check $id"; exit 3 ;;
esac
if [ -x checks/$crate/prepare.sh ]; then
  checks/$crate/prepare.sh "$id" >target/prepare-$id.log 2>&1 || { tail -40 target/prepare-$id.log; echo "prepare failed"; exit 3; }
fi
(cd checks/$crate && cargo build --offline -q --bin $bin) 2>target/build-$id.log || { grep -A8 '^error' target/build-$id.log | head -60; echo "build failed"; exit 3; }
rm -f target/build-$id.log
case "${1:-quick}" in
  quick) exec target/debug/$bin quick ;;
  thorough) VERIF_TIER=thorough exec target/debug/$bin thorough ;;
  *) exec target/debug/$bin "$@" ;;
esac
