#!/bin/bash
# tryseed.sh ID...: in a scratch copy of /repo, confirm each planted change (builds, stable tests pass, demo 0 / nonzero)
w=/tmp/tryseed.$$; mkdir -p $w; trap 'rm -rf "$w"' EXIT
cp -a /repo $w/repo; cd $w/repo || exit 9
export CARGO_TARGET_DIR=$w/repo/target CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= 
run() { rm -rf target/debug/.fingerprint/faerie-*; cargo test --workspace --no-run --offline >$w/b.log 2>&1 || { echo "BUILD FAILS"; tail -20 $w/b.log; return; }
  cargo test --workspace --offline --no-fail-fast >$w/t.log 2>&1; grep -E '^test .*FAILED' $w/t.log; }
for id in "$@"; do
  s=/verif/seeded/$id
  git checkout -q -- .; 
  bash $s/demo.sh >$w/d0.log 2>&1; a=$?
  git apply $s/patch.diff || { echo "$id PATCH"; continue; }
  r=$(run)
  bash $s/demo.sh >$w/d1.log 2>&1; b=$?
  echo "$id unchanged=$a patched=$b tests=[${r//$'\n'/; }]"
  [ $a = 0 ] || tail -5 $w/d0.log
  [ $b = 0 ] && tail -5 $w/d1.log
  [ $b = 8 ] && tail -5 $w/d1.log
done
