#!/bin/bash
# Builds the harness from /repo's working tree: tools/build.sh [property id | all]
set -u
root="$(cd "$(dirname "$0")/.." && pwd)"
sum="$(cd /repo && find Cargo.toml src -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)"
one() { # target dir, cargo arguments
  local dir="$root/$1"; shift
  mkdir -p "$dir"
  exec 9>"$dir/.lock"; flock 9
  export CARGO_TARGET_DIR="$dir"
  cd "$root/harness" || return 1
  # never trust timestamps: if the code differs from what was built last, build it anew
  if [ "$(cat "$dir/.repo-sum" 2>/dev/null)" != "$sum" ]; then
    rm -f "$dir/.repo-sum"
    cargo clean --release --offline -p liso >/dev/null 2>&1
  fi
  cargo build --release --offline "$@" 2>"$dir/.build-log" || { tail -40 "$dir/.build-log" >&2; return 1; }
  echo "$sum" >"$dir/.repo-sum"
  exec 9>&-
}
feats() { # the builds of C28: not all of the optional features
  one target-feat0 --no-default-features &
  local a=$!
  one target-feat1 --no-default-features --features "wrap history" &
  local b=$!
  one target-feat2 --no-default-features --features "completion global" &
  local c=$!
  one target-feat3 --no-default-features --features "history completion capture" &
  local d=$!
  local r=0 p
  for p in $a $b $c $d; do wait $p || r=1; done
  return $r
}
case "${1:-all}" in
  all) one target && one target-capture --features capture && feats ;;
  C23) one target-capture --features capture ;;
  C28) one target && feats ;;
  *) one target ;;
esac
