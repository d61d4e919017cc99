#!/bin/bash
# tools/build.sh sess|vsim|all : build the harness against the working tree of /repo
set -eu
cd "$(dirname "$(readlink -f "$0")")/.."
ROOT="$PWD"; REPO="${VERIF_REPO:-/repo}"
export CARGO_NET_OFFLINE=true
mkdir -p target
# cargo decides staleness by modification time; decide it by content instead, so
# that a tree swapped under us with older times is always rebuilt
h=$( (cd "$REPO" && find . \( -name target -o -name .git \) -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.json' \) -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; cat "$ROOT/drivers/rustc-wrap.sh") | sha256sum | cut -c1-32)
stale() { # target dir
  if [ "$(cat "$1/.repohash" 2>/dev/null || true)" != "$h" ]; then
    find "$1" -path '*/.fingerprint/*' -maxdepth 4 -type d \( -name 'vru*' -o -name 'rac-*' -o -name 'sess-*' -o -name 'drivers-*' -o -name 'kyber*' \) -exec rm -rf {} + 2>/dev/null || true
  fi
}
fresh() { echo "$h" > "$1/.repohash"; }
build_sess() {
  stale "$ROOT/target/sess"
  (cd sess && cargo build --release --offline --target-dir "$ROOT/target/sess")
  fresh "$ROOT/target/sess"
}
build_vsim() {
  mkdir -p target/simrt
  s=$(cat simrt/* | sha256sum)
  if [ ! -f target/simrt/libsimrt.so ] || [ "$(cat target/simrt/.hash 2>/dev/null || true)" != "$s" ]; then
    gcc -O2 -g -Wall -Wextra -Wno-unused-parameter -fPIC -shared -o target/simrt/new.so simrt/simrt.c -ldl
    mv target/simrt/new.so target/simrt/libsimrt.so
    echo "$s" > target/simrt/.hash
  fi
  stale "$ROOT/target/drivers"
  (cd drivers && SIMRT_DIR="$ROOT/target/simrt" RUSTC_WRAPPER="$ROOT/drivers/rustc-wrap.sh" cargo build --release --offline --target-dir "$ROOT/target/drivers")
  fresh "$ROOT/target/drivers"
  (cd vsim && cargo build --release --offline --target-dir "$ROOT/target/vsim")
}
case "${1:-all}" in
  sess) build_sess ;;
  vsim) build_vsim ;;
  all) build_sess; build_vsim ;;
esac
