#!/bin/bash
# check.sh <property>          build from /repo's working tree and run the check
# check.sh replay <file>       replay a recorded violation
# check.sh det <property> [n]  determinism self-test: n plans, run twice, log hashes compared
set -u
cd "$(dirname "$(readlink -f "$0")")"
export VERIF_ROOT="$PWD" RUST_BACKTRACE=0 CARGO_NET_OFFLINE=true
: "${VERIF_REPO:=/repo}"; export VERIF_REPO
mkdir -p build evidence
mode=check; arg="${1:?usage: check.sh <property>}"
case "$arg" in
  replay) mode=replay; file="${2:?file}"; id=$(sed -n 's/^ *"property": *"\(C[0-9]*\)".*/\1/p' "$file" | head -1) ;;
  det) mode=det; id="${2:?property}" ;;
  *) id="$arg" ;;
esac
case "$id" in
  C01|C02|C03|C04|C05|C06|C07|C22|C23|C24|C27) part=sess ;;
  C08|C09|C1?|C20|C21|C25|C26) part=vsim ;;
  *) echo "unknown property $id" >&2; exit 2 ;;
esac
( flock 9; ./tools/build.sh $part ) 9>build/.lock >build/build-$part.log 2>&1 || { tail -40 build/build-$part.log >&2; echo "build of $part failed" >&2; exit 2; }
case $mode in
  check) exec ./target/$part/release/$part check "$id" ;;
  replay) exec ./target/$part/release/$part replay "$file" ;;
  det) exec ./target/$part/release/$part det "$id" "${3:-200}" ;;
esac
