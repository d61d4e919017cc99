#!/bin/bash
# RUSTC_WRAPPER: scheduling points (one per basic-block edge) in the code under test,
# and the simulator linked ahead of the C library into the binaries.
rustc="$1"; shift
name=
prev=
for a in "$@"; do
  [ "$prev" = --crate-name ] && name="$a"
  prev="$a"
done
COV="-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard"
case "$name" in
  vru_udp|vru_tcp|sled|parking_lot|parking_lot_core|popol) exec "$rustc" "$@" $COV ;;
  udp_driver|tcp_driver|sut_node|sut_client) exec "$rustc" "$@" $COV -L "native=$SIMRT_DIR" -C "link-arg=-Wl,--no-as-needed" -l dylib=simrt -C "link-arg=-Wl,-rpath,$SIMRT_DIR" ;;
  *) exec "$rustc" "$@" ;;
esac
