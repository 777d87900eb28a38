#!/bin/bash
# cargo's rustc wrapper: instruments the crates of /repo and those that fetch entropy so that
# every basic block, load and store calls back into the simulator's scheduler.
rustc="$1"; shift
inst=0; prev=""
for a in "$@"; do
  if [ "$prev" = "--crate-name" ]; then
    case "$a" in keychain|bip39|secp256k1_bip32|rust_keychain|rand_os|getrandom|lazy_static|spin) inst=1;; esac
  fi
  prev="$a"
done
if [ $inst = 1 ]; then
  exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
    -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
    -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores
fi
exec "$rustc" "$@"
