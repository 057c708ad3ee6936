#!/bin/bash
# RUSTC_WRAPPER: compiles giron and gsim_render with SanitizerCoverage edge
# callbacks and the simulator hook; every other crate is compiled as usual.
rustc=$1; shift
prev=
for a in "$@"; do
  if [ "$prev" = "--crate-name" ]; then
    case "$a" in
      giron) hook="--cfg giron_sim"; [ -n "$GSIM_NOHOOK" ] && hook=
        exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-prune-blocks=0 -Cllvm-args=-sanitizer-coverage-pc-table -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores $hook ;;
      gsim_render|giron_wasm)
        exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-prune-blocks=0 -Cllvm-args=-sanitizer-coverage-pc-table ;;
    esac
    break
  fi
  prev=$a
done
exec "$rustc" "$@"
