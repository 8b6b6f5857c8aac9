#!/bin/bash
# Adds the simulation cfg and SanitizerCoverage (the scheduler's pre-emption points) to the crate
# under test only; lets the harness use the allocation-error hook.
rustc="$1"; shift
crate=""
prev=""
for a in "$@"; do
  if [ "$prev" = "--crate-name" ]; then crate="$a"; break; fi
  prev="$a"
done
case "$crate" in
  geos_rs)
    exec "$rustc" "$@" --cfg geos_sim --cap-lints allow \
      -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Ccodegen-units=8 ;;
  geos_dst)
    RUSTC_BOOTSTRAP=1 exec "$rustc" "$@" -Clink-arg=-Wl,--wrap=memcpy,--wrap=memmove ;;
  *)
    exec "$rustc" "$@" ;;
esac
