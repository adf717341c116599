#!/bin/bash
# RUSTC_WRAPPER of the "cov" build: instruments the program, what it decodes with, and the harness (which instantiates
# the program's generics), and links the counters into the harness.
rustc=$1; shift
name=
prev=
cross=
for a in "$@"; do
    [ "$prev" = --crate-name ] && name=$a
    prev=$a
    [ "$a" = --target ] && cross=1
done
# build scripts and macro crates, which run on the host inside the compiler, stay as they are
[ -z "$cross" ] && exec "$rustc" "$@"
edges=(-C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc-guard --cfg aob_cov)
case $name in
asset_agnostic_orderbook | borsh | bytemuck | bonfida_utils)
    exec "$rustc" "$@" "${edges[@]}"
    ;;
aobmon)
    exec "$rustc" "$@" "${edges[@]}" -C "link-arg=$AOB_COV_O" -C link-arg=-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memcmp
    ;;
esac
exec "$rustc" "$@"
