#!/bin/bash
# Disassemble the LLVM bitcode that the toolchain ships inside the standard library's rlibs.
# usage: stdir.sh OUTDIR
set -e
out=$1
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
root=$(rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu
mkdir -p "$out"
one() {
  c=$1 f=$2
  d="$out/x.$c"; mkdir -p "$d"; cd "$d"
  "$root/bin/llvm-ar" x "$f"
  for o in *.o; do
    "$root/bin/llvm-objcopy" --dump-section=.llvmbc="$o.bc" "$o" 2>/dev/null && "$root/bin/llvm-dis" "$o.bc" -o "$out/$c.$o.ll"
  done
  cd "$out"; rm -r "$d"
}
for c in core alloc std hashbrown std_detect memchr gimli addr2line object miniz_oxide rustc_demangle adler2 unwind cfg_if; do
  for f in "$root"/lib/lib$c-*.rlib; do one $c "$f" & done
done
wait
touch "$out/done"
