#!/bin/bash
# Compile the C libraries that the tools use (libgit2 and PCRE2 as vendored by their -sys crates, and
# zlib) to LLVM IR for the executor and to archives for native replays.
# usage: clibs.sh OUTDIR
set -e
out=$1
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
root=$(rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu
src=$(echo ~/.cargo/registry/src/*/)
git=$src/libgit2-sys-0.14.2+1.5.1/libgit2
pcre=$src/pcre2-sys-0.2.0/pcre2
z=$src/libz-sys-1.1.2/src/zlib
mkdir -p "$out"/{ll,obj,inc,pinc}
cp -r "$git"/include/. "$out/inc"
cat > "$out/inc/git2/sys/features.h" <<'F'
#ifndef INCLUDE_features_h
#define INCLUDE_features_h
#define GIT_THREADS 1
#define GIT_TRACE 1
#define GIT_USE_NSEC 1
#define GIT_USE_STAT_MTIM 1
#define GIT_ARCH_64 1
#define GIT_SHA1_COLLISIONDETECT 1
#define GIT_SHA256_BUILTIN 1
#endif
F
cp "$pcre/src/config.h.generic" "$out/pinc/config.h"
cp "$pcre/src/pcre2.h.generic" "$out/pinc/pcre2.h"
cp "$pcre/src/pcre2_chartables.c.dist" "$out/pinc/pcre2_chartables.c"
base="-O1 -w -fno-vectorize -fno-slp-vectorize -fno-stack-protector -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0"
gflags="-I$out/inc -I$git/src/libgit2 -I$git/src/util -I$git/deps/http-parser -I$git/deps/pcre -I$z
 -DGIT_REGEX_BUILTIN=1 -DHAVE_STDINT_H=1 -DHAVE_MEMMOVE=1 -DNO_RECURSE=1 -DNEWLINE=10 -DPOSIX_MALLOC_THRESHOLD=10 -DLINK_SIZE=2
 -DPARENS_NEST_LIMIT=250 -DMATCH_LIMIT=10000000 -DMATCH_LIMIT_RECURSION=MATCH_LIMIT -DMAX_NAME_SIZE=32 -DMAX_NAME_COUNT=10000
 -DSHA1DC_NO_STANDARD_INCLUDES=1 -DSHA1DC_CUSTOM_INCLUDE_SHA1_C=\"common.h\" -DSHA1DC_CUSTOM_INCLUDE_UBC_CHECK_C=\"common.h\""
pflags="-I$out/pinc -I$pcre/src -DHAVE_CONFIG_H -DPCRE2_CODE_UNIT_WIDTH=8 -DHAVE_STDLIB_H=1 -DHAVE_MEMMOVE=1 -DHEAP_LIMIT=20000000 -DLINK_SIZE=2
 -DMATCH_LIMIT=10000000 -DMATCH_LIMIT_DEPTH=10000000 -DMAX_NAME_COUNT=10000 -DMAX_NAME_SIZE=32 -DNEWLINE_DEFAULT=2 -DPARENS_NEST_LIMIT=250
 -DPCRE2_STATIC=1 -DSTDC_HEADERS=1 -DSUPPORT_PCRE2_8=1 -DSUPPORT_UNICODE=1"
zflags="-I$z -DHAVE_UNISTD_H -DHAVE_STDARG_H"
list() {
  for f in "$git"/src/libgit2/*.c "$git"/src/util/*.c "$git"/src/libgit2/{xdiff,transports,streams}/*.c "$git"/deps/http-parser/http_parser.c "$git"/deps/pcre/*.c \
    "$git"/src/util/allocators/{failalloc,stdalloc}.c "$git"/src/util/unix/*.c "$git"/src/util/hash/{collisiondetect,builtin}.c \
    "$git"/src/util/hash/sha1dc/{sha1,ubc_check}.c "$git"/src/util/hash/rfc6234/sha224-256.c; do echo "git2 $f"; done
  for f in auto_possess compile config context convert dfa_match error extuni find_bracket jit_compile maketables match match_data newline ord2utf pattern_info serialize string_utils study substitute substring tables ucd valid_utf xclass; do
    echo "pcre2 $pcre/src/pcre2_$f.c"; done
  echo "pcre2 $out/pinc/pcre2_chartables.c"
  for f in adler32 crc32 deflate infback inffast inflate inftrees trees zutil compress uncompr; do echo "z $z/$f.c"; done
}
one() {
  lib=$1 f=$2
  case $lib in git2) fl=$gflags ;; pcre2) fl=$pflags ;; z) fl=$zflags ;; esac
  n=$lib.$(echo "${f##*registry/src/}" | sed 's|^[^/]*/[^/]*/||; s|[^A-Za-z0-9_.]|_|g')
  clang-18 $base $fl -fno-pic -c -emit-llvm "$f" -o "$out/obj/$n.bc"
  "$root/bin/llvm-dis" "$out/obj/$n.bc" -o "$out/ll/$n.ll"
  clang-18 $base $fl -fPIC -c "$f" -o "$out/obj/$n.o"
}
export -f one; export out root base gflags pflags zflags
list | xargs -P 8 -L 1 bash -c 'one "$0" "$1" || { echo "$1 failed" >&2; exit 255; }'
for l in git2 pcre2 z; do ar cr "$out/lib$l.a" "$out"/obj/$l.*.o; done
mv "$out/libpcre2.a" "$out/libpcre2-8.a"
# the library functions that are executed instead of modelled
clang-18 $base -ffreestanding -fno-builtin -fno-pic -c -emit-llvm "$(dirname "$0")/../symex/libc/mini.c" -o "$out/obj/mini.bc"
"$root/bin/llvm-dis" "$out/obj/mini.bc" -o "$out/ll/mini.ll"
rm "$out"/ll/*sha1dc_{sha1,ubc_check}.c.ll
rm -r "$out/obj"
touch "$out/done"
