#!/bin/bash
# build.sh OUTDIR [target...]
# Mirrors /repo's current working tree (src/, ruby/) into OUTDIR, runs the project's own code generators
# there (gperf + ragel), and builds the harness binaries.  Never writes in /repo.
# targets: srv (sanitized request server)  cli (plain ohcount)  cliasan  ruby (ohcount.so)  fuzz
set -eo pipefail
HERE=$(cd "$(dirname "$0")" && pwd)
OUT=$1; shift
REPO=${OHC_REPO:-/repo}
export LANG=C.UTF-8 LC_ALL=C.UTF-8
unset MAKEFLAGS CFLAGS CPPFLAGS LDFLAGS RUBYOPT RUBYLIB
mkdir -p "$OUT"
rm -rf "$OUT/src" "$OUT/ruby"
cp -r "$REPO/src" "$OUT/src"
mkdir -p "$OUT/ruby"
( cd "$REPO/ruby" && tar cf - --exclude='*.so' --exclude='ohcount_wrap.c' . ) | ( cd "$OUT/ruby" && tar xf - )
( cd "$OUT/src/hash" && rm -f ./*.h language_hash.c && bash ./generate_headers ) > "$OUT/hash.log" 2>&1 || { cat "$OUT/hash.log"; exit 3; }
( cd "$OUT/src/parsers" && rm -f ./*.h && bash ./compile ) > "$OUT/parsers.log" 2>&1 || { tail -50 "$OUT/parsers.log"; exit 3; }
for f in "$OUT"/src/parsers/*.rl; do [ -s "${f%.rl}.h" ] || { echo "ragel failed on $f"; exit 3; }; done
exec make -s -j8 -f "$HERE/Makefile" OUT="$OUT" HERE="$HERE" "$@"
