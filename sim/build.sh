#!/bin/bash
# usage: build.sh OUTDIR [REPO]   builds the simulator and the library under test
set -e
out=$1; repo=${2:-/repo}; here=$(cd "$(dirname "$0")" && pwd); mkdir -p "$out"
CX="clang++ -std=gnu++17 -O2 -g1 -fno-strict-aliasing -Wall -Wno-unused-function -Wno-deprecated-declarations -fno-builtin-malloc"
SU="clang++ -std=gnu++14 -include stdexcept -O1 -g -fPIC -fsanitize=thread -femulated-tls -fno-omit-frame-pointer -fno-builtin-memcmp -w -I$repo/include"
key(){ cat "$@" | sha256sum | cut -c1-16; }
pids=()
for f in core heap race sync vfs plan oracle exec gen main; do
  ( k=$(cat $here/*.h $here/*.inc $here/$f.cpp $here/build.sh | sha256sum | cut -c1-16); o=$out/$f.$k.o
    [ -f $o ] || { rm -f $out/$f.*.o; $CX -c $here/$f.cpp -o $o.tmp && mv $o.tmp $o; }; echo $o > $out/$f.path ) & pids+=($!)
done
( rm -f $out/sut.so; ( $SU -I$repo -c $here/sut_cli.cpp -o $out/sut_cli.o 2>$out/cli.err || { echo "tools/nudb.cpp cannot be built"; cat $out/cli.err; $SU -DSUT_NO_CLI -c $here/sut_cli.cpp -o $out/sut_cli.o; } ) & c=$!
  $SU -c $here/sut.cpp -o $out/sut.o && wait $c && L="-lboost_program_options -lboost_filesystem" && clang++ -shared -nostdlib -o $out/sut.so $out/sut.o $out/sut_cli.o -Wl,-Bsymbolic -Wl,--version-script=$here/sut.map -Wl,-z,now -Wl,-z,relro -Wl,-soname,sut.so \
   -Wl,--wrap=memcmp -Wl,--wrap=bcmp -Wl,--wrap=__cxa_atexit -Wl,--wrap=memcpy -Wl,--wrap=memmove -Wl,--wrap=memset -lboost_thread $L ) & pids+=($!)
rc=0; for p in "${pids[@]}"; do wait $p || rc=1; done; [ $rc = 0 ]
objs=""; for f in core heap race sync vfs plan oracle exec gen main; do objs="$objs $(cat $out/$f.path)"; done
clang++ -rdynamic -o $out/simnudb $objs $out/sut.so -Wl,-rpath,'$ORIGIN' -ldl -lpthread
