#!/bin/bash
# Builds, from /repo's current tree, the instrumented engine (rsx) and the plain
# engine (plain). Prints the directory that holds them.
set -e
unset O ARCH DEBUG CROSS_COMPILE CLANG M CFLAGS LIBS HOST_CFLAGS HOST_LIBS MAKEFLAGS MAKELEVEL
export LANG=C.UTF-8
V=$(cd "$(dirname "$0")/.." && pwd); R=${RSX_REPO:-/repo}
C=${RSX_CACHE:-$V/.cache}; export RSX_CACHE=$C
mkdir -p "$C"; exec 9>"$C/lock"; flock 9
Z3D=$(echo /opt/veriftools/pyvenv/lib/python3*/site-packages/z3)
# engine
EH=$(cat $V/engine/rsxpass.cpp $V/engine/rsxabi.h | sha256sum | cut -c1-16)
P=$C/pass-$EH.so
if [ ! -f $P ]; then
  clang++ -O1 -fPIC -shared $(llvm-config-18 --cxxflags 2>/dev/null || llvm-config --cxxflags) -fno-rtti -w -o $P.tmp $V/engine/rsxpass.cpp 1>&2; mv $P.tmp $P
fi
EE=$(cat $V/engine/*.cpp $V/engine/*.h | sha256sum | cut -c1-16)
X=$C/rsx-$EE.o; Y=$C/expr-$EE.o
if [ ! -f $X ] || [ ! -f $Y ]; then
  clang++ -O2 -g1 -c -w -I$Z3D/include -o $X.tmp $V/engine/rsx.cpp & p1=$!
  clang++ -O2 -g1 -c -w -I$Z3D/include -o $Y.tmp $V/engine/expr.cpp; wait $p1
  mv $X.tmp $X; mv $Y.tmp $Y
fi
export RSX_PASS=$P RSX_PASSHASH=$EH
B=$C/b; rm -rf "$B"; mkdir -p $B/i $B/p
cd $R
mk() { make --no-print-directory -s -f $R/Makefile O=$1 CC="python3 $V/bin/rsxcc $2" AR=ar "${@:3}"; }
make --no-print-directory -s O=$B/i config >/dev/null 2>$B/cfg.log || { cat $B/cfg.log >&2; exit 1; }
cp -a $B/i/. $B/p/
sed -i "s#$B/i#$B/p#g" $B/p/config.mk 2>/dev/null || true
mk $B/i inst -j10 $B/i/libratjs.a >$B/i.log 2>&1 || { cat $B/i.log >&2; exit 1; }
# the plain tree shares the generated files
cp -a $B/i/gen $B/i/src $B/p/ ; find $B/p -name '*.o' -delete
mk $B/p plain -j10 $B/p/libratjs.a >$B/p.log 2>&1 || { cat $B/p.log >&2; exit 1; }
INC="-I$R/include -I$B/i/include -I$R/src/lib -I$B/i/src/lib -I$V/engine"
python3 $V/bin/rsxcc inst -c -o $B/i/harness.o $V/engine/harness.c $INC -fPIC
python3 $V/bin/rsxcc inst -c -o $B/i/rsxlibc.o $V/engine/rsxlibc.c -fPIC -fno-builtin
python3 $V/bin/rsxcc plain -c -o $B/p/harness.o $V/engine/harness.c $INC -fPIC
python3 $V/bin/rsxcc plain -c -o $B/p/plain.o $V/engine/plain.c $INC -fPIC
clang++ -no-pie -Wl,--wrap=rjs_gc_add -o $B/rsx $B/i/harness.o $B/i/rsxlibc.o $X $Y $B/i/libratjs.a $Z3D/lib/libz3.so -Wl,-rpath,$Z3D/lib -lm -lpthread -ldl -licuuc -licudata -lffi 1>&2
clang++ -o $B/plain $B/p/harness.o $B/p/plain.o $B/p/libratjs.a -Wl,--wrap=rjs_gc_add -lm -lpthread -ldl -licuuc -licudata -lffi 1>&2
echo $B
