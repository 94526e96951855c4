#!/bin/bash
# Builds the simulator together with /repo's current sources into /verif/build.
# usage: build.sh [lib] [asan] [tools] [vala]     (default: lib)
set -e
V=$(cd "$(dirname "$0")" && pwd)
R=${VERIF_REPO:-/repo}
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin LC_ALL=C.UTF-8
what=${*:-lib}
B=$V/build
mkdir -p "$B"
exec 9>"$B/.lock"; flock 9
PK="glib-2.0 gio-2.0 gio-unix-2.0 gobject-2.0 libgsf-1 libxml-2.0"
CF="-g -fno-delete-null-pointer-checks -fno-builtin-fopen -fno-omit-frame-pointer -ftrivial-auto-var-init=pattern -w $(pkg-config --cflags $PK)"
fail() { echo "build failed: $1" >&2; tail -40 "$2" >&2 || true; exit 3; }
mkdir -p "$B/gen"
# sources of the tree under test, copied so that nothing is ever written there
rm -rf "$B/src"; mkdir -p "$B/src"
cp -r "$R/libmsi" "$R/include" "$R/tools" "$B/src/"
( cd "$B/src/libmsi"
  bison sql-parser.y -y -Wno-yacc --defines -o sql-parser.c
  glib-mkenums --template ../include/libmsi-enums.h.etemplate ../include/libmsi-types.h > ../include/libmsi-enums.h
  glib-mkenums --template libmsi-enums.c.etemplate ../include/libmsi-types.h > libmsi-enums.c
) > "$B/gen.log" 2>&1 || fail gen "$B/gen.log"
INC="-I$V/sim/gen -I$B/src/libmsi -I$B/src/include -I$B/src/tools"
SIM="sim case exec exec_tools wx"
MAIN="model mtools gen gentools eval main"
obj() { # objdir flags...
  local d=$1; shift; rm -rf "$B/$d"; mkdir -p "$B/$d"
  ( for f in "$B"/src/libmsi/*.c; do echo "gcc -O1 -D_FILE_OFFSET_BITS=64 $CF $INC $* -c $f -o $B/$d/lib-$(basename $f .c).o"; done
    for f in $SIM; do echo "g++ -O1 -std=c++17 $CF $INC $* -c $V/sim/$f.cc -o $B/$d/sim-$f.o"; done
    for f in $MAIN; do echo "g++ -O1 -std=c++17 $CF $INC $* -c $V/sim/$f.cc -o $B/$d/main-$f.o"; done
  ) | xargs -P 8 -d '\n' -I{} sh -c '{}' > "$B/$d.log" 2>&1 || fail "$d" "$B/$d.log"
}
LIBS="$(pkg-config --libs $PK) -lgcab-1.0 -ldl -lpthread"
for w in $what; do
  case $w in
  lib)
    obj o
    g++ -rdynamic -o "$B/dst.new" "$B"/o/*.o $LIBS > "$B/link.log" 2>&1 || fail link "$B/link.log"
    mv "$B/dst.new" "$B/dst" ;;
  asan)
    obj oa -fsanitize=address -fno-sanitize-recover=all
    g++ -rdynamic -fsanitize=address -o "$B/dst-asan.new" "$B"/oa/*.o $LIBS > "$B/link.log" 2>&1 || fail link "$B/link.log"
    mv "$B/dst-asan.new" "$B/dst-asan" ;;
  tools)
    obj ot -DWITH_TOOLS $(pkg-config --cflags libgcab-1.0)
    T=$B/ot; S=$B/src/tools
    ( CF="$CF $(pkg-config --cflags libgcab-1.0)"
      for f in "$R"/config.vapi; do cp $f "$B/gen/"; done
      ld_keep() { ld -r -o $T/$1.ro "${@:2}" && objcopy --keep-global-symbol=tool_$1 $T/$1.ro $T/$1.o && rm -f $T/$1.ro; }
      cc() { gcc -O1 -D_FILE_OFFSET_BITS=64 $CF $INC -include $V/sim/gen/config.h "$@"; }
      ctool() { n=$1; shift; o=; mkdir -p $T/$n; for f in "$@"; do cc -Dmain=tool_$n -c $S/$f.c -o $T/$n/$f.o; o="$o $T/$n/$f.o"; done; ld_keep $n $o; }
      vtool() { n=$1; pre=$2; shift 2; mkdir -p $T/$n
        valac -C -d $T/$n --basedir $S --target-glib 2.12 --enable-experimental --pkg libxml-2.0 --pkg libgcab-1.0 $pre --pkg gio-2.0 --pkg posix --pkg config --vapidir=$B/gen --vapidir=$V/sim/gen $V/sim/gen/libmsi-1.0.vapi "$@"
        o=; for f in "$@"; do c=$(echo ${f#$S/} | sed 's/vala$/c/'); cc -Dmain=tool_$n -c $T/$n/$c -o $T/$n/$(basename $c .c).o & o="$o $T/$n/$(basename $c .c).o"; done; wait; ld_keep $n $o; }
      W=$S/wixl
      ctool msibuild msibuild sqldelim & ctool msiinfo msiinfo &
      vtool msiextract "--pkg gio-unix-2.0" $S/msiextract.vala &
      vtool wixl "" $W/builder.vala $W/msi-default.vala $W/msi.vala $W/preprocessor.vala $W/wix.vala $W/wixl.vala $W/util.vala &
      vtool wixl_heat "" $W/wixl-heat.vala $W/util.vala &
      wait ) > "$B/tools.log" 2>&1
    for t in msibuild msiinfo msiextract wixl wixl_heat; do [ -f $T/$t.o ] || fail "$t" "$B/tools.log"; done
    g++ -rdynamic -o "$B/dst-tools.new" "$T"/*.o $LIBS > "$B/link.log" 2>&1 || fail link "$B/link.log"
    mv "$B/dst-tools.new" "$B/dst-tools" ;;
  esac
done
