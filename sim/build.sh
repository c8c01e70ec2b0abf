#!/bin/bash
# build.sh OUTDIR VARIANT...   variants: sp (plain), mp (plain, MPI), st (instrumented), mt (instrumented, MPI)
# Builds the node libraries from /repo's working tree and the simulator from /verif/sim.
set -u
here="$(cd "$(dirname "$0")" && pwd)"; out="$1"; shift
repo="${SIM_REPO:-/repo}"
cxx=g++-11; command -v $cxx >/dev/null || cxx=g++
mkdir -p "$out"
# objects are shared between variants, and between runs where build/ survives; keep it below about 2 GB
cache="${SIM_CACHE:-$here/../build/objects}"
mkdir -p "$cache" 2>/dev/null && [ -w "$cache" ] || cache="$out/objects"
if [ "$(du -sm "$cache" 2>/dev/null | cut -f1)" -gt 2000 ] 2>/dev/null; then find "$cache" -name '*.o' -mmin +30 -delete 2>/dev/null; fi
mk="$out/build.mk"
{
  echo "all: $out/simrun $(for v in "$@"; do echo -n "$out/$v.so "; done)"
  echo "HOST=-O2 -std=c++17 -w"
  for f in engine geom problem casefile props main; do
    echo "$out/h_$f.o: $here/$f.cpp"; echo "	@bash $here/cc.sh $cache \$< \$@ g++ \$(HOST)"
  done
  echo "$out/simrun: $out/h_engine.o $out/h_geom.o $out/h_problem.o $out/h_casefile.o $out/h_props.o $out/h_main.o"
  echo "	g++ -o \$@ \$^ -Wl,--dynamic-list=$here/interpose.list -ldl -pthread"
  for v in "$@"; do
    fl="-std=c++11 -DNDEBUG -fPIC -fno-gnu-unique -w -I$repo/src"
    case $v in s*) ;; m*) fl="$fl -DMPI_SUPPORT -I$here/mpi";; esac
    ld=""
    case $v in ?p) fl="$fl -O2 -fno-inline-atomics -include $here/atomics.h";; ?t) fl="$fl -O1 -fno-inline-small-functions -fsanitize=thread"; ld="-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memcmp,--wrap=_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_ $out/$v.shim.o";; esac
    objs=""
    # the biggest translation units first
    for f in $(ls -S $repo/src/*.cpp | awk '/fourier_motzkin/{print;next}/method_adjacency|algorithm_|method_|input|list/{r=$0"\n"r;next}{r=r"\n"$0}END{print r}'); do
      b=$(basename $f .cpp); objs="$objs $out/$v.$b.o"
      # by far the biggest translation unit; not where the time of a simulated run goes
      o="$fl"; case $b in *fourier_motzkin*) o="$fl -O1";; esac
      echo "$out/$v.$b.o: $f"; echo "	@bash $here/cc.sh $cache \$< \$@ $cxx $o"
    done
    case $v in ?t) echo "$out/$v.shim.o: $here/shim.cpp"; echo "	$cxx -O2 -fPIC -c \$< -o \$@"; extra="$out/$v.shim.o";; *) extra="";; esac
    echo "$out/$v.so: $objs $extra"; echo "	$cxx -shared -o \$@ $objs $ld -Wl,-Bsymbolic -pthread"
  done
} > "$mk"
exec make -s -j${SIM_JOBS:-$(nproc)} -f "$mk" all
