#!/bin/sh
# Not a check: compares the stand-in for boost::mpi with the real library and mpirun on one program (2, 3, 4 processes).
set -e
V=$(cd "$(dirname "$0")/../.." && pwd); W=$(mktemp -d); cd "$W"
F="-std=c++17 -O1 -w -DSAMURAI_WITH_MPI -DFLUX_CONTAINER_xtensor"; L="-lfmt -lpugixml -lboost_serialization"; P="$V/tools/x01_conform/prog.cpp"
g++ $F -DSIM -I"$V/harness/mpi_shim" -I/repo/include -I"$V/harness/shim" "$P" -o sim $L
mkdir -p hf/highfive; cp "$V/harness/mpi_shim/highfive/H5PropertyList.hpp" hf/highfive/
mpicxx $F -Ihf -I/repo/include -I"$V/harness/shim" "$P" -o real -lboost_mpi $L
for n in 2 3 4; do ./sim $n | sort > s.$n; mpirun --allow-run-as-root --oversubscribe -n $n ./real | sort > r.$n; cmp s.$n r.$n; wc -l s.$n; done
rm -rf "$W"
