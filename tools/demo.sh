#!/bin/bash
# builds demo.cc against /repo's sources (cwd = /repo) in a scratch directory and runs it: exit 0 = behaves
set -u
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
export OMPI_CXX=g++ OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader OMPI_MCA_pml=ob1 OMPI_MCA_plm=isolated
export OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_hwloc_base_binding_policy=none
export OMPI_MCA_mpi_yield_when_idle=1 OMP_WAIT_POLICY=passive OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=2 TMPDIR=$W VERIF_TMP=$W VERIF_REPO=$PWD
F="-std=c++11 -O1 -w -fopenmp -include cstdint -fno-access-control -DASSERT_ON=1 -DUSE_PETSC=1 -I/usr/lib/petsc/include -Isrc -Iutil -I$D __FLAGS__"
SKIP="__SKIP__"
for s in src/*.cc; do
    b=$(basename "$s" .cc)
    case " Main $SKIP " in *" $b "*) continue;; esac
    echo "$s"
done | xargs -P 8 -I{} sh -c 'mpicxx '"$F"' -c {} -o '"$W"'/$(basename {} .cc).o' || exit 3
for s in "$D"/*.cc; do mpicxx $F -c "$s" -o "$W/$(basename "$s" .cc).obj" || exit 3; done
mpicxx -fopenmp -o "$W/demo.x" "$W"/*.obj "$W"/*.o -L/usr/lib/petsc/lib -lpetsc_real __LIBS__ || exit 3
cd "$W"
__RUNS__
echo "demo: as expected"
