# sourced by demo.sh: builds d.c (and b.c) against /repo's library; run NP ARGS... fails when a run fails or hangs; blk NP STEPS... the same with b.c
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -r "$W"' EXIT
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_pml=ob1 OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_plm=isolated
export EXT_MPI_DEBUG=${EXT_MPI_DEBUG-0}
for x in d b; do [ -f "$D/$x.c" ] && { mpicc -O2 -w -I"$PWD/include/mpi" -o "$W/$x" "$D/$x.c" "$PWD/lib/libext_mpi_collectives.a" -lm || exit 2; }; done
run() {
  np=$1; shift
  timeout -k 5 60 mpirun --oversubscribe -n "$np" "$W/d" "$@" || { echo "FAILED: $np ranks: $*"; exit 1; }
}
blk() {
  np=$1; shift
  timeout -k 5 60 mpirun --oversubscribe -n "$np" "$W/b" "$@" || { echo "FAILED: $np ranks: $*"; exit 1; }
}
