#!/bin/bash
# run.sh NAME NP THREADS: builds demo.cpp against the library of the current directory's build, runs it in a scratch folder
set -eu
H=$(cd "$(dirname "$0")" && pwd); R=$(pwd); T=/tmp/jaxdemo-$1-$$; M=/usr/lib/x86_64-linux-gnu/openmpi
mkdir -p "$T/out/m" "$T/out/dens"
g++ -O1 -w -fopenmp -mavx2 -mfma -DUSE_PROP_RKN4 -mcmodel=medium -std=gnu++14 -I"$H" -I"$R/lib" -I"$R/include" -I/usr/include/hdf5/openmpi -isystem $M/include -isystem $M/include/openmpi \
  "$H/demo.cpp" "$H/jax.cpp" "$H/kit.cpp" -o "$T/demo" -rdynamic -Wl,-rpath,$M/lib:/usr/lib/x86_64-linux-gnu/hdf5/openmpi "$R/_build/lib/libAxions.a" \
  $M/lib/libmpi_cxx.so $M/lib/libmpi.so -lfftw3 -lfftw3f -lfftw3_omp -lfftw3f_omp -lfftw3_mpi -lfftw3f_mpi /usr/lib/x86_64-linux-gnu/hdf5/openmpi/libhdf5.so -lsz -lz -ldl -lm -lgsl -lgslcblas
cd "$T"; export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_hwloc_base_binding_policy=none OMPI_MCA_plm_rsh_agent=/bin/false HDF5_USE_FILE_LOCKING=FALSE DEMO_NP=$2 OMP_NUM_THREADS=$3
rc=0; if [ "$2" = 1 ]; then timeout 100 ./demo || rc=$?; else timeout 100 mpirun -np "$2" ./demo || rc=$?; fi
cd /; rm -rf "$T"; exit $rc
