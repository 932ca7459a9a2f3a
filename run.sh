#!/bin/bash
# run.sh <property-id> [quick|thorough]   run one check
# run.sh --replay <file>                  replay one saved failing case
# run.sh --setup                          warm caches (optional)
here="$(cd "$(dirname "$0")" && pwd)"
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export TQDM_DISABLE=1
export JAX_PLATFORMS=cpu XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
unset PYTHONPATH
cd "$here" || exit 2
exec /opt/venv/bin/python -B -W ignore -m pbt.main "$@"
