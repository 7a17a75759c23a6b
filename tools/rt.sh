#!/bin/bash
# run the runtime contract cases of one property: tools/rt.sh C01 [args]
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
exec /opt/pvenv/bin/python /verif/runtime/rt.py "$@"
