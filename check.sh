#!/bin/bash
# check.sh PROPERTY [options of sim.main]: pins every environment input, then runs the simulator
# on /repo's current working tree (pure Python: nothing to build, no bytecode is read or written there).
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=${SIM_HASHSEED:-0} PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1
export PYTHONPYCACHEPREFIX=/nonexistent-pycache
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_CORETYPE=${OPENBLAS_CORETYPE:-Prescott}
export MPLBACKEND=Agg LC_ALL=C.UTF-8
MPLCONFIGDIR=$(mktemp -d /tmp/simmpl.XXXXXX) || exit 2
export MPLCONFIGDIR
unset PYTHONPATH
/opt/venv/bin/python -m sim.main "$@"
rc=$?
rm -rf "$MPLCONFIGDIR"
exit $rc
