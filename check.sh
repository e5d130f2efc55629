#!/bin/bash
# check.sh <property id> [--replay FILE]: builds /repo's working tree and runs the property's check.
cd "$(dirname "$0")"
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
log=$(mktemp)
if ! bash /opt/vp/build.sh >"$log" 2>&1; then
  tail -n 30 "$log"
  rm -f "$log"
  echo "the build of /repo failed: no check was run"
  exit 3
fi
rm -f "$log"
export PYTHONPATH=/repo/_build/pkg:$PWD LD_LIBRARY_PATH=/repo/_build/pkg/awkward
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 JAX_PLATFORMS=cpu OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/vp/venv/bin/python -W ignore -m pbt.main "$@"
