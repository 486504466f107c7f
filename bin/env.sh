# Sourced by the other scripts: a controlled environment and a private scratch directory.
VERIF_DIR=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
export VERIF_DIR
export VERIF_REPO=${VERIF_REPO:-/repo}
export VERIF_SEED=${VERIF_SEED:-1}
SCRATCH=$(mktemp -d "${TMPDIR:-/tmp}/tftbsim.XXXXXX")
export SCRATCH
mkdir -p "$SCRATCH/mpl" "$SCRATCH/home" "$SCRATCH/tmp"
cp /opt/vp/mplconfig/fontlist-*.json "$SCRATCH/mpl/" 2>/dev/null || true
export MPLCONFIGDIR=$SCRATCH/mpl HOME=$SCRATCH/home TMPDIR=$SCRATCH/tmp
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export PYTHONHASHSEED=${SIM_HASHSEED:-0} PYTHONPATH=$VERIF_DIR PYTHONNOUSERSITE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
unset PYTHONWARNINGS PYTHONSTARTUP PYTHONOPTIMIZE
PY=${SIM_PYTHON:-/opt/venv/bin/python}
cleanup() { rm -rf "${SCRATCH:?}"; }
trap cleanup EXIT
