#!/bin/bash
# ./check.sh C01 [options]       run one check     (VERIF_SEED, VERIF_TIER)
# ./check.sh --replay FILE       replay a recorded violation
# Exit: 0 held, 1 violation, 2 error of the check itself.
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d "${TMPDIR:-/tmp}/vchk-XXXXXX") || exit 2
cleanup() { case "$scratch" in /*/vchk-*) rm -rf "$scratch";; esac; }
trap cleanup EXIT
so="$here/build/shim.so"
if [ ! -f "$so" ] || [ "$here/sim/shim.c" -nt "$so" ]; then
  so="$scratch/shim.so"
  gcc -O2 -shared -fPIC -o "$so" "$here/sim/shim.c" -ldl || exit 2
fi
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX="$scratch/pyc" MPLBACKEND=Agg MPLCONFIGDIR="$scratch/mpl" TMPDIR="$scratch"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONHASHSEED="${PYTHONHASHSEED:-0}" SIM_SHIM="$so"
mkdir -p "$scratch/mpl"
cd "$here" || exit 2
LD_PRELOAD="$so" "${VERIF_PYTHON:-/opt/venv/bin/python}" -c 'import sys; sys.path.insert(0, "."); from sim import core; sys.exit(core.main(sys.argv[1:]))' "$@"
rc=$?
case $rc in 0|1|2) exit $rc;; *) echo "HARNESS-ERROR exit status $rc" >&2; exit 2;; esac
