#!/bin/bash
# usage: run.sh C01 [--tier quick|thorough] [--seed N] [--replay FILE]
here="$(cd "$(dirname "$0")" && pwd)"
export MEALPY_ROOT="${MEALPY_ROOT:-/repo}"
tmp="$(mktemp -d /tmp/mealpy-mon.XXXXXXXX)" || exit 2
trap 'rm -rf -- "$tmp"' EXIT
export TMPDIR="$tmp" MPLCONFIGDIR="$tmp/mpl" PYTHONPYCACHEPREFIX="$tmp/pyc" MPLBACKEND=Agg
mkdir -p "$tmp/mpl" "$tmp/run"
cp -a /opt/vp/mplconfig/. "$tmp/mpl/" 2>/dev/null
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONHASHSEED=0 PYTHONUNBUFFERED=1
export PYTHONPATH="$MEALPY_ROOT:$here" VERIF_ROOT="$here"
cd "$tmp/run" || exit 2
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
if [ "$1" = "--setup" ]; then
  "$py" -c "from mon import engine; print('mealpy imported from', engine.mealpy.__file__, len(engine.ALL), 'optimizers')"
  exit $?
fi
"$py" -m mon.main "$@"
exit $?
