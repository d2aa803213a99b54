#!/bin/bash
# usage: run.sh PROPERTY_ID [extra harness args]
# Runs one property's exhaustive check against the working tree of /repo.
cd "$(dirname "$0")" || exit 1
export HOME=/root LANG=C.UTF-8 LC_ALL=C.UTF-8
unset PYTHONPATH PYTHONHOME PYTEST_ADDOPTS ALL_PROXY all_proxy NO_PROXY no_proxy
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export http_proxy=http://127.0.0.1:9 https_proxy=http://127.0.0.1:9 HTTP_PROXY=http://127.0.0.1:9 HTTPS_PROXY=http://127.0.0.1:9
# every run compiles /repo afresh: bytecode goes to (and is looked up in) an empty scratch directory
SCR=$(mktemp -d /tmp/spregmc.XXXXXX) || exit 1
export PYTHONPYCACHEPREFIX="$SCR/pyc" MPLCONFIGDIR="$SCR/mpl" SPREG_MC_SCRATCH="$SCR"
mkdir -p "$SCR/mpl"
trap 'rm -rf "$SCR"' EXIT
REPO_UNDER_TEST="${REPO_UNDER_TEST:-/repo}" /opt/venv/bin/python lib/harness.py "$@"
exit $?
