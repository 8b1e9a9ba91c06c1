#!/bin/bash
# usage: run.sh <ID> quick|thorough      run one check
#        run.sh replay <file>            re-run the case stored in a replay file
#        run.sh selftest                 setup: verify that everything imports
here="$(cd "$(dirname "$0")" && pwd)"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
export VF_SCRATCH="$(mktemp -d /tmp/vf.XXXXXX)"
export PYTHONPATH="$here"
export PYTHONHASHSEED="${PYTHONHASHSEED:-0}"
export LC_ALL=C.UTF-8
cd "$here"
"$PY" -B -X pycache_prefix="$VF_SCRATCH/pyc" -m vf.main "$@"
rc=$?
case "$VF_SCRATCH" in /tmp/vf.*) rm -rf -- "$VF_SCRATCH";; esac
exit $rc
