#!/bin/bash
# exit 0: behaviour as promised; nonzero: broken.  Run with cwd = the repository.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export MC_REPO="$PWD" MC_BUILD="$T/build" MC_HARN="$D/kit" TMPDIR="$T" PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$D/kit"
timeout 280 python3-vt "$D/demo.py"
