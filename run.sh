#!/bin/sh
# usage: run.sh PID quick|thorough|replay [path]
exec python3-vt "$(dirname "$0")/lib/runner.py" "$@"
