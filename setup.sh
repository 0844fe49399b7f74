#!/bin/bash
# Nothing to install: the checks are Python plus one small C shim which each run builds for itself.
set -eu
cd "$(dirname "$0")"
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
gcc -O1 -w -shared -fPIC -pthread -o "$d/shim.so" vlib/shim.c -ldl
LD_PRELOAD="$d/shim.so" /opt/venv/bin/python -c 'import ctypes; ctypes.CDLL(None).shim_init()'
/opt/venv/bin/python -c 'import sys; sys.path.insert(0, "/repo"); import gitdb, smmap'
git --version
mkdir -p evidence
echo "setup ok"
