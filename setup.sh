#!/bin/sh
# nothing to build: checks translate /repo's current sources themselves.  Fail early when a tool is missing.
set -e
command -v gfortran >/dev/null
./py -m fv.selftest
