#!/bin/sh
# Nothing to install: the checks need only clang, gcc, Open MPI and the z3 Python bindings of the sandbox.
set -e
command -v clang >/dev/null && command -v gcc >/dev/null && command -v mpirun.openmpi >/dev/null
/opt/veriftools/pyvenv/bin/python -c 'import z3'
echo setup ok
