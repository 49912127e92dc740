#!/bin/bash
# nothing to install: checks compile /repo's current sources themselves
set -e
cd "$(dirname "$0")"
python3-vt -c 'import z3, sys; sys.path.insert(0, "."); from vc import term, prove, exec, loops, models, ctx; print("vc ok, z3", z3.get_version_string())'
command -v clang++ mpicxx mpirun cvc5 >/dev/null && echo tools ok
