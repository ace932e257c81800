#!/bin/bash
# nothing to compile: check that the interpreters and solvers are there
cd "$(dirname "$(readlink -f "$0")")"
/opt/venv/bin/python -c "
import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import jax, equinox, optimistix, z3, sympy; print('jax', jax.__version__, 'z3', z3.get_version_string())" || exit 1
mkdir -p evidence out
