#!/bin/bash
set -eu
cd "$(dirname "$0")"
mkdir -p evidence
/opt/veriftools/pyvenv/bin/python -c 'import z3; s = z3.Solver(); x = z3.Int("x"); s.add(x > 1); assert s.check() == z3.sat'
echo setup ok
