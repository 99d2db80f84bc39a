#!/bin/bash
# nothing to build: checks that the tools are there, the contracts of numpy against numpy, and the engine on random programs
cd /verif || exit 1
export PYTHONPATH=${VC_REPO:-/repo}:/verif PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python -m vc.conform || exit 1
/opt/venv/bin/python -m vc.selftest 150 || exit 1
exec /opt/venv/bin/python -c "
from vc import terms, solve
import moirae
x = terms.var('x')
assert solve.check([x > 1, x < 0], 2000) == 'unsat' and solve.check([x > 1], 2000) == 'sat'
print('ready')"
