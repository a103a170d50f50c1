#!/bin/bash
# nothing to build: checks that the interpreter, z3 and the code are usable
cd "$(dirname "$(readlink -f "$0")")" || exit 3
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -B -c "
import symx.run as r, z3
from symx import rt
gs = rt.load()
print('z3', z3.get_version_string(), 'graph_scheduler from', gs.__file__, 'checks:', sorted(r.registry()))
"
