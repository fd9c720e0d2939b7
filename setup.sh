#!/bin/bash
# Nothing to build: the checks read /repo's sources on every run. Verify that the tools are there.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
python3-vt -c "import z3; from sx import core, reshim, rt, instr, vfs, ctx, runner; print('z3', z3.get_version_string())" || exit 1
/opt/venv/bin/python -c "from sx import core, ctx, concrete" || exit 1
mkdir -p evidence
