#!/bin/bash
# nothing to compile: the framework is Python; check that it loads with the interpreter the repository uses
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg MPLCONFIGDIR=/tmp/evosim-mpl
exec /opt/venv/bin/python -B -c "import sim.main; from sim import registry; sim.main.load_repo(); print('simulator ready:', len(registry.PLAN), 'properties')"
