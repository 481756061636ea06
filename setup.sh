#!/bin/sh
# nothing to compile: check that the simulator and the working tree import
. /verif/sim/env.sh
exec "$PY" -c "import core; core.install_seams(); import hooks, mdrun; print('simulator ready')"
