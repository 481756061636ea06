#!/bin/sh
# check.sh ID [quick|thorough] | ID --replay FILE | ID --seed SEED
. /verif/sim/env.sh
exec "$PY" /verif/sim/runner.py "$@"
