# environment of every check: fixed interpreter, no bytecode written
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=/root LANG=C.UTF-8 MPLBACKEND=Agg
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export PYTHONHASHSEED=${PYTHONHASHSEED:-0}
export PYTHONPATH=/verif/sim:/verif/sim/fakes:/repo
PY=/opt/venv/bin/python
