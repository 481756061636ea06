"""Make and try planted bugs.

tools/bugs/*.py define BUGS: id, property, edits [(file, old, new)], needs,
breaks, demo (source of demo.py), lsst (needs the LSST stand-ins).

    plant.py make ID...      write seeded/ID (patch against /repo's HEAD)
    plant.py try ID...       tests, demo with and without, the property's check
    plant.py demos ID...     only the demonstrations, on copies of /repo
    plant.py check ID...     only the property's check against the bug
"""
import glob
import io
import json
import os
import shutil
import subprocess
import sys
import time
import zipfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
HEAD = """import os
import sys
import random
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'lib.zip'),
                os.path.join(HERE, 'lib.zip', 'fakes'), os.getcwd()]
import numpy as np
import core
core.install_seams()
import hooks
hooks.init()
import mdrun
import wl
import maskwl
import simhook
import dw
from dw import work, lwork, obj, mask, mom, diff, outcome
from mdrun import Inputs, execute


def check(ok, what):
    if not ok:
        print('BROKEN:', what)
        sys.exit(1)


"""
SH = """#!/bin/sh
D=$(cd "$(dirname "$0")" && pwd)
PY=/opt/venv/bin/python
[ -x $PY ] || PY=python3
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
unset PYTHONPATH
export VERIF_REPO="$PWD"
exec $PY "$D/demo.py"
"""


def bugs():
    d = {}
    for f in sorted(glob.glob(os.path.join(V, 'tools', 'bugs', '*.py'))):
        g = {}
        exec(compile(open(f).read(), f, 'exec'), g)
        for b in g['BUGS']:
            assert b['id'] not in d, b['id']
            d[b['id']] = b
    g = {}
    f = os.path.join(V, 'tools', 'demos.py')
    exec(compile(open(f).read(), f, 'exec'), g)
    for i, (needs, breaks, demo) in g['DEMOS'].items():
        d[i].update(needs=' '.join(needs.split()),
                    breaks=' '.join(breaks.split()), demo=demo)
    return d


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def clean():
    assert sh('git', '-C', R, 'status', '--porcelain').stdout == '', \
        '/repo is not clean'


def lib(lsst):
    buf = io.BytesIO()
    z = zipfile.ZipFile(buf, 'w', zipfile.ZIP_DEFLATED)
    sim = os.path.join(V, 'sim')
    names = ['core', 'hooks', 'simhook', 'sched_sim', 'wl', 'mdrun', 'maskwl']
    if lsst:
        names += ['lw', 'base']
    put(z, os.path.join(V, 'tools', 'dw.py'), 'dw.py')
    for n in names:
        put(z, os.path.join(sim, n + '.py'), n + '.py')
    fk = os.path.join(sim, 'fakes')
    for root, _, files in sorted(os.walk(fk)):
        rel = os.path.relpath(root, fk)
        if rel.startswith('lsst') and not lsst or '__pycache__' in rel:
            continue
        for f in sorted(files):
            if f.endswith('.py'):
                put(z, os.path.join(root, f), os.path.normpath(
                    os.path.join('fakes', rel, f)))
    z.close()
    return buf.getvalue()


def put(z, path, name):
    i = zipfile.ZipInfo(name, (2026, 1, 1, 0, 0, 0))
    i.compress_type = zipfile.ZIP_DEFLATED
    z.writestr(i, open(path).read())


def edit(b, root=R):
    for f, old, new in b['edits']:
        p = os.path.join(root, f)
        s = open(p).read()
        assert s.count(old) == 1, (b['id'], f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))


def make(b):
    clean()
    d = os.path.join(V, 'seeded', b['id'])
    os.makedirs(d, exist_ok=True)
    try:
        edit(b)
        p = sh('git', '-C', R, 'diff').stdout
    finally:
        sh('git', '-C', R, 'checkout', '--', '.')
    assert p
    open(os.path.join(d, 'patch.diff'), 'w').write(p)
    json.dump(dict(property=b['property'], needs=b['needs'],
                   what_it_breaks=b['breaks']),
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    open(os.path.join(d, 'demo.sh'), 'w').write(SH)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    pre = HEAD + ('import lw\n\n\n' if b.get('lsst') else '')
    open(os.path.join(d, 'demo.py'), 'w').write(pre + b['demo'].lstrip('\n'))
    open(os.path.join(d, 'lib.zip'), 'wb').write(lib(b.get('lsst')))
    return d


def demo(b):
    shutil.rmtree('/tmp/w/demo', ignore_errors=True)
    shutil.copytree(os.path.join(V, 'seeded', b['id']), '/tmp/w/demo')
    r = sh('sh', '/tmp/w/demo/demo.sh', cwd=R)
    return r.returncode, (r.stdout + r.stderr).strip()[-600:]


def apply(b):
    r = sh('git', '-C', R, 'apply', os.path.join(V, 'seeded', b['id'],
                                                 'patch.diff'))
    assert r.returncode == 0, r.stderr


def check(b, tier='quick'):
    r = sh('sh', 'check.sh', b['property'], tier, cwd=V)
    out = r.stdout.strip().splitlines()
    v = [x for x in out if x.startswith('VIOLATION')]
    msg = [x for x in out if x.startswith('   [') or x.startswith('run ')][:2]
    return r.returncode, v[:1], msg


def mutant(b):
    """the check alone, on copies of /repo and of the simulator"""
    mv, mr = ['/tmp/w/m%d%s' % (os.getpid(), x) for x in 'vr']
    for d in (mv, mr):
        shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(os.path.join(V, 'sim'), os.path.join(mv, 'sim'))
    shutil.copy(os.path.join(V, 'known_findings.json'), mv)
    shutil.copytree(R, mr, symlinks=True)
    edit(b, mr)
    t0 = time.time()
    e = dict(os.environ, VERIF_REPO=mr, PYTHONPATH=':'.join(
        [mv + '/sim', mv + '/sim/fakes', mr]))
    r = sh(sys.executable, mv + '/sim/runner.py', b['property'], 'quick',
           cwd=mv, env=e)
    out = r.stdout.strip().splitlines()
    v = [x for x in out if x.startswith('VIOLATION')]
    m = [x for x in out if x.startswith('   [') or x.startswith('run ')][:2]
    print('%s %s %.0fs %s' % (
        b['id'], 'CAUGHT' if r.returncode == 1 and v else 'MISSED rc=%d %s'
        % (r.returncode, r.stderr[-300:]), time.time() - t0,
        ' '.join(m)[:250]), flush=True)
    for d in (mv, mr):
        shutil.rmtree(d, ignore_errors=True)


def demos(b):
    """the demonstration with and without the bug, on a copy"""
    make(b)
    mr, o = '/tmp/w/dr', []
    shutil.rmtree(mr, ignore_errors=True)
    shutil.copytree(R, mr, symlinks=True)
    for bad in (False, True):
        if bad:
            edit(b, mr)
        t0 = time.time()
        shutil.rmtree('/tmp/w/demo', ignore_errors=True)
        shutil.copytree(os.path.join(V, 'seeded', b['id']), '/tmp/w/demo')
        r = sh('sh', '/tmp/w/demo/demo.sh', cwd=mr)
        good = (r.returncode != 0) == bad
        o.append('%s %s %.0fs %s' % (
            'bug' if bad else 'clean', 'ok' if good else 'WRONG',
            time.time() - t0, (r.stdout + r.stderr).strip()[-300:]
            if bad or not good else ''))
    print(b['id'], ' | '.join(o), flush=True)


def main():
    what, ids = sys.argv[1], sys.argv[2:]
    all_ = bugs()
    for i in ids or sorted(all_):
        b = all_[i]
        if what == 'mut':
            mutant(b)
            continue
        if what == 'tests':
            if b.get('demo'):
                clean()
                try:
                    apply(b)
                    sh('bash', '/opt/vp/test.sh', '/tmp/w/t.json')
                    j = json.load(open('/tmp/w/t.json'))
                    print(i, {k: len(v) if isinstance(v, list) else v
                              for k, v in j.items()}, flush=True)
                finally:
                    sh('git', '-C', R, 'checkout', '--', '.')
            continue
        if what == 'demos':
            if b.get('demo'):
                demos(b)
            continue
        if what in ('make', 'try'):
            make(b)
        if what == 'make':
            continue
        clean()
        line = [i]
        if what == 'try':
            c, o = demo(b)
            line.append('demo clean %d%s' % (c, '' if c == 0 else ' ' + o))
        try:
            apply(b)
            if what == 'try':
                c, o = demo(b)
                line.append('demo bug %d (%s)' % (c, o[-150:]))
                t = sh('bash', '/opt/vp/test.sh', '/tmp/w/t.json')
                j = json.load(open('/tmp/w/t.json'))
                line.append('tests %s' % {k: len(v) if isinstance(v, list)
                                          else v for k, v in j.items()})
            c, v, m = check(b)
            line.append('CAUGHT' if c == 1 and v else 'MISSED rc=%d' % c)
            line += m
        finally:
            sh('git', '-C', R, 'checkout', '--', '.')
        print('\n    '.join(line), flush=True)


main()
