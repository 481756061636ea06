"""Mechanical mutations of the library, to find what the checks do not see.

  automut.py gen SEED N            list N sampled mutations
  automut.py run SEED N LOG [frac] run the checks on each of them

Works on scratch copies below /tmp; /repo is only read.
"""
import ast
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import time

REPO = os.environ.get('AUTOMUT_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = {
    'metadetect/metadetect.py': ('C17 C19 C04 C05 C03 C07 C06 C08 C01', 10),
    'metadetect/fitting.py': ('C19 C04 C03 C05 C08 C12 C02', 10),
    'metadetect/detect.py': ('C17 C04 C03 C05 C07 C08', 4),
    'metadetect/mfrac.py': ('C17 C06 C08 C04 C07', 1),
    'metadetect/masking.py': ('C09 C08 C01', 5),
    'metadetect/interpolate.py': ('C15 C09 C02', 3),
    'metadetect/lsst/configs.py': ('C14 C08', 1),
    'metadetect/lsst/masking.py': ('C09 C08', 2),
    'metadetect/lsst/mbobs_extractor.py': ('C10 C12', 2),
    'metadetect/lsst/measure.py': ('C12 C16 C10 C08', 7),
    'metadetect/lsst/metacal_exposures.py': ('C18 C08 C16 C12 C01', 5),
    'metadetect/lsst/metadetect.py': ('C12 C16 C18 C08 C13', 6),
    'metadetect/lsst/model_subtractor.py': ('C10 C12', 4),
    'metadetect/lsst/photometry.py': ('C16 C12 C08', 1),
    'metadetect/lsst/skysub.py': ('C13 C08 C14', 2),
    'metadetect/lsst/util.py': ('C20 C18 C10 C11 C12 C16 C14 C08', 10),
}
SKIP = ('logger', 'LOG', 'print', 'time.time', 'vis.', 'show', 'assert')


class Site(object):
    def __init__(self, node, new, what):
        self.node, self.new, self.what = node, new, what


def sites(tree):
    out = []

    def add(node, new, what):
        out.append(Site(node, new, what))

    for node in ast.walk(tree):
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            sw = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE,
                  ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
                  ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn,
                  ast.NotIn: ast.In}
            k = type(node.ops[0])
            if k in sw:
                add(node, ast.Compare(node.left, [sw[k]()],
                                      node.comparators), 'cmp')
        elif isinstance(node, ast.BoolOp):
            op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
            add(node, ast.BoolOp(op, node.values), 'bool')
            for i in range(len(node.values)):
                vals = node.values[:i] + node.values[i + 1:]
                add(node, vals[0] if len(vals) == 1 else ast.BoolOp(
                    node.op, vals), 'drop-operand')
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            add(node, node.operand, 'not')
        elif isinstance(node, ast.AugAssign):
            add(node, ast.Assign([node.target], node.value, lineno=1),
                'aug')
            add(node, ast.Pass(), 'del')
        elif isinstance(node, ast.Call):
            f = node.func
            if isinstance(f, ast.Attribute) and f.attr in (
                    'copy', 'clone') and not node.args:
                add(node, f.value, 'nocopy')
            if isinstance(f, ast.Attribute) and f.attr in (
                    'copy', 'deepcopy') and len(node.args) == 1:
                add(node, node.args[0], 'nocopy')
            if isinstance(f, ast.Attribute) and f.attr in ('any', 'all') \
                    and isinstance(f.value, ast.Name) and f.value.id == 'np':
                new = ast.Call(ast.Attribute(f.value, 'all' if f.attr ==
                                             'any' else 'any', ast.Load()),
                               node.args, node.keywords)
                add(node, new, 'anyall')
            for i, k in enumerate(node.keywords):
                if k.arg is not None:
                    add(node, ast.Call(f, node.args, node.keywords[:i] +
                                       node.keywords[i + 1:]),
                        'drop-kw ' + k.arg)
        elif isinstance(node, ast.BinOp):
            sw = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div,
                  ast.Div: ast.Mult, ast.BitOr: ast.BitAnd,
                  ast.BitAnd: ast.BitOr}
            k = type(node.op)
            if k in sw:
                add(node, ast.BinOp(node.left, sw[k](), node.right), 'bin')
        elif isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
            add(node, ast.Pass(), 'del')
        elif isinstance(node, ast.Assign) and isinstance(
                node.targets[0], (ast.Subscript, ast.Attribute)):
            add(node, ast.Pass(), 'del')
        elif isinstance(node, (ast.Raise, ast.Continue, ast.Break)):
            add(node, ast.Pass(), 'del')
        elif isinstance(node, ast.ExceptHandler) and node.type is not None:
            src = ast.unparse(node.type)
            for t in ('Exception', 'BaseException', 'ZeroDivisionError'):
                if src != t:
                    add(node.type, ast.Name(t, ast.Load()), 'except ' + t)
        elif isinstance(node, ast.Constant) and type(node.value) is int:
            add(node, ast.Constant(node.value + 1), 'const')
        elif isinstance(node, ast.Constant) and type(node.value) is bool:
            add(node, ast.Constant(not node.value), 'const')
        elif isinstance(node, ast.For) and not node.orelse:
            add(node.iter, ast.Subscript(
                ast.Call(ast.Name('list', ast.Load()), [node.iter], []),
                ast.Slice(None, ast.UnaryOp(ast.USub(), ast.Constant(1))),
                ast.Load()), 'loop-short')
        elif isinstance(node, ast.Try) and node.finalbody:
            pass
    return out


def mutants(seed, n, only=None):
    r = random.Random('automut:%s' % seed)
    pool = {}
    for f in FILES:
        src = open(os.path.join(REPO, f)).read()
        lines = src.splitlines(True)
        got = []
        for s in sites(ast.parse(src)):
            nd = s.node
            seg = ast.get_source_segment(src, nd)
            if seg is None or any(k in seg for k in SKIP):
                continue
            ctx = lines[nd.lineno - 1]
            if any(k in ctx for k in SKIP + ('def ', 'import', 'raise')):
                if s.what != 'del' or 'raise' not in ctx:
                    continue
            try:
                new = ast.unparse(ast.fix_missing_locations(s.new))
            except Exception:
                continue
            if s.what in ('cmp', 'bool', 'bin', 'drop-operand', 'not'):
                new = '(' + new + ')'
            off = [0]
            for ln in lines:
                off.append(off[-1] + len(ln.encode()))
            b = src.encode()
            a0 = off[nd.lineno - 1] + nd.col_offset
            a1 = off[nd.end_lineno - 1] + nd.end_col_offset
            out = (b[:a0] + new.encode() + b[a1:]).decode()
            try:
                compile(out, f, 'exec')
            except SyntaxError:
                continue
            got.append((f, nd.lineno, s.what, seg.replace('\n', ' ')[:90],
                        new.replace('\n', ' ')[:90], out))
        r.shuffle(got)
        pool[f] = got
    files = [f for f in FILES if only is None or f in only]
    wts = [FILES[f][1] for f in files]
    res = []
    while len(res) < n and any(pool[f] for f in files):
        f = r.choices(files, wts)[0]
        if pool[f]:
            res.append(pool[f].pop())
    return res


def run_check(pid, repo, sim, frac, env0):
    env = dict(env0)
    env['PYTHONPATH'] = '%s/sim:%s/sim/fakes:%s' % (sim, sim, repo)
    env['VERIF_REPO'] = repo
    sys.path.insert(0, sim)
    n = QUICK[pid]
    env['VERIF_RUNS'] = str(max(40, int(n * frac)))
    p = subprocess.Popen([sys.executable, sim + '/sim/runner.py', pid,
                          'quick'], env=env, cwd=sim, text=True,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         start_new_session=True)
    hit = None
    lines = []
    try:
        for ln in p.stdout:
            lines.append(ln.rstrip())
            if hit is None and 'violates' in ln:
                hit = ''
            elif hit == '':
                hit = ln.strip()[:150]
                break
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
    if hit:
        return 'caught', hit
    if any(x.startswith('OK ') for x in lines):
        return 'quiet', ''
    return 'error', '|'.join(lines[-3:])[:200]


QUICK = {}


def main():
    mode, seed, n = sys.argv[1], sys.argv[2], int(sys.argv[3])
    ms = mutants(seed, n, set(os.environ['AUTOMUT_ONLY'].split())
                 if os.environ.get('AUTOMUT_ONLY') else None)
    if mode == 'gen':
        for m in ms:
            print('%s:%d %s: %s -> %s' % m[:5])
        return
    log = sys.argv[4]
    frac = float(sys.argv[5]) if len(sys.argv) > 5 else 0.4
    top = '/tmp/automut.%d' % os.getpid()
    os.makedirs(top)
    sim = top + '/v'
    os.makedirs(sim)
    shutil.copytree(VERIF + '/sim', sim + '/sim')
    shutil.copy(VERIF + '/known_findings.json', sim)
    env = dict(os.environ, VERIF_SEED='1', PYTHONHASHSEED='0',
               PYTHONDONTWRITEBYTECODE='1', VERIF_TIER='quick')
    for i in range(1, 21):
        pid = 'C%02d' % i
        src = open('%s/sim/props/c%02d.py' % (sim, i)).read()
        m = re.search(r'n_quick = (\d+)', src)
        QUICK[pid] = int(m.group(1)) if m else 560
    try:
        for f, line, what, old, new, out in ms:
            repo = top + '/repo'
            shutil.rmtree(repo, ignore_errors=True)
            shutil.copytree(REPO, repo, ignore=shutil.ignore_patterns(
                '.git', '__pycache__'))
            with open(os.path.join(repo, f), 'w') as fh:
                fh.write(out)
            t0 = time.time()
            res, why = 'SURVIVED', ''
            for pid in FILES[f][0].split():
                st, w = run_check(pid, repo, sim, frac, env)
                if st != 'quiet':
                    res, why = st, pid + ' ' + w
                    break
            with open(log, 'a') as fh:
                fh.write('%s %s:%d %s: %s -> %s   [%ds] %s\n' % (
                    res, f, line, what, old, new, time.time() - t0, why))
    finally:
        shutil.rmtree(top, ignore_errors=True)


if __name__ == '__main__':
    main()
