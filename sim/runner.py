"""Runs a check: seeded batch over forked workers, minimisation, replay,
evidence.  Usage:

  runner.py C03 [quick|thorough]      (VERIF_SEED, VERIF_TIER)
  runner.py C03 --replay FILE
  runner.py C03 --seed N              one run, verbose
"""
import collections
import importlib
import json
import os
import pickle
import signal
import subprocess
import sys
import time
import traceback

import core

core.install_seams()

real_time = core.real_time
NWORK = int(os.environ.get('VERIF_WORKERS', '0')) or min(
    8, os.cpu_count() or 1)
CHUNK = 20


if __name__ == '__main__':
    sys.modules['runner'] = sys.modules['__main__']


class HarnessError(Exception):
    pass


class RunTimeout(BaseException):
    pass


def _alarm(sig, frame):
    raise RunTimeout()


def load(pid):
    mod = importlib.import_module('props.' + pid.lower())
    return mod.Check()


def lib_exception(exc):
    """does the traceback pass through library code?"""
    tb = exc.__traceback__
    while tb is not None:
        if core.is_lib_file(tb.tb_frame.f_code.co_filename):
            return True
        tb = tb.tb_next
    return False


def safe_run(check, plan):
    """run a plan; library exceptions the oracles do not expect are
    violations, all others are harness errors"""
    core.reset_entropy()
    try:
        if 'regen' in plan:
            res = check.run(check.gen(plan['regen']))
        else:
            res = check.run(plan)
    except RunTimeout:
        raise
    except Exception as e:
        if not lib_exception(e):
            raise
        res = core.Result()
        res.plan = plan
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if core.is_lib_file(f.filename)][-1]
        res.bad('unexpected-%s' % type(e).__name__,
                'library code raised %r in %s (%s) in a run where nothing '
                'was to fail there' % (e, where.name,
                                       os.path.basename(where.filename)))
    if res.plan is None:
        res.plan = plan
    return res


def seed_of(base, pid, i):
    return '%s:%s:%d' % (base, pid, i)


def make_plan(check, seedstr):
    """the plan of a seed; when library code breaks while the plan is made
    (dry runs), the plan is to do just that again"""
    core.reset_entropy()
    try:
        plan = check.gen(seedstr)
    except RunTimeout:
        raise
    except Exception as e:
        if not lib_exception(e):
            raise
        plan = dict(regen=seedstr)
    plan['seed'] = seedstr
    return plan


def run_one(check, seedstr, limit=600):
    if not check.isolate:
        plan = make_plan(check, seedstr)
        return plan, safe_run(check, plan)
    # neither making the plan nor earlier runs leave anything in the process
    plan = got(forked(lambda: make_plan(check, seedstr), limit))
    return plan, got(forked(lambda: safe_run(check, plan), limit))


def got(x):
    st, val = x
    if st == 'timeout':
        raise RunTimeout()
    if st != 'ok':
        raise HarnessError(str(val))
    return val


# ---------------------------------------------------------------------------
def forked(fn, timeout=600):
    """run fn() in a forked child, return its pickled result"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGALRM, _alarm)
            signal.alarm(int(timeout))
            try:
                out = ('ok', fn())
            except RunTimeout:
                out = ('timeout', None)
            except BaseException:
                out = ('error', traceback.format_exc())
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f, 5)
        except BaseException:
            code = 3
        os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        return ('died', None)
    return pickle.loads(data)


class Batch:
    """forked workers over chunks of run indices"""
    def __init__(self, check, base, n, deadline, run_limit):
        self.check = check
        self.base = base
        self.n = n
        self.deadline = deadline
        self.run_limit = run_limit
        self.agg = None

    def chunk(self, lo, hi, first_only=True):
        out = []
        for i in range(lo, hi):
            if real_time() > self.deadline:
                break
            signal.signal(signal.SIGALRM, _alarm)
            signal.alarm(self.run_limit)
            t0 = real_time()
            s = seed_of(self.base, self.check.id, i)
            try:
                plan, res = run_one(self.check, s, self.run_limit)
            except RunTimeout:
                out.append(dict(i=i, timeout=True))
                break
            finally:
                signal.alarm(0)
            d = dict(
                i=i, viol=res.viol, faults=dict(res.faults),
                probes=dict(res.probes), events=res.events,
                simtime=res.simtime, sigs=res.sigs, execs=res.execs,
                nontrivial=res.nontrivial, key=res.key(),
                plankey=core.digest(core.jdump(plan)),
                t=real_time() - t0)
            if i < 3 or res.viol:
                d['plan'] = res.plan
            out.append(d)
            if res.viol:
                break
        return out

    def run(self):
        chunks = [(lo, min(lo + CHUNK, self.n))
                  for lo in range(0, self.n, CHUNK)]
        pend = list(reversed(chunks))
        live = {}
        outs, stop = [], False
        import select
        while pend or live:
            while pend and len(live) < NWORK and not stop:
                c = pend.pop()
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    try:
                        os.close(r)
                        try:
                            o = ('ok', self.chunk(*c))
                        except BaseException:
                            o = ('error', traceback.format_exc())
                        with os.fdopen(w, 'wb') as f:
                            pickle.dump(o, f, 5)
                    finally:
                        os._exit(0)
                os.close(w)
                live[r] = [pid, c, b'']
            if stop and not live:
                break
            rd, _, _ = select.select(list(live), [], [], 1.0)
            for fd in rd:
                b = os.read(fd, 1 << 20)
                if b:
                    live[fd][2] += b
                    continue
                pid, c, data = live.pop(fd)
                os.close(fd)
                os.waitpid(pid, 0)
                if not data:
                    raise HarnessError('worker for runs %s died' % (c,))
                st, val = pickle.loads(data)
                if st == 'error':
                    raise HarnessError(val)
                outs.extend(val)
                if any(v.get('viol') for v in val):
                    stop = True
                    pend = []
            if real_time() > self.deadline:
                pend = []
        outs.sort(key=lambda d: d['i'])
        return outs


# ---------------------------------------------------------------------------
def eval_plans(check, plans, limit):
    """run plans in order in a fresh fork; result of the last"""
    def go():
        for p in plans[:-1]:
            try:
                safe_run(check, p)
            except Exception:
                pass
        r = safe_run(check, plans[-1])
        return (r.viol, r.key(), r.plan)
    st, val = forked(go, limit)
    return val if st == 'ok' else None


def minimise(check, plan, code, budget, limit):
    """greedy shrinking: keep a candidate when the same violation persists"""
    t_end = real_time() + budget
    best, tried, kept = plan, 0, 0
    progress = 'regen' not in plan
    while progress and real_time() < t_end:
        progress = False
        for cand in check.shrink(best):
            if real_time() > t_end:
                break
            tried += 1
            v = eval_plans(check, [cand], limit)
            if v and any(c == code for c, _ in v[0]):
                best = v[2] if v[2] is not None else cand
                kept += 1
                progress = True
                break
    return best, tried, kept


def write_replay(check, plans, viol, key, extra):
    d = os.path.join(core.VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    code, msg = viol
    name = '%s-%s.json' % (check.id, core.digest(core.jdump(plans))[:10])
    path = os.path.join(d, name)
    with open(path, 'w') as f:
        json.dump(dict(property=check.id, code=code, message=msg, key=key,
                       plans=plans, **extra), f, indent=1)
    return path


def replay_fresh(path, pid):
    """replay in a fresh interpreter; True when it reproduces exactly"""
    p = subprocess.run(
        [sys.executable, os.path.abspath(__file__), pid, '--replay', path],
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    return p.returncode == 1, p.stdout.decode()


def do_replay(check, path):
    with open(path) as f:
        d = json.load(f)
    plans = d['plans']
    for p in plans[:-1]:
        try:
            safe_run(check, p)
        except Exception:
            pass
    res = safe_run(check, plans[-1])
    print(json.dumps(plans[-1], indent=1)[:20000])
    for code, msg in res.viol:
        print('%s: %s' % (code, msg))
    same = any(c == d['code'] for c, _ in res.viol)
    exact = same and res.key() == d['key']
    print('recorded violation reproduced: %s, event log identical: %s'
          % (same, exact))
    if same:
        print('VIOLATION property=%s replay=%s' % (check.id, path))
        return 1
    return 0


def known_findings(pid):
    """(code, substring) pairs listed as findings for this property"""
    path = os.path.join(core.VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        d = json.load(f)
    return [x for x in d.get('findings', []) if x['property'] == pid]


def main(argv):
    pid = argv[0]
    t0 = real_time()
    check = load(pid)
    if len(argv) > 1 and argv[1] == '--replay':
        return do_replay(check, argv[2])
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(argv) > 1 and argv[1] in ('quick', 'thorough'):
        tier = argv[1]
    base = int(os.environ.get('VERIF_SEED', '1'))
    if len(argv) > 1 and argv[1] == '--seed':
        plan, res = run_one(check, argv[2])
        print(json.dumps(res.plan, indent=1)[:6000])
        print('faults', dict(res.faults), 'probes', dict(res.probes),
              'events', res.events, 'key', res.key())
        for v in res.viol:
            print('VIOL', v)
        return 1 if res.viol else 0
    print('VERIF_SEED=%d property=%s tier=%s workers=%d'
          % (base, pid, tier, NWORK), flush=True)
    check.known = known_findings(pid)
    n = check.n_quick if tier == 'quick' else check.n_thorough
    n = int(os.environ.get('VERIF_RUNS', n))
    soft = 420 if tier == 'quick' else 6 * 3600
    deadline = t0 + float(os.environ.get('VERIF_SOFT', soft))
    run_limit = 200
    if hasattr(check, 'warm'):
        check.warm()
    # prepare once in the parent: warm compiled code, imports
    signal.signal(signal.SIGALRM, _alarm)
    b = Batch(check, base, n, deadline, run_limit)
    outs = b.run()
    tout = [o for o in outs if o.get('timeout')]
    outs = [o for o in outs if not o.get('timeout')]
    t_explore = real_time() - t0
    viols = [o for o in outs if o['viol']]
    status = 0
    nviol = 0
    replay = None
    if viols:
        status = 1
        nviol = len(viols)
        o = viols[0]
        print('run %d (seed %s) violates %s:' % (
            o['i'], seed_of(base, pid, o['i']), pid))
        for c, m in o['viol']:
            print('   [%s] %s' % (c, m))
        sys.stdout.flush()
        replay = report(check, base, o, tier, run_limit)
        print('VIOLATION property=%s replay=%s' % (pid, replay), flush=True)
    write_evidence(check, tier, base, outs, n, t_explore, t0, nviol,
                   len(tout))
    if status == 0:
        if tout:
            print('ERROR: %d runs timed out (first: run %d)'
                  % (len(tout), tout[0]['i']))
            return 2
        if len(outs) < 0.1 * n:
            print('ERROR: only %d of %d runs completed in time'
                  % (len(outs), n))
            return 2
        for k in check.known:
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
        print('OK property=%s runs=%d events=%d wall=%.1fs' % (
            pid, len(outs), sum(o['events'] for o in outs),
            real_time() - t0))
    return status


def report(check, base, o, tier, limit):
    code = o['viol'][0][0]
    plan = o['plan']
    v = eval_plans(check, [plan], limit)
    plans = [plan]
    extra = dict(seed=seed_of(base, check.id, o['i']))
    if v and any(c == code for c, _ in v[0]):
        best, tried, kept = minimise(
            check, plan, code, 60 if tier == 'quick' else 300, limit)
        plans = [best]
        extra.update(minimiser_tried=tried, minimiser_kept=kept)
    else:
        # depends on what ran before in the same process: keep the history
        lo = (o['i'] // CHUNK) * CHUNK
        hist = []
        for i in range(lo, o['i']):
            hist.append(make_plan(check, seed_of(base, check.id, i)))
        t_end = real_time() + 60
        cur = hist
        k = 0
        while k < len(cur) and real_time() < t_end:
            cand = cur[:k] + cur[k + 1:]
            v = eval_plans(check, cand + [plan], limit)
            if v and any(c == code for c, _ in v[0]):
                cur = cand
            else:
                k += 1
        plans = cur + [plan]
        extra.update(history=len(cur))
    v = eval_plans(check, plans, limit)
    if v and v[0]:
        vi = [x for x in v[0] if x[0] == code] or v[0]
        viol, key = vi[0], v[1]
    else:
        viol, key = o['viol'][0], o['key']
    path = write_replay(check, plans, viol, key, extra)
    try:
        ok, text = replay_fresh(path, check.id)
        print('replay in a fresh process: %s' % (
            'reproduced' if ok else 'NOT reproduced'))
        for ln in text.splitlines()[-4:]:
            print('   ' + ln)
    except subprocess.TimeoutExpired:
        print('replay timed out')
    return path


def write_evidence(check, tier, base, outs, n, t_explore, t0, nviol, ntout):
    faults, probes = collections.Counter(), collections.Counter()
    sigs, plankeys, simtime, events, execs = set(), set(), 0.0, 0, 0
    nt = set()
    for o in outs:
        faults.update(o['faults'])
        probes.update(o['probes'])
        sigs |= set(o['sigs'])
        plankeys.add(o['plankey'])
        simtime += o['simtime']
        events += o['events']
        execs += o['execs']
        if o['nontrivial']:
            nt.add(o['plankey'])
    dt = max(t_explore, 1e-6)
    cov = dict(
        evaluations=len(outs), distinct_nontrivial=len(nt),
        rule=check.rule,
        samples=[o['plan'] for o in outs if 'plan' in o][:3],
        simulated_runs=len(outs), planned_runs=n,
        runs_per_hour=round(3600 * len(outs) / dt),
        seeds_per_hour=round(3600 * len(outs) / dt),
        library_executions=execs,
        simulated_time_s=round(simtime, 3),
        seam_events=events,
        faults_injected=dict(sorted(faults.items())),
        probes_hit=dict(sorted(probes.items())),
        distinct_states=len(sigs), distinct_states_measure=check.measure,
        real_components=check.real, stub_components=check.stubs,
        timed_out_runs=ntout, workers=NWORK,
        event_log_hash=core.digest([o['key'] for o in outs]),
    )
    ev = dict(property=check.id, tier=tier, seed=base, level=check.level,
              coverage=cov, assumptions=check.assumptions,
              wall_s=round(real_time() - t0, 2), violations=nviol)
    d = os.path.join(core.VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, '.%s.%d' % (check.id, os.getpid()))
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(d, check.id + '.json'))


if __name__ == '__main__':
    try:
        rc = main(sys.argv[1:])
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
