"""Cooperative scheduler over real threads: exactly one runs at a time and a
seeded policy (or a recorded list) decides who continues at every yield point.

Yield points are source lines of the library (sys.monitoring LINE events) and
the fault points of the stub dependencies.  A schedule is recorded as a list of
[tid, local_step, to_tid]: "when thread tid reaches its local_step-th yield
point, thread to_tid runs".  Thread ends are recorded with local_step -1.
"""
import random
import threading

_sched = {}          # thread ident -> (Scheduler, tid)


def current():
    return _sched.get(threading.get_ident())


def yield_point(code=None):
    c = _sched.get(threading.get_ident())
    if c is not None:
        c[0].on_yield(c[1], code)


class Deadlock(Exception):
    pass


class SimLock:
    """replacement for locks made by library code"""
    def __init__(self, reentrant):
        self.re = reentrant
        self.owner = None
        self.n = 0

    def _me(self):
        return threading.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        while True:
            if self.owner is None or (self.re and self.owner == me):
                self.owner = me
                self.n += 1
                return True
            if not blocking:
                return False
            c = _sched.get(me)
            if c is None:
                raise Deadlock('lock held outside the scheduler')
            c[0].on_block(c[1])

    def release(self):
        if self.owner != self._me():
            raise RuntimeError('release unlocked lock')
        self.n -= 1
        if self.n == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class Policy:
    """kinds: random {p}, pct {d, est}, meet {wait, mix, p}, list

    meet: a thread that enters a function is held there until another one
    gets to the same function (or has not for ``wait`` steps); then the two
    go on with frequent switches for ``mix`` steps.  Functions at which
    threads met often are chosen less.
    """
    def __init__(self, spec, n):
        self.spec = spec
        self.kind = spec['kind']
        self.n = n
        if self.kind != 'list':
            self.r = random.Random('sched:%s' % spec['seed'])
        if self.kind == 'pct':
            self.prio = list(range(n))
            self.r.shuffle(self.prio)
            self.prio = [p + spec['d'] for p in self.prio]
            self.change = {
                self.r.randrange(max(1, spec['est'])): spec['d'] - 1 - i
                for i in range(spec['d'])}
        if self.kind == 'list':
            self.table = {(a, b): c for a, b, c in spec['list']}
        self.first = spec.get('first', 0)
        if self.kind == 'meet':
            self.last = [None] * n       # function each thread is in
            self.visits = {}
            self.held = None             # (thread, function)
            self.left = 0                # steps until the held one goes on
            self.mixing = 0

    def meet(self, tid, runnable, code):
        entered = tid in runnable and code is not None \
            and code is not self.last[tid]
        if code is not None:
            self.last[tid] = code
        others = [t for t in runnable if t != tid]
        if self.held is not None and self.held[0] not in runnable:
            self.held = None
        if tid not in runnable:
            if self.held is not None:
                to, self.held = self.held[0], None
                return to
            return self.r.choice(runnable)
        if self.mixing:
            self.mixing -= 1
            return self.r.choice(runnable) if self.r.random() < 0.5 else tid
        if self.held is not None:
            h, c = self.held
            self.left -= 1
            if code is c and entered:
                self.held = None
                self.mixing = self.spec['mix']
                return self.r.choice([tid, h])
            if self.left <= 0:
                self.held = None
                return h
            return tid
        if entered and others:
            n = self.visits.get(code, 0)
            if self.r.random() < self.spec['p'] / (1 + n):
                self.visits[code] = n + 1
                self.held = (tid, code)
                self.left = self.spec['wait']
                return self.r.choice(others)
        return tid

    def pick(self, step, tid, local, runnable, code=None):
        """thread to run next; tid is not in runnable when it ended"""
        if self.kind == 'list':
            to = self.table.get((tid, local))
            if to is not None and to in runnable:
                return to
            return tid if tid in runnable else min(runnable)
        if self.kind == 'pct':
            if step in self.change and tid in runnable:
                self.prio[tid] = self.change[step]
            return max(runnable, key=lambda t: self.prio[t])
        if self.kind == 'meet':
            return self.meet(tid, runnable, code)
        if tid not in runnable:
            return self.r.choice(runnable)
        if self.r.random() < self.spec['p']:
            return self.r.choice(runnable)
        return tid


class Scheduler:
    def __init__(self, bodies, spec, max_steps=2000000):
        self.bodies = bodies
        n = len(bodies)
        self.policy = Policy(spec, n)
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.done = [False] * n
        self.local = [0] * n
        self.step = 0
        self.trace = []
        self.results = [None] * n
        self.errors = [None] * n
        self.switches = 0
        self.blocked = 0
        self.max_steps = max_steps
        self.overrun = False
        self.finished = threading.Semaphore(0)
        self.recorded = []
        self.started = [False] * n

    def runnable(self):
        return [t for t in range(len(self.bodies)) if not self.done[t]]

    def _switch(self, tid, to):
        self.switches += 1
        self.sems[to].release()
        if not self.done[tid]:
            self.sems[tid].acquire()

    def on_yield(self, tid, code=None):
        self.step += 1
        self.local[tid] += 1
        if self.step > self.max_steps:
            self.overrun = True
            return
        run = self.runnable()
        if len(run) == 1:
            return
        to = self.policy.pick(self.step, tid, self.local[tid], run, code)
        if to != tid:
            self.recorded.append([tid, self.local[tid], to])
            self._switch(tid, to)

    def on_block(self, tid):
        """the thread waits for a lock: let somebody else run"""
        self.blocked += 1
        run = [t for t in self.runnable() if t != tid]
        if not run or self.blocked > 100000:
            raise Deadlock('no thread can run')
        to = run[self.blocked % len(run)]
        self._switch(tid, to)

    def _body(self, tid):
        self.sems[tid].acquire()
        _sched[threading.get_ident()] = (self, tid)
        try:
            self.results[tid] = self.bodies[tid]()
        except BaseException as e:    # noqa: recorded, judged by the oracle
            self.errors[tid] = e
        finally:
            _sched.pop(threading.get_ident(), None)
            self.done[tid] = True
            run = self.runnable()
            if run:
                to = self.policy.pick(self.step, tid, -1, run)
                self.recorded.append([tid, -1, to])
                self.sems[to].release()
            else:
                self.finished.release()

    def run(self):
        ths = [threading.Thread(target=self._body, args=(t,), daemon=True)
               for t in range(len(self.bodies))]
        for t in ths:
            t.start()
        first = self.policy.first % len(ths)
        if self.policy.kind == 'pct':
            first = max(range(len(ths)), key=lambda t: self.policy.prio[t])
        self.first = first
        self.sems[first].release()
        self.finished.acquire()
        for t in ths:
            t.join()
        return self
