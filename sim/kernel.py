"""The simulator: virtual clock, event log, and a scheduler that owns every
interleaving of the threads of a run.

Tasks are real OS threads, but exactly one of them runs at any time: it holds
the baton, and gives it away only at scheduling points (the ones compiled into
pyswagger by boot, lock operations, sleeps and the network/disk seams).  Who
gets it next is decided by the schedule of the run's plan and nothing else.
"""
import _thread
import builtins
import hashlib
import io
import threading
import time

# the real primitives, kept for the simulator's own use
real_alloc = _thread.allocate_lock
real_ident = _thread.get_ident
real_start = _thread.start_new_thread
real_time = time.time
real_monotonic = time.monotonic
real_perf = time.perf_counter
real_sleep = time.sleep
real_open = builtins.open
real_io_open = io.open
REAL_LOCK = threading.Lock
REAL_RLOCK = _thread.RLock

EPOCH = 1600000000.0
BIG = 1 << 60


class SimStop(BaseException):
    """unwinds a task; not an Exception, so nothing swallows it by accident"""


class SimHang(SimStop):
    pass


class SimDeadlock(SimStop):
    pass


class HarnessError(Exception):
    """the harness itself is broken: never a verdict about the code"""


# --- the scheduling points compiled into pyswagger ------------------------

class _State(object):
    n = BIG
    sim = None


S = _State()


def y(site):
    S.n -= 1
    if S.n < 0:
        _slow(site)


def v(site, value):
    S.n -= 1
    if S.n < 0:
        _slow(site)
    return value


def _slow(site):
    sim = S.sim
    if sim is None:
        S.n = BIG
        return
    sim._on_yield(site)


class Task(object):
    __slots__ = ('tid', 'fn', 'name', 'lock', 'state', 'wake', 'seq', 'waiting', 'result', 'error', 'kill', 'ident')

    def __init__(self, tid, fn, name):
        self.tid = tid
        self.fn = fn
        self.name = name
        self.lock = real_alloc()
        self.lock.acquire()
        self.state = 'ready'
        self.wake = 0.0
        self.seq = 0
        self.waiting = None
        self.result = None
        self.error = None
        self.kill = None
        self.ident = None


class Sched(object):
    """the schedule part of a plan (pure JSON)

    preempt: list of [gap, pick]: let `gap` scheduling points pass, then give
             the baton to ready task number `pick`
    hot:     None or [modulus, residue, budget]: additionally switch at every
             scheduling point whose site number is `residue` mod `modulus`,
             at most `budget` times
    picks:   numbers choosing among ready tasks whenever the running one
             blocks or ends (0 when used up)
    per:     {task: list of [gap, pick, stall]}: the same as preempt, but
             counting only the scheduling points that this task passes; with a
             stall the task does not get the baton back for so many seconds
    """

    def __init__(self, d):
        d = d or {}
        self.preempt = [list(x) for x in d.get('preempt', ())]
        self.hot = list(d['hot']) if d.get('hot') else None
        self.picks = list(d.get('picks', ()))
        self.per = dict((int(k), [list(x) for x in v]) for k, v in d.get('per', {}).items() if v)


class Sim(object):
    STEP_CAP = 30000000         # per run_tasks / per section, see cap()

    def __init__(self, cap=None):
        self.now = 0.0
        self.seq = 0
        self.events = []
        self.keep = 4000
        self._h = hashlib.sha256()
        self.counters = {}
        self.steps = 0
        self.cap = cap or self.STEP_CAP
        self.section_start = 0
        self.switches = 0
        self.tasks = None
        self.current = None
        self.sched = None
        self.hung = None
        self._armed = 0
        self._by_ident = {}
        self._unwinding = False
        self.sigs = set()
        self._sig = hashlib.sha256()
        self.jumped = 0.0
        self.overtaken = 0.0       # time that passed while the running task was ready
        self._arm(min(BIG, self.cap))

    # -- log ----------------------------------------------------------------
    def log(self, kind, *detail):
        self.seq += 1
        ev = (self.seq, round(self.now, 6), self.current.tid if self.current else -1, kind) + detail
        self._h.update(repr(ev).encode('utf-8', 'backslashreplace'))
        if len(self.events) < self.keep:
            self.events.append(ev)

    def digest(self):
        return self._h.hexdigest()

    def count(self, what, n=1):
        self.counters[what] = self.counters.get(what, 0) + n

    # -- step accounting ------------------------------------------------------
    def _arm(self, k):
        self._armed = k
        S.n = k

    def _settle(self):
        """account for the steps since the last arm"""
        used = self._armed - S.n
        if S.n < 0:
            used = self._armed + 1
        self.steps += used
        self._armed = S.n = 0
        if self.sched is not None and self.sched.per and self.current is not None:
            q = self.sched.per.get(self.current.tid)
            if q:
                q[0][0] -= used
        return used

    def total_steps(self):
        return self.steps + (self._armed - max(S.n, 0)) if S.sim is self else self.steps

    def section(self):
        """start a new bounded section: the step cap is counted from here"""
        self._settle()
        self.section_start = self.steps
        self._rearm()

    def _left(self):
        return max(0, self.cap - (self.steps - self.section_start))

    def _rearm(self):
        left = self._left()
        if self.tasks is not None and self.sched is not None:
            if self.sched.hot and self.sched.hot[2] > 0:
                self._arm(0)
                return
            if self.sched.preempt:
                left = min(left, max(0, self.sched.preempt[0][0]))
            if self.sched.per and self.current is not None:
                q = self.sched.per.get(self.current.tid)
                if q:
                    left = min(left, max(0, q[0][0]))
        self._arm(left)

    def _on_yield(self, site):
        used = self._settle()
        if self.hung:
            # unwinding: let finally blocks run, but not forever
            self._arm(50000)
            raise SimHang(self.hung)
        if self._left() <= 0:
            self.hung = 'step cap reached'
            self._arm(50000)
            raise SimHang(self.hung)
        if self.tasks is None or self.current is None or real_ident() != self.current.ident:
            self._rearm()
            return
        sc = self.sched
        pick = None
        if sc.preempt:
            sc.preempt[0][0] -= used
            if sc.preempt[0][0] < 0:
                pick = sc.preempt.pop(0)[1]
        if sc.per:
            q = sc.per.get(self.current.tid)
            if q and q[0][0] < 0:
                p = q.pop(0)
                if len(p) > 2 and p[2] and len(self.tasks) > 1:
                    self._stall(p[2], site)
                    return
                pick = p[1] if pick is None else pick
        if pick is None and sc.hot and sc.hot[2] > 0 and site % sc.hot[0] == sc.hot[1]:
            sc.hot[2] -= 1
            pick = 1 + sc.hot[2] % 2
        if pick is not None:
            self._preempt(pick, site)
        self._rearm()

    # -- scheduling -----------------------------------------------------------
    def _ready(self):
        return [t for t in self.tasks if t.state == 'ready']

    def _preempt(self, pick, site):
        cur = self.current
        others = [t for t in self._ready() if t is not cur]
        if not others:
            # nobody else is ready: let a sleeper overtake
            sl = [t for t in self.tasks if t.state == 'sleep']
            if not sl or pick % 2 == 0:
                return
            t = min(sl, key=lambda t: (t.wake, t.seq))
            self.overtaken += max(0.0, t.wake - self.now)
            self.now = max(self.now, t.wake)
            self._wake_due()
            others = [t for t in self._ready() if t is not cur]
            if not others:
                return
        t = others[pick % len(others)]
        self.log('switch', cur.tid, t.tid)
        self._sig.update(('%d>%d@%d;' % (cur.tid, t.tid, site)).encode())
        self._hand(t)
        self._check_kill(cur)

    def _stall(self, dt, site):
        """the running task is not scheduled for some time"""
        self.log('stall', dt)
        self.count('fault:stalled_task')
        self._sig.update(('%dz@%d;' % (self.current.tid, site)).encode())
        self.overtaken += dt
        self.sleep(dt)

    def _hand(self, t):
        """give the baton to t and wait to get it back"""
        cur = self.current
        if t is cur:
            return
        self.switches += 1
        self.current = t
        t.lock.release()
        cur.lock.acquire()
        # back again; whoever handed over has set self.current

    def _check_kill(self, cur):
        if cur.kill is not None:
            k, cur.kill = cur.kill, None
            raise k

    def _wake_due(self):
        for t in self.tasks:
            if t.state == 'sleep' and t.wake <= self.now:
                t.state = 'ready'

    def _next(self):
        """pick who runs next when the current task cannot"""
        r = self._ready()
        if not r:
            sl = [t for t in self.tasks if t.state == 'sleep']
            if sl:
                w = min(t.wake for t in sl)
                if w > self.now:
                    self.jumped += w - self.now
                    self.now = w
                self._wake_due()
                r = self._ready()
        if not r:
            bl = [t for t in self.tasks if t.state == 'blocked']
            if not bl:
                return None
            # deadlock: unwind everybody that waits
            self.hung = self.hung or 'deadlock'
            self.log('deadlock', [t.tid for t in bl])
            for t in bl:
                t.kill = SimDeadlock('deadlock: tasks %s wait for locks' % [x.tid for x in bl])
                t.state = 'ready'
                t.waiting = None
            r = bl
        p = self.sched.picks.pop(0) if self.sched.picks else 0
        return r[p % len(r)]

    def _block(self):
        """the current task is not ready any more: run others until it is"""
        cur = self.current
        self._settle()
        t = self._next()
        if t is not cur:
            self.log('block', cur.tid, cur.state, t.tid)
            self._sig.update(('%d|%d;' % (cur.tid, t.tid)).encode())
            self._hand(t)
        self._rearm()
        self._check_kill(cur)

    def in_task(self):
        return self.tasks is not None and self.current is not None and self.current.ident == real_ident()

    def sleep(self, dt):
        """virtual sleep"""
        dt = max(0.0, float(dt))
        if not self.in_task():
            self.now += dt
            self.jumped += dt
            return
        cur = self.current
        cur.state = 'sleep'
        cur.wake = self.now + dt
        self.seq += 1
        cur.seq = self.seq
        self._block()

    def point(self, what):
        """an explicit scheduling point of a seam"""
        y(len(what))

    def run_tasks(self, fns, sched=None, names=None):
        """run the functions as concurrent tasks to completion.
        returns the list of tasks (.result / .error)"""
        if self.tasks is not None:
            raise HarnessError('nested run_tasks')
        self._settle()
        self.section_start = self.steps
        self.sched = sched if isinstance(sched, Sched) else Sched(sched)
        self.tasks = [Task(i, f, (names or {}).get(i, str(i)) if isinstance(names, dict) else str(i)) for i, f in enumerate(fns)]
        main = Task(-1, None, 'main')
        main.ident = real_ident()
        self._main = main
        for t in self.tasks:
            real_start(self._body, (t,))
        if self.tasks:
            self.current = main
            t = self._next()
            self._rearm()
            self.current = t
            t.lock.release()
            main.lock.acquire()
        self._settle()
        tasks = self.tasks
        self.tasks = None
        self.current = None
        self.sched = None
        self.sigs.add(self._sig.hexdigest()[:16])
        self._rearm()
        for t in tasks:
            if isinstance(t.error, HarnessError):
                raise t.error
        return tasks

    def _body(self, t):
        t.lock.acquire()
        t.ident = real_ident()
        self._rearm()
        try:
            try:
                self._check_kill(t)
                t.result = t.fn()
            except BaseException as e:      # noqa: B902
                t.error = e
        finally:
            self._settle()
            t.state = 'done'
            try:
                self.log('done', t.tid, type(t.error).__name__ if t.error is not None else 'ok')
                n = self._next()
            except BaseException as e:      # noqa: B902
                t.error = HarnessError('scheduler: %r' % (e,))
                n = None
            if n is None:
                self.current = None
                self._main.lock.release()
            else:
                self._rearm()
                self.current = n
                n.lock.release()


# --- locks --------------------------------------------------------------------

class SimLock(object):
    """threading.Lock; blocks cooperatively inside a simulated task"""

    _n = 0

    def __init__(self):
        self._real = real_alloc()

    def acquire(self, blocking=True, timeout=-1):
        sim = S.sim
        if sim is None or not sim.in_task():
            if not blocking:
                return self._real.acquire(False)
            return self._real.acquire(True, timeout)
        y(0)
        deadline = None if timeout is None or timeout < 0 else sim.now + timeout
        while not self._real.acquire(False):
            if not blocking:
                return False
            if deadline is not None:
                if sim.now >= deadline:
                    return False
                sim.sleep(min(0.01, deadline - sim.now))
                continue
            sim.count('lock_waits')
            sim.current.state = 'blocked'
            sim.current.waiting = self
            sim._block()
        return True

    def release(self):
        self._real.release()
        sim = S.sim
        if sim is not None and sim.tasks is not None:
            for t in sim.tasks:
                if t.state == 'blocked' and t.waiting is self:
                    t.state = 'ready'
                    t.waiting = None
            if sim.in_task():
                y(1)

    def locked(self):
        return self._real.locked()

    def _at_fork_reinit(self):
        self._real = real_alloc()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class SimRLock(object):
    def __init__(self):
        self._l = SimLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = real_ident()
        if self._owner == me:
            self._count += 1
            return True
        if self._l.acquire(blocking, timeout):
            self._owner = me
            self._count = 1
            return True
        return False

    def release(self):
        if self._owner != real_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if self._count == 0:
            self._owner = None
            self._l.release()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    # used by threading.Condition
    def _is_owned(self):
        return self._owner == real_ident()

    def _release_save(self):
        st = (self._count, self._owner)
        self._count, self._owner = 0, None
        self._l.release()
        return st

    def _acquire_restore(self, st):
        self._l.acquire()
        self._count, self._owner = st

    def _at_fork_reinit(self):
        self._l._at_fork_reinit()
        self._owner = None
        self._count = 0


# --- clocks ----------------------------------------------------------------------

def sim_time():
    return EPOCH + S.sim.now if S.sim is not None else real_time()


def sim_monotonic():
    return S.sim.now if S.sim is not None else real_monotonic()


def sim_perf():
    return S.sim.now if S.sim is not None else real_perf()


def sim_sleep(dt):
    if S.sim is None:
        real_sleep(dt)
    else:
        S.sim.sleep(dt)


def install():
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock
    threading._CRLock = SimRLock
    time.time = sim_time
    time.monotonic = sim_monotonic
    time.perf_counter = sim_perf
    time.sleep = sim_sleep


class active(object):
    """with active(sim): the simulator owns the process"""

    def __init__(self, sim):
        self.sim = sim

    def __enter__(self):
        if S.sim is not None:
            raise HarnessError('simulator already active')
        S.sim = self.sim
        self.sim._rearm()
        return self.sim

    def __exit__(self, *a):
        self.sim._settle()
        S.sim = None
        S.n = BIG
