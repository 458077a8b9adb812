"""Deterministic scheduling of real threads, and the lock seam.

Exactly one simulated thread runs at a time. A thread can lose the processor
only at a *step*: the start of a source line of, or a call made by, the code
under test (sys.monitoring LINE and CALL events), an explicit step() of harness
code, a simulated lock operation, or its end. Who runs next is decided by the
schedule handed to the scheduler, never by the operating system.
"""
import sys
import threading

_THREADING = threading.__file__
_RealLock = threading.Lock
_RealRLock = threading.RLock
CURRENT = None          # the active Scheduler, if any


class Deadlock(BaseException):
    """Simulated threads cannot make progress."""


class StepLimit(BaseException):
    """A simulated thread ran for more steps than it may need."""


class SimLock:
    """Drop-in for threading.Lock/RLock objects created by the code under
    test: waiting for it is a scheduling decision, and a wait that can never
    end is reported instead of hanging the simulation."""

    def __init__(self, reentrant):
        self._re = reentrant
        self._owner = None
        self._depth = 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        if self._re and self._owner == me:
            self._depth += 1
            return True
        s = CURRENT
        spins = 0
        while self._owner is not None:
            if not blocking:
                return False
            if s is None or not s.owns(me):
                raise Deadlock('lock is held and nothing can release it')
            if not s.block(me, self):
                if timeout is not None and timeout >= 0:
                    return False
                raise Deadlock('all simulated threads wait for locks')
            spins += 1
        self._owner, self._depth = me, 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError('release unlocked lock')
        self._depth -= 1
        if self._depth == 0:
            self._owner = None
            s = CURRENT
            if s is not None:
                s.unblock(self)

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


def install_lock_seam(pkgdir):
    def factory(real, reentrant):
        def make(*a, **k):
            fr = sys._getframe(1)
            while fr is not None and fr.f_code.co_filename == _THREADING:
                fr = fr.f_back
            if fr is not None and fr.f_code.co_filename.startswith(pkgdir):
                return SimLock(reentrant)
            return real(*a, **k)
        return make
    threading.Lock = factory(_RealLock, False)
    threading.RLock = factory(_RealRLock, True)


class _Task:
    def __init__(self, idx, name, fn):
        self.idx, self.name, self.fn = idx, name, fn
        self.sem = threading.Semaphore(0)
        self.done = False
        self.blocked = None
        self.result = None
        self.error = None
        self.ident = None
        self.steps = 0


class Scheduler:
    """schedule: {'mode': 'list', 'switches': [[step, k], ...], 'first': i}
    or {'mode': 'dense', 'p': float, 'seed': int, 'first': i}
    or {'mode': 'novel', 'p': float, 'seed': int, 'first': i}: switches with
    probability p, but only at places executed for the first time (the first
    use of something is where lazy set-up happens), at most twice each.

    At global step number `step` the k-th runnable thread (cyclically after the
    current one) takes over. `taken` records the switches that took effect, so
    that any run can be turned into an explicit list for minimisation.
    """

    def __init__(self, schedule, max_steps=2_000_000, on_switch=None):
        import random
        self.tasks = []
        self.schedule = schedule
        self.steps = 0
        self.max_steps = max_steps
        self.taken = []
        self.on_switch = on_switch
        self.main = threading.Semaphore(0)
        self.by_ident = {}
        self.cur = None
        self.trace = []
        if schedule['mode'] == 'list':
            self.pending = {int(s): int(k) for s, k in schedule['switches']}
            self.rng = None
        else:
            self.rng = random.Random(schedule['seed'])
            self.p = schedule['p']
        self.seen = {} if schedule['mode'] == 'novel' else None

    def spawn(self, name, fn):
        self.tasks.append(_Task(len(self.tasks), name, fn))

    def owns(self, ident):
        return ident in self.by_ident

    # -- called from simulated threads -----------------------------------
    def step(self, where=None, place=None):
        t = self.by_ident.get(threading.get_ident())
        if t is None:
            return
        self.steps += 1
        t.steps += 1
        if self.steps > self.max_steps:
            raise StepLimit(f'{t.name}: more than {self.max_steps} steps')
        if self.rng is not None:
            if self.seen is not None:
                n = self.seen.get(place, 0)
                if n >= 2:
                    return
                self.seen[place] = n + 1
            if self.rng.random() >= self.p:
                return
            k = self.rng.randrange(1, max(2, len(self.tasks)))
        else:
            k = self.pending.get(self.steps)
            if k is None:
                return
        others = self._runnable_after(t)
        if not others:
            return
        nxt = others[(k - 1) % len(others)]
        self.taken.append([self.steps, k])
        self.trace.append((self.steps, t.name, nxt.name, where))
        self._hand_over(t, nxt)

    def _runnable_after(self, t):
        n = len(self.tasks)
        out = []
        for d in range(1, n):
            o = self.tasks[(t.idx + d) % n]
            if not o.done and o.blocked is None:
                out.append(o)
        return out

    def _hand_over(self, t, nxt):
        self.cur = nxt
        nxt.sem.release()
        t.sem.acquire()

    def block(self, ident, lock):
        t = self.by_ident[ident]
        t.blocked = lock
        others = self._runnable_after(t)
        if not others:
            t.blocked = None
            return False
        self.trace.append((self.steps, t.name, others[0].name, 'lock'))
        self._hand_over(t, others[0])
        t.blocked = None
        return True

    def unblock(self, lock):
        for t in self.tasks:
            if t.blocked is lock:
                t.blocked = None

    # -- main -------------------------------------------------------------
    def _body(self, t):
        t.sem.acquire()
        t.ident = threading.get_ident()
        self.by_ident[t.ident] = t
        try:
            t.result = t.fn()
        except BaseException as e:       # kept for the check to judge
            t.error = e
        t.done = True
        del self.by_ident[t.ident]
        rest = self._runnable_after(t)
        if rest:
            self.trace.append((self.steps, t.name, rest[0].name, 'end'))
            self.cur = rest[0]
            rest[0].sem.release()
        else:
            stuck = [o for o in self.tasks if not o.done]
            if stuck:
                # everything left waits for a lock nobody will release
                stuck[0].blocked = None
                stuck[0].sem.release()
            else:
                self.main.release()

    def run(self):
        global CURRENT
        CURRENT = self
        try:
            threads = [threading.Thread(target=self._body, args=(t,),
                                        daemon=True) for t in self.tasks]
            for th in threads:
                th.start()
            first = self.tasks[self.schedule.get('first', 0)
                               % len(self.tasks)]
            self.cur = first
            first.sem.release()
            self.main.acquire()
            for th in threads:
                th.join()
        finally:
            CURRENT = None
        return [(t.result, t.error) for t in self.tasks]
