"""Controlled scheduler: runs real threads of the real code one at a time and switches
between them only at chosen points, so that every schedule within a preemption bound can
be enumerated (stateless model checking).

Yield points are line events (or call events) in the selected source files and every
operation on a lock created through threading.Lock / threading.RLock."""
import os
import pickle
import signal
import sys
import threading

_RealLock = threading.Lock
_RealRLock = threading.RLock
ACTIVE = None
CHILD_SECONDS = 120
SKIP = set()          # names of functions without yield points


class Deadlock(Exception):
    pass


class CoopLock:
    """stand-in for threading.Lock/RLock: cooperative under the scheduler, a plain lock else"""

    def __init__(self, reentrant=False):
        self._real = _RealRLock() if reentrant else _RealLock()
        self.reentrant = reentrant
        self.owner = None
        self.depth = 0

    def _mine(self):
        s = ACTIVE
        return s if s is not None and s.registered() else None

    def acquire(self, blocking=True, timeout=-1):
        s = self._mine()
        if s is None:
            return self._real.acquire(blocking, timeout)
        s.point('lock')
        me = threading.get_ident()
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking:
                return False
            s.block(self)
        self.owner = me
        self.depth += 1
        return True

    def release(self):
        s = self._mine()
        if s is None:
            return self._real.release()
        self.depth -= 1
        if self.depth <= 0:
            self.owner = None
            self.depth = 0
            s.unblock(self)
        s.point('unlock')

    def _at_fork_reinit(self):
        self.owner, self.depth = None, 0
        self._real._at_fork_reinit()

    def locked(self):
        return self.owner is not None or (not self.reentrant and self._real.locked())

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


def install():
    """must run before the code under test is imported"""
    threading.Lock = lambda: CoopLock()
    threading.RLock = lambda: CoopLock(True)


def uninstall():
    threading.Lock = _RealLock
    threading.RLock = _RealRLock


class Sched:
    def __init__(self, bodies, plan, first, files, events):
        self.bodies = bodies
        self.plan = dict(plan)          # global step -> thread index to switch to
        self.first = first
        self.files = files
        self.events = events
        self.n = len(bodies)
        self.go = [_Sem() for _ in bodies]
        self.done = [False] * self.n
        self.blocked = {}               # thread index -> lock
        self.ids = {}
        self.step = 0
        self.trace = []                 # running thread of each step
        self.results = [None] * self.n
        self.finished = _Sem()
        self.error = None
        self.cur = first

    def registered(self):
        return threading.get_ident() in self.ids

    def me(self):
        return self.ids[threading.get_ident()]

    def runnable(self, exclude=None):
        return [i for i in range(self.n) if not self.done[i] and i not in self.blocked and i != exclude]

    def point(self, kind):
        i = self.me()
        k = self.step
        self.step += 1
        self.trace.append(i)
        t = self.plan.get(k)
        if t is not None and t != i and t in self.runnable():
            self.switch(i, t)

    def switch(self, i, t):
        self.cur = t
        self.go[t].release()
        self.go[i].acquire()

    def block(self, lock):
        i = self.me()
        self.blocked[i] = lock
        r = self.runnable()
        if not r:
            self.error = 'deadlock'
            self.finished.release()
            self.go[i].acquire()        # never resumed; the process is thrown away
        self.switch(i, r[0])

    def unblock(self, lock):
        for i in [i for i, l in self.blocked.items() if l is lock]:
            del self.blocked[i]

    def _tracer(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self.files) and frame.f_code.co_name not in SKIP:
            if 'call' in self.events and event == 'call':
                self.point('call')
            return self._local if 'line' in self.events else None
        return None

    def _local(self, frame, event, arg):
        if event == 'line':
            self.point('line')
        return self._local

    def _body(self, i):
        self.ids[threading.get_ident()] = i
        self.go[i].acquire()
        sys.settrace(self._tracer)
        try:
            self.results[i] = ('ok', self.bodies[i]())
        except Exception as e:
            self.results[i] = ('err', type(e).__name__)
        finally:
            sys.settrace(None)
        self.done[i] = True
        r = self.runnable()
        if r:
            self.cur = r[0]
            self.go[r[0]].release()
        elif self.blocked:
            self.error = 'deadlock'
            self.finished.release()
        else:
            self.finished.release()

    def run(self):
        global ACTIVE
        ACTIVE = self
        ts = [threading.Thread(target=self._body, args=(i,), daemon=True) for i in range(self.n)]
        for t in ts:
            t.start()
        while len(self.ids) < self.n:
            pass
        install()
        self.go[self.first].release()
        self.finished.acquire()
        uninstall()
        ACTIVE = None
        return self.results, self.error, self.step, self.trace


class _Sem:
    """binary semaphore on a real lock"""

    def __init__(self):
        self.l = _RealLock()
        self.l.acquire()

    def acquire(self):
        self.l.acquire()

    def release(self):
        self.l.release()


def forked(fn):
    """run fn in a child process, return its (pickled) result"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            # a run that hangs ends the child (reported as 'child died')
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(CHILD_SECONDS)
            os.close(r)
            # what the library prints is not the output of the check
            sys.stdout = open(os.devnull, 'w')
            try:
                out = ('ok', fn())
            except BaseException as e:
                out = ('exc', '%s: %s' % (type(e).__name__, e))
            with os.fdopen(w, 'wb') as fp:
                pickle.dump(out, fp)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as fp:
        data = fp.read()
    os.waitpid(pid, 0)
    if not data:
        return ('exc', 'child died')
    return pickle.loads(data)


def run_schedule(make_bodies, plan, first, files, events):
    """one schedule in a fresh child process; make_bodies() -> (list of thunks, final observer)"""
    def go():
        bodies, observe = make_bodies()
        s = Sched(bodies, plan, first, files, events)
        res, err, steps, trace = s.run()
        return res, err, steps, (observe() if not err else None), trace
    return forked(go)
