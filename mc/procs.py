"""Schedules of real processes that share files: every process stops itself before each of
its calls below the shared folder (fsfault's STEP mode), and is continued one call at a
time, so that all the interleavings up to a number of preemptions can be enumerated."""
import ctypes
import mmap
import os
import pickle
import signal
from mc import faults

SECONDS = 60


class Proc:
    def __init__(self, folder, fn):
        self.mem = mmap.mmap(-1, mmap.PAGESIZE)
        self.words = (ctypes.c_long * 2).from_buffer(self.mem)      # where to stop, calls so far
        self.r, w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.alarm(SECONDS)
                os.close(self.r)
                faults.arm_steps(folder, self.words)
                os.kill(os.getpid(), signal.SIGSTOP)
                try:
                    out = ('ok', fn())
                except BaseException as e:
                    out = ('err', '%s: %s' % (type(e).__name__, e))
                faults.off()
                with os.fdopen(w, 'wb') as fp:
                    pickle.dump(out, fp)
            finally:
                os._exit(0)
        os.close(w)
        self.done = False
        self._wait()

    def _wait(self):
        _, st = os.waitpid(self.pid, os.WUNTRACED)
        if not os.WIFSTOPPED(st):
            self.done = True
            with os.fdopen(self.r, 'rb') as fp:
                data = fp.read()
            self.result = pickle.loads(data) if data else ('err', 'the process died (or hangs)')

    def go(self, steps):
        """continue until `steps` calls further (None: to the end), returns the number of steps"""
        before = self.words[1]
        self.words[0] = before + steps if steps else -1
        os.kill(self.pid, signal.SIGCONT)
        self._wait()
        return self.words[1] - before + self.done


def run(folder, bodies, order, plan):
    """the processes in that order, `plan` = the number of steps before each preemption;
    returns (results, lengths of the segments run)"""
    ps = [Proc(folder, b) for b in bodies]
    segments = []
    at = 0
    plan = list(plan)
    try:
        while True:
            if all(p.done for p in ps):
                break
            cur = next(i for i in order[at:] + order[:at] if not ps[i].done)
            n = ps[cur].go(plan[len(segments)] if len(segments) < len(plan) else None)
            segments.append((cur, n, ps[cur].done))
            at = (order.index(cur) + 1) % len(order)
    finally:
        for p in ps:
            if not p.done:
                os.kill(p.pid, signal.SIGKILL)
                os.waitpid(p.pid, 0)
                os.close(p.r)
    return [p.result for p in ps], segments


def extensions(plan, segments):
    """plans with one more preemption, inside the first segment that was not cut"""
    k = len(plan)
    if k + 1 >= len(segments):
        return []           # no other process is left to switch to
    return [tuple(plan) + (i,) for i in range(1, segments[k][1])]
