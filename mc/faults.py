"""Crash and fault points: every call of the process that changes the file system below a
folder is a point at which it can die (before the call, or in the middle of a write) or at
which the call can fail.  The calls are intercepted by a preloaded library (native/fsfault.c),
so that the points inside the C libraries are covered too."""
import ctypes
import os
import subprocess
import sys
import tempfile

OFF, COUNT, DIE, TORN, FAIL, STEP = range(6)
DEAD = 77
ENOSPC, EIO, EACCES = 28, 5, 13
_LIB = None


def ensure():
    """build the library and restart the process with it (called first by a check)"""
    global _LIB
    so = os.environ.get('MC_FSFAULT')
    if not so:
        src = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'native', 'fsfault.c')
        so = os.path.join(tempfile.mkdtemp(prefix='fsfault.', dir=os.environ.get('MC_SCRATCH') or None), 'fsfault.so')
        subprocess.check_call(['gcc', '-O1', '-shared', '-fPIC', '-U_FORTIFY_SOURCE', '-o', so, src, '-ldl'])
        env = dict(os.environ, MC_FSFAULT=so, LD_PRELOAD=so)
        sys.stdout.flush()
        os.execve(sys.executable, [sys.executable, '-m', 'mc'] + sys.argv[1:], env)
    os.environ.pop('LD_PRELOAD', None)      # not for the processes started by the code under test
    _LIB = ctypes.CDLL(so)
    _LIB.fsfault_arm.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_long, ctypes.c_int]
    _LIB.fsfault_seen.restype = ctypes.c_long
    _LIB.fsfault_last.restype = ctypes.c_char_p


def arm(folder, mode, k=-1, err=ENOSPC):
    _LIB.fsfault_arm(os.path.realpath(folder).encode(), mode, k, err)


def arm_steps(folder, words):
    _LIB.fsfault_shared(words)
    arm(folder, STEP)


def off():
    _LIB.fsfault_off()


def pause():
    """preparations inside a run are not points"""
    _LIB.fsfault_pause(1)


def resume():
    _LIB.fsfault_pause(0)


def seen():
    return _LIB.fsfault_seen()


def last():
    return _LIB.fsfault_last().decode()


def child(folder, mode, k, fn, err=ENOSPC):
    """run fn in a child under the fault: ('dead', None) | ('ok', result of fn, calls) | ('hang', None)"""
    from mc import sched

    def go():
        arm(folder, mode, k, err)
        try:
            out = fn()
        finally:
            off()
        return out, seen(), last()
    st, out = sched.forked(go)
    if st == 'ok':
        return ('ok',) + out
    return ('dead' if out == 'child died' else st), out, None
