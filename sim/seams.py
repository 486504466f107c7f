"""Seams around the nondeterminism a library call could meet: locks created by tftb code
(so that a held lock never blocks the simulator), clocks, plt.show."""
import _thread
import os
import sys
import threading
import time

_real_lock = threading.Lock
_real_rlock = threading.RLock
_real_alloc = _thread.allocate_lock
SCHED = None            # the active scheduler, set by sim.sched in a simulated run
CLOCK = None            # the active virtual clock
ON_SHOW = None          # called when plt.show() is called


def _from_tftb():
    f = sys._getframe(2)
    for _ in range(5):
        if f is None:
            return False
        if str(f.f_globals.get("__name__", "")).split(".")[0] == "tftb":
            return True
        f = f.f_back
    return False


class SimLock(object):
    """A lock whose waiters yield to the simulator instead of blocking the process."""
    reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        while self._owner is not None and not (self.reentrant and self._owner == me):
            if not blocking:
                return False
            s = SCHED
            if s is None or not s.block_on_lock(self, timeout):
                if timeout is not None and timeout >= 0:
                    return False
                raise Deadlock("lock never released")
        self._owner = me
        self._count += 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if self._count <= 0:
            self._count = 0
            self._owner = None

    def locked(self):
        return self._owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    # used by threading.Condition
    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        st = self._count
        self._count = 0
        self._owner = None
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self._count = st


    def __reduce_ex__(self, protocol):
        raise TypeError("cannot pickle '_thread.%slock' object" % ("R" if self.reentrant else ""))


class SimRLock(SimLock):
    reentrant = True


class Deadlock(BaseException):
    """Raised in a simulated thread that can never proceed."""


def _lock(*a, **k):
    return SimLock() if _from_tftb() else _real_lock(*a, **k)


def _rlock(*a, **k):
    return SimRLock() if _from_tftb() else _real_rlock(*a, **k)


def _alloc(*a, **k):
    return SimLock() if _from_tftb() else _real_alloc(*a, **k)


class VClock(object):
    def __init__(self, start=1.7e9):
        self.now = start

    def jump(self, dt):
        self.now += dt

    def read(self):
        self.now += 1e-6
        return self.now


VPID = [4321]           # the identity a simulated process sees; the real one changes with every run


_real_getpid = os.getpid


def _getpid():
    return VPID[0] if _from_tftb() else _real_getpid()


_real_time = {}


def install():
    if _real_time:
        return
    threading.Lock = _lock
    threading.RLock = _rlock
    _thread.allocate_lock = _alloc
    os.getpid = _getpid
    for n in ("time", "monotonic", "perf_counter", "process_time"):
        real = getattr(time, n)
        _real_time[n] = real
        setattr(time, n, _mk(real, 1))
        _real_time[n + "_ns"] = getattr(time, n + "_ns")
        setattr(time, n + "_ns", _mk(getattr(time, n + "_ns"), 10 ** 9))
    _real_time["sleep"] = time.sleep
    time.sleep = _sleep


def _mk(real, scale):
    def clock():
        c = CLOCK
        if c is None:
            return real()
        v = c.read()
        return v if scale == 1 else int(v * scale)
    return clock


def _sleep(dt):
    c = CLOCK
    if c is None:
        return _real_time["sleep"](dt)
    c.jump(dt)


def real_monotonic():
    return _real_time["monotonic"]() if _real_time else time.monotonic()


def real_sleep(dt):
    return (_real_time.get("sleep") or time.sleep)(dt)
