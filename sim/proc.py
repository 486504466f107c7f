"""Run a function in a freshly forked, pristine child and get its pickled result."""
import gc
import os
import pickle
import resource
import select
import signal
import struct
import sys

from . import seams


class ChildTimeout(Exception):
    pass


class ChildCrash(Exception):
    pass


def fork_call(fn, *args, timeout=60.0):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
            gc.disable()
            try:
                out = ("ok", fn(*args))
            except BaseException as e:
                import traceback
                out = ("err", "".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:])
            data = pickle.dumps(out, protocol=4)
            _write(w, struct.pack("<Q", len(data)))
            _write(w, data)
            code = 0
        finally:
            try:
                os.close(w)
            finally:
                os._exit(code)
    os.close(w)
    buf = bytearray()
    deadline = seams.real_monotonic() + timeout
    need = None
    try:
        while True:
            left = deadline - seams.real_monotonic()
            if left <= 0:
                os.kill(pid, signal.SIGKILL)
                raise ChildTimeout("child exceeded %.0f s" % timeout)
            rd, _, _ = select.select([r], [], [], min(left, 5.0))
            if not rd:
                continue
            chunk = os.read(r, 1 << 20)
            if not chunk:
                break
            buf += chunk
            if need is None and len(buf) >= 8:
                need = struct.unpack("<Q", bytes(buf[:8]))[0]
            if need is not None and len(buf) >= need + 8:
                break
    finally:
        os.close(r)
        try:
            os.kill(pid, signal.SIGKILL) if need is None or len(buf) < (need or 0) + 8 else None
        except ProcessLookupError:
            pass
        _, st = os.waitpid(pid, 0)
    if need is None or len(buf) < need + 8:
        raise ChildCrash("child died with status %r" % (st,))
    kind, val = pickle.loads(bytes(buf[8:8 + need]))
    if kind == "err":
        raise ChildCrash("child failed:\n" + val)
    return val


def _write(fd, data):
    mv = memoryview(data)
    while mv:
        n = os.write(fd, mv[:1 << 20])
        mv = mv[n:]
