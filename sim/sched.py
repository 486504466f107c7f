"""The deterministic scheduler and fault injector.

Simulated caller threads are real threads of which exactly one runs at any time.  Every bytecode
instruction of tftb code is a scheduling point (sys.monitoring INSTRUCTION events); a plan made
from the seed says at which instruction of which operation the baton moves to which thread and
where a fault is raised.  Nothing else decides who runs."""
import _thread
import dis
import hashlib
import sys

import numpy as np

from . import boot, focus, seams

MEM, KBD, FIN = 1, 2, 4     # FIN: a store may drop the last reference to a value with a finalizer
_ALLOC = {
    "CALL", "CALL_FUNCTION_EX", "BINARY_OP", "BINARY_SUBSCR", "BINARY_SLICE", "STORE_SUBSCR",
    "STORE_SLICE", "BUILD_LIST", "BUILD_TUPLE", "BUILD_MAP", "BUILD_SET", "BUILD_SLICE",
    "BUILD_STRING", "BUILD_CONST_KEY_MAP", "COMPARE_OP", "UNARY_NEGATIVE", "UNARY_INVERT",
    "LIST_EXTEND", "DICT_UPDATE", "DICT_MERGE", "LIST_APPEND", "MAP_ADD", "GET_ITER", "FOR_ITER",
    "MAKE_FUNCTION", "LOAD_ATTR", "STORE_ATTR", "IMPORT_NAME", "FORMAT_VALUE", "CALL_KW",
    "BEFORE_WITH", "LOAD_SUPER_ATTR",
}
_BREAK_AFTER = {"CALL", "CALL_FUNCTION_EX", "CALL_KW"}

TOOL = 3
CODES = []
FLAGS = {}          # code -> {offset: flags}
INDEX = {}          # code -> index
HOT = set()         # (code index, offset) next to an access of state that outlives the call
STORES = set()      # the sites of HOT that come just after a write
GUARDED = set()
NAMES = []
_ready = False
CUR = None          # the simulated thread that holds the baton (a Thread) or None
PARK = False        # finished threads stay alive, idle (set in the child process only)


class SimHang(BaseException):
    """An operation ran far beyond its reference length."""


def prepare():
    """Index the code objects of tftb (cheap; no instrumentation yet)."""
    global CODES
    if CODES:
        return
    CODES = boot.code_objects()
    for i, c in enumerate(CODES):
        INDEX[c] = i
        fl = {}
        prev_call, prev = False, None
        for ins in dis.get_instructions(c):
            v = 0
            if ins.opname in _ALLOC:
                v |= MEM
            if ins.opname in ("RESUME", "JUMP_BACKWARD") or prev_call:
                v |= KBD
            if ins.opname == "RESUME" and ins.arg:
                v = 0
            if prev in ("STORE_ATTR", "STORE_SUBSCR", "STORE_GLOBAL", "DELETE_SUBSCR", "DELETE_ATTR"):
                v |= FIN
            prev = ins.opname
            fl[ins.offset] = v
            prev_call = ins.opname in _BREAK_AFTER
        FLAGS[c] = fl
        NAMES.append("%s:%s" % (c.co_filename[len(boot.REPO) + 1:], c.co_qualname))
    _find_hot()
    _find_guarded()
    focus.load(CODES, NAMES)


_PLAIN = (str, bytes, int, float, complex, tuple, frozenset, type(None), type, type(sys))


def _mutable(v):
    import types
    return not isinstance(v, _PLAIN + (types.FunctionType, types.BuiltinFunctionType, types.MethodType, np.ufunc,
                                       property, staticmethod, classmethod, np.dtype, np.generic)) \
        and not (callable(v) and not hasattr(v, "__dict__"))


def _find_hot():
    """Sites next to reads and writes of module globals, class attributes, closures, mutable defaults
    and attributes of objects: where to look first for interference (a search hint, nothing more)."""
    import types
    hotglob, hotattr, hotdef = {}, set(), {}
    for m in boot.MODULES.values():
        f = getattr(m, "__file__", None)
        names = set(k for k, v in vars(m).items() if not k.startswith("__") and _mutable(v))
        for v in list(vars(m).values()):
            if isinstance(v, type) and v.__module__ == m.__name__:
                for k, x in vars(v).items():
                    if not k.startswith("__") and _mutable(x):
                        hotattr.add(k)
                fs = [x for x in vars(v).values() if isinstance(x, types.FunctionType)]
            else:
                fs = [v] if isinstance(v, types.FunctionType) else []
            for x in fs:
                d = dict(zip(x.__code__.co_varnames[x.__code__.co_argcount - len(x.__defaults__ or ()):],
                             x.__defaults__ or ()))
                d.update(x.__kwdefaults__ or {})
                hotdef[x.__code__] = set(k for k, y in d.items() if _mutable(y))
        hotglob.setdefault(f, set()).update(names)
    ins = {c: list(dis.get_instructions(c)) for c in CODES}
    for c in CODES:
        for i in ins[c]:
            if i.opname in ("STORE_GLOBAL", "DELETE_GLOBAL"):
                hotglob.setdefault(c.co_filename, set()).add(i.argval)
            elif i.opname in ("STORE_ATTR", "DELETE_ATTR") and c.co_name != "__init__":
                hotattr.add(i.argval)
    for c in CODES:
        L = ins[c]
        g = hotglob.get(c.co_filename, ())
        d = hotdef.get(c, ())
        for n, i in enumerate(L):
            hot = 0
            if i.opname in ("STORE_GLOBAL", "DELETE_GLOBAL", "DELETE_ATTR", "DELETE_SUBSCR"):
                hot = 4
            elif i.opname == "STORE_ATTR":
                hot = 4 if c.co_name != "__init__" else 0
            elif i.opname in ("LOAD_GLOBAL", "LOAD_NAME") and i.argval in g:
                hot = 5
            elif i.opname in ("LOAD_ATTR", "LOAD_METHOD") and i.argval in hotattr:
                hot = 2
            elif i.opname in ("LOAD_FAST", "LOAD_FAST_CHECK") and i.argval in d:
                hot = 5
            elif i.opname in ("LOAD_DEREF", "STORE_DEREF"):
                hot = 3
            for j in L[n:n + hot]:
                HOT.add((INDEX[c], j.offset))
            if hot == 4:
                for j in L[n + 1:n + 6]:
                    STORES.add((INDEX[c], j.offset))


def _find_guarded():
    """Sites inside try and with blocks (where a failure meets code meant for other failures)."""
    for c in CODES:
        entries = [e for e in dis._parse_exception_table(c) if not e.lasti]
        for i in dis.get_instructions(c):
            if any(e.start <= i.offset < e.end for e in entries):
                GUARDED.add((INDEX[c], i.offset))


def instrument(probe=False):
    """Turn on instruction events for all tftb code in this process."""
    global _ready
    prepare()
    m = sys.monitoring
    if not _ready:
        m.use_tool_id(TOOL, "tftbsim")
        _ready = True
    m.register_callback(TOOL, m.events.INSTRUCTION, _cb_probe if probe else _cb)
    for c in CODES:
        m.set_local_events(TOOL, c, m.events.INSTRUCTION)


_ident = _thread.get_ident


def _cb(co, off):
    t = CUR
    if t is None or not t.active or t.ident != _ident():
        return
    t.k += 1
    if t.k >= t.next:
        t.hit(co, off)


def _cb_probe(co, off):
    t = CUR
    if t is None or not t.active or t.ident != _ident():
        return
    t.k += 1
    if t.sched.probe is not None:
        t.sched.probe(t, co, off)
    if t.k >= t.next:
        t.hit(co, off)


def site_name(co_idx, off):
    c = CODES[co_idx]
    line = None
    for s, e, ln in c.co_lines():
        if s <= off < e:
            line = ln
            break
    return "%s:%s" % (NAMES[co_idx], line)


class Recorder(object):
    """Per-operation record of instruction events, by site (reference runs only)."""

    def __init__(self):
        self.sites = {}

    def __call__(self, t, co, off):
        key = (INDEX[co], off)
        s = self.sites.get(key)
        if s is None:
            self.sites[key] = [t.k, t.k, 1]
        else:
            s[1] = t.k
            s[2] += 1


class Thread(object):
    def __init__(self, sched, tid, body):
        self.sched = sched
        self.tid = tid
        self.body = body
        self.ident = None
        self.active = False
        self.k = 0
        self.next = 1 << 60
        self.op = -1
        self.done = False
        self.waiting = None
        self.go = seams._real_alloc()
        self.go.acquire()
        self.rng = None
        self.fault = None
        self.fired = None
        self.cap = 1 << 60
        self.sw = []
        self.nests = []     # [(k, function)]: what a handler does at that point of the operation, ascending
        self.error = None

    # -- operations ---------------------------------------------------------
    def begin(self, op, fault=None, switches=(), cap=None):
        """Arm the plan for one operation. switches: [(k, pick)] ascending."""
        self.op = op
        self.k = 0
        self.fault = fault
        self.fired = None
        self.cap = cap or 4000000
        self.sw = list(switches)
        while self.sw and self.sw[0][0] <= 0:
            _, pick = self.sw.pop(0)
            self.sched.yield_to(self, pick, -1, 0)
        self._plan()
        self.active = True

    def end(self):
        self.active = False
        self.sched.events += self.k
        return self.k

    def _plan(self):
        n = self.cap
        if self.sw and self.sw[0][0] < n:
            n = self.sw[0][0]
        if self.fault is not None and self.fault[1] < n:
            n = self.fault[1]
        if self.nests and self.nests[0][0] < n:
            n = self.nests[0][0]
        self.next = n

    def hit(self, co, off):
        while self.sw and self.k >= self.sw[0][0]:
            _, pick = self.sw.pop(0)
            self.sched.yield_to(self, pick, INDEX[co], off)
        while self.nests and self.k >= self.nests[0][0]:
            if not FLAGS[co].get(off, 0) & (KBD | FIN):
                self.next = self.k + 1
                if self.k >= self.cap:
                    raise SimHang()
                return
            _, fn = self.nests.pop(0)
            self.sched.trace.append((self.tid, self.op, self.k, INDEX[co], off, self.tid))
            fn()
        f = self.fault
        if f is not None and self.k >= f[1]:
            if FLAGS[co].get(off, 0) & (MEM if f[0] == "mem" else KBD):
                self.fault = None
                self._plan()
                self.fired = (INDEX[co], off)
                self.sched.fired.append((self.tid, self.op, f[0], self.k, INDEX[co], off))
                raise (MemoryError("simulated allocation failure") if f[0] == "mem"
                       else KeyboardInterrupt("simulated interrupt"))
            self.next = self.k + 1
            if self.k >= self.cap:
                raise SimHang()
            return
        self._plan()
        if self.k >= self.cap:
            self.cap = self.k + 20000
            self.sched.hangs += 1
            self._plan()
            raise SimHang("%s op %d beyond %d instructions" % (self.tid, self.op, self.k))

    # -- thread main --------------------------------------------------------
    def main(self):
        self.go.acquire()
        self.ident = _ident()
        try:
            self.body(self)
        except BaseException as e:  # a harness problem: operations catch their own
            self.error = e
        self.active = False
        self.done = True
        s, self.sched, self.body = self.sched, None, None
        s.finished(self)
        del s
        if PARK:                # the thread stays alive, idle, until the process ends
            self.go.acquire()


class Sched(object):
    def __init__(self, rng_per_thread=False):
        self.threads = []
        self.trace = []
        self.fired = []
        self.events = 0
        self.hangs = 0
        self.probe = None
        self.rng_per_thread = rng_per_thread
        self.main_lock = seams._real_alloc()
        self.main_lock.acquire()
        self.finish_pick = 0

    def add(self, body):
        t = Thread(self, len(self.threads), body)
        self.threads.append(t)
        return t

    # one simulated thread, run on the calling thread: no hand-over needed
    def run_single(self, body):
        global CUR
        t = self.add(body)
        t.ident = _ident()
        CUR = t
        seams.SCHED = self
        try:
            body(t)
        finally:
            t.active = False
            CUR = None
            seams.SCHED = None
        return t

    def run(self):
        global CUR
        seams.SCHED = self
        for t in self.threads:
            _thread.start_new_thread(t.main, ())
        # wait until every thread is parked, then hand the baton to thread 0
        CUR = self.threads[0]
        self._in(self.threads[0])
        self.threads[0].go.release()
        self.main_lock.acquire()
        CUR = None
        seams.SCHED = None
        for t in self.threads:
            if t.error is not None:
                raise t.error

    def runnable(self, me):
        out = []
        for t in self.threads:
            if t is me or t.done:
                continue
            if t.waiting is not None and t.waiting.locked():
                continue
            out.append(t)
        return out

    def _out(self, t):
        if self.rng_per_thread:
            t.rng = np.random.get_state(legacy=False)

    def _in(self, t):
        if self.rng_per_thread and t.rng is not None:
            np.random.set_state(t.rng)

    def yield_to(self, me, pick, co_idx, off):
        global CUR
        r = self.runnable(me)
        if not r:
            return False
        u = r[pick % len(r)]
        self.trace.append((me.tid, me.op, me.k, co_idx, off, u.tid))
        self._out(me)
        CUR = u
        self._in(u)
        u.go.release()
        me.go.acquire()
        return True

    def block_on_lock(self, lock, timeout):
        me = CUR
        if me is None or me.ident != _ident():
            return False
        me.waiting = lock
        ok = self.yield_to(me, 0, -2, 0)
        me.waiting = None
        return ok

    def finished(self, me):
        global CUR
        r = self.runnable(me)
        self.finish_pick += 1
        if not r:
            left = [t for t in self.threads if not t.done]
            if left:            # everyone left waits for a lock nobody will release
                u = left[0]
                self.trace.append((me.tid, -1, 0, -3, 0, u.tid))
                self._out(me)
                CUR = u
                self._in(u)
                u.go.release()
                return
            self.main_lock.release()
            return
        u = r[self.finish_pick % len(r)]
        self.trace.append((me.tid, -1, 0, -1, 0, u.tid))
        self._out(me)
        CUR = u
        self._in(u)
        u.go.release()

    def trace_hash(self):
        return hashlib.sha1(repr(self.trace).encode()).hexdigest()[:16]
