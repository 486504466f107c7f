"""Bring up the real tftb from the repository's working tree, compiled from source,
with the seams the simulator needs (locks and clocks seen by tftb code)."""
import gc
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import locale
import logging
import os
import pkgutil
import signal
import sys
import types
import warnings

import numpy  # noqa: F401
import numpy as np
import scipy  # noqa: F401
import scipy.signal  # noqa: F401
import scipy.signal.windows  # noqa: F401
import scipy.optimize  # noqa: F401
import scipy.interpolate  # noqa: F401
import scipy.integrate  # noqa: F401
import scipy.special  # noqa: F401
import matplotlib
matplotlib.use("Agg", force=True)
import matplotlib.pyplot as plt
import mpl_toolkits.mplot3d  # noqa: F401
import mpl_toolkits.axes_grid1  # noqa: F401

_real_show = plt.show
SHOW = []                  # one entry per plt.show() call: number of open figures at that time
SHOW_FAIL = [None]         # an exception to raise from plt.show()


def _show(*args, **kw):
    from . import seams
    SHOW.append(tuple(plt.get_fignums()))
    if seams.ON_SHOW is not None:
        seams.ON_SHOW()
    if SHOW_FAIL[0] is not None:
        raise SHOW_FAIL[0]


plt.show = _show           # the display seam, in place before tftb is imported

REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
MODULE_CODES = []          # module code objects of tftb, as executed
MODULES = {}
MODNAMES = []
_COMPILED = {}
PRE = {}                   # settings before tftb was first imported


class HarnessError(Exception):
    """Something is wrong with the machinery (not with the code under test)."""


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        if path in _COMPILED:       # imported again in a simulated process: the same code
            return _COMPILED[path]
        with open(path, "rb") as f:
            data = f.read()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            code = compile(data, path, "exec", dont_inherit=True)
        MODULE_CODES.append(code)
        _COMPILED[path] = code
        return code


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if fullname != "tftb" and not fullname.startswith("tftb."):
            return None
        rel = fullname.replace(".", os.sep)
        pkg = os.path.join(REPO, rel, "__init__.py")
        mod = os.path.join(REPO, rel + ".py")
        if os.path.isfile(pkg):
            return importlib.util.spec_from_file_location(
                fullname, pkg, loader=_Loader(fullname, pkg),
                submodule_search_locations=[os.path.join(REPO, rel)])
        if os.path.isfile(mod):
            return importlib.util.spec_from_file_location(
                fullname, mod, loader=_Loader(fullname, mod))
        return None


def boot():
    """Import every (non-test) tftb module; idempotent."""
    if MODULES:
        return MODULES
    from . import seams
    seams.install()
    sys.meta_path.insert(0, _Finder())
    _warm()
    remember()
    tftb = importlib.import_module("tftb")
    names = ["tftb"]
    for m in pkgutil.walk_packages(tftb.__path__, "tftb."):
        if ".tests" in m.name or m.name.rsplit(".", 1)[-1].startswith("test_"):
            continue
        importlib.import_module(m.name)
        names.append(m.name)
    MODNAMES[:] = names
    for n in names:
        MODULES[n] = sys.modules[n]
        f = os.path.realpath(sys.modules[n].__file__)
        if not f.startswith(REPO + os.sep):
            raise HarnessError("tftb imported from %s, not %s" % (f, REPO))
    # everything a first call would initialise lazily in numpy/scipy/matplotlib
    _warm()
    return MODULES


def remember():
    PRE.update(env=dict(os.environ), cwd=os.getcwd(), path=list(sys.path), filters=list(warnings.filters),
               err=np.geterr(), print=np.get_printoptions(), rc=dict(matplotlib.rcParams), rec=sys.getrecursionlimit(),
               gc=gc.get_threshold(), meta=list(sys.meta_path), level=logging.getLogger().level,
               handlers=list(logging.getLogger().handlers), switch=sys.getswitchinterval(), buf=np.getbufsize(),
               hooks=(sys.displayhook, sys.excepthook), loc=locale.setlocale(locale.LC_ALL),
               sig={x: signal.getsignal(x) for x in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGCHLD,
                                                     signal.SIGUSR1, signal.SIGPIPE, signal.SIGFPE)})


def forget():
    """Make this process one that has not imported tftb, as far as its modules and settings go."""
    for n in list(sys.modules):
        if n == "tftb" or n.startswith("tftb."):
            del sys.modules[n]
    MODULES.clear()
    os.environ.clear()
    os.environ.update(PRE["env"])
    os.chdir(PRE["cwd"])
    sys.path[:] = PRE["path"]
    sys.meta_path[:] = PRE["meta"]
    warnings.filters[:] = PRE["filters"]
    warnings._filters_mutated()
    np.seterr(**PRE["err"])
    np.set_printoptions(**PRE["print"])
    np.setbufsize(PRE["buf"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        dict.update(matplotlib.rcParams, PRE["rc"])
    sys.setrecursionlimit(PRE["rec"])
    sys.setswitchinterval(PRE["switch"])
    gc.set_threshold(*PRE["gc"])
    root = logging.getLogger()
    root.setLevel(PRE["level"])
    root.handlers[:] = PRE["handlers"]
    sys.displayhook, sys.excepthook = PRE["hooks"]
    locale.setlocale(locale.LC_ALL, PRE["loc"])
    for x, h in PRE["sig"].items():
        signal.signal(x, h)


def _warm():
    a = np.arange(16.0)
    scipy.signal.hilbert(a)
    np.fft.fft(a)
    np.linalg.norm(a)
    scipy.signal.windows.hamming(5)
    scipy.signal.windows.kaiser(5, 1.0)
    scipy.interpolate.splev(a[:3], scipy.interpolate.splrep(a, a))
    scipy.optimize.brenth(lambda x: x - 1, 0, 4)
    np.random.get_state()
    f, ax = plt.subplots()
    ax.plot(a)
    ax.contour(np.outer(a, a))
    plt.close("all")
    f = plt.figure()
    f.add_subplot(projection="3d")
    plt.close("all")


def code_objects():
    seen = []

    def walk(c):
        seen.append(c)
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                walk(k)
    for c in MODULE_CODES:
        walk(c)
    return seen
