"""Puts repast4py under the simulator: per-rank module state, clocks, fake MPI.

`setup()` must run before anything imports mpi4py, numba or repast4py.
"""
import os
import sys
import types
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import time as _time
import threading
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src", "repast4py")

_code = {}
_names = []
_ext = {}
_ready = False
_real = {}


class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Loads repast4py's Python modules from /repo's working tree (code cached, state not)."""

    def find_spec(self, name, path=None, target=None):
        if name == "repast4py" or name.startswith("repast4py."):
            if name in _ext:
                return None
            if name in _code:
                spec = importlib.machinery.ModuleSpec(name, self, origin=_code[name][1],
                                                      is_package=_code[name][2])
                if _code[name][2]:
                    spec.submodule_search_locations = [os.path.dirname(_code[name][1])]
                spec.has_location = True
                return spec
            raise ModuleNotFoundError(name, name=name)
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        exec(_code[module.__name__][0], module.__dict__)


def _scan(d, pkg):
    for f in sorted(os.listdir(d)):
        p = os.path.join(d, f)
        if f.endswith(".py"):
            name = pkg if f == "__init__.py" else pkg + "." + f[:-3]
            with open(p, "rb") as fh:
                src = fh.read()
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                _code[name] = (compile(src, p, "exec", dont_inherit=True), p, f == "__init__.py")
        elif os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            _scan(p, pkg + "." + f)


def setup(build_dir):
    global _ready
    if _ready:
        return
    os.environ["NUMBA_DISABLE_JIT"] = "1"
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    os.environ.setdefault("MKL_NUM_THREADS", "1")
    os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
    sys.dont_write_bytecode = True
    fp = os.path.join(HERE, "fakempi", "py")
    if fp not in sys.path:
        sys.path.insert(0, fp)
    import numpy        # noqa
    import numba        # noqa
    import torch
    import networkx     # noqa
    torch.set_num_threads(1)
    try:
        torch.set_num_interop_threads(1)
    except RuntimeError:
        pass
    import mpi4py.MPI as MPI
    assert hasattr(MPI, "make_world"), "the real mpi4py was imported: " + MPI.__file__
    _scan(SRC, "repast4py")
    sys.meta_path.insert(0, _Finder())
    # native modules: one copy shared by all ranks (they hold no model state of their own)
    pkg = types.ModuleType("repast4py")
    pkg.__path__ = [SRC]
    sys.modules["repast4py"] = pkg
    for m in ("_core", "_space"):
        name = "repast4py." + m
        path = os.path.join(build_dir, m + ".so")
        loader = importlib.machinery.ExtensionFileLoader(name, path)
        spec = importlib.util.spec_from_file_location(name, path, loader=loader)
        mod = importlib.util.module_from_spec(spec)
        sys.modules[name] = mod
        loader.exec_module(mod)
        _ext[name] = mod
        setattr(pkg, m, mod)
    del sys.modules["repast4py"]
    _names.extend(n for n in _code)
    _patch_time()
    _ready = True


def _patch_time():
    from . import kernel
    for fn in ("time", "monotonic", "perf_counter", "time_ns", "monotonic_ns", "perf_counter_ns"):
        _real[fn] = getattr(_time, fn)

        def wrap(fn=fn):
            real = _real[fn]
            ns = fn.endswith("_ns")

            def f():
                s = kernel.CUR
                r = kernel.current_rank()
                if s is None or r < 0 or threading.current_thread() is not s.ranks[r].thread:
                    return real()
                t = s.now(r)
                return int(t * 1e9) if ns else t
            return f
        setattr(_time, fn, wrap())
    _real["sleep"] = _time.sleep

    def sleep(x):
        s = kernel.CUR
        r = kernel.current_rank()
        if s is None or r < 0:
            return _real["sleep"](x)
        s.time += x
        s.yield_point("sleep")
    _time.sleep = sleep


def real_time():
    return _real["time"]() if _real else _time.time()


def _purge():
    for k in _names:
        sys.modules.pop(k, None)


def load_modules():
    """Import a fresh copy of every repast4py module for the current rank."""
    mod = sys.modules
    _purge()
    mod.update(_ext)
    for n in _names:
        if n not in mod:
            importlib.import_module(n)
    mods = {n: mod[n] for n in _names}
    mods.update(_ext)
    pkg = mods["repast4py"]
    for k, m in _ext.items():
        setattr(pkg, k.rsplit(".", 1)[1], m)
    return mods


class R4:
    """Attribute access to one rank's copy of the library: r4.context.SharedContext ..."""

    def __init__(self, mods):
        for k, m in mods.items():
            if "." in k:
                setattr(self, k.split(".", 1)[1].replace(".", "_"), m)
        self.pkg = mods["repast4py"]
        import mpi4py.MPI as MPI
        self.MPI = MPI


def make_switch(isolate_rng):
    import torch

    def on_switch(prev, nxt):
        if prev is not None:
            if prev.rngs is not None or isolate_rng:
                prev.rngs = torch.get_rng_state() if isolate_rng else None
        if nxt.mods is not None:
            sys.modules.update(nxt.mods)
        if isolate_rng and nxt.rngs is not None:
            torch.set_rng_state(nxt.rngs)
    return on_switch


def simulate(n, program, decisions, isolate_rng=False, **kw):
    """Run program(rank, r4, comm) on n simulated ranks.  Returns (outcome, sim)."""
    from . import kernel
    import mpi4py.MPI as MPI
    sim = kernel.Sim(n, decisions, on_switch=make_switch(isolate_rng), **kw)
    MPI.make_world(sim)

    def body(rank):
        r = sim.ranks[rank]
        r.mods = load_modules()
        r4 = R4(r.mods)
        return program(rank, r4, sim.world.comm_for(rank))
    outcome = sim.run(body)
    _purge()
    return outcome, sim
