"""Build /repo's native modules, unmodified, against the simulator's fake MPI.

The sources come from the working tree of /repo (override: VERIF_REPO, used only to
try planted bugs against a scratch copy).  Output goes to a directory git ignores.
"""
import concurrent.futures as cf
import hashlib
import os
import subprocess
import sys
import sysconfig
import tempfile
import shutil

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src", "repast4py")
PY = "/opt/venv/bin/python"

MODULES = {
    "_core": ["coremodule.cpp"],
    "_space": ["spacemodule.cpp", "geometry.cpp", "space.cpp", "distributed_space.cpp", "SpatialTree.cpp"],
}
FLAGS = ["-std=c++11", "-O1", "-g0", "-fPIC", "-fno-strict-aliasing", "-w",
         "-fsanitize=bounds", "-fsanitize-undefined-trap-on-error"]


class BuildError(Exception):
    pass


def _numpy_inc():
    import numpy
    return numpy.get_include()


def native_sources():
    return sorted(f for f in os.listdir(SRC) if f.endswith((".cpp", ".h", ".hpp", ".c", ".cc")))


def tree_hash():
    h = hashlib.sha256()
    for d, fs in ((SRC, native_sources()),
                  (os.path.join(HERE, "fakempi"), ["fakempi.cpp", "include/mpi.h", "include/mpi4py/mpi4py.h"]),
                  (HERE, ["build.py"])):
        for f in fs:
            h.update(f.encode())
            with open(os.path.join(d, f), "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()[:20]


def _module_sources():
    """The per-module source lists; any further .cpp in the directory goes to _space."""
    mods = {k: [s for s in v if os.path.exists(os.path.join(SRC, s))] for k, v in MODULES.items()}
    known = {s for v in mods.values() for s in v}
    for f in native_sources():
        if f.endswith((".cpp", ".cc")) and f not in known:
            mods["_space"].append(f)
    return mods


def build(verbose=False):
    """Returns the directory holding _core.so and _space.so."""
    out = os.path.join(VERIF, "build", tree_hash())
    if os.path.exists(os.path.join(out, "OK")):
        return out
    os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="tmp-", dir=os.path.join(VERIF, "build"))
    inc = ["-I" + os.path.join(HERE, "fakempi", "include"), "-I" + _numpy_inc(),
           "-I" + sysconfig.get_paths()["include"], "-I" + SRC]
    jobs = []
    objs = {m: [] for m in MODULES}
    for m, srcs in _module_sources().items():
        for s in srcs:
            o = os.path.join(tmp, m + "-" + s + ".o")
            objs[m].append(o)
            jobs.append(["g++", *FLAGS, *inc, "-c", os.path.join(SRC, s), "-o", o])
    o = os.path.join(tmp, "fakempi.o")
    objs["_space"].append(o)
    jobs.append(["g++", *FLAGS, *inc, "-c", os.path.join(HERE, "fakempi", "fakempi.cpp"), "-o", o])

    def go(cmd):
        return cmd, subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

    try:
        with cf.ThreadPoolExecutor(8) as ex:
            for cmd, r in ex.map(go, jobs):
                if r.returncode != 0:
                    raise BuildError(" ".join(cmd) + "\n" + r.stdout)
        for m in MODULES:
            cmd = ["g++", "-shared", *objs[m], "-o", os.path.join(tmp, m + ".so")]
            _, r = go(cmd)
            if r.returncode != 0:
                raise BuildError(" ".join(cmd) + "\n" + r.stdout)
        for f in os.listdir(tmp):
            if f.endswith(".o"):
                os.unlink(os.path.join(tmp, f))
        open(os.path.join(tmp, "OK"), "w").close()
        try:
            os.rename(tmp, out)
        except OSError:
            if not os.path.exists(os.path.join(out, "OK")):
                raise
    finally:
        if os.path.isdir(tmp):
            shutil.rmtree(tmp, ignore_errors=True)
    return out


if __name__ == "__main__":
    print(build(True))
