"""Builds, in a scratch directory, the extension modules of the repository's
current working tree and the two C seams.  Nothing is written under the
repository: the .so files beside its sources may belong to an older tree."""
import glob
import os
import subprocess
import sysconfig
from concurrent.futures import ThreadPoolExecutor

PY = "/opt/venv/bin/python"
REPO = os.environ.get("VSIM_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
SKIP = {"sidetopics/model/rtm_fast.pyx"}  # does not compile in this repository
DIRECTIVES = ["-X", "language_level=2", "-X", "legacy_implicit_noexcept=True"]


class BuildError(Exception):
    pass


def clean_env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "LD_PRELOAD"))}
    e.update(PYTHONDONTWRITEBYTECODE="1", LANG="C.UTF-8", LC_ALL="C.UTF-8", OMP_NUM_THREADS="1",
             OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", MPLBACKEND="Agg", HOME="/root")
    return e


def _run(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, env=clean_env(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def build(out):
    os.makedirs(out, exist_ok=True)
    inc = _run([PY, "-c", "import sysconfig, numpy; print(sysconfig.get_path('include')); "
                          "print(numpy.get_include()); print(sysconfig.get_config_var('EXT_SUFFIX'))"], "/")
    py_inc, np_inc, suffix = inc.split("\n")[:3]

    def ext(pyx):
        name = pyx[:-4].replace("/", ".")
        c, so = os.path.join(out, name + ".c"), os.path.join(out, name + suffix)
        _run([PY, "-m", "cython", *DIRECTIVES, "--module-name", name, pyx, "-o", c], REPO)
        _run(["gcc", "-O2", "-fPIC", "-shared", "-fno-strict-aliasing", "-fwrapv", "-fopenmp", "-w",
              "-I" + py_inc, "-I" + np_inc, "-I" + os.path.dirname(pyx), c, "-o", so,
              "-lgsl", "-lgslcblas", "-lgomp", "-lm"], REPO)
        os.remove(c)

    def shim(_):
        _run(["gcc", "-O2", "-fPIC", "-shared", "-w", HERE + "/c/shim.c", "-o", out + "/shim.so"], "/")

    def alloc(_):
        _run(["gcc", "-O2", "-fPIC", "-shared", "-w", "-I" + py_inc, "-I" + np_inc,
              HERE + "/c/simalloc.c", "-o", out + "/simalloc" + suffix], "/")

    pyxs = sorted(set(os.path.relpath(p, REPO) for p in glob.glob(REPO + "/sidetopics/**/*.pyx", recursive=True)) - SKIP)
    jobs = [(ext, p) for p in pyxs] + [(shim, None), (alloc, None)]
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        list(ex.map(lambda j: j[0](j[1]), jobs))
    return out
