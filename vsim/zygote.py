"""A process which has loaded the code under test once and then, for every
request, forks a child to carry it out: each simulated run starts from the very
same process image and cannot leave anything behind.

Protocol: length-prefixed pickles of (module, function, args, timeout) on
stdin; (status, value) back on the file descriptor saved from stdout."""
import ctypes
import gc
import importlib
import os
import pickle
import select
import signal
import struct
import subprocess
import sys
import time
import traceback

PERSONALITY = 0x0040000  # ADDR_NO_RANDOMIZE: addresses repeat from run to run


def fix_addresses():
    libc = ctypes.CDLL(None)
    cur = libc.personality(0xFFFFFFFF)
    if cur != -1 and not cur & PERSONALITY and not os.environ.get("VSIM_REEXEC"):
        if libc.personality(cur | PERSONALITY) != -1:
            os.environ["VSIM_REEXEC"] = "1"
            os.execv(sys.executable, [sys.executable, "-m", "vsim.zygote"] + sys.argv[1:])


def send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack("<Q", len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


def recv(fd, deadline=None):
    def exactly(n):
        out = b""
        while len(out) < n:
            if deadline is not None:
                left = deadline - time.monotonic()
                if left <= 0 or not select.select([fd], [], [], left)[0]:
                    raise TimeoutError
            c = os.read(fd, min(n - len(out), 1 << 20))
            if not c:
                raise EOFError
            out += c
        return out
    return pickle.loads(exactly(struct.unpack("<Q", exactly(8))[0]))


class Crashed(Exception):
    """The simulated process died of a signal."""


class Hung(Exception):
    pass


def isolate(fn, *args, timeout=60):
    """Carry out fn(*args) in a forked copy of this process."""
    r, w = os.pipe()
    sys.stdout.flush(), sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        ctypes.CDLL(None).prctl(1, 9)  # do not outlive the parent
        os.close(r)
        try:
            try:
                res = ("ok", fn(*args))
            except BaseException as e:
                res = ("exc", type(e).__name__, str(e), traceback.format_exc())
            try:
                send(w, res)
            except BrokenPipeError:
                pass
        finally:
            os._exit(0)
    os.close(w)
    try:
        try:
            res = recv(r, time.monotonic() + timeout)
        except TimeoutError:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            raise Hung("no result within %d s" % timeout)
        except EOFError:
            _, st = os.waitpid(pid, 0)
            raise Crashed("signal %d" % os.WTERMSIG(st) if os.WIFSIGNALED(st) else "exit %d" % os.WEXITSTATUS(st))
        os.waitpid(pid, 0)
    finally:
        os.close(r)
    if res[0] == "ok":
        return res[1]
    raise RuntimeError("%s: %s\n%s" % res[1:])


class Peer:
    """Another zygote: the same code in an interpreter of its own, with another
    hash seed."""

    def __init__(self, env):
        self.p = start(env)

    def call(self, module, fn, *args, timeout=60):
        send(self.p.stdin.fileno(), (module, fn, args, timeout))
        res = recv(self.p.stdout.fileno())
        if res[0] == "ok":
            return res[1]
        if res[0] == "crash":
            raise Crashed(res[1])
        if res[0] == "hang":
            raise Hung(res[1])
        raise RuntimeError(res[1])


def start(env):
    return subprocess.Popen([env["VSIM_PY"], "-m", "vsim.zygote"], env=env, cwd="/", stdin=subprocess.PIPE,
                            stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, bufsize=0)


def environment(build, hashseed):
    from vsim.build import clean_env, PY, REPO, HERE
    e = clean_env()
    e.update(PYTHONHASHSEED=str(hashseed), VSIM_BUILD=build, VSIM_PY=PY, VSIM_REPO=REPO,
             LD_PRELOAD=build + "/shim.so", PYTHONPATH=os.path.dirname(HERE), PYTHONUNBUFFERED="1")
    return e


peer = None


def main():
    fix_addresses()
    out = os.dup(1)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)
    sys.stdout = sys.stderr = open(os.devnull, "w")
    build, repo = os.environ["VSIM_BUILD"], os.environ["VSIM_REPO"]
    os.environ.pop("LD_PRELOAD", None)
    sys.path.insert(0, repo)
    sys.path.append(build)
    os.chdir("/")

    import importlib.machinery
    import importlib.util
    suffix = importlib.machinery.EXTENSION_SUFFIXES[0]

    class Finder:
        @staticmethod
        def find_spec(name, path=None, target=None):
            so = os.path.join(build, name + suffix)
            if name.startswith("sidetopics.") and os.path.exists(so):
                return importlib.util.spec_from_file_location(name, so)
            return None

    sys.meta_path.insert(0, Finder)
    try:
        from . import seams, world
        seams.simalloc.install()
        for m in ("ctm", "ctm_bohning", "ctm_grad_arb", "stm_yv", "stm_yv_bohning", "mtm3", "lro_vb"):
            importlib.import_module("sidetopics.model." + m)
        for m in ("__main__", "report_generator", "text_to_numpy", "reshape_results", "arxiv_to_aan", "arxiv_author_ids"):
            importlib.import_module("sidetopics.run." + m)
        seams.codes()
        from .props import ALL
        for p in ALL:
            importlib.import_module("vsim.props." + p)
        ready = ("ready", None)
    except BaseException:
        ready = ("broken", traceback.format_exc())
    global peer
    from vsim import zygote as me
    if os.environ.get("VSIM_PEER"):
        env = dict(os.environ)
        env.update(PYTHONHASHSEED=env.pop("VSIM_PEER"), LD_PRELOAD=build + "/shim.so")
        env.pop("VSIM_REEXEC", None)
        me.peer = Peer(env)
        r = recv(me.peer.p.stdout.fileno())
        if r[0] != "ready":
            ready = r
    gc.collect()
    gc.freeze()
    send(out, ready)
    while True:
        try:
            module, fn, args, timeout = recv(0)
        except EOFError:
            return
        try:
            res = ("ok", me.isolate(getattr(importlib.import_module(module), fn), *args, timeout=timeout))
        except me.Crashed as e:
            res = ("crash", str(e))
        except me.Hung as e:
            res = ("hang", str(e))
        except BaseException as e:
            res = ("error", "%s: %s" % (type(e).__name__, e))
        send(out, res)


if __name__ == "__main__":
    main()
