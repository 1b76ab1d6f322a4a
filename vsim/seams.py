"""The seams between the repository's code and everything nondeterministic.

Imported inside a zygote only (needs numpy, the built seams and the code)."""
import builtins
import ctypes
import io
import os
import sys
import threading
import types

import numpy as np

MON = sys.monitoring
TOOL = 4
REPO = os.environ.get("VSIM_REPO", "/repo")
CODE_ROOT = REPO + "/sidetopics/"
WRAPPER = CODE_ROOT + "model/sklearn/"

shim = ctypes.CDLL(os.environ["VSIM_BUILD"] + "/shim.so")
shim.sim_calls.restype = ctypes.c_ulong
shim.sim_injected.restype = ctypes.c_ulong
shim.sim_inject.argtypes = [ctypes.c_ulong, ctypes.c_long]
RAND_MAX = 2147483647

import simalloc  # noqa: E402


class SimInterrupt(KeyboardInterrupt):
    """The interrupt the simulator delivers (a KeyboardInterrupt to the code)."""


class SimMemoryError(MemoryError):
    """An allocation failure the simulator delivers at a Python line."""


class SimIOError(OSError):
    """An I/O error the simulator delivers."""


FAULTS = (SimInterrupt, SimMemoryError, SimIOError, MemoryError)


# ---------------------------------------------------------------- randomness
def seed_all(seed):
    """The random draws an operation is given: every stream restarts from here."""
    np.random.seed(seed & 0x7FFFFFFF)
    shim.sim_seed(seed & 0x7FFFFFFF)


def rng_state():
    return np.random.get_state()


class ExtremeDraws:
    """Makes some draws of the random generators return values at the end of
    their range: C rand() gives 0 or RAND_MAX, numpy's uniform gives 0 or the
    largest double below one."""

    def __init__(self, c_at=(), np_at=()):
        self.c_at, self.np_at = list(c_at), list(np_at)
        self.fired = self.np_calls = 0

    def __enter__(self):
        shim.sim_reset()
        for at, hi in self.c_at:
            shim.sim_inject(int(at), RAND_MAX if hi else 0)
        self.saved = (np.random.rand, np.random.random, np.random.random_sample)
        real_rand = np.random.rand
        pos = [0]
        targets = {int(a): (np.nextafter(1.0, 0) if hi else 0.0) for a, hi in self.np_at}

        def touch(v):
            n = 1 if np.isscalar(v) else v.size
            self.np_calls = pos[0] + n
            lo, pos[0] = pos[0], pos[0] + n
            for a, x in targets.items():
                if lo <= a < lo + n:
                    self.fired += 1
                    if np.isscalar(v):
                        v = x
                    else:
                        v.flat[a - lo] = x
            return v

        np.random.rand = lambda *s: touch(real_rand(*s))
        np.random.random = np.random.random_sample = \
            lambda size=None: touch(self.saved[2](size))
        return self

    def __exit__(self, *exc):
        np.random.rand, np.random.random, np.random.random_sample = self.saved
        self.c_calls = shim.sim_calls()
        self.c_fired = shim.sim_injected()
        shim.sim_reset()
        return False


# ------------------------------------------------- line events in the code
_codes = None


def _collect_codes():
    """Every code object of the repository's Python modules."""
    seen, out = set(), []

    def add(code):
        if code in seen or not code.co_filename.startswith(CODE_ROOT):
            return
        seen.add(code)
        out.append(code)
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                add(c)

    def visit(obj, depth=0):
        if isinstance(obj, (staticmethod, classmethod)):
            obj = obj.__func__
        if isinstance(obj, property):
            for f in (obj.fget, obj.fset, obj.fdel):
                if f is not None:
                    visit(f)
            return
        code = getattr(obj, "__code__", None)
        if isinstance(code, types.CodeType):
            add(code)
        elif isinstance(obj, type) and depth < 3 and obj.__module__.startswith("sidetopics"):
            for v in list(vars(obj).values()):
                visit(v, depth + 1)

    for name, mod in list(sys.modules.items()):
        if name.startswith("sidetopics") and mod is not None:
            for v in list(vars(mod).values()):
                visit(v)
    return out


def codes():
    global _codes
    if _codes is None:
        MON.use_tool_id(TOOL, "vsim")
        _codes = _collect_codes()
    return _codes


class LineEvents:
    """Calls `callback` at every executed line of the repository's code
    (`where(filename)` selects the files)."""

    def __init__(self, callback, where=None):
        self.cb, self.where = callback, where or (lambda f: True)

    def __enter__(self):
        self.active = [c for c in codes() if self.where(c.co_filename)]
        MON.register_callback(TOOL, MON.events.LINE, self.cb)
        for c in self.active:
            MON.set_local_events(TOOL, c, MON.events.LINE)
        return self

    def __exit__(self, *exc):
        for c in self.active:
            MON.set_local_events(TOOL, c, 0)
        MON.register_callback(TOOL, MON.events.LINE, None)
        return False


def inference_code(filename):
    """Where interrupts may strike: the modules that compute, not the thin
    wrapper whose adjacent attribute writes commit a finished computation."""
    return not filename.startswith(WRAPPER)


class Fault:
    """One planned failure of one call.  kind: interrupt | memory (at the n-th
    line of the code), alloc (the n-th array allocation fails, anywhere), lib
    (the n-th entry into a numpy/scipy Python function fails).  n == 0 only
    counts the opportunities."""

    KINDS = ("interrupt", "memory", "alloc", "lib")

    def __init__(self, kind, n=0, where=inference_code):
        self.kind, self.n, self.where = kind, n, where
        self.count = self.fired = 0
        self.at = None

    def _line(self, code, line):
        self.count += 1
        if self.count == self.n:
            self.fired = 1
            self.at = "%s:%d" % (os.path.relpath(code.co_filename, REPO), line)
            raise SimInterrupt() if self.kind == "interrupt" else SimMemoryError("simulated")

    def _py_start(self, code, off):
        f = code.co_filename
        if "/scipy/sparse/" not in f and "/numpy/" not in f:
            return MON.DISABLE
        # only calls made while the repository's code is on the stack are counted,
        # which is all of them: the simulator itself makes none while armed
        self.count += 1
        if self.count == self.n:
            self.fired = 1
            self.at = "%s:%s" % (os.path.basename(f), code.co_name)
            raise SimMemoryError("simulated")

    def __enter__(self):
        if self.kind in ("interrupt", "memory"):
            self.ev = LineEvents(self._line, self.where)
            self.ev.__enter__()
        elif self.kind == "lib":
            codes()
            MON.register_callback(TOOL, MON.events.PY_START, self._py_start)
            MON.set_events(TOOL, MON.events.PY_START)
            MON.restart_events()
        else:
            simalloc.arm(self.n)
        return self

    def __exit__(self, *exc):
        if self.kind in ("interrupt", "memory"):
            self.ev.__exit__()
        elif self.kind == "lib":
            MON.set_events(TOOL, 0)
            MON.register_callback(TOOL, MON.events.PY_START, None)
        else:
            self.count, self.fired = simalloc.disarm()
            self.at = "allocation %d" % self.n
        return False


# ------------------------------------------------------ callers (threads)
class Scheduler:
    """Runs callers as threads of which exactly one is ever running; the
    running one may change only at a line of the repository's code, where the
    plan says so.  Each caller has its own random streams."""

    def __init__(self, bodies, switches, seed, kills=()):
        self.bodies, self.n = bodies, len(bodies)
        self.switches = dict(switches)  # step -> caller
        self.kills = set(kills)         # steps at which whoever runs is interrupted
        self.killed = {}
        self.step = 0
        self.sems = [threading.Semaphore(0) for _ in bodies]
        self.alive = set(range(self.n))
        self.current = 0
        self.done = threading.Semaphore(0)
        self.results = [None] * self.n
        self.switched = 0
        self.trace = []
        self.np_states = [np.random.RandomState((seed + 7919 * i) & 0x7FFFFFFF).get_state() for i in range(self.n)]
        self.seed = seed
        self.idents = {}

    def _give(self, to):
        cur = self.current
        self.np_states[cur] = np.random.get_state()
        self._take(to)
        self.sems[to].release()

    def _take(self, to):
        self.current = to
        np.random.set_state(self.np_states[to])
        shim.sim_slot(to + 1)

    def _line(self, code, line):
        me = self.idents.get(threading.get_ident())
        if me is None:
            return
        self.step += 1
        if self.step in self.kills and inference_code(code.co_filename):
            self.killed[me] = "%s:%d" % (os.path.relpath(code.co_filename, REPO), line)
            raise SimInterrupt()
        to = self.switches.get(self.step)
        if to is not None:
            to %= self.n
            if to != me and to in self.alive:
                self.switched += 1
                self.trace.append("%d@%s:%d" % (me, os.path.basename(code.co_filename), line))
                self._give(to)
                self.sems[me].acquire()

    def _body(self, i):
        self.sems[i].acquire()
        simalloc.install()
        self.idents[threading.get_ident()] = i
        try:
            self.results[i] = self.bodies[i]()
        except BaseException as e:  # the body itself records expected failures
            self.results[i] = ("died", type(e).__name__, str(e)[:200])
        finally:
            self.idents.pop(threading.get_ident(), None)
            self.alive.discard(i)
            if self.alive:
                nxt = min(self.alive, key=lambda j: ((j - i) % self.n))
                self._give(nxt)
            else:
                self.done.release()

    def run(self, budget=60):
        for i in range(self.n):
            shim.sim_slot(i + 1)
            shim.sim_seed((self.seed + i) & 0x7FFFFFFF)
        old = np.random.get_state()
        ts = [threading.Thread(target=self._body, args=(i,), daemon=True) for i in range(self.n)]
        with LineEvents(self._line):
            for t in ts:
                t.start()
            self._take(0)
            self.sems[0].release()
            ok = self.done.acquire(timeout=budget)
        shim.sim_slot(0)
        np.random.set_state(old)
        if not ok:
            raise TimeoutError("simulated callers did not finish")
        return self.results


# ----------------------------------------------------------------- storage
class SimDisk:
    """Stands between the code and the files under one scratch directory.

    Every operation (open, read, write, flush to disk, rename, remove) on a
    path under `root` is counted; the plan may make the n-th one fail with an
    error, write or read only part, find the disk full, or be the last one
    before the machine stops.  `power_loss` then decides what of the data not
    yet forced to disk survives."""

    def __init__(self, root, fault=None):
        self.root = os.path.realpath(root)
        self.fault = fault or {}
        self.ops = []
        self.fired = None
        self.open_files = []
        self.dirty = {}      # inode-ish id -> (path list, synced length)
        self.dead = False
        self.listing = None  # a random.Random: in what order directories list

    def mine(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return os.path.realpath(p).startswith(self.root)

    def tick(self, kind, path, size=0):
        """Returns None, or the fault to apply to this operation."""
        if self.dead:  # nothing a stopped machine was about to do happens
            raise SimCrash()
        self.ops.append((kind, os.path.basename(str(path)), size))
        f = self.fault
        if f and self.fired is None and f["n"] == len(self.ops):
            self.fired = (f["kind"], kind, os.path.basename(str(path)))
            return f["kind"]
        if self.fired and self.fired[0] == "full" and kind == "write":
            return "full"
        return None

    def fail(self, path, errno_=5):
        raise SimIOError(errno_, os.strerror(errno_) + " (simulated)", str(path))

    def do_crash(self):
        self.dead = True
        raise SimCrash()


class SimCrash(BaseException):
    """The simulated machine stopped."""


class SimRaw(io.FileIO):
    def __init__(self, disk, path, mode, name=None, **kw):
        self.disk, self.path = disk, name or path
        super().__init__(path, mode, **kw)
        disk.open_files.append(self)

    def _where(self):
        try:
            return os.path.realpath("/proc/self/fd/%d" % self.fileno())
        except (OSError, ValueError):
            return str(self.path)

    def write(self, b):
        f = self.disk.tick("write", self.path, len(b))
        if f in ("eio", "full"):
            if f == "full" and len(b) > 1:  # part of it still fitted
                super().write(bytes(b)[: len(b) // 2])
            self.disk.fail(self.path, 28 if f == "full" else 5)
        if f == "short":
            return super().write(bytes(b)[: max(1, len(b) // 2)])
        if f == "crash":
            super().write(bytes(b)[: len(b) // 2])
            self.disk.do_crash()
        ino = os.fstat(self.fileno()).st_ino
        self.disk.dirty.setdefault(ino, 0)
        return super().write(b)

    def readinto(self, b):
        f = self.disk.tick("read", self.path, len(b))
        if f == "eio":
            self.disk.fail(self.path)
        if f == "short" and len(b) > 1:
            n = super().readinto(memoryview(b)[: max(1, len(b) // 2)])
            return n
        if f == "crash":
            self.disk.do_crash()
        return super().readinto(b)

    def readall(self):
        f = self.disk.tick("read", self.path)
        if f == "eio":
            self.disk.fail(self.path)
        if f == "crash":
            self.disk.do_crash()
        return super().readall()

    def close(self):
        super().close()


class DiskSeam:
    """Routes open/os calls on the scratch directory through a SimDisk."""

    def __init__(self, disk):
        self.d = disk

    def __enter__(self):
        d = self.d
        self.saved = (builtins.open, io.open, os.replace, os.rename, os.remove, os.unlink, os.fsync, os.open,
                      os.sendfile, os.listdir)
        real_open, _, real_replace, real_rename, real_remove, _, real_fsync, real_os_open, real_send, real_list = self.saved

        def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
                     closefd=True, opener=None):
            if isinstance(file, int):
                try:
                    name = os.readlink("/proc/self/fd/%d" % file)
                except OSError:
                    name = ""
                mine = d.mine(name)
            else:
                name, mine = file, d.mine(file)
            if not mine:
                return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
            f = d.tick("open", name)
            if f in ("eio", "full"):
                d.fail(name, 28 if f == "full" else 5)
            if f == "crash":
                d.do_crash()
            raw = SimRaw(d, file, mode.replace("b", "").replace("t", ""), name=name, closefd=closefd, opener=opener)
            st = os.fstat(raw.fileno())
            if "w" in mode or "x" in mode:
                d.dirty[st.st_ino] = 0
            elif "a" in mode or "+" in mode:
                d.dirty.setdefault(st.st_ino, st.st_size)
            if "b" in mode and buffering == 0:
                return raw
            size = 4096 if buffering in (-1, 1) else buffering
            if "+" in mode:
                buf = io.BufferedRandom(raw, size)
            elif any(c in mode for c in "wax"):
                buf = io.BufferedWriter(raw, size)
            else:
                buf = io.BufferedReader(raw, size)
            return buf if "b" in mode else io.TextIOWrapper(buf, encoding, errors, newline)

        def sim_os_open(path, flags, mode=0o777, **kw):
            if d.mine(path):
                f = d.tick("open", path)
                if f in ("eio", "full"):
                    d.fail(path, 28 if f == "full" else 5)
                if f == "crash":
                    d.do_crash()
            return real_os_open(path, flags, mode, **kw)

        def two(kind, real):
            def fn(a, b, **kw):
                if d.mine(a) or d.mine(b):
                    f = d.tick(kind, b)
                    if f in ("eio", "full"):
                        d.fail(b, 28 if f == "full" else 5)
                    if f == "crash":
                        d.do_crash()
                return real(a, b, **kw)
            return fn

        def one(kind, real):
            def fn(a, **kw):
                if d.mine(a):
                    f = d.tick(kind, a)
                    if f == "crash":
                        d.do_crash()
                    if f == "eio":
                        d.fail(a)
                return real(a, **kw)
            return fn

        def sim_fsync(fd):
            n = fd if isinstance(fd, int) else fd.fileno()
            try:
                name = os.readlink("/proc/self/fd/%d" % n)
            except OSError:
                name = ""
            if d.mine(name):
                f = d.tick("fsync", name)
                if f in ("eio", "full"):
                    d.fail(name, 28 if f == "full" else 5)
                if f == "crash":
                    d.do_crash()
                st = os.fstat(n)
                d.dirty[st.st_ino] = st.st_size
            return real_fsync(fd)

        def sim_sendfile(out_fd, in_fd, offset, count, **kw):  # how shutil copies
            try:
                name = os.readlink("/proc/self/fd/%d" % out_fd)
            except OSError:
                name = ""
            if d.mine(name):
                st = os.fstat(out_fd)
                left = max(0, os.fstat(in_fd).st_size - (offset or 0))
                if left:
                    f = d.tick("write", name, left)
                    if f in ("eio", "full"):
                        if f == "full" and left > 1:
                            real_send(out_fd, in_fd, offset, left // 2)
                        d.fail(name, 28 if f == "full" else 5)
                    if f == "short":
                        count = max(1, left // 2)
                    if f == "crash":
                        real_send(out_fd, in_fd, offset, left // 2)
                        d.do_crash()
                d.dirty.setdefault(st.st_ino, 0)
            return real_send(out_fd, in_fd, offset, count, **kw)

        def sim_listdir(path="."):  # a directory has no order of its own
            names = real_list(path)
            if d.listing is not None and d.mine(path):
                names = sorted(names)
                d.listing.shuffle(names)
            return names

        builtins.open = io.open = sim_open
        os.sendfile, os.listdir = sim_sendfile, sim_listdir
        os.replace, os.rename = two("rename", real_replace), two("rename", real_rename)
        os.remove = os.unlink = one("remove", real_remove)
        os.fsync, os.open = sim_fsync, sim_os_open
        return d

    def __exit__(self, *exc):
        (builtins.open, io.open, os.replace, os.rename, os.remove, os.unlink, os.fsync, os.open,
         os.sendfile, os.listdir) = self.saved
        return False


def power_loss(root, dirty, rng):
    """What the disk holds after the machine stopped: any file not forced to
    disk since it was last written keeps only a prefix of what was added."""
    lost = []
    for dirpath, _, names in os.walk(root):
        for name in names:
            p = os.path.join(dirpath, name)
            st = os.stat(p)
            if st.st_ino in dirty and st.st_size > dirty[st.st_ino]:
                synced = dirty[st.st_ino]
                keep = rng.choice([synced, rng.randint(synced, st.st_size - 1), st.st_size])
                if keep < st.st_size:
                    with open(p, "r+b") as f:
                        f.truncate(keep)
                    lost.append((name, st.st_size, keep))
    return lost
