"""The simulated world: disk, process, log clock, randomness, source lines.

Everything the code under test can observe of the outside goes through here.
A World owns one private scratch directory (the simulated disk).  While the
world is `on`, every file-system call that Python code makes is an *event*: it
is numbered, logged, and may be turned into a fault by the armed fault list.
"""
import builtins
import errno
import glob
import heapq
import importlib
import importlib.abc
import importlib.util
import io
import logging
import os
import random
import shutil
import sys
import threading
import time as _real_time
import types
import warnings
import weakref
from collections import Counter

import numpy as np

REPO = os.environ.get("VERIF_REPO", "/repo")


class SimCrash(BaseException):
    """The simulated process died here."""


class HarnessError(Exception):
    """The simulator itself is at fault (never reported as a violation)."""


# ---------------------------------------------------------------- originals
_O = types.SimpleNamespace(
    open=builtins.open, ioopen=io.open, os_open=os.open, os_close=os.close,
    os_write=os.write, os_read=os.read, mkdir=os.mkdir, rmdir=os.rmdir,
    rename=os.rename, replace=os.replace, unlink=os.unlink, remove=os.remove,
    listdir=os.listdir, scandir=os.scandir, fsync=os.fsync,
    truncate=os.truncate, symlink=os.symlink, link=os.link, chmod=os.chmod,
    utime=os.utime, urandom=os.urandom, ftruncate=os.ftruncate, lseek=os.lseek)

MUTATING = ("open-w", "write", "close-w", "mkdir", "rmdir", "rename",
            "remove", "other-w")
READING = ("open-r", "read", "listdir")
ELIGIBLE = {
    "crash": MUTATING,
    "interrupt": MUTATING,
    "enospc": ("open-w", "write", "mkdir"),
    "eio": ("open-w", "write", "mkdir", "rename", "remove", "rmdir"),
    "eacces": ("open-w", "mkdir", "rename", "remove", "rmdir"),
    "eio-read": READING,
    "eacces-read": ("open-r", "listdir"),
}
ERRNO = {"enospc": errno.ENOSPC, "eio": errno.EIO, "eacces": errno.EACCES,
         "eio-read": errno.EIO, "eacces-read": errno.EACCES}


class SimRaw(io.RawIOBase):
    """A raw file of the simulated disk."""

    def __init__(self, world, fd, path, readable, writable, mode):
        self._w, self._fd, self._path = world, fd, path
        self._r, self._wr = readable, writable
        self.name, self.mode = path, mode
        self._pending = None

    def readable(self):
        return self._r

    def writable(self):
        return self._wr

    def seekable(self):
        return True

    def isatty(self):
        return False

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def readinto(self, b):
        if self._w.on and self._w.mine():
            return self._w._do("read", self._path, lambda: self._readinto(b))
        return self._readinto(b)

    def _readinto(self, b):
        data = _O.os_read(self._fd, len(b))
        b[:len(data)] = data
        return len(data)

    def write(self, b):
        w = self._w
        data = bytes(b)
        if w.frozen:
            return len(data)
        if not (w.on and w.mine()):
            return _O.os_write(self._fd, data)
        if self._pending is not None:
            error, self._pending = self._pending, None
            raise error
        return w._do("write", self._path,
                     lambda: _O.os_write(self._fd, data), (self, data))

    def seek(self, pos, whence=0):
        return _O.lseek(self._fd, pos, whence)

    def tell(self):
        return _O.lseek(self._fd, 0, 1)

    def truncate(self, size=None):
        if self._w.frozen:
            return size
        size = self.tell() if size is None else size
        _O.ftruncate(self._fd, size)
        return size

    def close(self):
        if self.closed:
            return
        try:
            super().close()
        finally:
            fd, self._fd = self._fd, None
            if fd is not None:
                self._w.fds.pop(fd, None)
                _O.os_close(fd)
        w = self._w
        if self._wr and w.on and w.mine() and not w.frozen:
            w._do("close-w", self._path, lambda: None)


class _Scan:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


class SimClock:
    """A simulated clock for log records: every look advances it 1 ms."""

    def __init__(self):
        self.now = 1_600_000_000.0

    def time(self):
        self.now += 0.001
        return self.now


class Tqdm:
    """Stub of tqdm: counts the progress bars that are started."""
    world = None

    def __init__(self, iterable=None, *args, total=None, **kwargs):
        self.iterable = iterable
        if total is None and iterable is not None:
            try:
                total = len(iterable)
            except TypeError:
                total = None
        if Tqdm.world is not None:
            Tqdm.world.bars.append(total)
            if Tqdm.world.on_bar is not None:
                Tqdm.world.on_bar(total)

    def __iter__(self):
        for item in self.iterable:
            yield item

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def update(self, n=1):
        pass

    def close(self):
        pass

    def set_description(self, *a, **k):
        pass

    set_postfix = refresh = set_description

    @staticmethod
    def write(s, *a, **k):
        print(s)


def _tqdm_module():
    m = types.ModuleType("tqdm")
    m.tqdm = Tqdm
    m.trange = lambda n, *a, **k: Tqdm(range(n), *a, **k)
    auto = types.ModuleType("tqdm.auto")
    auto.tqdm, auto.trange = m.tqdm, m.trange
    m.auto = m.notebook = auto
    return m, auto


_BASE_LOGGERS = set()

# -------------------------------------------------------------- repo sources
class RepoCode:
    """All repo modules, compiled once from the current working tree."""

    def __init__(self):
        self.codes = {}
        for path in sorted(glob.glob(os.path.join(REPO, "*.py"))):
            name = os.path.basename(path)[:-3]
            if name.startswith("test_") or name == "conftest":
                continue
            with _O.open(path, "rb") as f:
                self.codes[name] = compile(f.read(), path, "exec",
                                           dont_inherit=True)
        self.nested = []
        for code in self.codes.values():
            self._walk(code)

    def _walk(self, code):
        self.nested.append(code)
        for const in code.co_consts:
            if isinstance(const, types.CodeType):
                self._walk(const)


class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, repo):
        self.repo = repo

    def find_spec(self, name, path=None, target=None):
        if name in self.repo.codes:
            return importlib.util.spec_from_loader(
                name, self, origin=os.path.join(REPO, name + ".py"))
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        module.__file__ = os.path.join(REPO, module.__name__ + ".py")
        module.id = Ids.current
        exec(self.repo.codes[module.__name__], module.__dict__)


_REPO = None


def repo():
    global _REPO
    if _REPO is None:
        _REPO = RepoCode()
        sys.meta_path.insert(0, _Finder(_REPO))
        sys.path.append(REPO)
        m, auto = _tqdm_module()
        sys.modules["tqdm"], sys.modules["tqdm.auto"] = m, auto
        sys.modules["tqdm.notebook"] = auto
        Lines.setup(_REPO)
        import matplotlib.pyplot            # noqa: the shared libraries
        import matplotlib.backends.backend_agg  # noqa
        _BASE_LOGGERS.update(logging.root.manager.loggerDict)
    return _REPO


# ------------------------------------------------------------- source lines
class Lines:
    """LINE events of repo code, via sys.monitoring."""
    TOOL = 4
    callback = None
    _codes = []

    @classmethod
    def setup(cls, repo_code):
        M = sys.monitoring
        M.use_tool_id(cls.TOOL, "verif-sim")
        M.register_callback(cls.TOOL, M.events.LINE, cls._cb)
        # module bodies run at import only and are no fault points
        cls._codes = [c for c in repo_code.nested if c.co_name != "<module>"]

    @classmethod
    def _cb(cls, code, line):
        if cls.callback is not None:
            cls.callback(code, line)

    @classmethod
    def enable(cls, callback):
        cls.callback = callback
        for c in cls._codes:
            sys.monitoring.set_local_events(cls.TOOL, c,
                                            sys.monitoring.events.LINE)

    @classmethod
    def disable(cls):
        cls.callback = None
        for c in cls._codes:
            sys.monitoring.set_local_events(cls.TOOL, c, 0)


# --------------------------------------------------------------- allocations
ALLOCATORS = ("zeros ones copy array empty full repeat where concatenate "
              "linspace flip fliplr flipud delete append insert zeros_like "
              "ones_like take mgrid meshgrid isnan abs hypot sqrt interp sort "
              "unique nanargmin unravel_index nan_to_num tile stack vstack "
              "hstack argsort argpartition asarray broadcast_to").split()


class Ids:
    """id() for the code under test: addresses are reused as soon as an object
    is gone, lowest first, whatever the allocator does."""

    current = None

    def __init__(self):
        self.known, self.free, self.n = {}, [], 0

    def __call__(self, obj):
        key = id(obj)
        if key not in self.known:
            if self.free:
                number = heapq.heappop(self.free)
            else:
                self.n += 1
                number = self.n
            try:
                ref = weakref.ref(obj, lambda _: self._gone(key))
            except TypeError:
                ref = obj               # kept, so never reused
            self.known[key] = (number, ref)
        return 0x7f0000000000 + 64 * self.known[key][0]

    def _gone(self, key):
        heapq.heappush(self.free, self.known.pop(key)[0])


class NPProxy:
    """Stands in for `np` in repo modules: the n-th array allocation fails."""

    def __init__(self, world):
        object.__setattr__(self, "_world", world)

    def __getattr__(self, name):
        value = getattr(np, name)
        if name in ALLOCATORS and callable(value):
            world = self._world

            def allocate(*a, **k):
                world._alloc(name)
                return value(*a, **k)
            return allocate
        return value


# -------------------------------------------------------------------- world
class World:
    def __init__(self, root, listing_seed=0):
        self.root = os.path.realpath(root)
        self.work = os.path.join(self.root, "disk")
        _O.mkdir(self.work)
        self.listing_seed = listing_seed
        self.listing_rng = random.Random(listing_seed)
        self.on = False
        self.frozen = False
        self.owners = {threading.get_ident()}
        self.on_switch = None
        self.fds = {}
        self.faults = []
        self.io_n = Counter()
        self.line_n = 0
        self.alloc_n = 0
        self.events = []          # (kind, relative path) of the current op
        self.trace = []           # whole run, compact strings
        self.bars = []
        self.on_bar = None
        self.fired = []           # faults that fired in the current op
        self.fault_stats = Counter()
        self.escapes = []
        self.n_events = 0
        self.n_lines = 0
        self.clock = SimClock()
        self.log_stream = io.StringIO()
        self.procs = 0
        self.repo = repo()
        self.mod = None
        Tqdm.world = self

    def mine(self):
        return threading.get_ident() in self.owners

    # ---- installing the seams -------------------------------------------
    def install(self):
        os.chdir(self.work)
        os.urandom = random.Random(f"urandom {self.listing_seed}").randbytes
        builtins.open = io.open = self._open
        os.open, os.mkdir, os.rmdir = self._os_open, self._mkdir, self._rmdir
        os.rename, os.replace = self._rename, self._replace
        os.unlink = os.remove = self._unlink
        os.listdir, os.scandir = self._listdir, self._scandir
        os.symlink = self._two("symlink", _O.symlink)
        os.link = self._two("link", _O.link)
        os.truncate = self._one("truncate", _O.truncate)
        os.write = self._os_write
        os.close = self._os_close
        shim = types.SimpleNamespace(**{k: getattr(_real_time, k)
                                        for k in dir(_real_time)})
        shim.time = self.clock.time
        shim.time_ns = lambda: int(self.clock.time() * 1e9)
        self._saved = (logging.time, sys.stdout, sys.stderr)
        logging.time = shim
        sys.stdout = sys.stderr = self.log_stream
        warnings.simplefilter("ignore")
        np.seterr(all="ignore")
        return self

    def uninstall(self):
        os.urandom = _O.urandom
        builtins.open, io.open = _O.open, _O.ioopen
        os.open, os.mkdir, os.rmdir = _O.os_open, _O.mkdir, _O.rmdir
        os.rename, os.replace = _O.rename, _O.replace
        os.unlink, os.remove = _O.unlink, _O.remove
        os.listdir, os.scandir = _O.listdir, _O.scandir
        os.symlink, os.link, os.truncate = _O.symlink, _O.link, _O.truncate
        os.write, os.close = _O.os_write, _O.os_close
        logging.time, sys.stdout, sys.stderr = self._saved
        os.chdir("/")

    # ---- processes --------------------------------------------------------
    def start_process(self, seed=0):
        """A fresh process: new module objects, only the disk is kept."""
        self.frozen = False
        self.procs += 1
        for name in self.repo.codes:
            sys.modules.pop(name, None)
        Ids.current = Ids()
        mods = {}
        for name in self.repo.codes:
            mods[name] = importlib.import_module(name)
        self.mod = types.SimpleNamespace(**mods)
        np.random.seed((seed * 7919 + self.procs) % (2**32))
        random.seed(seed * 104729 + self.procs)
        return self.mod

    # ---- running one operation under faults --------------------------------
    def run(self, fn, faults=(), lines=False, allocs=False, label=""):
        """Run fn() with the world on. Returns (kind, value):
        ok/value, error/exception, interrupt/exc, crash/None."""
        kinds = {f["kind"] for f in faults}
        self.faults = [dict(f) for f in faults]
        self.io_n = Counter()
        self.line_n = self.alloc_n = 0
        self.line_times = {}
        self.events = []
        self.bars = []
        self.fired = []
        self.stopped = None
        lines = lines or "interrupt-line" in kinds
        allocs = allocs or "alloc" in kinds
        proxied = []
        if allocs:
            proxy = NPProxy(self)
            for m in vars(self.mod).values():
                if m.__dict__.get("np") is np:
                    m.np = proxy
                    proxied.append(m)
        if lines:
            Lines.enable(self._line)
        self.on = True
        try:
            try:
                value = fn()
                out = ("ok", value)
            except SimCrash as e:
                self.stopped = e
                out = ("crash", None)
            except KeyboardInterrupt as e:
                self.stopped = e
                out = ("interrupt", e)
            except HarnessError:
                raise
            except Exception as e:
                self.stopped = e
                out = ("error", e)
        finally:
            self.on = False
            if lines:
                Lines.disable()
            for m in proxied:
                m.np = np
            self.faults = []
        if self.frozen:
            out = ("crash", None)
        self.n_events += sum(self.io_n.values())
        self.n_lines += self.line_n
        if label:
            what = out[0]
            if what == "error":
                what += ":" + type(out[1]).__name__
            for f in self.fired:
                what += " [" + f + "]"
            self.trace.append(label + " -> " + what)
        return out

    def in_flight(self, cls_name):
        """The objects of a class that the stopped operation worked on."""
        found, seen = [], set()
        e = self.stopped
        while e is not None and id(e) not in seen:
            seen.add(id(e))
            tb = e.__traceback__
            while tb is not None:
                for v in list(tb.tb_frame.f_locals.values()):
                    if type(v).__name__ == cls_name and id(v) not in seen:
                        seen.add(id(v))
                        found.append(v)
                tb = tb.tb_next
            e = e.__context__
        return found

    def counts(self, under=None):
        """Eligible fault points of the last operation, by fault kind."""
        n = self.io_n
        if under:
            n = Counter(k for k, p in self.events
                        if p == under or p.startswith(under + os.sep))
        c = {k: sum(n[e] for e in v) for k, v in ELIGIBLE.items()}
        c["files"] = self._by_file(under)
        c["interrupt-line"] = self.line_n
        c["lines"] = self.line_times
        c["alloc"] = self.alloc_n
        return c

    def _by_file(self, under):
        """The fault points of each kind, by the name of the file."""
        seen, out = Counter(), {k: {} for k in ELIGIBLE}
        for event, path in self.events:
            if under and path != under and \
                    not path.startswith(under + os.sep):
                continue
            name = os.path.basename(path)
            for kind, eligible in ELIGIBLE.items():
                if event in eligible:
                    out[kind].setdefault(name, []).append(seen[kind])
                    seen[kind] += 1
        return out

    # ---- fault machinery ----------------------------------------------------
    def _fire(self, f, text):
        f["done"] = not f.get("sticky")
        self.fired.append(f["kind"] + " at " + text)
        self.fault_stats[f["kind"]] += 1

    def _hit(self, kind, path):
        rel = os.path.relpath(path, self.work) if path else "?"
        self.io_n[kind] += 1
        self.events.append((kind, rel))
        for f in self.faults:
            if f.get("done") or kind not in ELIGIBLE.get(f["kind"], ()):
                continue
            under = f.get("under")
            if under and rel != under and not rel.startswith(under + os.sep):
                continue
            f["seen"] = f.get("seen", 0) + 1
            again = f.get("sticky") and f["seen"] - 1 >= f["at"]
            if f.get("sticky") == "file":       # a bad place on the disk
                again = f.get("path") == rel
                if f["seen"] - 1 == f["at"]:
                    f["path"] = rel
            if f["seen"] - 1 == f["at"] or again:
                self._fire(f, f"{kind} #{f['seen'] - 1} {rel}")
                return f
        return None

    def _do(self, kind, path, fn, data=None):
        if self.frozen:
            raise SimCrash()
        if self.on_switch is not None:
            self.on_switch(kind)
        f = self._hit(kind, path)
        if f is None:
            return fn()
        k, mode = f["kind"], f.get("mode", "before")
        if k == "crash":
            if data is not None and mode == "torn":
                raw, buf = data
                n = int(f.get("frac", 0.5) * len(buf))
                if n:
                    _O.os_write(raw._fd, buf[:n])
            elif mode == "after":
                r = fn()
                if kind in ("open-w", "open-r") and isinstance(r, int):
                    _O.os_close(r)
            self.frozen = True
            raise SimCrash()
        if k == "interrupt":
            if mode == "after" and kind not in ("write", "open-w", "open-r"):
                fn()
            raise KeyboardInterrupt()
        error = OSError(ERRNO[k], os.strerror(ERRNO[k]), path)
        if data is not None and mode == "torn":
            raw, buf = data
            n = int(f.get("frac", 0.5) * len(buf))
            if n:
                raw._pending = error
                return _O.os_write(raw._fd, buf[:n])
        raise error

    def _line(self, code, line):
        if not self.mine():
            return
        n = self.line_n
        self.line_n += 1
        times = self.line_times.setdefault((code, line), [])
        if len(times) < 64:
            times.append(n)
        for f in self.faults:
            if f["kind"] == "interrupt-line" and not f.get("done") \
                    and f["at"] == n:
                self._fire(f, f"{code.co_qualname}:+"
                              f"{line - code.co_firstlineno} (line event {n})")
                raise KeyboardInterrupt()

    def _alloc(self, name):
        if not (self.on and self.mine()):
            return
        n = self.alloc_n
        self.alloc_n += 1
        for f in self.faults:
            if f["kind"] == "alloc" and not f.get("done") and f["at"] == n:
                self._fire(f, f"np.{name} (allocation {n})")
                raise MemoryError("simulated")

    # ---- paths ---------------------------------------------------------------
    def _path(self, path, dir_fd=None):
        if isinstance(path, int):
            if path in self.fds:
                return self.fds[path]
            return os.readlink(f"/proc/self/fd/{path}")
        path = os.fspath(path)
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if dir_fd is not None and not os.path.isabs(path):
            path = os.path.join(os.readlink(f"/proc/self/fd/{dir_fd}"), path)
        path = os.path.abspath(path)
        return os.path.join(os.path.realpath(os.path.dirname(path)),
                            os.path.basename(path))

    def _inside(self, path):
        return path == self.work or path.startswith(self.work + os.sep)

    def _live(self):
        return self.on and self.mine()

    def _guard(self, path, what):
        if not self._inside(path) or path == self.work:
            if path == os.devnull:
                return
            self.escapes.append(f"{what} {path}")
            raise PermissionError(errno.EPERM, "outside the simulated disk",
                                  path)

    # ---- intercepted calls ---------------------------------------------------
    def _open(self, file, mode="r", buffering=-1, encoding=None, errors=None,
              newline=None, closefd=True, opener=None):
        if not self._live() or opener is not None:
            return _O.open(file, mode, buffering, encoding, errors, newline,
                           closefd, opener)
        if isinstance(file, int):
            if file not in self.fds:
                return _O.open(file, mode, buffering, encoding, errors,
                               newline, closefd, opener)
            fd, path = file, self.fds[file]
            writing = any(c in mode for c in "wax+")
        else:
            path = self._path(file)
            writing = any(c in mode for c in "wax+")
            if not self._inside(path):
                if writing:
                    self._guard(path, "open " + mode)
                return _O.open(file, mode, buffering, encoding, errors,
                               newline, closefd, opener)
            plus = "+" in mode
            flags = os.O_CLOEXEC
            if "r" in mode:
                flags |= os.O_RDWR if plus else os.O_RDONLY
            else:
                flags |= (os.O_RDWR if plus else os.O_WRONLY) | os.O_CREAT
                if "w" in mode:
                    flags |= os.O_TRUNC
                if "x" in mode:
                    flags |= os.O_EXCL
                if "a" in mode:
                    flags |= os.O_APPEND
            if os.path.isdir(path):
                raise IsADirectoryError(errno.EISDIR, "Is a directory", path)
            fd = self._do("open-w" if writing else "open-r", path,
                          lambda: _O.os_open(path, flags, 0o666))
            self.fds[fd] = path
        readable = "r" in mode or "+" in mode
        raw = SimRaw(self, fd, path, readable, writing, mode)
        if buffering == 0:
            return raw
        if "+" in mode:
            buffered = io.BufferedRandom(raw)
        elif writing:
            buffered = io.BufferedWriter(raw)
        else:
            buffered = io.BufferedReader(raw)
        if "b" in mode:
            return buffered
        text = io.TextIOWrapper(buffered, encoding, errors, newline,
                                buffering == 1)
        text.mode = mode
        return text

    def _os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        if not self._live():
            return _O.os_open(path, flags, mode, dir_fd=dir_fd)
        full = self._path(path, dir_fd)
        writing = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
        if not self._inside(full):
            if writing:
                self._guard(full, "os.open")
            return _O.os_open(path, flags, mode, dir_fd=dir_fd)
        kind = "open-w" if writing else "open-r"
        if not writing and os.path.isdir(full):
            if self.frozen:
                raise SimCrash()
            fd = _O.os_open(path, flags, mode, dir_fd=dir_fd)
        else:
            fd = self._do(kind, full, lambda: _O.os_open(
                path, flags, mode, dir_fd=dir_fd))
        self.fds[fd] = full
        return fd

    def _os_write(self, fd, data):
        if self._live() and fd in self.fds:
            if self.frozen:
                return len(data)
            holder = types.SimpleNamespace(_fd=fd, _pending=None)
            return self._do("write", self.fds[fd],
                            lambda: _O.os_write(fd, data),
                            (holder, bytes(data)))
        return _O.os_write(fd, data)

    def _os_close(self, fd):
        self.fds.pop(fd, None)
        return _O.os_close(fd)

    def _simple(self, kind, what, fn, path, dir_fd=None):
        full = self._path(path, dir_fd)
        self._guard(full, what)
        return self._do(kind, full, fn)

    def _mkdir(self, path, mode=0o777, *, dir_fd=None):
        fn = lambda: _O.mkdir(path, mode, dir_fd=dir_fd)
        if not self._live():
            return fn()
        return self._simple("mkdir", "mkdir", fn, path, dir_fd)

    def _rmdir(self, path, *, dir_fd=None):
        fn = lambda: _O.rmdir(path, dir_fd=dir_fd)
        if not self._live():
            return fn()
        return self._simple("rmdir", "rmdir", fn, path, dir_fd)

    def _unlink(self, path, *, dir_fd=None):
        fn = lambda: _O.unlink(path, dir_fd=dir_fd)
        if not self._live():
            return fn()
        return self._simple("remove", "unlink", fn, path, dir_fd)

    def _move(self, orig, src, dst, src_dir_fd, dst_dir_fd):
        fn = lambda: orig(src, dst, src_dir_fd=src_dir_fd,
                          dst_dir_fd=dst_dir_fd)
        if not self._live():
            return fn()
        self._guard(self._path(src, src_dir_fd), "rename from")
        full = self._path(dst, dst_dir_fd)
        self._guard(full, "rename to")
        return self._do("rename", full, fn)

    def _rename(self, src, dst, *, src_dir_fd=None, dst_dir_fd=None):
        return self._move(_O.rename, src, dst, src_dir_fd, dst_dir_fd)

    def _replace(self, src, dst, *, src_dir_fd=None, dst_dir_fd=None):
        return self._move(_O.replace, src, dst, src_dir_fd, dst_dir_fd)

    def _two(self, what, orig):
        def call(src, dst, *a, **k):
            if self._live():
                return self._simple("other-w", what,
                                    lambda: orig(src, dst, *a, **k), dst)
            return orig(src, dst, *a, **k)
        return call

    def _one(self, what, orig):
        def call(path, *a, **k):
            if self._live():
                return self._simple("other-w", what,
                                    lambda: orig(path, *a, **k), path)
            return orig(path, *a, **k)
        return call

    def _listdir(self, path="."):
        if not self._live():
            return _O.listdir(path)
        full = self._path(path)
        if not self._inside(full):
            return _O.listdir(path)
        names = self._do("listdir", full, lambda: sorted(_O.listdir(path)))
        self.listing_rng.shuffle(names)
        return names

    def _scandir(self, path="."):
        if not self._live():
            return _O.scandir(path)
        full = self._path(path)
        if not self._inside(full):
            return _O.scandir(path)

        def scan():
            with _O.scandir(path) as it:
                return sorted(it, key=lambda e: e.name)
        entries = self._do("listdir", full, scan)
        self.listing_rng.shuffle(entries)
        return _Scan(entries)

    # ---- helpers for the harness (never counted) ------------------------------
    def tree(self, sub="."):
        """{relative path: bytes} of the simulated disk below sub."""
        out = {}
        base = os.path.join(self.work, sub)
        for d, dirs, files in os.walk(base):
            dirs.sort()
            rel = os.path.relpath(d, base)
            if rel != ".":
                out[rel + "/"] = None
            for f in sorted(files):
                with _O.open(os.path.join(d, f), "rb") as h:
                    out[os.path.normpath(os.path.join(rel, f))] = h.read()
        return out

    def log_lines(self):
        text = self.log_stream.getvalue()
        self.log_stream.seek(0)
        self.log_stream.truncate()
        return text.splitlines()


def make_scratch():
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    import tempfile
    return tempfile.mkdtemp(prefix="verif-sim-", dir=base)


def fresh_world(scratch, listing_seed=0):
    root = os.path.join(scratch, "run")
    if os.path.lexists(root):
        shutil.rmtree(root)
    _O.mkdir(root)
    # no logger of an earlier run survives
    registry = logging.root.manager.loggerDict
    for name in [n for n in registry if n not in _BASE_LOGGERS]:
        del registry[name]
    return World(root, listing_seed).install()
