"""Seams: every file, raster, NetCDF, child-process and clock operation of simulated code goes through
a wrapper that is a scheduling point, a fault point and a containment guard.

The wrappers are installed once per worker process.  Outside a simulated actor they call straight
through.
"""
import builtins
import datetime as _datetime
import errno
import functools
import io
import os
import posixpath
import random
import resource
import select
import shutil
import stat as _stat
import subprocess
import sys
import tempfile
import threading
import time as _time

from .core import Sim, SimKill

REAL = {}
EPOCH = 1_700_000_000.0
RAW_PREFIXES = tuple(p for p in {sys.prefix, sys.base_prefix, "/usr", "/lib", "/etc", "/proc", "/sys", "/opt/venv"})


def cur():
    """The running actor if the caller is simulated code at top level, else None."""
    s = Sim.current
    if s is None:
        return None
    a = s.cur
    if a is None or a.thread is None or a.thread.ident != threading.get_ident() or a.depth or a.importing:
        return None
    return a


class raw:
    """Code in this block is not simulated (harness code running on an actor thread)."""

    def __enter__(self):
        s = Sim.current
        self.a = s.cur if s is not None else None
        if self.a is not None:
            self.a.depth += 1

    def __exit__(self, *exc):
        if self.a is not None:
            self.a.depth -= 1


def resolve(a, path, dir_fd=None):
    """Absolute path of an argument, or None if it does not name a file of the simulated tree."""
    try:
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        elif not isinstance(path, str):
            path = os.fspath(path)
    except TypeError:
        return None
    if not isinstance(path, str) or path == "":
        return None
    if not path.startswith("/"):
        if dir_fd is not None:
            base = REAL["os.readlink"]("/proc/self/fd/%d" % dir_fd)
        else:
            base = REAL["os.getcwd"]()
        path = base + "/" + path
    return posixpath.normpath(path)


def label(a, p):
    """Path as it appears in events: relative to the run directory."""
    if p is None:
        return None
    root = a.job.root
    if p == root or p.startswith(root + "/"):
        return p[len(root) + 1:] or "."
    src = a.job.src
    if p.startswith(src + "/"):
        return "<src>/" + p[len(src) + 1:]
    return p


class Escape(PermissionError):
    pass


def guard(a, kind, p):
    """Mutating operations must stay inside the run directory."""
    if p is None:
        return
    root = a.job.root
    if kind == "mkdir" and REAL_isdir(p):       # fails without effect
        return
    if p == root or not p.startswith(root + "/"):
        if p == "/dev/null":
            return
        a.job.escape(a, kind, p)
        raise Escape(errno.EACCES, "simulated containment: operation outside the run directory", p)
    a.job.mutation(a, kind, p)


def os_error(no, p):
    return OSError(no, os.strerror(no), p)


ERRNOS = {"EIO": errno.EIO, "ENOSPC": errno.ENOSPC, "EACCES": errno.EACCES, "ENOENT": errno.ENOENT,
          "EMFILE": errno.EMFILE, "EROFS": errno.EROFS, "EDQUOT": errno.EDQUOT, "ESTALE": errno.ESTALE,
          "ENOMEM": errno.ENOMEM, "EAGAIN": errno.EAGAIN}


def apply_common(a, f):
    """Faults that do not depend on the operation; returns True if the fault is dealt with."""
    k = f["kind"]
    if k == "fsize":
        a.set_window("fsize", f["limit"], f["span"])
    elif k == "nofile":
        a.set_window("nofile", f["limit"], f["span"])
    elif k == "mem":
        raise MemoryError("simulated allocation failure")
    elif k == "memline":
        arm_memline(Sim.current, f["lines"], f.get("in"), f.get("line"))
    elif k == "intr":
        raise KeyboardInterrupt()
    elif k == "crash":
        a.job.crash(a, f)
    elif k == "killrank":
        a.job.kill_rank(a, f)
    elif k == "clock":
        a.clock_off += f["delta"]
    elif k == "stall":
        s = Sim.current
        s.yield_(wake_at=s.now + f["dt"], why="stalled")
    else:
        return False
    return True


QUIET_CODES = ("LOAD_", "STORE_", "NOP", "RESUME", "CACHE", "POP_", "JUMP", "RETURN_", "PUSH_NULL", "COPY", "SWAP", "PRECALL",
               "KW_NAMES", "IS_OP", "GET_ITER", "FOR_ITER", "END_FOR", "RERAISE", "PUSH_EXC", "CHECK_EXC", "DELETE_",
               "EXTENDED_ARG", "RAISE")
_alloc = {}


def alloc_lines(code):
    """Lines of a code object that may allocate: anything but moving values and jumping."""
    got = _alloc.get(code)
    if got is None:
        import dis
        got = _alloc[code] = set()
        line = None
        for i in dis.get_instructions(code):
            if i.starts_line is not None:
                line = i.starts_line
            if not i.opname.startswith(QUIET_CODES):
                got.add(line)
    return got


def where(sim, code):
    """Name of a function of the code under test."""
    return code.co_filename[len(sim.src):] + ":" + code.co_name


def count_calls(sim):
    """Count how often the lines of the code under test that may allocate run from here on, in this process."""
    src, key, calls = sim.src, sim.cur.key, sim.calls

    def local(frame, event, arg):
        if event == "line" and frame.f_lineno in alloc_lines(frame.f_code):
            calls[key, frame.f_code, frame.f_lineno] += 1
        return local

    def enter(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(src) else None
    sys.settrace(enter)


def line_counts(sim):
    """(process, function) -> {line: how often it ran}"""
    out = {}
    for (key, code, line), n in sim.calls.items():
        lines = out.setdefault((key, where(sim, code)), {})
        lines[line] = lines.get(line, 0) + n
    return out


def arm_memline(sim, lines, inside=None, at=None):
    """MemoryError at the n-th line from here on, in the code under test, that may allocate (in one function; one line)."""
    src = sim.src
    left = [lines]

    def local(frame, event, arg):
        if event == "line" and left[0] > 0 and (at is None or frame.f_lineno == at) and \
                frame.f_lineno in alloc_lines(frame.f_code) and sys.exc_info()[0] is None:
            left[0] -= 1
            if left[0] == 0:
                sys.settrace(None)
                sim.mem_raised.append((frame.f_code.co_name, frame.f_lineno))
                raise MemoryError("simulated allocation failure")
        return local

    def enter(frame, event, arg):
        return local if left[0] > 0 and concerns(frame.f_code) else None

    def concerns(code):
        return code.co_filename.startswith(src) and (inside is None or where(sim, code) == inside)
    f = sys._getframe()
    while f is not None:
        if concerns(f.f_code):
            f.f_trace = local
        f = f.f_back
    sys.settrace(enter)


def gdal_fail(msg):
    from osgeo import gdal
    if gdal.GetUseExceptions():
        raise RuntimeError(msg)
    return None


def do_op(a, kind, p, mutating, family):
    """Event, yield and fault of one operation.  Returns (True, value) if the operation was replaced."""
    if mutating:
        guard(a, kind, p)
    f = Sim.current.op(kind, label(a, p))
    if f is None:
        return None
    if apply_common(a, f):
        return None
    if f["kind"] == "err":
        name = f.get("errno", "EIO")
        if f.get("mode") == "read" and kind == "open:r":
            return ("read", f.get("after", 0))
        if family == "os":
            raise os_error(ERRNOS[name], p)
        if family == "gdal":
            return (True, gdal_fail("%s: simulated %s in %s" % (p, name, kind)))
        if family == "gdalcode":
            gdal_fail("%s: simulated %s in %s" % (p, name, kind))
            return (True, 3)
        if family == "nc":
            if kind.startswith("nc.open"):
                raise os_error(ERRNOS[name], p)
            raise RuntimeError("NetCDF: simulated %s in %s" % (name, kind))
        if family == "fiona":
            import fiona.errors
            raise fiona.errors.DriverIOError("simulated %s in %s" % (name, kind)) if hasattr(
                fiona.errors, "DriverIOError") else OSError(name)
        if family == "geos":
            import shapely.errors
            raise getattr(shapely.errors, "GEOSException", RuntimeError)("TopologyException: simulated")
    raise AssertionError(f)


def leaf(mod, name, kind, arg=0, mutating=False, family="os", kwname="path", two=False, nosched=False):
    """Wrap `mod.name`: an operation on the file named by positional argument `arg`."""
    real = getattr(mod, name)
    key = "%s.%s" % (getattr(mod, "__name__", mod), name)
    REAL.setdefault(key, real)

    def wrapper(*args, **kw):
        a = cur()
        if a is None:
            return real(*args, **kw)
        path = args[arg] if len(args) > arg else kw.get(kwname)
        p = resolve(a, path, kw.get("dir_fd") or kw.get("src_dir_fd"))
        if p is not None and p.startswith(RAW_PREFIXES) and not p.startswith(a.job.root):
            if not mutating:
                return real(*args, **kw)
        if p is not None and not mutating and p.endswith((".py", ".pyc")):
            return real(*args, **kw)
        if two:
            dst = args[arg + 1] if len(args) > arg + 1 else kw.get("dst")
            q = resolve(a, dst, kw.get("dst_dir_fd"))
            guard(a, kind, q)
        r = do_op(a, kind, p, mutating, family)
        if r is not None:
            return r[1]
        a.depth += 1
        try:
            return real(*args, **kw)
        finally:
            a.depth -= 1
    wrapper.__name__ = name
    wrapper.__wrapped__ = real
    setattr(mod, name, wrapper)


def shuffled(names):
    """Directory order is not defined: sorted by default, any order the scheduler likes."""
    names = sorted(names, key=str if not names or isinstance(names[0], (str, bytes)) else (lambda e: e.name))
    v = Sim.current.dec.choose("listing", 1 << 16)
    if v:
        random.Random(v).shuffle(names)
    return names


class ScanDir:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()

    def close(self):
        self._it = iter(())


class FailingFile(io.RawIOBase):
    """A file that opens but fails to be read after some bytes."""

    def __init__(self, f, after):
        self.f, self.left = f, after

    def readable(self):
        return True

    def readinto(self, buf):
        if self.left <= 0:
            raise OSError(errno.EIO, os.strerror(errno.EIO))
        n = min(len(buf), self.left)
        data = self.f.read(n)
        self.left -= n
        buf[:len(data)] = data
        return len(data)

    def close(self):
        self.f.close()
        super().close()


def _install_os():
    for n in ("getcwd", "readlink", "listdir", "scandir", "chdir", "getpid", "open", "stat", "mkdir", "remove",
              "unlink", "rmdir", "rename", "replace", "getlogin"):
        REAL["os." + n] = getattr(os, n)
    REAL["open"] = builtins.open
    shutil._use_fd_functions = False
    leaf(os, "mkdir", "mkdir", mutating=True)
    leaf(os, "rmdir", "rmdir", mutating=True)
    leaf(os, "remove", "remove", mutating=True)
    leaf(os, "unlink", "remove", mutating=True)
    leaf(os, "rename", "rename", mutating=True, kwname="src", two=True)
    leaf(os, "replace", "rename", mutating=True, kwname="src", two=True)
    leaf(os, "link", "link", mutating=False, kwname="src", two=True)
    leaf(os, "symlink", "symlink", arg=1, mutating=True, kwname="dst")
    leaf(os, "truncate", "truncate", mutating=True)
    leaf(os, "chmod", "chmod", mutating=True)
    leaf(os, "utime", "utime", mutating=True)
    leaf(os, "stat", "stat")
    leaf(os, "access", "stat")

    real_listdir = os.listdir

    def listdir(path="."):
        a = cur()
        if a is None or isinstance(path, int):
            return real_listdir(path)
        p = resolve(a, path)
        r = do_op(a, "listdir", p, False, "os")
        if r is not None:
            return r[1]
        return shuffled(real_listdir(path))
    os.listdir = listdir

    real_scandir = os.scandir

    def scandir(path="."):
        a = cur()
        if a is None or isinstance(path, int):
            return real_scandir(path)
        p = resolve(a, path)
        r = do_op(a, "listdir", p, False, "os")
        if r is not None:
            return r[1]
        with real_scandir(path) as it:
            return ScanDir(shuffled(list(it)))
    os.scandir = scandir

    real_open = os.open

    def os_open(path, flags, mode=0o777, *, dir_fd=None):
        a = cur()
        if a is None:
            return real_open(path, flags, mode, dir_fd=dir_fd)
        p = resolve(a, path, dir_fd)
        mut = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC))
        if p is not None and p.startswith(RAW_PREFIXES) and not mut:
            return real_open(path, flags, mode, dir_fd=dir_fd)
        r = do_op(a, "open:w" if mut else "open:r", p, mut, "os")
        if r is not None:
            raise os_error(errno.EIO, p)
        return real_open(path, flags, mode, dir_fd=dir_fd)
    os.open = os_open

    real_cpus, real_fork_hook = os.cpu_count, os.register_at_fork

    def cpu_count():
        s = Sim.current
        a = s.cur if s is not None else None
        return real_cpus() if a is None or not a.job.threads else a.job.threads.get("cpus", 4)
    os.cpu_count = cpu_count

    def register_at_fork(**kw):
        if Sim.current is None or Sim.current.cur is None:
            real_fork_hook(**kw)
    os.register_at_fork = register_at_fork

    def getpid():
        a = cur()
        return REAL["os.getpid"]() if a is None else a.pid
    os.getpid = getpid

    real_bopen = builtins.open

    def sim_open(file, mode="r", *args, **kw):
        a = cur()
        if a is None or isinstance(file, int):
            return real_bopen(file, mode, *args, **kw)
        p = resolve(a, file)
        mut = any(c in mode for c in "wax+")
        if p is None or (not mut and (p.startswith(RAW_PREFIXES) or p.endswith((".py", ".pyc")))
                         and not p.startswith(a.job.root + "/")):
            return real_bopen(file, mode, *args, **kw)
        r = do_op(a, "open:w" if mut else "open:r", p, mut, "os")
        if r is not None and r[0] == "read":
            raw_file = io.BufferedReader(FailingFile(real_bopen(file, "rb", buffering=0), r[1]))
            if "b" in mode:
                return raw_file
            return io.TextIOWrapper(raw_file, kw.get("encoding"), kw.get("errors"), kw.get("newline"))
        if r is not None:
            return r[1]
        a.depth += 1
        try:
            return real_bopen(file, mode, *args, **kw)
        finally:
            a.depth -= 1
    builtins.open = sim_open
    io.open = sim_open


def _install_gdal():
    from osgeo import gdal, gdal_array, ogr
    ds, band, drv = gdal.Dataset, gdal.Band, gdal.Driver
    for name in ("Open", "OpenShared"):
        _gdal_open(gdal, name)
    leaf(gdal, "OpenEx", "gdal.Open", family="gdal", kwname="utf8_path")
    leaf(gdal, "Translate", "gdal.Translate", mutating=True, family="gdal", kwname="destName")
    leaf(gdal, "Warp", "gdal.Warp", mutating=True, family="gdal", kwname="destNameOrDestDS")
    leaf(gdal, "BuildVRT", "gdal.BuildVRT", mutating=True, family="gdal", kwname="destName")
    leaf(gdal, "Unlink", "remove", mutating=True, family="gdalcode", kwname="path")
    leaf(ogr, "Open", "ogr.Open", family="gdal", kwname="utf8_path")
    _plain(gdal, "ReprojectImage", "gdal.Reproject", "gdalcode")
    _plain(gdal, "RasterizeLayer", "gdal.Rasterize", "gdalcode")
    leaf(drv, "Create", "gdal.Create", arg=1, mutating=True, family="gdal", kwname="utf8_path")
    leaf(drv, "CreateCopy", "gdal.Create", arg=1, mutating=True, family="gdal", kwname="utf8_path")
    leaf(drv, "Delete", "remove", arg=1, mutating=True, family="gdalcode", kwname="utf8_path")
    _plain(ds, "FlushCache", "gdal.Flush", "gdalcode")
    _plain(ds, "ReadAsArray", "gdal.Read", "gdal")
    _plain(band, "FlushCache", "gdal.Flush", "gdalcode")
    _plain(band, "ReadAsArray", "gdal.Read", "gdal")
    _plain(band, "Checksum", "gdal.Read", "gdal")
    _plain(band, "WriteArray", "gdal.Write", "gdalcode")
    _plain(gdal_array, "BandReadAsArray", "gdal.Read", "gdal")
    _plain(gdal_array, "BandWriteArray", "gdal.Write", "gdalcode")
    if hasattr(ds, "Close"):
        _plain(ds, "Close", "gdal.Flush", "gdalcode")


def _gdal_open(gdal, name):
    leaf(gdal, name, "gdal.Open", family="gdal", kwname="utf8_path")


def _plain(owner, name, kind, family):
    """Wrap a method without a file argument: a fault point, but not a scheduling point."""
    real = getattr(owner, name)

    def wrapper(*args, **kw):
        a = cur()
        if a is None:
            return real(*args, **kw)
        r = do_op_nosched(a, kind, family)
        if r is not None:
            return r[1]
        a.depth += 1
        try:
            return real(*args, **kw)
        finally:
            a.depth -= 1
    wrapper.__name__ = name
    setattr(owner, name, wrapper)


def do_op_nosched(a, kind, family):
    f = Sim.current.op(kind, None, nosched=True, cost=0.0001)
    if f is None or apply_common(a, f):
        return None
    msg = "simulated %s in %s" % (f.get("errno", "EIO"), kind)
    if family == "gdal":
        return (True, gdal_fail(msg))
    if family == "gdalcode":
        gdal_fail(msg)
        return (True, 3)
    raise RuntimeError(msg)


class VarProxy:
    """A netCDF4 variable whose writes are fault points."""

    def __init__(self, var):
        object.__setattr__(self, "_v", var)

    def __getattr__(self, n):
        v = getattr(self._v, n)
        if n in ("setncatts", "setncattr", "set_auto_mask", "set_auto_scale", "set_auto_maskandscale"):
            def call(*args, **kw):
                nc_op("nc.att")
                return v(*args, **kw)
            return call
        return v

    def __setattr__(self, n, value):
        nc_op("nc.att")
        setattr(self._v, n, value)

    def __setitem__(self, k, value):
        nc_op("nc.data")
        self._v[k] = value

    def __getitem__(self, k):
        return self._v[k]

    def __len__(self):
        return len(self._v)

    def __array__(self, *args, **kw):
        return self._v.__array__(*args, **kw)


def nc_op(kind, path=None, mutating=False, sched=False):
    a = cur()
    if a is None:
        return
    if sched:
        do_op(a, kind, path, mutating, "nc")
    else:
        f = Sim.current.op(kind, None, nosched=True, cost=0.0001)
        if f is not None and not apply_common(a, f):
            raise RuntimeError("NetCDF: simulated %s in %s" % (f.get("errno", "EIO"), kind))


def _install_netcdf():
    import netCDF4
    Base = netCDF4.Dataset
    REAL["netCDF4.Dataset"] = Base

    class Dataset(Base):
        def __init__(self, filename, mode="r", *args, **kw):
            a = cur()
            if a is not None:
                p = resolve(a, filename)
                mut = mode[:1] in "wax" or "+" in mode
                do_op(a, "nc.open:w" if mut else "nc.open:r", p, mut, "nc")
                a.depth += 1
                try:
                    Base.__init__(self, filename, mode, *args, **kw)
                finally:
                    a.depth -= 1
            else:
                Base.__init__(self, filename, mode, *args, **kw)

        def createDimension(self, *args, **kw):
            nc_op("nc.dim")
            return Base.createDimension(self, *args, **kw)

        def createVariable(self, *args, **kw):
            nc_op("nc.var")
            v = Base.createVariable(self, *args, **kw)
            return v if cur() is None else VarProxy(v)

        def setncatts(self, *args, **kw):
            nc_op("nc.att")
            return Base.setncatts(self, *args, **kw)

        def setncattr(self, *args, **kw):
            nc_op("nc.att")
            return Base.setncattr(self, *args, **kw)

        def sync(self):
            nc_op("nc.sync")
            return Base.sync(self)

        def close(self):
            nc_op("nc.close", None, sched=True)
            return Base.close(self)
    Dataset.__module__ = "netCDF4"
    netCDF4.Dataset = Dataset


def now_of(a):
    """The clock of the actor's host; every reading is kept for the provenance oracle."""
    s = Sim.current
    t = EPOCH + s.now * a.clock_rate + a.clock_off
    a.clock_reads.append(t)
    return t


def _install_time():
    for n in ("time", "time_ns", "monotonic", "monotonic_ns", "perf_counter", "perf_counter_ns", "sleep",
              "localtime", "gmtime", "strftime", "ctime", "asctime", "process_time"):
        REAL["time." + n] = getattr(_time, n)
    R = {k[5:]: v for k, v in REAL.items() if k.startswith("time.")}

    def clock(name, scale):
        real = R[name]

        def f():
            a = cur()
            return real() if a is None else scale(now_of(a))
        return functools.partial(f)

    def mono(name, scale):
        real = R[name]

        def f():
            a = cur()
            return real() if a is None else scale(Sim.current.now + 1000.0)
        return functools.partial(f)
    _time.time = clock("time", float)
    _time.time_ns = clock("time_ns", lambda t: int(t * 1e9))
    _time.monotonic = mono("monotonic", float)
    _time.perf_counter = mono("perf_counter", float)
    _time.process_time = mono("process_time", float)
    _time.monotonic_ns = mono("monotonic_ns", lambda t: int(t * 1e9))
    _time.perf_counter_ns = mono("perf_counter_ns", lambda t: int(t * 1e9))

    def sleep(secs):
        a = cur()
        if a is None:
            return R["sleep"](secs)
        s = Sim.current
        f = s.op("sleep", None, nosched=True)
        if f is not None and not apply_common(a, f):
            pass
        s.yield_(wake_at=s.now + max(0.0, float(secs)), why="sleep")
    _time.sleep = functools.partial(sleep)

    def localtime(secs=None):
        a = cur()
        return R["localtime"](now_of(a) if secs is None and a is not None else secs)

    def gmtime(secs=None):
        a = cur()
        return R["gmtime"](now_of(a) if secs is None and a is not None else secs)

    def strftime(fmt, t=None):
        a = cur()
        if t is None:
            return R["strftime"](fmt, R["localtime"](now_of(a))) if a is not None else R["strftime"](fmt)
        return R["strftime"](fmt, t)

    def ctime(secs=None):
        a = cur()
        return R["ctime"](now_of(a) if secs is None and a is not None else secs)

    def asctime(t=None):
        a = cur()
        if t is None:
            return R["asctime"](R["localtime"](now_of(a))) if a is not None else R["asctime"]()
        return R["asctime"](t)
    for f in (localtime, gmtime, strftime, ctime, asctime):
        setattr(_time, f.__name__, functools.partial(f))     # like builtins, these do not bind as methods

    Real = _datetime.datetime
    RealDate = _datetime.date
    REAL["datetime"] = Real

    class datetime(Real):
        @classmethod
        def now(cls, tz=None):
            a = cur()
            if a is None:
                return Real.now(tz)
            return cls.fromtimestamp(now_of(a), tz)

        @classmethod
        def today(cls):
            return cls.now()

        @classmethod
        def utcnow(cls):
            a = cur()
            if a is None:
                return Real.utcnow()
            return cls.fromtimestamp(now_of(a), _datetime.timezone.utc).replace(tzinfo=None)

    class date(RealDate):
        @classmethod
        def today(cls):
            a = cur()
            if a is None:
                return RealDate.today()
            return cls.fromtimestamp(now_of(a))
    datetime.__module__ = date.__module__ = "datetime"
    _datetime.datetime = datetime
    _datetime.date = date


GIT_SLOW = 300.0


class FakePopen:
    """Stands for `git` (the only child process of the code); anything else is refused."""

    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, preexec_fn=None,
                 close_fds=True, shell=False, cwd=None, env=None, universal_newlines=None, startupinfo=None,
                 creationflags=0, restore_signals=True, start_new_session=False, pass_fds=(), *, user=None,
                 group=None, extra_groups=None, encoding=None, errors=None, text=None, umask=-1, pipesize=-1,
                 process_group=None):
        a = cur()
        if a is None:
            raise RuntimeError("FakePopen outside a simulation")
        self.args = args
        words = args.split() if isinstance(args, str) else [os.fsdecode(x) for x in args]
        self.pid = 4242
        self.stdin = self.stdout = self.stderr = None
        self._text = bool(text or universal_newlines or encoding or errors)
        self._pipe = (stdout == subprocess.PIPE, stderr == subprocess.PIPE)
        where = resolve(a, cwd) if cwd is not None else REAL["os.getcwd"]()
        if "-C" in words:
            where = posixpath.normpath(posixpath.join(where, words[words.index("-C") + 1]))
        if cwd is not None and not REAL_isdir(where):
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), str(cwd))
        f = Sim.current.op("exec", " ".join(words[:3]) + " @" + str(label(a, where)))
        self.mode = "ok"
        self._timeout = None
        if f is not None and not apply_common(a, f):
            self.mode = f.get("mode", "missing")
            a.job.git_faults.append((a.key[1], Sim.current.steps, self.mode))
        if self.mode == "ok":
            self.mode = a.job.git_mode
        prog = os.path.basename(words[0]) if words else ""
        if prog != "git" or self.mode == "missing":
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), words[0] if words else "")
        if self.mode == "eacces":
            raise PermissionError(errno.EACCES, os.strerror(errno.EACCES), words[0])
        if self.mode == "enomem":
            raise OSError(errno.ENOMEM, os.strerror(errno.ENOMEM))
        src = a.job.src
        inside = where == src or where.startswith(src + "/")
        if self.mode == "notag" or not inside:
            self.returncode, out, err = 128, b"", b"fatal: No names found, cannot describe anything.\n"
        elif self.mode == "killed":
            self.returncode, out, err = -9, b"", b""
        else:
            self.returncode, out, err = 0, a.job.git_version, b""
        self._code, self.returncode = self.returncode, None
        self._ready = Sim.current.now + (GIT_SLOW if self.mode == "slow" else 0.0)
        a.job.git_calls.append((a.key[1], words[1:], inside, self.mode))
        self._out, self._err = out, err
        if self._pipe[0]:
            self.stdout = io.BytesIO(out) if not self._text else io.StringIO(out.decode())
        if self._pipe[1]:
            self.stderr = io.BytesIO(err) if not self._text else io.StringIO(err.decode())

    def _conv(self, b, wanted):
        if not wanted:
            return None
        return b.decode() if self._text else b

    def communicate(self, input=None, timeout=None):
        self.wait(timeout)
        return self._conv(self._out, self._pipe[0]), self._conv(self._err, self._pipe[1])

    def poll(self):
        if self.returncode is None and Sim.current.now >= self._ready:
            self.returncode = self._code
        return self.returncode

    def wait(self, timeout=None):
        s = Sim.current
        if self.returncode is None and s.now < self._ready:
            late = timeout is not None and s.now + timeout < self._ready
            s.yield_(wake_at=s.now + timeout if late else self._ready, why="git")
            if late:
                raise subprocess.TimeoutExpired(self.args, timeout)
        if self.returncode is None:
            self.returncode = self._code
        return self.returncode

    def kill(self):
        if self.returncode is None:
            self._code, self._ready, self._out = -9, Sim.current.now, b""

    terminate = kill

    def send_signal(self, sig):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        pass


def REAL_isdir(p):
    try:
        return _stat.S_ISDIR(REAL["os.stat"](p).st_mode)
    except OSError:
        return False


def _install_subprocess():
    real = subprocess.Popen
    REAL["Popen"] = real

    class Popen(real):
        def __new__(cls, *args, **kw):
            if cur() is not None:
                return FakePopen(*args, **kw)
            return object.__new__(cls)
    subprocess.Popen = Popen
    real_system = os.system

    def system(cmd):
        a = cur()
        if a is None:
            return real_system(cmd)
        try:
            return FakePopen(cmd, shell=True).returncode & 0xff
        except OSError:
            return 127 << 8
    os.system = system


class SimNames:
    def __iter__(self):
        return self

    def __next__(self):
        a = cur() or (Sim.current.cur if Sim.current else None)
        if a is None:
            return "%08x" % random.getrandbits(32)
        a.tmp_names += 1
        return "r%dn%04d" % (a.key[1], a.tmp_names)


def _install_misc():
    import getpass
    real_user = getpass.getuser
    getpass.getuser = lambda: "simuser" if cur() is not None else real_user()
    tempfile._name_sequence = SimNames()
    tempfile._get_candidate_names = lambda: tempfile._name_sequence
    real_import = builtins.__import__

    def sim_import(name, globals=None, locals=None, fromlist=(), level=0):
        s = Sim.current
        a = s.cur if s is not None else None
        if a is None or a.thread is None or a.thread.ident != threading.get_ident():
            return real_import(name, globals, locals, fromlist, level)
        a.importing += 1
        try:
            return real_import(name, globals, locals, fromlist, level)
        finally:
            a.importing -= 1
    builtins.__import__ = sim_import
    import importlib
    real_im = importlib.import_module

    def import_module(name, package=None):
        s = Sim.current
        a = s.cur if s is not None else None
        if a is None:
            return real_im(name, package)
        a.importing += 1
        try:
            return real_im(name, package)
        finally:
            a.importing -= 1
    importlib.import_module = import_module


def _install_exit():
    import signal
    real_exit, real_signal = os._exit, signal.signal

    def _exit(code):
        a = cur()
        if a is None:
            real_exit(code)
        a.os_exit(code)
    os._exit = _exit

    def sim_signal(num, handler):
        return signal.SIG_DFL if cur() is not None else real_signal(num, handler)
    signal.signal = sim_signal


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    _install_os()
    _install_gdal()
    _install_netcdf()
    _install_time()
    _install_subprocess()
    _install_misc()
    _install_exit()


_fiona = False


def install_fiona():
    """Seams of the shapefile stack (only where it is needed: importing it is slow)."""
    global _fiona
    if _fiona:
        return
    _fiona = True
    import fiona

    real_open = fiona.open

    def fopen(fp, mode="r", *args, **kw):
        a = cur()
        if a is None:
            return real_open(fp, mode, *args, **kw)
        p = resolve(a, fp)
        mut = mode != "r"
        do_op(a, "fiona.open:" + mode, p, mut, "fiona")
        a.depth += 1
        try:
            return real_open(fp, mode, *args, **kw)
        finally:
            a.depth -= 1
    fiona.open = fopen
    C = fiona.Collection
    for name, kind in (("write", "fiona.write"), ("writerecords", "fiona.write"), ("close", "fiona.close")):
        def wrap(real, kind):
            def f(self, *args, **kw):
                a = cur()
                if a is None:
                    return real(self, *args, **kw)
                if kind != "fiona.close" or not self.closed:
                    do_op(a, kind, None, False, "fiona")
                a.depth += 1
                try:
                    return real(self, *args, **kw)
                finally:
                    a.depth -= 1
            return f
        setattr(C, name, wrap(getattr(C, name), kind))
    real_iter = C.__iter__

    def __iter__(self):
        if cur() is None:
            return real_iter(self)

        def records(it):
            for x in it:
                if cur() is not None:
                    do_op(cur(), "fiona.read", None, False, "fiona")
                yield x
        return records(real_iter(self))
    C.__iter__ = __iter__
    _install_geos()
    import multiprocessing.connection
    real_wait = multiprocessing.connection.wait

    def wait(objects, timeout=None):
        a = cur()
        if a is None or not a.job.threads:
            return real_wait(objects, timeout)
        from .threads import pause
        objects = list(objects)
        ready = lambda: select.select(objects, [], [], 0)[0]
        pause(lambda: bool(ready()), "pipe", None if timeout is None else Sim.current.now + timeout)
        return ready()
    multiprocessing.connection.wait = wait


def _install_geos():
    """Geometry operations are scheduling and fault points (the real ones release the interpreter lock)."""
    import shapely
    import shapely.geometry.base
    import shapely.ops
    import shapely.strtree

    def geos(real, name):
        def f(*args, **kw):
            a = cur()
            if a is None:
                return real(*args, **kw)
            do_op(a, "geos." + name, None, False, "geos")
            a.depth += 1
            try:
                return real(*args, **kw)
            finally:
                a.depth -= 1
        f.__name__ = name
        return f
    base = shapely.geometry.base.BaseGeometry
    for name in ("intersection", "intersects", "buffer", "difference", "union", "within", "contains", "overlaps",
                 "touches", "covers"):
        setattr(base, name, geos(getattr(base, name), name))
    base.area = property(geos(base.area.fget, "area"))
    base.is_valid = property(geos(base.is_valid.fget, "is_valid"))
    tree = shapely.strtree.STRtree
    tree.query = geos(tree.query, "query")
    for mod in (shapely, shapely.ops):
        for name in ("unary_union", "intersection", "intersects", "area"):
            if hasattr(mod, name):
                setattr(mod, name, geos(getattr(mod, name), name))
