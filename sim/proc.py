"""Simulated processes: one actor per MPI rank, each with its own modules, working directory, clock,
standard streams, exit handlers and resource limits; and the job (one `mpirun`) they belong to."""
import errno
import gc
import importlib
import io
import os
import resource
import shutil
import sys
import traceback
import types

from . import mpi as simmpi
from . import seams
from .core import Actor, Sim, SimKill

SCRIPT_DIRS = ("", "utilities", "topographic")          # what users put on PYTHONPATH
NAME_DIRS = ("", "utilities", "topographic", "terrain", "shielding")
_names_cache = {}


def src_names(src):
    """Every module name under which a file of the sources can be imported."""
    if src in _names_cache:
        return _names_cache[src]
    names = set()
    for d in NAME_DIRS:
        base = os.path.join(src, d)
        if not os.path.isdir(base):
            continue
        for root, dirs, files in os.walk(base):
            dirs[:] = [x for x in dirs if not x.startswith(".") and x not in ("tests", "docs", "__pycache__")]
            rel = os.path.relpath(root, base)
            pre = [] if rel == "." else rel.split(os.sep)
            if pre:
                names.add(".".join(pre))
            for f in files:
                if f.endswith(".py"):
                    parts = pre + ([] if f == "__init__.py" else [f[:-3]])
                    if parts:
                        names.add(".".join(parts))
    names = {n for n in names if n.split(".")[0] not in sys.stdlib_module_names}
    names |= {"logging", "logging.handlers", "logging.config", "atexit", "mpi4py", "mpi4py.MPI", "__main__"}
    _names_cache[src] = names
    return names


_logging_code = None


def fresh_logging():
    """A private copy of the logging package (handlers and configuration are per process)."""
    global _logging_code
    import logging as base
    if _logging_code is None:
        with open(base.__file__) as f:
            _logging_code = compile(f.read(), base.__file__, "exec")
    m = types.ModuleType("logging")
    m.__file__, m.__path__, m.__package__ = base.__file__, list(base.__path__), "logging"
    m.__spec__ = base.__spec__
    fork = os.register_at_fork
    os.register_at_fork = lambda **kw: None
    try:
        exec(_logging_code, m.__dict__)
    finally:
        os.register_at_fork = fork
    return m


class Stream(io.StringIO):
    def __init__(self, name):
        super().__init__()
        self.name = name

    def isatty(self):
        return False

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    broken = None

    def write(self, text):
        if self.broken and self.broken():
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
        return super().write(text)

    def note(self, text):
        """What the interpreter itself writes: errors are ignored."""
        super().write(text)


_script_code = {}


def script_code(path):
    st = seams.REAL.get("os.stat", os.stat)(path)
    key = (path, st.st_mtime_ns, st.st_size)
    if key not in _script_code:
        with seams.REAL.get("open", open)(path, "rb") as f:
            _script_code[key] = compile(f.read(), path, "exec")
    return _script_code[key]


class Rank(Actor):
    """One operating-system process of the job."""

    def __init__(self, sim, job, rank):
        super().__init__(sim, ("rank", rank), self.body)
        self.job, self.rank = job, rank
        self.depth = 0
        self.importing = 0
        self.pid = 5000 + 7 * rank
        self.clock_off = 0.0
        self.clock_rate = 1.0
        self.clock_reads = []
        self.tmp_names = 0
        self.exit_code = None
        self.traceback = ""
        self.hard_exit = False
        self.log_errors = []
        self.atexit = []
        self.tasks = []
        self.windows = []                   # active resource limits: [kind, limit, last op]
        self.cwd = job.start_dir
        self.cwd_lost = False
        self.out, self.err = Stream("<stdout>"), Stream("<stderr>")
        self.names = src_names(job.src)
        if job.extra_mods:
            self.names = self.names | set(job.extra_mods)
        self.argv = [job.script_argv0] + list(job.args)
        self.path = [os.path.dirname(job.script)] + [os.path.normpath(os.path.join(job.src, d))
                                                     for d in SCRIPT_DIRS] + job.base_path
        self.mods = {}
        self._saved = None
        self._prepare()

    def _prepare(self):
        """Modules the process starts with."""
        at = types.ModuleType("atexit")

        def register(f, *args, **kw):
            self.atexit.append((f, args, kw))
            return f

        def unregister(f):
            self.atexit[:] = [x for x in self.atexit if x[0] != f]
        at.register, at.unregister = register, unregister
        at._run_exitfuncs = self.run_atexit
        at._clear = lambda: self.atexit.clear()
        self.mods["atexit"] = at
        real_at = sys.modules.get("atexit")
        sys.modules["atexit"] = at
        real_threading = sys.modules["threading"]
        try:
            if self.job.threads:
                from . import threads
                sys.modules["threading"] = threads.prepare(self)
            log = self.mods["logging"] = fresh_logging()
        finally:
            sys.modules["threading"] = real_threading
            if real_at is not None:
                sys.modules["atexit"] = real_at
        handle = log.Logger.handle
        errors = self.log_errors
        self.records = []

        def record(lg, rec):
            if self.job.capture_logs:
                try:
                    text = rec.getMessage()
                except Exception:
                    text = str(rec.msg)
                self.records.append((text, any(hasattr(h, "baseFilename") for h in log.root.handlers),
                                     rec.levelno))
            if rec.levelno >= 40:
                try:
                    errors.append(rec.getMessage())
                except Exception:
                    errors.append(str(rec.msg))
            return handle(lg, rec)
        log.Logger.handle = record
        enabled = log.Logger.isEnabledFor
        self.suppressed = set()

        def asked(lg, level):
            ok = enabled(lg, level)
            if not ok and self.job.capture_logs and any(hasattr(h, "baseFilename") for h in log.root.handlers):
                f = sys._getframe(1)
                while f is not None and f.f_globals.get("__name__") == "logging":
                    f = f.f_back
                if f is not None and f.f_code.co_filename.startswith(self.job.src + "/"):
                    self.suppressed.add(level)
            return ok
        log.Logger.isEnabledFor = asked
        if self.job.mode == "mpi":
            done = []

            def on_init():
                if not done:
                    done.append(1)
                    self.job.world.initialized.add(self.rank)
                    self.atexit.append((self._finalize, (), {}))
            pkg, m = simmpi.make_mpi(self.job.world, self.rank, on_init)
            self.mpi = m
            self.mods["mpi4py"] = pkg
            self.mods["mpi4py.MPI"] = m
        else:
            self.mods["mpi4py"] = None
        self.mods.update(self.job.extra_mods)
        main = types.ModuleType("__main__")
        main.__file__ = self.job.script
        main.__builtins__ = __builtins__
        main.__spec__ = None
        self.mods["__main__"] = main

    def _finalize(self):
        if not self.mpi.Is_finalized():
            self.mpi.Finalize()

    # ------------------------------------------------------------------ context switching
    def switch_in(self):
        mods = sys.modules
        saved = {}
        for n in self.names:
            if n in mods:
                saved[n] = mods.pop(n)
        mods.update(self.mods)
        self._saved = (saved, sys.argv, sys.path, sys.stdout, sys.stderr)
        sys.argv, sys.path, sys.stdout, sys.stderr = self.argv, self.path, self.out, self.err
        try:
            seams.REAL["os.chdir"](self.cwd)
            self.cwd_lost = False
        except OSError:
            self.cwd_lost = True
            seams.REAL["os.chdir"](self.job.limbo)
        self._limits()

    def switch_out(self):
        if self._saved is None:
            return
        for kind, _, _ in self.windows:
            _lift(kind)
        mods = sys.modules
        mine = {}
        for n in self.names:
            if n in mods:
                mine[n] = mods.pop(n)
        self.mods = mine
        saved, argv, path, out, err = self._saved
        self._saved = None
        mods.update(saved)
        self.argv, self.path = sys.argv, sys.path
        sys.argv, sys.path, sys.stdout, sys.stderr = argv, path, out, err
        if not self.cwd_lost:
            try:
                self.cwd = seams.REAL["os.getcwd"]()
            except OSError:
                pass
        seams.REAL["os.chdir"]("/")

    # ------------------------------------------------------------------ resource windows
    def set_window(self, kind, limit, span):
        self.windows.append([kind, limit, self.nops + span])
        self._limits()

    def expire(self):
        for w in list(self.windows):
            if self.nops > w[2]:
                self.windows.remove(w)
                _lift(w[0])
        self._limits()

    def _limits(self):
        for kind, limit, _ in self.windows:
            if kind == "fsize":
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, resource.RLIM_INFINITY))
            elif kind == "nofile":
                _lift(kind)                      # the listing of the open files takes one itself
                resource.setrlimit(resource.RLIMIT_NOFILE, (limit + _open_fds(), _NOFILE[1]))

    # ------------------------------------------------------------------ life of the process
    def body(self):
        code = None
        try:
            try:
                if self.job.threads:
                    from . import threads
                    threads.trace(self)
                if Sim.current.calls is not None:
                    seams.count_calls(Sim.current)
                main = sys.modules["__main__"]
                main.__dict__.update({"__name__": "__main__", "__cached__": None, "__doc__": None,
                                      "__package__": None, "__loader__": None})
                exec(script_code(self.job.script), main.__dict__)
                code = 0
            except SystemExit as e:
                code = exit_status(e.code, self.err)
            except SimKill:
                raise
            except KeyboardInterrupt:
                self.traceback = traceback.format_exc()
                self.err.note(self.traceback)
                code = 130
            except BaseException:
                self.traceback = traceback.format_exc()
                self.err.note(self.traceback)
                code = 1
            self.depth = self.importing = 0
            sys.settrace(None)
            if self.job.threads:
                threads.finish(self)
            self.run_atexit()
        except SimKill:
            if self.hard_exit:
                code = self.exit_code
            else:
                raise
        self.exit_code = code
        for t in self.tasks:
            t.killed = True
        self.job.on_exit(self, code)

    def run_atexit(self):
        while self.atexit:
            f, args, kw = self.atexit.pop()
            try:
                f(*args, **kw)
            except SystemExit:
                pass
            except SimKill:
                raise
            except BaseException:
                self.err.note("Exception ignored in atexit callback:\n" + traceback.format_exc())

    def os_exit(self, code):
        self.exit_code = code
        self.hard_exit = True
        self.killed = True
        raise SimKill("os._exit")


_NOFILE = resource.getrlimit(resource.RLIMIT_NOFILE)


def _open_fds():
    return max([int(x) for x in seams.REAL["os.listdir"]("/proc/self/fd")] or [2])


def _lift(kind):
    if kind == "fsize":
        resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    else:
        resource.setrlimit(resource.RLIMIT_NOFILE, _NOFILE)


def exit_status(code, err):
    if code is None:
        return 0
    if isinstance(code, int):
        return code & 0xff
    err.note("%s\n" % (code,))
    return 1


class Job:
    """One command, run by n simulated processes."""

    def __init__(self, sim, *, root, src, script, args, nranks=1, mode="mpi", start_dir=None, send_mode="eager",
                 coll_mode="lazy", git_mode="notag", git_version=b"v1.2-3-gabc\n", argv0=None, limbo=None,
                 base_path=(), capture_logs=False, mods=None, threads=None):
        self.sim = sim
        self.extra_mods = mods or {}
        self.threads = threads
        self.root, self.src = root, src
        self.script = os.path.join(src, script)
        self.script_argv0 = argv0 or self.script
        self.args = args
        self.mode = mode
        self.nranks = nranks
        self.start_dir = start_dir or root
        self.limbo = limbo or "/"
        self.base_path = list(base_path)
        self.git_mode, self.git_version = git_mode, git_version
        self.git_calls, self.git_faults = [], []
        self.escapes = []
        self.mutations = []
        self.mutation_hook = None
        self.exits = {}
        self.status = None
        self.kill_delay = 0
        self.capture_logs = capture_logs
        self.end_snapshot = None
        self.crashed_at = None
        self.world = simmpi.World(sim, nranks, send_mode, coll_mode)
        self.world.job = self
        self.ranks = [sim.add(Rank(sim, self, r)) for r in range(nranks)]

    # ------------------------------------------------------------------ called from the seams
    def escape(self, a, kind, p):
        self.escapes.append((a.key[1], self.sim.steps, kind, p))

    def mutation(self, a, kind, p):
        rel = p[len(self.root) + 1:]
        self.mutations.append((self.sim.steps, a.key[1], kind, rel))
        if self.mutation_hook is not None:
            self.mutation_hook(a, kind, rel)

    def crash(self, a, f):
        self.crashed_at = self.sim.steps
        self.sim.stop("crash")

    def kill_rank(self, a, f):
        self.exits.setdefault(a.key[1], -9)
        a.killed = True
        self._mpirun_kills(f.get("extra", 0), "rank-killed")
        raise SimKill("killed")

    def on_abort(self, rank, code):
        self.exits.setdefault(rank, code)
        self.status = code                   # mpirun's own status, also if it is 0
        self.ranks[rank].killed = True
        self._mpirun_kills(self.kill_delay, "abort")
        raise SimKill("MPI_Abort")

    def on_exit(self, r, code):
        self.exits[r.rank] = code
        bad = code != 0 or (self.mode == "mpi" and r.rank in self.world.initialized and
                            r.rank not in self.world.finalized)
        if bad and self.nranks > 1:
            self._mpirun_kills(self.kill_delay, "exit-failure")

    def _mpirun_kills(self, delay, reason):
        if self.sim.stop_after is None:
            self.sim.stop_after = (self.sim.steps + delay, reason)

    # ------------------------------------------------------------------ outcome
    def success(self):
        if self.world.aborted is not None:
            return self.world.aborted[1] == 0
        return self.sim.end == "finished" and all(self.exits.get(r) == 0 for r in range(self.nranks))
