"""Threads inside a simulated process: every lock, thread start and (by choice) source line is a scheduling point.

A process of a run with `threads` has private copies of threading, queue and concurrent.futures which sit on
the fake `_thread` below, so that the scheduler decides every interleaving of its threads.
"""
import _thread
import os
import sys
import threading as _real_threading
import types

from . import seams
from .core import Actor, Sim, SimKill

NAMES = {"threading", "queue", "_queue", "concurrent", "concurrent.futures", "concurrent.futures._base",
         "concurrent.futures.thread", "concurrent.futures.process", "multiprocessing.pool", "multiprocessing.dummy",
         "_pydummy_thread"}
_code = {}


def actor():
    """The actor on whose OS thread the caller runs."""
    s = Sim.current
    if s is None:
        return None
    a = s.cur
    if a is None or a.thread is None or a.thread.ident != _real_threading.get_ident():
        return None
    return a


def pause(pred=None, why=None, wake_at=None):
    s = Sim.current
    s.steps += 1
    s.now += 0.00001
    s.yield_(pred, why, wake_at)


_serials = [None, 0]


def serial(self):
    """Hash of locks, threads and futures: by order of first use in the simulation, not by address (sets of them are
    walked by threading and concurrent.futures)."""
    d = self.__dict__
    n = d.get("_wm_serial")
    if n is None:
        s = Sim.current
        if _serials[0] is not s:
            _serials[:] = [s, 0]
        _serials[1] += 1
        n = d["_wm_serial"] = _serials[1]
    return n


class SimLock:
    __hash__ = serial

    def __init__(self):
        self.held = False
        self.owner = None

    def acquire(self, blocking=True, timeout=-1):
        if not blocking and timeout != -1:
            raise ValueError("can't specify a timeout for a non-blocking call")
        a = actor()
        if a is None:
            if self.held:
                return False
            self.held = True
            return True
        if not a.depth and not a.importing:
            pause()
        if self.held and not blocking:
            return False
        if self.held:
            wake = None if timeout is None or timeout < 0 else Sim.current.now + timeout
            pause(lambda: not self.held, "lock", wake)
            if self.held:
                return False
        self.held = True
        self.owner = a.key
        return True

    acquire_lock = acquire

    def release(self):
        if not self.held:
            raise RuntimeError("release unlocked lock")
        self.held = False
        self.owner = None

    release_lock = release

    def locked(self):
        return self.held

    locked_lock = locked

    def _at_fork_reinit(self):
        self.held = False

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()


class Task(Actor):
    """A thread of a simulated process."""

    OWN = {"sim", "key", "target", "gate", "started", "done", "pred", "why", "wake_at", "nops", "killed", "kill_count",
           "thread", "zombie", "killed_early", "blocked_at_end", "blocked_why", "proc", "depth", "importing", "ident", "sentinel"}

    def __init__(self, proc, fn, args, kw):
        object.__setattr__(self, "proc", proc)
        proc.ntasks += 1
        Actor.__init__(self, proc.sim, ("task", proc.rank, proc.ntasks), self.body)
        self.depth = self.importing = 0
        self.ident = 100000 * (proc.rank + 1) + proc.ntasks
        self.sentinel = None
        self.fn, self.args, self.kw = fn, args, kw

    def __getattr__(self, n):
        if n == "proc" or n.startswith("__"):
            raise AttributeError(n)
        return getattr(self.proc, n)

    def __setattr__(self, n, v):
        if n in Task.OWN or n in ("fn", "args", "kw"):
            object.__setattr__(self, n, v)
        else:
            setattr(self.proc, n, v)

    def switch_in(self):
        self.proc.switch_in()

    def switch_out(self):
        self.proc.switch_out()

    def expire(self):
        pass

    def os_exit(self, code):
        self.proc.exit_code = code
        self.proc.hard_exit = True
        self.proc.killed = True
        for t in self.proc.tasks:
            t.killed = True
        self.proc.job.on_exit(self.proc, code)
        raise SimKill("os._exit")

    def body(self):
        trace(self.proc)
        try:
            self.fn(*self.args, **self.kw)
        except SimKill:
            raise
        except SystemExit:
            pass
        except BaseException:
            import traceback
            self.proc.err.note(traceback.format_exc())
        finally:
            sys.settrace(None)
            if self.sentinel is not None and self.sentinel.held:
                self.sentinel.release()


# CPython 3.12 delivers opcode events only after some frame has asked for them once: ask now, so that the first traced
# run of an interpreter is like all later ones.
sys._getframe().f_trace_opcodes = True


def trace(proc):
    """Make every line (or opcode) of the code under test a scheduling point on this OS thread."""
    import concurrent.futures._base as base
    base.Future.__hash__ = serial
    how = proc.job.threads.get("preempt")
    if not how:
        return
    prefixes = (proc.job.src + "/",) + tuple(proc.job.threads.get("files", ()))

    def point():
        a = actor()
        if a is not None and not a.depth and not a.importing and not a.killed:
            pause()

    def local(frame, event, arg):
        if event == ("opcode" if frame.f_trace_opcodes else "line"):
            point()
        return local

    def enter(frame, event, arg):
        if frame.f_code.co_filename.startswith(prefixes):
            if how == "opcode":
                frame.f_trace_opcodes = True
            point()
            return local
        return None
    sys.settrace(enter)


def fake_thread(proc):
    """The `_thread` module of a process."""
    m = types.ModuleType("_thread")

    def start_new_thread(fn, args, kwargs=None):
        a = actor()
        if a is not None:
            f = None
            if not a.depth and not a.importing:
                f = Sim.current.op("thread.start", None)
            if f is not None and not seams.apply_common(a, f):
                raise RuntimeError("can't start new thread")
        t = Task(proc, fn, args, kwargs or {})
        proc.sim.add(t)
        proc.tasks.append(t)
        return t.ident

    def get_ident():
        a = actor()
        return a.ident if isinstance(a, Task) else 100000 * (proc.rank + 1)

    def _set_sentinel():
        lock = SimLock()
        a = actor()
        if isinstance(a, Task):
            a.sentinel = lock
        return lock

    m.start_new_thread = m.start_new = start_new_thread
    m.get_ident = m.get_native_id = get_ident
    m._set_sentinel = _set_sentinel
    m.allocate_lock = m.allocate = SimLock
    m.LockType = SimLock
    m.daemon_threads_allowed = lambda: True
    m._is_main_interpreter = lambda: True
    m.error = RuntimeError
    m.TIMEOUT_MAX = _thread.TIMEOUT_MAX
    m.stack_size = lambda *a: 0
    m.interrupt_main = lambda *a: None
    m.exit = m.exit_thread = _exit
    m._local = _thread._local
    m._excepthook = _thread._excepthook
    m._ExceptHookArgs = _thread._ExceptHookArgs
    return m


def _exit():
    raise SystemExit


def fresh(name, path):
    if path not in _code:
        with seams.REAL.get("open", open)(path) as fh:
            _code[path] = compile(fh.read(), path, "exec")
    m = types.ModuleType(name)
    m.__file__ = path
    exec(_code[path], m.__dict__)
    return m


def prepare(proc):
    """Private threading and queue of a process; called before its logging is made."""
    import queue as real_queue
    proc.tasks, proc.ntasks = [], 0
    proc.names = proc.names | NAMES
    lib = os.path.dirname(_real_threading.__file__)
    proc.path += [lib, os.path.join(lib, "lib-dynload")]
    saved = {n: sys.modules.get(n) for n in ("_thread", "threading", "_queue")}
    fork = os.register_at_fork
    os.register_at_fork = lambda **kw: None
    try:
        sys.modules["_thread"] = fake_thread(proc)
        t = sys.modules["threading"] = fresh("threading", _real_threading.__file__)
        sys.modules["_thread"] = saved["_thread"]
        sys.modules["_queue"] = None
        q = fresh("queue", real_queue.__file__)
    finally:
        os.register_at_fork = fork
        for n, v in saved.items():
            if v is None:
                sys.modules.pop(n, None)
            else:
                sys.modules[n] = v
    t.Thread.__hash__ = serial
    proc.mods["threading"] = t
    proc.mods["queue"] = q
    proc.mods["_queue"] = None
    return t


def finish(proc):
    """End of the main thread: the interpreter waits for the threads that are no daemons."""
    t = sys.modules.get("threading")
    if t is not None and hasattr(t, "_shutdown"):
        t._shutdown()
