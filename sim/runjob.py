"""Execution of one simulated command in a run directory."""
import collections
import gc
import os
import shutil
import sys

from . import seams
from .core import Decider, Sim
from .proc import Job


# where the libraries are; the sources under test come first
LIBS = [p for p in sys.path if os.path.isabs(p) and not os.path.exists(os.path.join(p, "sim", "runjob.py"))]


class Ctx:
    """Directories of one worker process (all names have a fixed length: file sizes must not vary)."""

    def __init__(self, base, src):
        self.base, self.src = base, src
        self.run = os.path.join(base, "run")
        self.tpl = os.path.join(base, "tpl")
        self.snap = os.path.join(base, "snp")
        self.limbo = os.path.join(base, "lmb")
        for d in (base, self.limbo):
            os.makedirs(d, exist_ok=True)


def clear(d):
    if os.path.isdir(d) and not os.path.islink(d):
        fix_modes(d)
        shutil.rmtree(d)


def fix_modes(d):
    """Scenario or code may have removed permissions."""
    for root, dirs, files in os.walk(d):
        for x in dirs:
            p = os.path.join(root, x)
            if not os.path.islink(p) and not os.access(p, os.W_OK | os.X_OK | os.R_OK):
                os.chmod(p, 0o755)


def copytree(a, b):
    clear(b)
    _copy(a, b)


def _copy(a, b):
    os.mkdir(b)
    with os.scandir(a) as it:
        entries = sorted(it, key=lambda e: e.name)
    for e in entries:
        t = os.path.join(b, e.name)
        if e.is_symlink():
            os.symlink(os.readlink(e.path), t)
        elif e.is_dir():
            _copy(e.path, t)
        else:
            m = e.stat().st_mode & 0o777
            if not m & 0o400:
                os.chmod(e.path, 0o600)
            shutil.copyfile(e.path, t)
            if not m & 0o400:
                os.chmod(e.path, m)
                os.chmod(t, m)
    m = os.stat(a).st_mode & 0o777
    if m != 0o755:
        os.chmod(b, m)


class Result:
    pass


def reset_globals():
    from osgeo import gdal
    gdal.DontUseExceptions()
    gdal.SetConfigOption("GDAL_PAM_ENABLED", None)
    gdal.ErrorReset()
    gdal.PushErrorHandler("CPLQuietErrorHandler")


def run_job(ctx, spec, decider, faults=(), mutation_hook=None, op_hook=None, max_steps=60000, mods=None,
            calls=False):
    """Run a command in ctx.run.  The tree left behind is what a real disk would hold."""
    reset_globals()
    sim = Sim(decider, max_steps)
    sim.src = ctx.src + "/"
    if calls:
        sim.calls = collections.Counter()
    sim.faults = [dict(f) for f in faults]
    job = Job(sim, base_path=LIBS, root=ctx.run, src=ctx.src, script=spec["script"], args=spec["args"], nranks=spec["n"],
              mode=spec.get("mode", "mpi"), start_dir=spec.get("start") or ctx.run,
              send_mode=spec.get("send", "eager"), coll_mode=spec.get("coll", "lazy"),
              git_mode=spec.get("git", "notag"), git_version=spec.get("gitv", "v1.2-3-gabc\n").encode(), limbo=ctx.limbo, capture_logs=spec.get("capture_logs", False),
              mods=mods, threads=spec.get("threads"))
    job.kill_delay = spec.get("kill_delay", 0)
    if spec.get("stderr") == "full":             # it goes to the disk that fails
        for r in job.ranks:
            r.err.broken = lambda r=r: any(f.get("rank") == r.rank for f in sim.fired)
    job.mutation_hook = mutation_hook
    if op_hook is not None:
        sim.op_hooks.append(op_hook)
    for r, (off, rate) in enumerate(spec.get("clocks") or ()):
        if r < len(job.ranks):
            job.ranks[r].clock_off, job.ranks[r].clock_rate = off, rate
    snapped = []

    def on_end():
        if any(a.started and not a.done for a in sim.actors):
            copytree(ctx.run, ctx.snap)
            snapped.append(True)
    sim.on_end = on_end
    try:
        sim.run()
    finally:
        os.chdir("/")
    res = Result()
    res.end = sim.end
    res.success = job.success()
    res.exits = dict(job.exits)
    res.status = job.status
    res.events = sim.events
    res.steps = sim.steps
    res.now = sim.now
    res.fired = sim.fired
    res.mem_raised = sim.mem_raised
    res.calls = seams.line_counts(sim) if calls else None
    res.switches = sim.switches
    res.escapes = job.escapes
    res.mutations = job.mutations
    res.git_calls, res.git_faults = job.git_calls, job.git_faults
    res.clock_reads = {r.rank: r.clock_reads for r in job.ranks}
    res.problems = list(job.world.problems)
    res.leftover = [(m.src, m.dst, m.tag) for m in job.world.leftovers()]
    res.out = {r.rank: r.out.getvalue() for r in job.ranks}
    res.err = {r.rank: r.err.getvalue() for r in job.ranks}
    res.tb = {r.rank: r.traceback for r in job.ranks}
    res.log_errors = {r.rank: list(r.log_errors) for r in job.ranks}
    res.records = {r.rank: r.records for r in job.ranks}
    res.suppressed = {r.rank: r.suppressed for r in job.ranks}
    res.cwds = {r.rank: r.cwd for r in job.ranks}
    res.blocked = {":".join(str(x) for x in a.key): a.blocked_why for a in sim.actors if not a.killed_early and a.blocked_at_end}
    res.interleaving = sim.interleaving.hexdigest()
    res.trace = decider.trace_hash.hexdigest()
    res.event_hash = sim.event_hash()
    res.taken = dict(decider.taken)
    res.aborted = job.world.aborted
    res.deliveries = job.world.stats["delivered"]
    res.snapped = bool(snapped)
    res.nops = {r.rank: r.nops for r in job.ranks}
    for r in job.ranks:
        close_handlers(r)
        r.mods.clear()
        r.target = None
    job.ranks = []
    sim.actors = []
    sim.extra_options = sim.on_end = None
    del job, sim
    gc.collect()
    if snapped:
        clear(ctx.run)
        os.rename(ctx.snap, ctx.run)
    return res


def close_handlers(rank):
    log = rank.mods.get("logging")
    if log is not None:
        for ref in list(getattr(log, "_handlerList", ())):
            h = ref()
            if h is not None:
                try:
                    h.close()
                except Exception:
                    pass
        del log._handlerList[:]
