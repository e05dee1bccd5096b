"""One worker's workbench: worlds, reference runs, execution of cases, choice of faults."""
import collections
import hashlib
import importlib
import json
import math
import os
import random
import re
import subprocess
import sys
import tempfile
import time

from . import oracle, runjob, seams, world
from .core import Decider, random_policy
from .runjob import clear, copytree, run_job

HERE = os.path.dirname(os.path.abspath(__file__))


class Violation:
    def __init__(self, cls, msg):
        self.cls, self.msg = cls, msg

    def __repr__(self):
        return "%s: %s" % (self.cls, self.msg)


def key_of(obj):
    return hashlib.blake2b(json.dumps(obj, sort_keys=True).encode(), digest_size=8).hexdigest()


class Bench:
    def __init__(self, base, src, shapefiles=False):
        self.ctx = runjob.Ctx(base, src)
        self.base, self.src = base, src
        self.refs = collections.OrderedDict()
        self.isos = collections.OrderedDict()
        self.stats = collections.Counter()
        self.faults_fired = collections.Counter()
        self.faults_planned = collections.Counter()
        self.interleavings = set()
        self.op_kinds = collections.Counter()
        self.sim_time = 0.0
        self.samples = []
        self.strata = Strata()
        self.nontrivial = False
        self.marks = []
        self.real_now = seams.REAL.get("time.perf_counter", time.perf_counter)
        tempfile.tempdir = os.path.join(self.ctx.run, "work")

    # ------------------------------------------------------------------ worlds and references
    def setup(self, sc):
        """Fresh copy of the world in ctx.run; returns its paths."""
        k = key_of(sc)
        tpl = os.path.join(self.base, "tpl")
        if getattr(self, "_tpl", None) != k:
            clear(self.ctx.run)
            os.mkdir(self.ctx.run)
            (self.builder(sc) or world).build(sc, self.ctx.run)
            self.prepare_world(sc)
            clear(tpl)
            os.rename(self.ctx.run, tpl)
            self._tpl = k
        copytree(tpl, self.ctx.run)
        return (self.builder(sc) or world).paths(sc, self.ctx.run)

    @staticmethod
    def builder(sc):
        """Module that builds this kind of world (None: the rasters and configuration of a whole run)."""
        for kind in ("conv", "save", "single", "join", "helpers"):
            if sc.get(kind):
                return importlib.import_module("sim." + kind)
        if sc.get("pre"):
            return importlib.import_module("sim.preproc" if sc["pre"] == 1 else "sim.raster")
        return None

    def prepare_world(self, sc):
        pass

    def full_spec(self, p, spec):
        s = {"script": "all_multipliers.py", "args": ["-c", p["text"]["cfg"]], "n": 1, "mode": "serial",
             "start": p["start"]}
        s.update(spec)
        if s.pop("verbose", False) and "args" not in spec:
            s["args"] = s["args"] + ["-v"]
        return s

    def reference(self, sc):
        """Serial, fault-free run: (result, directory with its output).  Cached."""
        k = key_of(sc)
        if k in self.refs:
            self.refs.move_to_end(k)
            return self.refs[k]
        p = self.setup(sc)
        r = run_job(self.ctx, self.full_spec(p, {}), Decider(0))
        self.account(r)
        d = os.path.join(self.base, "ref", k)
        clear(d)
        os.makedirs(os.path.dirname(d), exist_ok=True)
        if os.path.isdir(p["out"]):
            copytree(p["out"], d)
        self.refs[k] = (r, d)
        while len(self.refs) > 3:
            _, (_, old) = self.refs.popitem(last=False)
            clear(old)
        return r, d

    def account(self, r, planned=()):
        self.stats["runs"] += 1
        self.stats["steps"] += r.steps
        self.stats["switches"] += r.switches
        self.stats["deliveries"] += r.deliveries
        self.stats["end:" + str(r.end)] += 1
        self.sim_time += r.now
        self.interleavings.add(r.interleaving)
        for f in r.fired:
            self.faults_fired[fault_name(f)] += 1
        for f in planned:
            self.faults_planned[fault_name(f)] += 1
        for func, _ in r.mem_raised:
            self.stats["memory_error_in:" + func] += 1
        for e in r.events:
            self.op_kinds[e[2]] += 1

    # ------------------------------------------------------------------ phases
    def phase(self, p, ph, sc=None, **kw):
        """Run one phase of a case (a command, with its schedule and faults)."""
        dec = Decider(ph.get("dseed", 0), ph.get("policy"), ph.get("decisions"))
        faults = ph.get("faults", ())
        r = run_job(self.ctx, self.full_spec(p, ph["spec"]), dec, faults, **kw)
        self.account(r, faults)
        ph["taken"] = r.taken
        if "WM_TRACE" in os.environ:
            self.write_trace(r)
        self.marks.append(r.interleaving + r.event_hash + ",".join(fault_name(f) for f in r.fired))
        return r

    def write_trace(self, r):
        """What a replay with a trace leaves behind: every operation, how each process ended and what it printed."""
        with open(os.path.join(self.base, "trace.txt"), "a") as fh:
            fh.write("==== run: %s, status %s, success %s, blocked %s\n" % (r.end, r.status, r.success, r.blocked))
            for e in r.events:
                fh.write("%s\n" % (e,))
            for k in sorted(r.out):
                fh.write("-- process %s: exit %s\n%s%s%s\n" % (k, r.exits.get(k), r.out.get(k, ""), r.err.get(k, ""),
                                                             r.tb.get(k) or ""))
                for rec in r.records.get(k) or ():
                    fh.write("   log %s\n" % (rec,))

    def execute(self, plan, case):
        """Judge a case; the measures of the run are left in self.nontrivial and self.marks."""
        self.marks = []
        self.nontrivial = False
        return plan.execute(self, case)

    def child_run(self, case, hashseed):
        """The run of a case in an interpreter with another hash seed; its output is left in ctx.run."""
        jf = os.path.join(self.base, "child.json")
        with open(jf, "w") as fh:
            json.dump({"base": self.base, "src": self.src, "case": case}, fh)
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
        p = seams.REAL["Popen"]([sys.executable, "-m", "sim.child", jf], cwd=os.path.dirname(HERE), env=env,
                                stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        out, err = p.communicate(timeout=120)
        if p.returncode != 0:
            raise RuntimeError("child interpreter: " + err.decode("utf-8", "replace")[-2000:])
        res = json.loads(out.decode().strip().splitlines()[-1])
        self.marks.append("%d:%s" % (hashseed, res["mark"]))
        self.stats["runs"] += 1
        self.stats["steps"] += res["steps"]
        case["phases"][0]["taken"] = res["taken"]
        return res["bad"]

    def isolated(self, sc):
        """Each tile computed on its own from windows cut by the model: k -> {(u, d): values}, or None."""
        key = key_of(sc)
        if key in self.isos:
            return self.isos[key]
        import numpy as np
        p = self.setup(sc)
        z, _, own = world.arrays(sc)
        gt = world.geotransform(sc)
        wkt = world.wkt_of(sc["crs"])
        base = os.path.join(self.ctx.run, "iso")
        tiles = world.expected_tiles(sc)
        jobs = []
        for t in tiles:
            a, b, c, d = t["window"]
            dirn = os.path.join(base, "t%d" % t["k"])
            for s in ("terrain", "shielding", "topographic"):
                os.makedirs(os.path.join(dirn, s))
            zt = z[c:d, a:b]
            zt = zt.astype("i4" if z.dtype == np.int32 else "f4")
            lt = own[c:d, a:b]
            lt = lt.astype("i4" if own.dtype == np.int32 else "f4")
            g = (gt[0] + a * gt[1], gt[1], 0.0, gt[3] + c * gt[5], 0.0, gt[5])
            dem, lc = os.path.join(dirn, "iso_dem.img"), os.path.join(dirn, "iso.img")
            world.write_raster(dem, zt, g, wkt, "HFA")
            world.write_raster(lc, lt, g, wkt, "HFA")
            jobs.append({"dem": dem, "lc": lc, "k": t["k"],
                         "extent": (g[0], g[3], g[0] + (b - a) * g[1], g[3] + (d - c) * g[5])})
        jf = os.path.join(self.ctx.run, "iso.json")
        with open(jf, "w") as fh:
            json.dump({"dir": base, "config": p["cfg"], "tiles": jobs}, fh)
        r = run_job(self.ctx, {"script": os.path.join(HERE, "iso_driver.py"), "args": [jf], "n": 1,
                               "mode": "serial", "start": p["start"]}, Decider(0))
        self.stats["isolated_tiles"] += len(jobs)
        out = None
        if r.success:
            out = {}
            for t in tiles:
                a, b, c, d = t["window"]
                x1, x2, y1, y2 = t["core"]
                layers, _ = oracle.read_layers(os.path.join(base, "t%d" % t["k"]))
                vals = {}
                for ud, lst in layers.items():
                    if len(lst) == 1 and lst[0][3].shape == (d - c, b - a):
                        vals[ud] = lst[0][3][y1 - c:y2 - c, x1 - a:x2 - a]
                out[t["k"]] = vals
        else:
            self.stats["isolated_unavailable"] += 1
            self.iso_error = (r.err, r.tb)
        self.isos[key] = out
        while len(self.isos) > 3:
            self.isos.popitem(last=False)
        return out

    def close(self):
        pass


def fault_name(f):
    k = f["kind"]
    if k == "err":
        return "err:%s:%s" % (f.get("op") or "?", f.get("mode") or f.get("errno", "EIO"))
    return "%s:%s" % (k, f.get("op") or "?")


# ------------------------------------------------------------------ choosing faults from a trace
DIGITS = re.compile(r"[0-9]+(\.[0-9]+)?")
DIRSUF = re.compile(r"_(ne|nw|se|sw|n|s|e|w)\.nc$")


def path_class(path):
    if path is None:
        return "-"
    return DIGITS.sub("#", DIRSUF.sub("_D.nc", path))


class Op(tuple):
    """A fault point: (rank, index, kind, path[, task]) and the place in the code that asks for it."""
    site = None


def trace_ops(events, ranks=None, tasks=False):
    """Fault points of a run: list of (rank, index, kind, path[, task])."""
    count = collections.Counter()
    out = []
    for step, key, kind, path in events:
        if key[0] not in ("rank", "task"):
            continue
        count[key] += 1
        if key[0] == "rank" and (ranks is None or key[1] in ranks):
            o = Op((key[1], count[key], kind, path))
        elif key[0] == "task" and tasks:
            o = Op((key[1], count[key], kind, path, key[2]))
        else:
            continue
        o.site = events.sites.get(step)
        out.append(o)
    return out


def pick_op(rng, ops, kinds=None):
    """A fault point, uniform over (kind, class of file) and then over its occurrences."""
    groups = collections.OrderedDict()
    last = {}
    for o in ops:
        if kinds is not None and not kinds(o):
            continue
        # operations without a path are classed by the operation with a path that came before
        if o[3] is not None:
            last[o[0]] = path_class(o[3])
            c = last[o[0]]
        else:
            c = "~" + last.get(o[0], "")
        groups.setdefault((o[2], c), []).append(o)
    if not groups:
        return None
    g = rng.choice(list(groups))
    return rng.choice(groups[g])


def number(x):
    return int(hashlib.blake2b(repr(x).encode(), digest_size=4).hexdigest(), 16)


def line_fault(rng, strata, calls, ops):
    """MemoryError at a line; spread evenly over the functions a fault-free run calls, and over their lines."""
    funcs = sorted({name for _, name in calls})
    if not funcs or not ops:
        return None
    name = min(funcs, key=lambda x: (strata.count["in", x], (number(x) - strata.worker) % strata.of, rng.random()))
    strata.count["in", name] += 1
    ranks = sorted({k[1] for k, x in calls if x == name and k[0] == "rank"} & {o[0] for o in ops})
    if not ranks:
        return None
    rank = rng.choice(ranks)
    o = next(o for o in ops if o[0] == rank)
    lines = calls[("rank", rank), name]
    line = min(sorted(lines), key=lambda x: (strata.count["in", name, x], (number(x) - strata.worker) % strata.of,
                                             rng.random()))
    strata.count["in", name, line] += 1
    return {"rank": rank, "at": o[1], "op": o[2], "kind": "memline", "in": name, "line": line,
            "lines": max(1, int(math.exp(rng.uniform(0, math.log(lines[line] + 1)))))}


class Strata:
    """Spreads faults evenly over (kind of operation, class of file, place in the code); workers start with different ones."""

    def __init__(self, worker=0, of=1):
        self.worker, self.of = worker, of
        self.count = collections.Counter()
        self.kinds = collections.defaultdict(collections.Counter)

    @property
    def used(self):
        """Kinds of faults tried in the stratum picked last."""
        return self.kinds[self.current]

    def groups(self, ops, kinds=None):
        groups = collections.OrderedDict()
        last = {}
        for o in ops:
            if o[3] is not None:
                last[o[0]] = path_class(o[3])
                c = last[o[0]]
            else:
                c = "~" + last.get(o[0], "")
            if kinds is None or kinds(o):
                groups.setdefault((o[2], c, o.site), []).append(o)
        return groups

    def pick(self, rng, ops, kinds=None):
        groups = self.groups(ops, kinds)
        if not groups:
            return None
        key = {}
        for g in groups:
            key[g] = (self.count[g], (number(g) - self.worker) % self.of, rng.random())
        g = min(groups, key=key.get)
        if rng.random() < 0.25:
            g = rng.choice(list(groups))
        self.current = g
        return rng.choice(groups[g])

    def hit(self, o, f):
        self.count[self.current] += 1
        self.kinds[self.current][f["kind"]] += 1


GIT_MODES = ("missing", "eacces", "enomem", "notag", "killed", "slow")


def make_fault(rng, o, kinds=("err", "mem", "fsize", "nofile", "intr"), used=None):
    """A fault that fits the operation; `used` counts the kinds tried at operations like it."""
    rank, at, op, path = o[:4]
    f = {"rank": rank, "at": at, "op": op}
    if len(o) > 4:
        f["task"] = o[4]
    if op == "exec":
        f.update(kind="err", mode=rng.choice(GIT_MODES))
        return f
    writes = op.startswith(("nc.", "gdal.", "open:w", "fiona"))
    opens = op.startswith(("open", "nc.open", "gdal.Open", "gdal.Create", "fiona.open", "ogr"))
    choice = ["err", "err", "err"]
    if "mem" in kinds:
        choice.append("mem")
    if "intr" in kinds and rng.random() < 0.5:
        choice.append("intr")
    if "fsize" in kinds and writes:
        choice += ["fsize", "fsize"]
    if "nofile" in kinds and opens:
        choice.append("nofile")
    if "memline" in kinds:
        choice.append("memline")
    k = rng.choice(choice)
    if used is not None and rng.random() < 0.7:
        k = min(sorted(set(choice)), key=lambda c: (used[c] / choice.count(c), rng.random()))
    f["kind"] = k
    if k == "err":
        if op.startswith(("open:r", "gdal.Open", "nc.open:r", "fiona.open:r", "stat", "listdir")):
            f["errno"] = rng.choice(["EIO", "EACCES", "ENOENT", "EMFILE", "ESTALE"])
        elif op.startswith(("remove", "rmdir", "rename")):
            f["errno"] = rng.choice(["EIO", "EACCES", "EROFS"])
        else:
            f["errno"] = rng.choice(["EIO", "ENOSPC", "EDQUOT", "EACCES"])
        if rng.random() < 0.35:
            f["again"] = rng.choice([1, 2, 3, 9, 9])
    elif k == "memline":
        f["lines"] = int(math.exp(rng.uniform(0, 8)))
    elif k == "fsize":
        f["limit"] = rng.choice([0, 1, 512, 1500, 3000, 6000, 10000, 30000])
        if op == "gdal.Translate":
            f["limit"] = rng.choice([0, 0, 1, 100, 300, 700, 3000])
        if op == "gdal.BuildVRT":
            f["limit"] = rng.choice([0, 1, 300, 700, 1500])
        f["span"] = rng.choice([1, 2, 4, 8, 16, 60])
    elif k == "nofile":
        f["limit"] = rng.choice([1, 1, 2])
        f["span"] = rng.choice([0, 1, 2, 6])
    return f


def random_spec(rng, nmax=5, ntiles=4, allow_serial=True, clocks=True):
    """Process count, transport behaviour, clocks, git."""
    r = rng.random()
    if allow_serial and r < 0.08:
        spec = {"n": 1, "mode": "serial"}
    else:
        n = rng.choice([1, 2, 2, 3, 3, 4, 5, min(ntiles + 2, 7), min(ntiles + 1, 7)])
        spec = {"n": max(1, min(n, nmax + 2)), "mode": "mpi"}
        if rng.random() < 0.05:
            spec["n"] = rng.choice([9, 10, 11, 12, 17])
    spec["send"] = rng.choice(["eager", "rendezvous", "mixed"])
    spec["coll"] = rng.choice(["lazy", "lazy", "sync"])
    spec["kill_delay"] = rng.choice([0, 0, 1, 3, 10, 40])
    if clocks and rng.random() < 0.5:
        spec["clocks"] = [[rng.choice([0.0, -3600.0, 86400.0, 0.5, -1e6]), rng.choice([1.0, 1.0, 0.5, 400.0])]
                          for _ in range(spec["n"])]
    spec["git"] = rng.choice(["notag", "ok", "missing", "notag"])
    if rng.random() < 0.12:
        spec["verbose"] = True
    return spec


def schedule(rng, spec):
    return {"dseed": rng.randrange(1 << 30), "policy": random_policy(rng, spec["n"])}
