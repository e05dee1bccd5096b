"""One plan per property: which worlds, schedules and faults to try, and how to judge a case.

A case is plain JSON.  `generate` makes cases from a PRNG (running the code once without faults where it
needs to know the operations of a run); `execute` is a pure function of the case and the code.
"""
import copy
import json
import os
import random
import re
import subprocess
import sys
import time

from . import oracle, seams, world
from .bench import (GIT_MODES, HERE, Violation, fault_name, line_fault, make_fault, path_class, pick_op, random_spec,
                    schedule, trace_ops)
from .core import Decider, random_policy
from .runjob import clear, copytree, run_job
from .world import DIRS8, SUBDIRS, TYPES

V = Violation
GIT_KEYS = re.compile(oracle.VOLATILE.pattern + "|git|version", re.I)


def short(x, n=300):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + "..."


def last_line(r):
    for k in sorted(r.tb):
        if r.tb[k]:
            return short(r.tb[k].strip().splitlines()[-1], 160)
    for k in sorted(r.err):
        if r.err[k].strip():
            return short(r.err[k].strip().splitlines()[-1], 160)
    return "exits %s" % r.exits


def not_finished(r, what="fault-free run"):
    if r.end in ("deadlock", "step-limit"):
        return [V(r.end, "%s ends in %s; waiting: %s" % (what, r.end, r.blocked))]
    if not r.success or r.aborted:
        return [V("fails", "%s does not complete (%s): %s" % (what, r.end, last_line(r)))]
    return []


def diff_violations(diffs, cls="differs", what=""):
    return [V(cls, "%s%s: %s" % (what, rel, d)) for rel, d in diffs[:4]]


def texts(cls, lst):
    return [V(cls, t) for t in lst[:4]]


# ------------------------------------------------------------------ base class
class Plan:
    pid = None
    rule = ""
    size = "small"
    shapefiles = False
    sources = True            # runs of the real command
    components = ("real: all_multipliers.py and everything it imports (numpy, GDAL, netCDF4, pandas, logging); "
                  "stub: MPI transport (simulated), git (simulated child process), clocks, pids, user name")

    def prepare_worker(self, b):
        pass

    def lists(self, sc):
        """(list in the scenario, least length) for the lists the shrinker may shorten."""
        return []

    def valid(self, sc):
        return True

    def generate(self, b, rng, i):
        raise NotImplementedError

    def execute(self, b, case):
        raise NotImplementedError

    def begin(self, b, sc, prev=None):
        """Fresh world; with `prev`, the output directory holds the results of a run of another world."""
        old = None
        if prev:
            _, old = b.reference(prev)
        p = b.setup(sc)
        if old and os.path.isdir(old) and not os.path.exists(p["out"]):
            copytree_mk(old, p["out"])
            b.stats["over_earlier_results"] += 1
        return p

    def case(self, sc, phases, **x):
        return {"property": self.pid, "sc": sc, "phases": phases, "x": x}

    def spec(self, rng, sc, **kw):
        return random_spec(rng, ntiles=world.Grid(sc).n, **kw)

    def ph(self, rng, spec, faults=(), **kw):
        d = {"spec": spec, "faults": list(faults)}
        d.update(schedule(rng, spec))
        d.update(kw)
        return d


# ------------------------------------------------------------------ W01
class TilesOnce(Plan):
    pid = "W01"
    rule = ("random raster pairs, tables, pixel sizes, buffers, empty tiles; 1-7 processes or no MPI; random "
            "message order and scheduling; non-trivial: at least one tile with data; distinct: by world and "
            "interleaving hash")

    def generate(self, b, rng, i):
        sc = world.scenario(rng, rng.choice(["tiny", "small", "small", "small", "medium"]))
        out = []
        for _ in range(rng.choice([1, 2])):
            out.append(self.case(sc, [self.ph(rng, self.spec(rng, sc))]))
        return out

    def execute(self, b, case):
        sc = case["sc"]
        iso = b.isolated(sc)
        p = b.setup(sc)
        ph = case["phases"][0]
        writes = []
        r = b.phase(p, ph, op_hook=lambda a, kind, path: writes.append((a.key[1], path)) if kind == "nc.open:w" else 0)
        b.nontrivial = bool(world.expected_tiles(sc))
        v = not_finished(r)
        if v:
            return v
        seen, last = {}, {}
        for rank, path in writes:
            m = oracle.LAYER.match(os.path.basename(path or ""))
            if not m:
                continue
            if path in seen and (seen[path] != rank or last.get(rank) != path):
                v.append(V("twice", "%s is written twice (processes %d and %d)" % (path, seen[path], rank)))
            seen[path] = rank
            last[rank] = path
        return v + texts("tiles", oracle.check_tiles(sc, p["out"], iso))


# ------------------------------------------------------------------ W02
class SameMaps(Plan):
    pid = "W02"
    rule = ("each world is run without MPI and in 2-4 other ways: other process counts, schedules, send modes, "
            "clock offsets, rates and jumps, directory orders and (in a second interpreter) hash seeds; "
            "non-trivial: a run that differs in schedule; distinct: by world and interleaving hash")

    def generate(self, b, rng, i):
        sc = world.scenario(rng, rng.choice(["tiny", "small", "small", "small", "medium"]))
        if i % 3 == 0:
            spec = self.spec(rng, sc)
            spec["n"] = min(spec["n"], 3)
            c = self.case(world.scenario(rng, "tiny") if rng.random() < 0.5 else sc, [self.ph(rng, spec)],
                          hashseed=rng.randrange(1, 4000))
            return [c]
        out = []
        for _ in range(rng.choice([2, 3])):
            spec = self.spec(rng, sc, allow_serial=False)
            faults = []
            if rng.random() < 0.4:
                faults = [{"rank": rng.randrange(spec["n"]), "at": rng.randrange(1, 600), "kind": "clock",
                           "delta": rng.choice([-1e6, -3600.0, -1.0, 1.0, 3600.0, 1e7])} for _ in range(2)]
            if rng.random() < 0.3:
                faults.append({"rank": rng.randrange(spec["n"]), "at": rng.randrange(1, 600), "kind": "stall",
                               "dt": rng.choice([0.01, 1.0, 100.0])})
            out.append(self.case(sc, [self.ph(rng, spec, faults)]))
        return out

    def execute(self, b, case):
        sc = case["sc"]
        r0, ref = b.reference(sc)
        v = not_finished(r0, "serial run")
        if v:
            return v
        p = b.setup(sc)
        ph = case["phases"][0]
        hs = case["x"].get("hashseed")
        if hs is not None:
            b.nontrivial = True
            bad = b.child_run(case, hs)
            b.stats["other_hash_seed_runs"] += 1
            if bad:
                return [V("fails", "run with PYTHONHASHSEED=%d: %s" % (hs, bad))]
        else:
            r = b.phase(p, ph)
            b.nontrivial = r.switches > 0 or r.end == "finished"
            v = not_finished(r)
            if v:
                return v
        return diff_violations(oracle.compare(ref, p["out"], atts=GIT_KEYS), what="differs from the serial run: ")


# ------------------------------------------------------------------ W03
class Finishes(Plan):
    pid = "W03"
    rule = ("random worlds, 1-9 processes, buffered or synchronous sends, collectives that leave early or late, all "
            "policies; also the stand-alone conversion; non-trivial: more than one process; distinct: by "
            "interleaving hash")

    def generate(self, b, rng, i):
        sc = world.scenario(rng, rng.choice(["tiny", "tiny", "small", "small", "medium"]))
        out = []
        for _ in range(3):
            spec = self.spec(rng, sc)
            if rng.random() < 0.2:
                spec["n"] = min(9, world.Grid(sc).n + rng.choice([0, 1, 2, 3]))
                spec["mode"] = "mpi"
            s = copy.deepcopy(sc)
            if rng.random() < 0.3:
                s["layout"]["outdir"] = "exists"
            if rng.random() < 0.1:
                s["layout"].update(log_in_out=True, log=rng.choice(["", "log", "l/m"]))
            out.append(self.case(s, [self.ph(rng, spec)], prev=other_world(rng, sc) if rng.random() < 0.25 else None))
        if i % 2 == 0:
            spec = self.spec(rng, sc)
            spec["n"] = rng.choice([1, 2, 3, 5, 8])
            out.append(self.case(sc, [self.ph(rng, spec)], convert=rng.choice(["keep", "fresh", "empty"])))
        return out

    def execute(self, b, case):
        sc = case["sc"]
        ph = case["phases"][0]
        conv = case["x"].get("convert")
        if conv:
            r0, ref = b.reference(sc)
            v = not_finished(r0, "serial run")
            if v:
                return v
            p = b.setup(sc)
            copytree_mk(ref, p["out"])
            if conv in ("fresh", "empty"):
                clear(os.path.join(p["out"], "M3"))
                clear(os.path.join(p["out"], "M3_max"))
            if conv == "empty":
                for s in TYPES:
                    clear(os.path.join(p["out"], s))
                    os.mkdir(os.path.join(p["out"], s))
            ph = conv_phase(p, ph)
        else:
            p = self.begin(b, sc, case["x"].get("prev"))
        r = b.phase(p, ph)
        case["phases"][0]["taken"] = ph.get("taken")
        b.nontrivial = ph["spec"]["n"] > 1
        v = not_finished(r, "stand-alone conversion" if conv else "fault-free run")
        for x in r.problems[:2]:
            v.append(V("collectives", "collective operations do not match: %s" % short(x)))
        if not v and r.leftover:
            v.append(V("leftover", "messages never received: %s" % r.leftover[:3]))
        return v


def copytree_mk(a, b):
    os.makedirs(os.path.dirname(b), exist_ok=True)
    copytree(a, b)


def conv_phase(p, ph):
    ph["spec"].update(script="utilities/mpi_runner.py", args=["-p", p["text"]["out"]])
    return ph


# ------------------------------------------------------------------ W04 / W05: faults
def named(log_errors):
    return "\n".join(l for lst in log_errors.values() for l in lst)


def unopened(r, out):
    """Layers that faults kept the conversion from opening, if it says so: tile -> {(u, d)}."""
    says = named(r.log_errors)
    window = any(f["kind"] == "nofile" for f in r.fired)
    miss = {}
    hit = {os.path.basename(f.get("path") or "") for f in r.fired if (f.get("op") or "").startswith(("gdal.Open",
                                                                                                   "nc.open:r"))}
    for folder, u in TYPES.items():
        d = os.path.join(out, folder)
        for n in sorted(os.listdir(d)) if os.path.isdir(d) else ():
            m = oracle.LAYER.match(n)
            if m and n in says and (window or n in hit):
                miss.setdefault(m.group("tile"), set()).add((u, m.group("d")))
    return miss


def success_means_complete(r, ref, out):
    """W05: what a run with a success status must have produced."""
    miss = unopened(r, out)
    skip = {"%s/%s.tif" % (s, t) for t in miss for s in ("M3", "M3_max")}
    vrts = {s + "/wind-multipliers.vrt" for s in ("M3", "M3_max")} if miss else set()
    diffs = oracle.compare(ref, out, atts=GIT_KEYS, skip=skip | vrts)
    lax = any((f.get("op") or "").startswith(("remove", "stat", "listdir", "rmdir")) or f["kind"] in ("nofile", "memline")
              for f in r.fired)
    known = oracle.walk(ref)
    v = []
    for rel, d in diffs:
        if d == "unexpected" and lax and not is_result(rel):
            continue
        v.append(V("incomplete", "success, but %s: %s" % (rel, d)))
    for t, m in sorted(miss.items()):
        v += texts("combined", oracle.check_combined(out, t, m))
    if miss:
        v += texts("mosaic", oracle.check_mosaics(out, oracle.tiles_of(out)))
    return v[:5]


def is_result(rel):
    parts = rel.split("/")
    if len(parts) != 2:
        return False
    if parts[0] in TYPES:
        return bool(oracle.LAYER.match(parts[1]))
    return parts[0] in ("M3", "M3_max") and parts[1].endswith((".tif", ".vrt"))


class FaultPlan(Plan):
    kinds = ("err", "mem", "memline", "fsize", "nofile", "intr")
    per_trace = 5
    calls = None

    def worlds(self, rng):
        return world.scenario(rng, rng.choice(["tiny", "tiny", "small"]))

    def dry(self, b, sc, ph, conv=False, prev=None):
        """Fault-free run of the same schedule: its operations."""
        p = self.prepare(b, sc, conv, prev)
        ph = copy.deepcopy(ph)
        if conv:
            conv_phase(p, ph)
        r = b.phase(p, ph, calls="memline" in self.kinds)
        self.calls = r.calls
        return r

    def prepare(self, b, sc, conv, prev=None):
        if conv:
            _, ref = b.reference(sc)
            p = b.setup(sc)
            copytree_mk(ref, p["out"])
            if conv == "fresh":
                clear(os.path.join(p["out"], "M3"))
                clear(os.path.join(p["out"], "M3_max"))
        else:
            p = self.begin(b, sc, prev)
        return p

    def pick(self, b, rng, ops, kinds=None):
        return b.strata.pick(rng, ops, kinds)

    def faults(self, b, rng, ops, n):
        if "memline" in self.kinds and self.calls and rng.random() < 0.15:
            f = line_fault(rng, b.strata, self.calls, ops)
            if f:
                return [f]
        o = self.pick(b, rng, ops)
        if o is None:
            return []
        fs = [make_fault(rng, o, self.kinds, b.strata.used)]
        b.strata.hit(o, fs[0])
        if rng.random() < 0.12:
            o2 = pick_op(rng, ops)
            if o2[:2] != o[:2]:
                fs.append(make_fault(rng, o2, self.kinds))
        return fs


def took_place(r):
    """Whether a fault had a chance to matter."""
    return bool(r.mem_raised) or any(f["kind"] != "memline" for f in r.fired)


class FailureEnds(FaultPlan):
    pid = "W04"
    rule = ("one or two faults (errors of files, rasters, NetCDF, MPI and child processes, allocation failures, "
            "interrupts, size and descriptor limits, killed processes) at stratified operations of parallel runs and "
            "conversions; non-trivial: a fault fired; distinct: by fault and interleaving hash")

    def generate(self, b, rng, i):
        sc = self.worlds(rng)
        spec = self.spec(rng, sc, allow_serial=False)
        if spec["n"] == 1 and rng.random() < 0.8:
            spec["n"] = rng.choice([2, 3, 4])
        conv = rng.choice(["keep", "fresh"]) if rng.random() < 0.3 else False
        prev = other_world(rng, sc) if not conv and rng.random() < 0.25 else None
        ph = self.ph(rng, spec)
        r = self.dry(b, sc, ph, conv, prev)
        if not r.success:
            return [self.case(sc, [ph], convert=conv, prev=prev)]
        ops = trace_ops(r.events)
        out = []
        for _ in range(self.per_trace):
            q = copy.deepcopy(ph)
            if rng.random() < 0.1:
                o = pick_op(rng, ops)
                q["faults"] = [{"rank": o[0], "at": o[1], "op": o[2], "kind": "killrank"}]
                q["spec"]["kill_delay"] = rng.choice([0, 1, 5])
            else:
                q["faults"] = self.faults(b, rng, ops, spec["n"])
                if rng.random() < 0.08:
                    q["spec"]["stderr"] = "full"
            out.append(self.case(sc, [q], convert=conv, prev=prev))
        return out

    def execute(self, b, case):
        sc, conv = case["sc"], case["x"].get("convert")
        ph = case["phases"][0]
        r0, ref = b.reference(sc)
        v = not_finished(r0, "serial run")
        if v:
            return v
        p = self.prepare(b, sc, conv, case["x"].get("prev"))
        if conv:
            conv_phase(p, ph)
        r = b.phase(p, ph)
        b.nontrivial = took_place(r)
        if not ph["faults"] or not r.fired:
            return not_finished(r)
        what = ", ".join(fault_name(f) + " in process %d" % f["rank"] for f in r.fired)
        if r.end in ("deadlock", "step-limit"):
            return [V(r.end, "after %s the run ends in %s; waiting: %s" % (what, r.end, short(str(r.blocked))))]
        v = []
        for k, code in sorted(r.exits.items()):
            if code not in (0, -9) and not (r.err[k].strip() or r.log_errors[k] or ph["spec"].get("stderr")):
                v.append(V("silent", "after %s process %d fails with status %s and no message" % (what, k, code)))
        if r.aborted and not r.status:
            v.append(V("status", "after %s process %d ends the run with status 0" % (what, r.aborted[0])))
        elif r.success:
            v += [V(x.cls, "after %s: %s" % (what, x.msg)) for x in success_means_complete(r, ref, p["out"])]
        return v


class SuccessComplete(FaultPlan):
    pid = "W05"
    rule = ("one or two faults at stratified operations of serial and parallel runs; a run that reports success is "
            "compared with the fault-free run; non-trivial: a fault fired; distinct: by fault and interleaving hash")
    kinds = ("err", "mem", "memline", "fsize", "nofile")
    per_trace = 6

    def conversions(self, b, rng):
        """Faults of stand-alone conversions."""
        from . import conv
        while True:
            sc = conv.scenario(rng)
            if sc["tiles"]:
                break
        ph = self.ph(rng, conv.ConvPlan.conv_spec(self, rng, sc))
        p = b.setup(sc)
        ph["spec"]["args"] = ["-p", p["arg"]]
        r = b.phase(p, copy.deepcopy(ph), calls=True)
        self.calls = r.calls
        if not r.success:
            return [self.case(sc, [ph])]
        ops = trace_ops(r.events)
        out = []
        for _ in range(2 * self.per_trace):
            q = copy.deepcopy(ph)
            q["faults"] = self.faults(b, rng, ops, ph["spec"]["n"])
            out.append(self.case(sc, [q]))
        return out

    def conversion(self, b, case):
        sc, ph = case["sc"], case["phases"][0]
        p = b.setup(sc)
        r0 = b.phase(p, {"spec": {"n": 1, "mode": "serial", "script": "utilities/mpi_runner.py",
                                  "args": ["-p", p["arg"]]}, "dseed": 0})
        v = not_finished(r0, "conversion")
        if v:
            return v
        ref = os.path.join(b.base, "cref")
        clear(ref)
        copytree(p["out"], ref)
        p = b.setup(sc)
        ph["spec"]["args"] = ["-p", p["arg"]]
        return self.judge(b, p, b.phase(p, ph), ref)

    def generate(self, b, rng, i):
        if i % 3 == 1:
            return self.conversions(b, rng)
        sc = self.worlds(rng)
        spec = {"n": 1, "mode": "serial"} if rng.random() < 0.4 else self.spec(rng, sc)
        prev = other_world(rng, sc) if rng.random() < 0.35 else None
        ph = self.ph(rng, spec)
        r = self.dry(b, sc, ph, prev=prev)
        if not r.success:
            return [self.case(sc, [ph], prev=prev)]
        ops = trace_ops(r.events)
        out = []
        for _ in range(self.per_trace):
            q = copy.deepcopy(ph)
            q["faults"] = self.faults(b, rng, ops, spec["n"])
            out.append(self.case(sc, [q], prev=prev))
        return out

    def execute(self, b, case):
        sc = case["sc"]
        if sc.get("conv"):
            return self.conversion(b, case)
        ph = case["phases"][0]
        r0, ref = b.reference(sc)
        v = not_finished(r0, "serial run")
        if v:
            return v
        p = self.begin(b, sc, case["x"].get("prev"))
        return self.judge(b, p, b.phase(p, ph), ref)

    def judge(self, b, p, r, ref):
        b.nontrivial = took_place(r)
        if not r.fired:
            return not_finished(r)
        b.stats["faulted_success" if r.success else "faulted_failure"] += 1
        if not r.success:
            return []
        what = ", ".join(fault_name(f) + (" %d times" % (f["again"] + 1) if f.get("again") else "") +
                         " on %s" % f.get("path") for f in r.fired)
        return [V(x.cls, "after %s: %s" % (what, x.msg)) for x in success_means_complete(r, ref, p["out"])]


# ------------------------------------------------------------------ W06
def torn_edits(rng, root, out, mutations, prob=0.35):
    """Possible states of the files the killed run was writing: list of [path, mode, n]."""
    rel = os.path.relpath(out, root)
    written = []
    for _, _, kind, path in mutations:
        if path.startswith(rel + "/") and kind not in ("mkdir", "remove", "rmdir") and path not in written:
            written.append(path)
    edits = []
    have = [w for w in written if os.path.isfile(os.path.join(root, w))]
    for w in have:
        if rng.random() < (prob if w is not have[-1] else 0.8):
            size = os.path.getsize(os.path.join(root, w))
            mode = rng.choice(["trunc", "trunc", "empty", "garbage", "gone", "zeros"])
            edits.append([w, mode, rng.randrange(size) if size else 0])
    return edits


def apply_edits(root, edits):
    for path, mode, n in edits:
        full = os.path.join(root, path)
        if not os.path.isfile(full):
            continue
        if mode == "gone":
            os.remove(full)
            continue
        size = os.path.getsize(full)
        with open(full, "r+b") as fh:
            if mode == "empty":
                fh.truncate(0)
            elif mode == "trunc":
                fh.truncate(min(n, size))
            elif mode == "garbage":
                fh.seek(min(n, size))
                fh.write(random.Random(n).randbytes(max(0, size - n)))
            elif mode == "zeros":
                fh.seek(min(n, size))
                fh.write(b"\0" * max(0, size - n))


def make_edits(ph, root, out, r):
    if "post" not in ph:
        ph["post"] = torn_edits(random.Random(ph["post_seed"]), root, out, r.mutations) \
            if ph.get("post_seed") is not None else []
    apply_edits(root, ph["post"])


class CrashRerun(FaultPlan):
    pid = "W06"
    rule = ("1-3 runs killed at stratified operations (machine crash or one process killed) with files left whole, "
            "torn, empty, zeroed or garbage, optionally after a complete run with other inputs into the same "
            "directory; then the command is repeated; non-trivial: a kill fired or an earlier run left results; "
            "distinct: by kill points and interleaving hash")

    def generate(self, b, rng, i):
        sc = self.worlds(rng)
        if rng.random() < 0.25:
            sc["layout"]["outdir"] = "exists"
        spec = self.spec(rng, sc)
        ph = self.ph(rng, spec)
        r = self.dry(b, sc, ph)
        final = self.ph(rng, self.spec(rng, sc))
        if not r.success:
            return [self.case(sc, [ph])]
        ops = trace_ops(r.events)
        out = []
        for _ in range(4):
            phases = []
            chain = rng.choice([1, 1, 1, 2, 3])
            for c in range(chain):
                q = copy.deepcopy(ph)
                if c == 0:
                    o = self.pick(b, rng, ops)
                    b.strata.hit(o, {"kind": "crash"})
                    q["faults"] = [{"rank": o[0], "at": o[1], "op": o[2],
                                    "kind": rng.choice(["crash", "crash", "killrank"])}]
                else:
                    o = rng.choice(ops)
                    q["faults"] = [{"rank": o[0], "at": max(1, int(o[1] * rng.random())), "kind": "crash"}]
                q["post_seed"] = rng.randrange(1 << 30) if rng.random() < 0.75 else None
                phases.append(q)
            prev = prevkill = None
            if rng.random() < 0.4:
                prev = other_world(rng, sc)
                if rng.random() < 0.5:
                    phases = []
                if rng.random() < 0.6:
                    prevkill = self.ph(rng, self.spec(rng, prev))
                    rp = self.dry(b, prev, prevkill)
                    if rp.success:
                        o = self.pick(b, rng, trace_ops(rp.events))
                        prevkill["faults"] = [{"rank": o[0], "at": o[1], "op": o[2], "kind": "crash"}]
                        prevkill["post_seed"] = rng.randrange(1 << 30) if rng.random() < 0.3 else None
                    else:
                        prevkill = None
            phases.append(copy.deepcopy(final))
            stray = [x for x in ("old.txt", "terrain/x_dem.img", "M3/notes.xml", "done") if rng.random() < 0.25]
            out.append(self.case(sc, phases, prev=prev, prevkill=prevkill, stray=stray))
        return out

    def execute(self, b, case):
        sc, prev = case["sc"], case["x"].get("prev")
        clean = copy.deepcopy(sc)
        clean["layout"]["outdir"] = None
        r0, ref = b.reference(clean)
        v = not_finished(r0, "serial run")
        if v:
            return v
        if prev:
            p0 = b.setup(prev)
            pk = case["x"].get("prevkill")
            r = b.phase(p0, pk or {"spec": {"n": 1, "mode": "serial"}, "dseed": 0})
            if pk and r.fired:
                make_edits(pk, b.ctx.run, p0["out"], r)
            else:
                v = not_finished(r, "earlier run")
                if v:
                    return v
            for x in ("data", "work"):
                clear(os.path.join(b.ctx.run, x))
            p = world.build(sc, b.ctx.run)
            for x in case["x"].get("stray", ()):
                if os.path.isdir(os.path.dirname(os.path.join(p["out"], x))):
                    with open(os.path.join(p["out"], x), "w") as fh:
                        fh.write("left behind\n")
        else:
            p = b.setup(sc)
        fired = 0
        for ph in case["phases"][:-1]:
            r = b.phase(p, ph)
            fired += bool(r.fired)
            if r.fired:
                b.stats["kill:" + path_class(r.fired[0].get("path"))[-40:]] += 0
                make_edits(ph, b.ctx.run, p["out"], r)
                b.stats["torn_files"] += len(ph["post"])
        b.nontrivial = bool(fired or prev)
        r = b.phase(p, case["phases"][-1])
        v = not_finished(r, "run after the crash")
        if v:
            return v
        return diff_violations(oracle.compare(ref, p["out"], atts=GIT_KEYS), what="differs from a clean run: ")


def other_world(rng, sc):
    """A world that shares the output directory (and often tile names) with `sc`."""
    o = copy.deepcopy(sc)
    o["seed"] = rng.randrange(1 << 30)
    o["dem"]["zero"] = []
    o["lc"]["empty"] = []
    o["layout"]["bystanders"] = False
    how = rng.choice(["same", "more", "fewer", "finer", "moved", "moved"])
    g = world.Grid(sc)
    if how == "more":
        o["nx"] += g.sx
    elif how == "fewer":
        o["ny"] = max(3, o["ny"] - g.sy)
    elif how == "finer":
        o["upwind"] = 0.3 * o["px"]
    elif how == "moved":
        o["x0"] += rng.choice([-1, 1, 2]) * g.sx * o["px"]
    return o


# ------------------------------------------------------------------ W10
def log_files(p, n):
    return {p["log"]} | {"%s_%d" % (p["log"], r) for r in range(1, n + 1)}


def fallback_logs(p, n):
    out = set()
    for name in ("multipliers.log", os.path.basename(p["log"])):
        f = os.path.join(p["start"], name)
        out |= {f} | {"%s_%d" % (f, r) for r in range(1, n + 1)}
    return out


class Inside(FaultPlan):
    pid = "W10"
    rule = ("worlds with bystander files next to inputs, outputs and in the start directory, all layouts; fault-free, "
            "failing and killed runs and conversions; every mutating operation is judged when it is issued, the tree "
            "afterwards; non-trivial: the run mutated something; distinct: by faults and interleaving hash")
    per_trace = 4

    def worlds(self, rng):
        sc = world.scenario(rng, rng.choice(["tiny", "tiny", "small"]))
        return layouts(rng, sc)

    def generate(self, b, rng, i):
        sc = self.worlds(rng)
        spec = self.spec(rng, sc)
        if rng.random() < 0.06:
            sc["layout"].update(out=rng.choice(["work", "data", "", "conf", "data/."]), out_in_start=False, cfgdir="conf",
                                outdir=None, log="log", logdir="exists")
            return [self.case(sc, [self.ph(rng, spec)], holds=True)]
        conv = rng.choice(["keep", "fresh"]) if rng.random() < 0.2 else False
        prev = other_world(rng, sc) if not conv and rng.random() < 0.3 else None
        ph = self.ph(rng, spec)
        r = self.dry(b, sc, ph, conv, prev)
        out = [self.case(sc, [copy.deepcopy(ph)], convert=conv, prev=prev)]
        if not r.success:
            return out
        ops = trace_ops(r.events)
        for _ in range(self.per_trace):
            q = copy.deepcopy(ph)
            if rng.random() < 0.35:
                o = self.pick(b, rng, ops)
                q["faults"] = [{"rank": o[0], "at": o[1], "op": o[2], "kind": rng.choice(["crash", "killrank"])}]
            else:
                q["faults"] = self.faults(b, rng, ops, spec["n"])
            out.append(self.case(sc, [q], convert=conv, prev=prev))
        return out

    def execute(self, b, case):
        sc, conv = case["sc"], case["x"].get("convert")
        ph = case["phases"][0]
        p = self.prepare(b, sc, conv, case["x"].get("prev"))
        if conv:
            conv_phase(p, ph)
        root = b.ctx.run
        rel = lambda f: os.path.relpath(f, root)
        n = ph["spec"]["n"]
        out = rel(p["out"])
        logs = {rel(f) for f in log_files(p, n)} if not conv else set()
        spare = {rel(f) for f in fallback_logs(p, n)} if not conv else set()
        areas = [out + "/M3", out + "/M3_max"] if conv else [out]
        if case["x"].get("holds"):
            areas = []                           # holds inputs: nothing may be deleted
        parents = set()
        for f in areas + sorted(logs):
            f = os.path.dirname(f)
            while f:
                parents.add(f)
                f = os.path.dirname(f)
        existed = {d: os.path.isdir(os.path.join(root, d)) for d in parents}
        before = oracle.tree_state(root, areas)
        bad = []
        trouble = sc["layout"].get("logdir") in ("file", "locked")

        def hook(a, kind, path):
            if any(path == x or path.startswith(x + "/") for x in areas):
                return
            if path in logs and kind in ("open:w", "remove", "rename"):
                return
            if path in spare and kind == "open:w":
                return
            if kind == "mkdir" and path in parents:
                return
            bad.append("process %d: %s %s" % (a.key[1], kind, path))
        r = b.phase(p, ph, mutation_hook=hook)
        b.nontrivial = bool(r.mutations)
        if ph["faults"] and not r.fired:
            b.nontrivial = False
        v = texts("mutates", bad)
        v += [V("escape", "process %d: %s %s" % (e[0], e[2], e[3])) for e in r.escapes[:3]]
        after = oracle.tree_state(root, areas)
        trouble = trouble or any((f.get("op") or "").startswith(("mkdir", "stat")) or f["kind"] in ("nofile", "mem")
                                 for f in r.fired)
        for f in sorted(set(before) | set(after)):
            if before.get(f) == after.get(f):
                continue
            if f in logs:
                continue
            if f in parents and f not in before:
                continue
            if f in spare and f not in before and trouble:
                continue
            if f not in after:
                v.append(V("removed", "%s is gone" % f))
            elif f not in before:
                v.append(V("created", "%s appeared" % f))
            else:
                v.append(V("changed", "%s changed" % f))
        if case["x"].get("holds"):
            v += not_stopped(r)
        elif not ph["faults"]:
            v += not_finished(r)
        return v[:5]


def not_stopped(r):
    if r.end in ("deadlock", "step-limit"):
        return [V(r.end, "the run ends in %s; waiting: %s" % (r.end, r.blocked))]
    return [V("success", "the run succeeds although its output directory holds inputs")] if r.success else []


def layouts(rng, sc):
    lay = sc["layout"]
    lay["bystanders"] = True
    lay["out"] = rng.choice(["out", "res/a/out", "out.d/x y", "work/out", "data/out", "o", "run[12]"] + world.OWN_NAMES)
    if rng.random() < 0.3:
        lay["out_in_start"], lay["out"] = True, rng.choice(["out", "a/b", "shielding2", "run[12]"] + world.OWN_NAMES)
    lay["outdir"] = rng.choice([None, "exists"])
    lay["log"] = rng.choice(["log", "l/o/g", "data/log"])
    lay["logdir"] = rng.choice([None, "exists", "exists", "file"])
    if lay["logdir"] == "file" and lay["log"] == "data/log":
        lay["log"] = "log"
    lay["rel"] = rng.choice([False, True, ["out"], ["dem", "lc"], ["log", "table"]])
    lay["slash"] = rng.random() < 0.3
    lay["cfgdir"] = rng.choice([None, None, "conf"])
    return sc


# ------------------------------------------------------------------ W11
class OnlyResults(Plan):
    pid = "W11"
    rule = ("random worlds (also with empty and unclassified tiles), 1-7 processes, random schedules; the output "
            "directory is compared with the expected list; non-trivial: at least one tile; distinct: by world and "
            "interleaving hash")

    def generate(self, b, rng, i):
        sc = world.scenario(rng, rng.choice(["tiny", "small", "small", "medium"]))
        if rng.random() < 0.4:
            n = world.Grid(sc).n
            sc["dem"]["zero"] = sorted({rng.randrange(n) for _ in range(max(1, n // 2))}) if n > 1 else []
        sc["layout"]["outdir"] = rng.choice([None, None, "exists"])
        if rng.random() < 0.3:
            sc = rel_layout(rng, sc)
        prev = other_world(rng, sc) if rng.random() < 0.3 else None
        return [self.case(sc, [self.ph(rng, self.spec(rng, sc))], prev=prev) for _ in range(2)]

    def execute(self, b, case):
        sc = case["sc"]
        p = self.begin(b, sc, case["x"].get("prev"))
        r = b.phase(p, case["phases"][0])
        b.nontrivial = bool(world.expected_tiles(sc))
        v = not_finished(r)
        if v:
            return v
        return texts("listing", oracle.check_listing(sc, p["out"]))


# ------------------------------------------------------------------ W12
def rel_layout(rng, sc):
    lay = sc["layout"]
    lay["rel"] = rng.choice([True, True, ["out"], ["log"], ["dem", "lc"], ["table"], ["out", "table"], ["cfg", "dem"]])
    if rng.random() < 0.6:
        lay["out_in_start"], lay["out"] = True, rng.choice(["out", "a/b", "x y/z"] + world.OWN_NAMES)
    if rng.random() < 0.5:
        lay["log_in_start"], lay["log"] = True, rng.choice(["", "log", "l/m"])
    lay["dot"] = rng.random() < 0.3
    lay["cfgdir"] = rng.choice([None, None, "data", "conf", "etc/conf.d"])
    lay["root"] = rng.choice([None, None, "base", "data", "none", "dot"])
    return sc


class Relative(Plan):
    pid = "W12"
    rule = ("the same world with relative and with absolute paths (any subset of them relative), any process count and "
            "schedule, git available or not; the two trees are compared; non-trivial: two or more tiles; distinct: by "
            "world and interleaving hash")

    def generate(self, b, rng, i):
        sc = rel_layout(rng, world.scenario(rng, rng.choice(["tiny", "small", "small"])))
        if rng.random() < 0.3:
            lay = sc["layout"]
            lay["logdir"] = rng.choice(["exists", "file"])
            if lay["log"] == "" and lay["logdir"] == "file":
                lay["logdir"] = None
        ph = self.ph(rng, self.spec(rng, sc))
        out = [self.case(sc, [ph])]
        if rng.random() < 0.3:
            out.append(self.case(sc, [copy.deepcopy(ph)], convert="keep"))
        return out

    def execute(self, b, case):
        sc = case["sc"]
        ab = copy.deepcopy(sc)
        ab["layout"]["rel"] = False
        ab["layout"]["dot"] = False
        ab["layout"]["root"] = None
        r0, ref = b.reference(ab)
        v = not_finished(r0, "run with absolute paths")
        if v:
            return v
        conv = case["x"].get("convert")
        ph = case["phases"][0]
        n = ph["spec"]["n"]
        p = b.setup(sc)
        if conv:
            copytree_mk(ref, p["out"])
            for s in ("M3", "M3_max"):
                clear(os.path.join(p["out"], s))
            ph = conv_phase(p, ph)
            ph["spec"]["args"] = ["-p", os.path.relpath(p["out"], p["start"])]
        root = b.ctx.run
        before = oracle.tree_state(root, [os.path.relpath(p["out"], root)])
        r = b.phase(p, ph)
        b.nontrivial = len(world.expected_tiles(sc)) > 1
        v = not_finished(r, "run with relative paths")
        if v:
            return v
        v = diff_violations(oracle.compare(ref, p["out"], atts=False), what="differs from the run with absolute "
                                                                            "paths: ")
        after = oracle.tree_state(root, [os.path.relpath(p["out"], root)])
        logs = {os.path.relpath(f, root) for f in log_files(p, n) | fallback_logs(p, n)}
        for f in sorted(set(after) - set(before)):
            full = os.path.join(root, f)
            if f in logs or (after[f][0] == "d" and (p["out"].startswith(full + "/") or
                                                      p["log"].startswith(full + "/"))):
                continue
            v.append(V("place", "%s appeared" % f))
        if not conv and sc["layout"].get("logdir") != "file":
            want = [p["log"]] + ["%s_%d" % (p["log"], k) for k in range(1, n)]
            for f in want:
                if not os.path.isfile(f):
                    v.append(V("place", "log file %s is missing" % os.path.relpath(f, root)))
        return v[:5]


# ------------------------------------------------------------------ W13
class OwnLog(FaultPlan):
    pid = "W13"
    rule = ("log directories that exist, do not exist, are nested or cannot be created; any order of start; errors of "
            "mkdir in any process; non-trivial: more than one process or a directory to create; distinct: by world, "
            "fault and interleaving hash")
    per_trace = 2

    def generate(self, b, rng, i):
        sc = world.scenario(rng, "tiny")
        lay = sc["layout"]
        lay["log"] = rng.choice(["log", "l/o/g", "l/o/g", "logs.d/x y"])
        lay["logdir"] = rng.choice([None, None, None, "exists", "old", "file", "locked"])
        lay["level"] = rng.choice(["INFO", "DEBUG", "DEBUG", "INFO"])
        lay["verbose"] = rng.choice(["False", "True"])
        if rng.random() < 0.4:
            lay["rel"] = rng.choice([True, ["log"]])
        if rng.random() < 0.3:
            lay["log_in_start"], lay["log"] = True, rng.choice(["", "log", "l/m"])
            if lay["log"] == "" and lay["logdir"] in ("file", "locked"):
                lay["logdir"] = None
        if lay["logdir"] == "locked":
            lay["log"], lay["log_in_start"] = "l/o/g", False
        elif lay["logdir"] != "file" and rng.random() < 0.2:
            lay["log_in_start"], lay["log_in_out"], lay["log"] = False, True, rng.choice(["", "log", "log", "l/m"])
        spec = self.spec(rng, sc)
        if spec["n"] == 1 and rng.random() < 0.7:
            spec.update(n=rng.choice([2, 3, 4]), mode="mpi")
        ph = self.ph(rng, spec)
        out = [self.case(sc, [ph])]
        if lay["logdir"] in (None, "exists", "old"):
            r = self.dry(b, sc, ph)
            if r.success:
                logdir = os.path.relpath(os.path.dirname(world.paths(sc, b.ctx.run)["log"]), b.ctx.run)
                out_ = os.path.relpath(world.paths(sc, b.ctx.run)["out"], b.ctx.run)
                ops = [o for o in trace_ops(r.events) if o[2] == "mkdir" and o[3] is not None and
                       (logdir == o[3] or logdir.startswith(o[3] + "/")) and
                       not (out_ == o[3] or out_.startswith(o[3] + "/"))]
                for _ in range(self.per_trace if ops else 0):
                    q = copy.deepcopy(ph)
                    o = rng.choice(ops)
                    q["faults"] = [{"rank": o[0], "at": o[1], "op": "mkdir", "kind": "err",
                                    "errno": rng.choice(["EACCES", "ENOSPC", "EROFS", "EIO"])}]
                    out.append(self.case(sc, [q]))
            q = copy.deepcopy(ph)
            q["policy"] = {"name": rng.choice(["rr", "random"])}
            out.append(self.case(sc, [q]))
        return out

    def execute(self, b, case):
        sc = case["sc"]
        lay = sc["layout"]
        p = b.setup(sc)
        ph = case["phases"][0]
        n = ph["spec"]["n"]
        names = [p["log"]] + ["%s_%d" % (p["log"], k) for k in range(1, n)]
        if lay.get("logdir") == "old":
            for f in names:
                with open(f, "w") as fh:
                    fh.write("2001-01-01 00:00:00: old record (pid 1)\n")
        start_before = set(os.listdir(p["start"]))
        ph["spec"]["capture_logs"] = True
        r = b.phase(p, ph)
        ph["spec"].pop("capture_logs", None)
        b.nontrivial = n > 1 or lay.get("logdir") not in ("exists", "old")
        if ph["faults"] and not r.fired:
            b.nontrivial = False
        v = not_finished(r, "run with this log directory" if not r.fired else "run after a failing mkdir")
        if v:
            return v
        impossible = lay.get("logdir") in ("file", "locked")
        files = {}
        fresh = [f for f in sorted(os.listdir(p["start"])) if f not in start_before]
        own_ok = {f["rank"] for f in r.fired}
        for k in range(n):
            pid = "(pid %d)" % (5000 + 7 * k)
            where = []
            if impossible or k in own_ok:
                where += [os.path.join(p["start"], f) for f in fresh]
            if not impossible:
                where += [names[k]]
            found = [f for f in where if os.path.isfile(f) and pid in read_text(f)]
            if len(found) != 1:
                v.append(V("place", "process %d logs to %s; expected exactly one of %s" % (
                    k, [os.path.relpath(f, b.ctx.run) for f in found],
                    [os.path.relpath(f, b.ctx.run) for f in where][:4])))
                continue
            files[k] = found[0]
        if len(set(files.values())) != len(files):
            v.append(V("shared", "two processes share a log file"))
        levels = {x[2] for k in range(n) for x in r.records[k] if x[1]}
        if lay["level"] == "INFO" and any(x < 20 for x in levels):
            v.append(V("level", "with level INFO, records of level %d are logged" % min(levels)))
        if lay["level"] == "DEBUG" and world.expected_tiles(sc) and not any(x <= 10 for x in levels):
            v.append(V("level", "with level DEBUG, no process logs a record of that level"))
        least = {"DEBUG": 10, "INFO": 20, "WARNING": 30}.get(lay["level"], 50)
        for k in sorted(r.suppressed):
            if any(least <= x for x in r.suppressed[k]):
                v.append(V("level", "with level %s, process %d drops records of level %d" % (
                    lay["level"], k, max(r.suppressed[k]))))
        for k, f in files.items():
            text = read_text(f)
            name = os.path.relpath(f, b.ctx.run)
            if "old record" in text:
                v.append(V("foreign", "%s still holds records of an earlier run" % name))
            pos = 0
            for msg, attached, _ in r.records[k]:
                if not attached or not msg.strip():
                    continue
                at = text.find(msg, pos)
                if at < 0:
                    v.append(V("lost", "%s lacks the record %s of process %d" % (name, short(msg, 80), k)))
                    break
                pos = at + len(msg)
            own = {x[0] for x in r.records[k]}
            for q in range(n):
                if q == k:
                    continue
                for msg, _, _ in r.records[q]:
                    if msg not in own and len(msg) > 12 and msg in text and not any(msg in m for m in own):
                        v.append(V("foreign", "%s holds the record %s of process %d" % (name, short(msg, 80), q)))
                        break
        return v[:5]


def read_text(f):
    with open(f, errors="replace") as fh:
        return fh.read()


# ------------------------------------------------------------------ W14
CFG_ERR = ["ENOENT", "EACCES", "EIO", "EMFILE", "ESTALE"]


class GivenConfig(FaultPlan):
    pid = "W14"
    rule = ("configuration, classification table and rasters unreadable (error on open or read, missing, directory, "
            "no permission, garbage) in any subset of processes, with a working default configuration as a decoy; "
            "non-trivial: a fault fired or a file is bad; distinct: by fault and interleaving hash")

    def prepare_worker(self, b):
        b.src = b.ctx.src = make_decoy(b, b.src)

    def generate(self, b, rng, i):
        while True:
            sc = world.scenario(rng, rng.choice(["tiny", "tiny", "small"]))
            if any(t["mz"] for t in world.expected_tiles(sc)):
                break
        sc["layout"]["outdir"] = rng.choice([None, "exists", "exists"])
        spec = self.spec(rng, sc)
        ph = self.ph(rng, spec)
        out = [self.case(sc, [ph])]
        r = self.dry(b, sc, ph)
        if not r.success:
            return out
        ops = trace_ops(r.events)
        p = world.paths(sc, b.ctx.run)
        rel = {k: os.path.relpath(p[k], b.ctx.run) for k in ("cfg", "table", "dem", "lc")}
        for _ in range(3):
            what = rng.choice(["cfg", "cfg", "cfg", "table", "table", "dem", "lc"])
            cand = [o for o in ops if o[3] == rel[what] and o[2].startswith(("open:r", "gdal.Open"))]
            if not cand:
                continue
            first = {}
            for o in cand:
                first.setdefault(o[0], o)
            q = copy.deepcopy(ph)
            if what == "cfg":
                ranks = [k for k in first if rng.random() < 0.4] or [rng.choice(list(first))]
                chosen = [first[k] for k in ranks]
            else:
                chosen = [rng.choice(cand)]
            q["faults"] = []
            for o in chosen:
                f = {"rank": o[0], "at": o[1], "op": o[2], "kind": "err", "errno": rng.choice(CFG_ERR)}
                if o[2] == "open:r" and rng.random() < 0.35:
                    f["mode"] = "read"
                    f["after"] = rng.choice([0, 0, 40, 150])
                q["faults"].append(f)
            out.append(self.case(sc, [q], what=what))
        what = rng.choice(["cfg", "table", "dem", "lc"])
        how = rng.choice(["gone", "dir", "locked", "garbage"] + {"table": ["nocolumn", "empty"], "cfg": []}.get(what, ["empty"]))
        q = copy.deepcopy(ph)
        out.append(self.case(sc, [q], what=what, how=how))
        return out

    def execute(self, b, case):
        sc, what, how = case["sc"], case["x"].get("what"), case["x"].get("how")
        p = b.setup(sc)
        ph = case["phases"][0]
        root = b.ctx.run
        decoy(b, sc)
        if how:
            spoil(p[what], how, what)
        outrel = os.path.relpath(p["out"], root)
        r = b.phase(p, ph)
        if how == "locked" and os.path.exists(p[what]):
            os.chmod(p[what], 0o644)
        b.nontrivial = bool(r.fired or how or not ph["faults"])
        v = []
        touched = [m for m in r.mutations if m[3].startswith("decoy")]
        if touched or os.path.exists(os.path.join(root, "decoy", "out")):
            v.append(V("decoy", "the default configuration was used: %s" % short(str(touched[:1]))))
        for e in r.escapes[:1]:
            v.append(V("decoy", "other settings were used: %s %s" % (e[2], e[3])))
        if not ph["faults"] and not how:
            v += not_finished(r)
            if not v:
                v += texts("output", oracle.check_listing(sc, p["out"])[:1])
                if not os.path.isfile(p["log"]):
                    v.append(V("output", "no log at the configured place"))
            return v
        if not (how or r.fired):
            return not_finished(r)
        if r.success:
            v.append(V("success", "the run succeeds although %s cannot be read (%s)" % (
                what, how or ", ".join(fault_name(f) for f in r.fired))))
        if r.end in ("deadlock", "step-limit"):
            v.append(V(r.end, "unreadable %s: the run ends in %s; waiting %s" % (what, r.end, short(str(r.blocked)))))
        if what == "cfg":
            bad = set(range(ph["spec"]["n"])) if how else {f["rank"] for f in r.fired}
            for m in r.mutations:
                if m[1] in bad:
                    v.append(V("acts", "process %d could not read the configuration and still does %s %s" % m[1:]))
                    break
            for k in bad:
                if r.exits.get(k) == 0:
                    v.append(V("success", "process %d could not read the configuration and exits with 0" % k))
        return v[:5]


def decoy(b, sc):
    """The default configuration in the staged sources names a complete other world."""
    d = os.path.join(b.ctx.run, "decoy")
    if os.path.isdir(os.path.join(b.base, "dcy")):
        copytree(os.path.join(b.base, "dcy"), d)


DECOY_SC = {"crs": "geo", "px": 0.5, "py": 0.5, "x0": 140.0, "y0": -20.0, "nx": 2, "ny": 2, "upwind": 0.1, "seed": 7,
            "dem": {"dtype": "f4", "fmt": "GTiff", "kind": "rough", "zero": [], "zerosum": False},
            "lc": {"factor": 1, "dtype": "i4", "fmt": "GTiff", "margin": 0, "unclass": 0.0, "empty": []},
            "table": [list(x) for x in world.TABLE],
            "layout": {"rel": False, "out": "out", "log": "log", "level": "INFO", "bystanders": False}}


def make_decoy(b, src):
    """Own copy of the sources whose default configuration is usable."""
    root = os.path.join(b.base, "dcy")
    clear(root)
    os.mkdir(root)
    p = world.build(DECOY_SC, root)
    text = world.config_text(DECOY_SC, p).replace(root, os.path.join(b.ctx.run, "decoy"))
    own = os.path.join(b.base, "src")
    clear(own)
    copytree(src, own)
    with open(os.path.join(own, "multiplier_conf.cfg"), "w") as fh:
        fh.write(text)
    return own


def spoil(path, how, what):
    if how == "locked":
        os.chmod(path, 0)
        return
    if how == "garbage":
        with open(path, "wb") as fh:
            fh.write(b"\xff\xfe\x00garbage [ = \n\x80\x81\n" * 20)
        return
    if how == "empty":
        open(path, "w").close()
        return
    if how == "nocolumn":
        with open(path, "w") as fh:
            fh.write("CATEGORY,DESCRIPTION,SOMETHING\n1,a,2\n2,b,3\n")
        return
    os.remove(path)
    if how == "dir":
        os.mkdir(path)


# ------------------------------------------------------------------ W15
class Provenance(FaultPlan):
    pid = "W15"
    rule = ("runs with fast and stepping clocks, git working, failing or missing at any save, all layouts; every layer's "
            "attributes are compared with the configuration, the simulated git and the clock readings of its process; "
            "non-trivial: at least one layer; distinct: by faults and interleaving hash")

    def generate(self, b, rng, i):
        sc = world.scenario(rng, "tiny")
        if rng.random() < 0.5:
            sc = rel_layout(rng, sc)
        spec = self.spec(rng, sc)
        spec["clocks"] = [[rng.choice([0.0, -1e7, 86400.0 * 300]), rng.choice([3000.0, 8000.0])]
                          for _ in range(spec["n"])]
        spec["git"] = rng.choice(["ok", "ok", "ok", "slow", "notag", "missing", "eacces", "enomem", "killed"])
        if rng.random() < 0.4:
            sc["layout"]["extra"] = rng.sample(["Empty =", "Percent = 100 % of", "Two Words = a: b = c", "Lines = one\n  two",
                                                "Accent = é", "[More]\nNote = another", "Zero = 0", "Long = " + "w" * 400,
                                                "Hash = a #1 ; b %(x)s", "MiXed.Case-Key = 2014-01-01T00:00"], 4)
            sc["layout"]["extra"].sort(key=lambda x: x[0] == "[")
        spec["gitv"] = rng.choice(["v1.2-3-gabc\n", "v1.2-3-gabc\n", "2.0\n", "release/v3-rc.1\n"])
        ph = self.ph(rng, spec)
        out = []
        r = self.dry(b, sc, ph)
        if not r.success:
            return [self.case(sc, [ph])]
        ops = trace_ops(r.events)
        ex = [o for o in ops if o[2] == "exec"]
        for _ in range(3):
            q = copy.deepcopy(ph)
            fs = []
            if ex and rng.random() < 0.8:
                for o in rng.sample(ex, min(len(ex), rng.choice([1, 1, 2, 5]))):
                    fs.append({"rank": o[0], "at": o[1], "op": "exec", "kind": "err", "mode": rng.choice(GIT_MODES)})
            if rng.random() < 0.4:
                o = rng.choice(ops)
                if not any((f["rank"], f["at"]) == (o[0], o[1]) for f in fs):
                    fs.append({"rank": o[0], "at": o[1], "kind": "clock", "delta": rng.choice([-1e8, 1e8, -5000.0])})
            q["faults"] = fs
            out.append(self.case(sc, [q]))
        return out

    def execute(self, b, case):
        sc = case["sc"]
        r0, ref = b.reference(sc)
        v = not_finished(r0, "serial run")
        if v:
            return v
        p = b.setup(sc)
        ph = case["phases"][0]
        trail = {}
        cwd_bad = []
        start = p["start"]

        def hook(a, kind, path):
            if a.key[0] != "rank":
                return
            trail.setdefault(a.key[1], []).append((kind, path, len(a.clock_reads)))
            if kind.startswith(("nc.open", "gdal.Open", "gdal.Create", "open:")) and not cwd_bad:
                here = seams.REAL["os.getcwd"]()
                if here != start:
                    cwd_bad.append("process %d works in %s at %s %s" % (a.key[1], here, kind, path))
        r = b.phase(p, ph, op_hook=hook)
        v = not_finished(r, "run with these clocks and this git")
        if v:
            return v
        v = texts("cwd", cwd_bad)
        for k, c in r.cwds.items():
            if c != start:
                v.append(V("cwd", "process %d ends in %s" % (k, c)))
        v += diff_violations(oracle.compare(ref, p["out"], atts=False), what="git or clocks change the data: ")
        windows = save_windows(trail, r.clock_reads)
        layers, bad = oracle.read_layers(p["out"])
        v += texts("unreadable", ["%s: %s" % x for x in bad])
        opts = config_options(p["cfg"])
        mode = ph["spec"]["git"]
        failing = mode != "ok" or any(f["op"] == "exec" for f in r.fired)
        slow = mode == "slow" or any(f.get("mode") == "slow" for f in r.fired)
        tag = ph["spec"].get("gitv", "v1.2-3-gabc").strip()
        b.nontrivial = bool(layers)
        outrel = os.path.relpath(p["out"], b.ctx.run)
        names = {"ms": "shielding", "mz": "terrain", "mt": "topographic"}
        for (u, d), lst in sorted(layers.items()):
            for name, lon, lat, vals, tile, c in lst:
                g = c["gatts"]
                for key, val in opts.items():
                    if g.get(key) != val:
                        v.append(V("option", "%s: option %s is recorded as %s instead of %s" % (
                            name, key, short(g.get(key)), short(val))))
                        break
                allv = "\n".join(str(x) for k, x in g.items() if k not in opts)
                for key in ("inputValues_terrain_data", "inputValues_dem_data"):
                    if opts[key] not in allv:
                        v.append(V("inputs", "%s does not name its input %s" % (name, opts[key])))
                ver = {k: str(x) for k, x in g.items() if "git" in k.lower()}
                good = any(tag in x for x in ver.values())
                unk = any("unknown" in x.lower() for x in ver.values())
                if mode == "ok" and not failing and not good:
                    v.append(V("version", "%s: version from git is %s" % (name, ver)))
                elif mode != "ok" and not slow and (good or not unk):
                    v.append(V("version", "%s: git failed, but the version is %s" % (name, ver)))
                elif not (good or unk):
                    v.append(V("version", "%s: version from git is %s" % (name, ver)))
                text = str(g.get("Abstract", "")) + " " + str(g.get("title", ""))
                if names[u] not in text or not re.search(r"\b%s\b direction" % d, text):
                    v.append(V("what", "%s is described as %s" % (name, short(text, 120))))
                stamp = re.search(r"\d{4}-\d\d-\d\d[ T]\d\d:\d\d:\d\d", str(g.get("Created_on", "")))
                w = windows.get(outrel + "/" + name)
                if not stamp:
                    v.append(V("time", "%s: no creation time" % name))
                elif w is not None:
                    t = time.mktime(time.strptime(stamp.group(0).replace("T", " "), "%Y-%m-%d %H:%M:%S"))
                    if not any(x - 1.001 <= t <= x + 0.001 for x in w):
                        v.append(V("time", "%s: created %s, but saved when its clock showed %s" % (
                            name, stamp.group(0), clock_text(w))))
        return v[:5]


def save_windows(trail, reads):
    """Layer -> clock readings of its process between the end of the previous save and the end of this one."""
    out = {}
    for rank, ops in trail.items():
        lo, cur = 0, None
        for kind, path, nread in ops:
            if kind == "nc.open:w":
                cur = path
            elif kind == "nc.close" and cur is not None:
                out.setdefault(cur, []).extend(reads[rank][lo:nread])
                lo, cur = nread, None
    return out


def clock_text(w):
    f = lambda t: seams.REAL["time.strftime"]("%Y-%m-%d %H:%M:%S", seams.REAL["time.localtime"](t))
    return "%s to %s" % (f(min(w)), f(max(w))) if w else "nothing (it was not read)"


def config_options(cfg):
    from configparser import RawConfigParser
    c = RawConfigParser()
    with open(cfg) as fh:
        c.read_file(fh)
    return {"%s_%s" % (s, o): c.get(s, o) for s in c.sections() for o in c.options(s)}


PLANS = {c.pid: c for c in (TilesOnce, SameMaps, Finishes, FailureEnds, SuccessComplete, CrashRerun, Inside,
                            OnlyResults, Relative, OwnLog, GivenConfig, Provenance)}
