"""W18: the threaded join of land-use features with settlement areas."""
import copy
import json
import os
import types

from . import seams
from .bench import HERE, fault_name, make_fault, trace_ops
from .core import thread_policy
from .plans import FaultPlan, V, not_finished, short

SETT = ["Urban", "City", "Rural", None, "Small Town", "Major CBD"]


def paths(sc, root):
    return {"start": os.path.join(root, "work"), "text": {"cfg": ""}}


def build(sc, root):
    os.makedirs(os.path.join(root, "work"))
    with open(os.path.join(root, "work", "job.json"), "w") as fh:
        json.dump(sc, fh)


def rect(x, y, w, h):
    return [[x, y], [x + w, y], [x + w, y + h], [x, y + h], [x, y]]


def polygon(rng, span=8, step=1.0):
    """A random valid geometry (GeoJSON)."""
    x, y = rng.randrange(span) * step, rng.randrange(span) * step
    w, h = rng.choice([1, 1, 2, 3, 5]) * step, rng.choice([1, 1, 2, 4]) * step
    kind = rng.choice(["rect", "rect", "rect", "tri", "hole", "multi"])
    if kind == "rect":
        return {"type": "Polygon", "coordinates": [rect(x, y, w, h)]}
    if kind == "tri":
        return {"type": "Polygon", "coordinates": [[[x, y], [x + w, y], [x, y + h], [x, y]]]}
    if kind == "hole":
        hole = [[x + .25 * w, y + .25 * h], [x + .25 * w, y + .5 * h], [x + .75 * w, y + .5 * h],
                [x + .75 * w, y + .25 * h], [x + .25 * w, y + .25 * h]]
        return {"type": "Polygon", "coordinates": [rect(x, y, w, h), hole]}
    return {"type": "MultiPolygon", "coordinates": [[rect(x, y, w, h)], [rect(x + w + step, y, w, h)]]}


def scenario(rng):
    step = rng.choice([1.0, 0.125, 0.01])
    span = rng.choice([3, 6, 10])
    others, lands = [], []
    for _ in range(rng.choice([1, 1, 2])):
        others.append([[polygon(rng, span, step), {"SETT": rng.choice(SETT), "id": k}]
                       for k in range(rng.choice([0, 1, 2, 3, 4, 6]))])
    for _ in range(rng.choice([1, 1, 2])):
        fs = []
        for k in range(rng.choice([0, 1, 2, 3, 5, 9])):
            g = polygon(rng, span, step)
            if rng.random() < 0.02:
                g = {"type": "Polygon", "coordinates": [[[0, 0], [2, 2], [2, 0], [0, 2], [0, 0]]]}
            att = {"LU": rng.choice(["Water", "Other", None]), "n": k}
            if rng.random() < 0.2:
                att["SETT"] = "old"
            fs.append([g, att])
        lands.append(fs)
    joins = [{"land": k, "other": rng.randrange(len(others)), "var": "SETT"} for k in range(len(lands))]
    if len(lands) == 1 and rng.random() < 0.2:
        joins.append(dict(joins[0], other=rng.randrange(len(others))))
    return {"join": 1, "others": others, "lands": lands, "joins": joins,
            "parallel": len(lands) > 1 and rng.random() < 0.5}


class Probe:
    def __init__(self):
        self.first, self.last, self.done = {}, {}, False
        m = self.module = types.ModuleType("wm_probe")
        for f in (self.before, self.failed, self.joined, self.finished):
            setattr(m, f.__name__, self.wrap(f))

    def wrap(self, f):
        def g(*args):
            with seams.raw():
                return f(*args)
        return g

    def state(self, land, other):
        return ([g.wkb for g in land.geom], [dict(a) for a in land.attribute],
                [g.wkb for g in other.geom], [dict(a) for a in other.attribute])

    def before(self, k, land, other):
        self.first[k] = self.state(land, other)

    def failed(self, k, land, other, e):
        self.last[k] = ("failed", self.state(land, other), "%s: %s" % (type(e).__name__, e))

    def joined(self, k, land, other):
        self.last[k] = ("joined", self.state(land, other), "")

    def finished(self):
        self.done = True


def allowed(poly, others, vals):
    """Acceptable values of the joined attribute."""
    hits = [k for k, g in enumerate(others) if poly.intersects(g)]
    if not hits:
        return [None]
    if len(hits) == 1:
        return [vals[hits[0]]]
    area = [poly.intersection(others[k]).area for k in hits]
    top = max(area)
    return [vals[k] for k, a in zip(hits, area) if a >= top - 1e-9 * poly.area]


class ThreadedJoin(FaultPlan):
    pid = "W18"
    shapefiles = True
    rule = ("1-2 joins (in turn or at once) of 0-9 generated polygons with 0-6 overlapping, touching or distant "
            "settlement areas by up to 4 worker threads, preempted at source lines, bytecodes and geometry operations; "
            "failing geometry operations, allocations and thread starts; non-trivial: at least two features and an "
            "area; distinct: by scenario, fault and interleaving hash")
    components = ("real: utilities/shapefiles.py, concurrent.futures, threading, shapely; stub: the lock and "
                  "thread-start primitives (_thread); injected: failures of geometry operations")

    def lists(self, sc):
        return [(sc["joins"], 1)] + [(x, 0) for x in sc["others"] + sc["lands"]]

    def generate(self, b, rng, i):
        sc = scenario(rng)
        drv = os.path.join(HERE, "join_driver.py")
        spec = {"n": 1, "mode": "serial", "script": drv, "args": ["job.json"],
                "threads": {"preempt": rng.choice(["line", "line", "opcode", None]),
                            "cpus": rng.choice([1, 1, 2, 4]), "files": [drv]}}
        out = []
        ops = []
        for c in range(6):
            ph = {"spec": copy.deepcopy(spec), "faults": [], "dseed": rng.randrange(1 << 30),
                  "policy": thread_policy(rng, 5, 300)}
            if c == 1:
                ops = self.points(b, sc, copy.deepcopy(ph))
            if c >= 2 and ops:
                for _ in range(rng.choice([1, 1, 1, 2])):
                    o = b.strata.pick(rng, ops)
                    f = make_fault(rng, o, kinds=("err", "mem"))
                    b.strata.hit(o, f)
                    ph["faults"].append(f)
            out.append(self.case(sc, [ph]))
        return out

    def points(self, b, sc, ph):
        p = b.setup(sc)
        pr = Probe()
        r = b.phase(p, ph, sc, mods={"wm_probe": pr.module})
        return [o for o in trace_ops(r.events, tasks=True) if o[2].startswith(("geos.", "thread."))]

    def execute(self, b, case):
        sc, ph = case["sc"], case["phases"][0]
        from shapely.geometry import shape
        p = b.setup(sc)
        pr = Probe()
        r = b.phase(p, ph, sc, mods={"wm_probe": pr.module})
        b.nontrivial = any(len(sc["lands"][j["land"]]) > 1 and sc["others"][j["other"]] for j in sc["joins"])
        where = " (with %s)" % ", ".join(fault_name(f) for f in r.fired) if r.fired else ""
        if not pr.done or not r.success:
            if not r.fired or r.end in ("deadlock", "step-limit"):
                return not_finished(r, "a join%s" % where) or [V("lost", "a join neither returns nor raises")]
            return []
        v = []
        for k, j in enumerate(sc["joins"]):
            if k not in pr.last:
                if not r.fired:
                    v.append(V("lost", "join %d neither returns nor raises" % k))
                continue
            before, (how, after, text) = pr.first[k], pr.last[k]
            what = "join %d%s" % (k, where)
            b.stats["join:" + how] += 1
            if before[0] != after[0]:
                v.append(V("geometry", "%s changes the number, order or geometry of the features" % what))
                continue
            if before[2:] != after[2:]:
                v.append(V("others", "%s changes the settlement areas" % what))
            land = [shape(g) for g, _ in sc["lands"][j["land"]]]
            other = [shape(g) for g, _ in sc["others"][j["other"]]]
            if how == "failed":
                if before[1] != after[1]:
                    v.append(V("partial", "%s fails (%s) and has changed attributes" % (what, text)))
                if not r.fired and all(g.is_valid for g in land + other):
                    v.append(V("fails", "%s fails: %s" % (what, text)))
                continue
            if len(after[1]) != len(before[1]):
                v.append(V("features", "%s changes the number of attributes" % what))
                continue
            vals = [a["SETT"] for _, a in sc["others"][j["other"]]]
            for n, (a, c) in enumerate(zip(before[1], after[1])):
                want = dict(a)
                if j["var"] not in c:
                    v.append(V("join", "%s returns, but feature %d has no %s" % (what, n, j["var"])))
                    break
                want[j["var"]] = c[j["var"]]
                if want != c:
                    v.append(V("attributes", "%s changes other attributes of feature %d: %s to %s" % (what, n, a, c)))
                    break
                try:
                    ok = allowed(land[n], other, vals)
                except Exception:
                    v.append(V("swallowed", "%s returns although feature %d cannot be joined" % (what, n)))
                    break
                if c[j["var"]] not in ok:
                    v.append(V("join", "%s gives feature %d the value %r instead of %r" % (what, n, c[j["var"]], ok)))
                    break
        return v[:4]


PLANS = {"W18": ThreadedJoin}
