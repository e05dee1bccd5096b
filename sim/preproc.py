"""W19: pre-processing of settlement and land-use shapefiles (pre_process.py)."""
import copy
import json
import os
import random

import numpy as np

from . import seams, world
from .bench import HERE, fault_name, line_fault, make_fault, trace_ops
from .core import thread_policy
from .join import polygon, rect
from .plans import FaultPlan, V, apply_edits, last_line, not_finished, short
from .runjob import clear, copytree

TYPES = {"Major CBD": 1, "City": 2, "Urban": 3, "Large Town": 4, "Small Town": 5}
USES = {"Parkland": 1, "Primary Production": 2, "Education": 4, "Residential": 5, "Water": 6, "Other": 7,
        "Commercial": 8, "Industrial": 9, "Hospital/Medical": 10, "Transport": 11}


def scenario(rng):
    step = rng.choice([1.0, 0.25])
    span = rng.choice([4, 7, 10])
    sett = [[polygon(rng, span, step), {"TYPE": rng.choice(list(TYPES) + ["Village", None, "Urban", "City"])}]
            for _ in range(rng.choice([1, 1, 2, 3, 5, 7]))]
    land = []
    for k in range(rng.choice([1, 2, 3, 4, 6, 9])):
        g = polygon(rng, span, step) if rng.random() < 0.92 else None
        land.append([g, {"ident": k + 1, "LUSE": rng.choice(list(USES) + ["Something", None, "Water"]),
                         "area_f": rng.choice([1.5, -2.25, None, 1e6]),
                         "note": rng.choice(["x", "long text" * 3, None])}])
    if all(g is None for g, _ in land):
        land[0][0] = polygon(rng, span, step)
    mask = None
    if rng.random() < 0.5:
        x, y = rng.uniform(-1, span / 2) * step, rng.uniform(-1, span / 2) * step
        w, h = rng.uniform(1, span) * step, rng.uniform(1, span) * step
        if rng.random() < 0.4:
            x, y, w, h = (round(t / step) * step for t in (x, y, w, h))
        mask = rect(x, y, max(w, step), max(h, step))
    px = rng.choice([0.25, 0.5, 0.37]) * step
    return {"pre": 1, "seed": rng.randrange(1 << 30), "sett": sett, "land": land, "mask": mask, "step": step,
            "dem": {"x0": rng.choice([-1.1, 0.3]) * step, "y0": (span + rng.choice([0.13, 4.2])) * step, "px": px,
                    "nx": rng.choice([5, 20, 40]), "ny": rng.choice([4, 16, 40]), "dt": rng.choice(["f4", "i2"])},
            "topo": rng.choice(["True", "path"]), "rel": rng.random() < 0.4,
            "cat": rng.choice(["TYPE", "SETTLE"]), "use": rng.choice(["LUSE", "LU_CODE"]),
            "out": rng.choice(["out", "res/o.d x"])}


def paths(sc, root):
    data, start = os.path.join(root, "data"), os.path.join(root, "work")
    out = os.path.join(root, sc["out"])
    p = {"start": start, "data": data, "out": out, "cfg": os.path.join(data, "pre.cfg"),
         "shp": os.path.join(out, "landuse_out.shp"), "tif": os.path.join(out, "landuse_out.tif"),
         "sett": os.path.join(data, "settlement.shp"), "land": os.path.join(data, "landuse.shp"),
         "mask": os.path.join(data, "mask.shp"), "dem": os.path.join(data, "dem.tif")}
    f = (lambda x: os.path.relpath(x, start)) if sc["rel"] else (lambda x: x)
    p["text"] = {k: f(v) for k, v in p.items()}
    return p


def names(sc, att, kind):
    out = dict(att)
    if kind == "sett":
        out[sc["cat"]] = out.pop("TYPE")
    else:
        out[sc["use"]] = out.pop("LUSE")
    return out


def build(sc, root):
    import fiona
    p = paths(sc, root)
    for d in ("data", "start", "out"):
        os.makedirs(p[d])
    sch = {"sett": {"geometry": "Polygon", "properties": {sc["cat"]: "str:40"}},
           "land": {"geometry": "Polygon", "properties": {"ident": "int:9", sc["use"]: "str:40",
                                                          "area_f": "float:24.6", "note": "str:60"}},
           "mask": {"geometry": "Polygon", "properties": {"ident": "int:9"}}}
    sets = {"sett": sc["sett"], "land": sc["land"]}
    if sc["mask"]:
        sets["mask"] = [[{"type": "Polygon", "coordinates": [sc["mask"]]}, {"ident": 1}]]
    for k, fs in sets.items():
        with fiona.open(p[k], "w", driver="ESRI Shapefile", crs="EPSG:4326", schema=sch[k]) as dst:
            for g, att in fs:
                dst.write({"type": "Feature", "geometry": g, "properties": names(sc, att, k) if k != "mask" else att})
    d = sc["dem"]
    arr = np.arange(d["nx"] * d["ny"]).reshape(d["ny"], d["nx"]).astype(d["dt"])
    world.write_raster(p["dem"], arr, (d["x0"], d["px"], 0.0, d["y0"], 0.0, -d["px"]), world.wkt_of("geo"))
    t = p["text"]
    with open(p["cfg"], "w") as fh:
        fh.write("[Preprocessing]\nsettlement_data = %s\nsettlement_cat = %s\nland_use_data = %s\nland_use_cat = %s\n"
                 "crop_mask = %s\noutput_shapefile = %s\noutput_rasterized = %s\ninput_topo = %s\n"
                 "[inputValues]\ndem_data = %s\n" % (
                     t["sett"], sc["cat"], t["land"], sc["use"], t["mask"] if sc["mask"] else "None", t["shp"],
                     t["tif"], "True" if sc["topo"] == "True" else t["dem"], t["dem"]))
    return p


# ------------------------------------------------------------------ the oracle
def model(sc):
    """ident -> (geometry, own attributes, acceptable settlement types)."""
    from shapely.geometry import box, shape
    from shapely.ops import unary_union
    groups = {}
    for g, att in sc["sett"]:
        t = att["TYPE"] if att["TYPE"] in TYPES else None
        groups.setdefault(t, []).append(shape(g))
    areas = {t: unary_union(gs) for t, gs in groups.items()}
    crop = None
    if sc["mask"]:
        xs, ys = [c[0] for c in sc["mask"]], [c[1] for c in sc["mask"]]
        crop = box(min(xs), min(ys), max(xs), max(ys))
        areas = {t: crop.intersection(g) for t, g in areas.items()}
        areas = {t: g for t, g in areas.items() if g.area > 0}
    out = {}
    for g, att in sc["land"]:
        if g is None:
            continue
        geom = shape(g)
        if crop is not None:
            geom = crop.intersection(geom)
            if geom.area == 0:
                continue
        hits = [t for t, a in areas.items() if geom.intersects(a)]
        size = {t: geom.intersection(areas[t]).area for t in hits}
        top = max(size.values()) if hits else 0
        ok = [t for t in hits if size[t] >= top - 1e-9 * geom.area] or [None]
        if crop is not None and top == 0:
            ok.append(None)   # contact of no area may lie on the edge of the mask only
        out[att["ident"]] = (geom, names(sc, att, "land"), ok)
    return out


def same_value(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return a is not None and b is not None and abs(a - b) <= 1e-6 * max(1, abs(b))
    return (a or None) == (b or None)


def check_output(sc, p):
    import fiona
    from shapely import contains_xy
    from shapely.geometry import shape
    want = model(sc)
    try:
        with fiona.open(p["shp"]) as src:
            feats = [(None if f["geometry"] is None else shape(f["geometry"]), dict(f["properties"])) for f in src]
            fields = list(src.schema["properties"])
    except Exception as e:
        return ["the output shapefile cannot be read: %s" % e]
    bad = []
    for n in (sc["cat"], "CAT"):
        if want and n not in fields:
            return ["the output shapefile has no field %s" % n]
    seen = {}
    for g, att in feats:
        k = att.get("ident")
        if k not in want:
            bad.append("an output feature has ident %r, which no input feature with a geometry has" % (k,))
            continue
        if k in seen:
            bad.append("feature %r appears twice" % k)
            continue
        geom, own, ok = want[k]
        seen[k] = geom
        if g is None or g.symmetric_difference(geom).area > 1e-9 * max(geom.area, 1e-12) + 1e-12:
            bad.append("feature %r has another geometry" % k)
        for n, val in own.items():
            if n not in att or not same_value(att[n], val):
                bad.append("attribute %s of feature %r is %r instead of %r" % (n, k, att.get(n), val))
        t = att.get(sc["cat"]) or None
        if t not in ok:
            bad.append("feature %r has settlement type %r instead of %r" % (k, t, ok))
        elif att["CAT"] != 100 * TYPES.get(t, 0) + USES.get(own[sc["use"]], 0):
            bad.append("feature %r (%r, %r) has category %r" % (k, t, own[sc["use"]], att["CAT"]))
        seen[k] = (geom, att["CAT"])
    for k in want:
        if k not in seen:
            bad.append("feature %r is missing in the output" % k)
    if bad:
        return bad
    arr, gt, no = world_read(p["tif"])
    d = sc["dem"]
    if arr is None:
        return ["the rasterised map cannot be read: %s" % gt]
    if arr.shape != (d["ny"], d["nx"]) or not np.allclose(gt, (d["x0"], d["px"], 0, d["y0"], 0, -d["px"])):
        return ["the rasterised map is not on the grid of the elevation raster"]
    x = d["x0"] + (np.arange(d["nx"]) + 0.5) * d["px"]
    y = d["y0"] - (np.arange(d["ny"]) + 0.5) * d["px"]
    xx, yy = np.meshgrid(x, y)
    count = np.zeros(arr.shape, int)
    code = np.zeros(arr.shape, int)
    edge = np.zeros(arr.shape, bool)
    eps = 1e-7
    for geom, cat in seen.values():
        inside = contains_xy(geom.buffer(-eps), xx, yy)
        near = contains_xy(geom.buffer(eps), xx, yy) & ~inside
        edge |= near
        count += inside
        code = np.where(inside, cat, code)
    good = ~edge & (count <= 1)
    diff = good & (arr != np.where(count == 1, code, 0))
    if diff.any():
        r, c = [int(v[0]) for v in np.nonzero(diff)]
        return ["the rasterised map shows %d instead of %d at row %d, column %d" % (
            arr[r, c], code[r, c], r, c)]
    return []


def world_read(path):
    from osgeo import gdal
    gdal.DontUseExceptions()
    ds = gdal.Open(path) if os.path.isfile(path) else None
    if ds is None:
        return None, "no such raster", None
    arr = ds.ReadAsArray()
    if arr is None:
        return None, "no data", None
    return arr.astype(int), ds.GetGeoTransform(), ds.GetRasterBand(1).GetNoDataValue()


class Preprocess(FaultPlan):
    pid = "W19"
    shapefiles = True
    kinds = ("err", "mem", "fsize", "nofile")
    rule = ("generated settlement, land-use and mask shapefiles and elevation grids; up to 4 join threads with seeded "
            "schedules; storage, geometry, allocation and thread faults and kills at stratified operations, with torn outputs or "
            "outputs of other data left behind, then a repetition; non-trivial: a fault or kill fired, or several "
            "features; distinct: by world, fault and interleaving hash")
    components = ("real: pre_process.py, utilities/shapefiles.py, fiona, shapely, GDAL, concurrent.futures; stub: the lock "
                  "and thread-start primitives (_thread), clocks")

    def worlds(self, rng):
        return scenario(rng)

    def spec_of(self, rng):
        return {"n": 1, "mode": "serial", "script": "pre_process.py", "args": ["-c", "CFG"],
                "threads": {"preempt": rng.choice(["line", None, None]), "cpus": rng.choice([1, 2, 4])}}

    def ph_of(self, rng, spec):
        return {"spec": copy.deepcopy(spec), "faults": [], "dseed": rng.randrange(1 << 30),
                "policy": thread_policy(rng, 4, 400)}

    def go(self, b, p, ph, sc, **kw):
        q = dict(ph, spec=dict(ph["spec"], args=["-c", p["text"]["cfg"]]))
        r = b.phase(p, q, sc, **kw)
        ph["taken"] = q["taken"]
        return r

    def lists(self, sc):
        return [(sc["land"], 1)] + [(sc[k], 1) for k in ("sett",) if k in sc] + (
            [(sc["mask"], 1)] if sc["pre"] == 2 and sc["mask"] else [])

    def valid(self, sc):
        return any(g is not None for g, _ in sc["land"])

    def generate(self, b, rng, i):
        sc = self.worlds(rng)
        spec = self.spec_of(rng)
        ph = self.ph_of(rng, spec)
        p = b.setup(sc)
        lines = not spec.get("threads", {}).get("preempt")          # both need the trace function
        r = self.go(b, p, copy.deepcopy(ph), sc, calls=lines)
        out = [self.case(sc, [ph], stale=None)]
        if not r.success:
            return out
        ops = [o for o in trace_ops(r.events, tasks=True) if "multiplier" not in (o[3] or "")]
        for c in range(4):
            phases = []
            q = copy.deepcopy(ph)
            o = b.strata.pick(rng, ops)
            f = line_fault(rng, b.strata, r.calls, ops) if r.calls and rng.random() < 0.2 else None
            if f:
                pass
            elif rng.random() < 0.65:
                f = make_fault(rng, o, self.kinds + ("memline",) * lines, b.strata.used)
                if f["kind"] == "fsize" and rng.random() < 0.5:
                    f["limit"] = rng.choice([0, 32, 64, 100, 200, 400, 700])
            else:
                f = {"rank": o[0], "at": o[1], "op": o[2], "kind": "crash"}
                if len(o) > 4:
                    f["task"] = o[4]
            b.strata.hit(o, f)
            q["faults"] = [f]
            if f["kind"] == "crash":
                q["post_seed"] = rng.randrange(1 << 30)
            phases.append(q)
            if f["kind"] == "crash" or rng.random() < 0.5:
                phases.append(self.ph_of(rng, self.spec_of(rng)))
            out.append(self.case(sc, phases, stale=rng.choice([None, None, "other", "garbage"])))
        return out

    def execute(self, b, case):
        sc = case["sc"]
        stale = case["x"]["stale"]
        if stale == "other":
            o = dict(sc, land=sc["land"][::-1] + [[{"type": "Polygon", "coordinates": [rect(0, 0, 3, 3)]},
                                                  {"ident": 99, "LUSE": "Water", "area_f": 0.5, "note": "old"}]], mask=None)
            po = b.setup(o)
            r = self.go(b, po, {"spec": self.spec_of(random.Random(1)), "dseed": 0}, o)
            if r.success:
                copytree(po["out"], os.path.join(b.base, "pkeep"))
            else:
                stale = None
        p = b.setup(sc)
        if stale == "other":
            copytree(os.path.join(b.base, "pkeep"), p["out"])
        elif stale == "garbage":
            for f in (p["shp"], p["tif"], p["shp"][:-4] + ".dbf"):
                with open(f, "wb") as fh:
                    fh.write(random.Random(sc["seed"]).randbytes(700))
        before = content(p["data"])
        bad_old = stale == "garbage"
        v = []
        fired = 0
        for ph in case["phases"]:
            r = self.go(b, p, ph, sc)
            fired += len(r.fired)
            where = " (with %s)" % ", ".join(fault_name(f) for f in r.fired) if r.fired else ""
            if r.end in ("deadlock", "step-limit"):
                return not_finished(r, "pre-processing%s" % where)
            after = content(p["data"])
            gone = sorted(k for k in before if before[k] != after.get(k))
            if gone:
                v.append(V("inputs", "pre-processing%s changes %s" % (where, gone[0])))
                break
            b.stats["pre:" + ("success" if r.success else str(r.end))] += 1
            if r.end == "crash":
                if "post" not in ph:
                    ph["post"] = torn(random.Random(ph["post_seed"]), b.ctx.run, p["out"])
                apply_edits(b.ctx.run, ph["post"])
                bad_old = True
                continue
            if r.success:
                v += [V("output", "pre-processing%s ends normally, but %s" % (where, t)) for t in check_output(sc, p)[:2]]
            elif bad_old:
                b.stats["refuses damaged old outputs"] += 1
            elif not r.fired:
                v.append(V("fails", "pre-processing fails: %s" % last_line(r)))
            bad_old = bad_old or bool(r.fired)
            if v:
                break
        b.nontrivial = bool(fired) or len(sc["land"]) > 1
        return v[:4]


def torn(rng, root, out):
    edits = []
    for f in sorted(os.listdir(out)):
        full = os.path.join(out, f)
        if os.path.isfile(full) and rng.random() < 0.5:
            size = os.path.getsize(full)
            edits.append([os.path.relpath(full, root), rng.choice(["trunc", "empty", "garbage", "gone", "zeros"]),
                          rng.randrange(size) if size else 0])
    return edits


def content(d):
    out = {}
    for f in sorted(os.listdir(d)):
        with open(os.path.join(d, f), "rb") as fh:
            out[f] = fh.read()
    return out


PLANS = {"W19": Preprocess}
