"""W20: the category map of a shapefile on the grid of an elevation raster (rasterize.py)."""
import copy
import os
import random

import numpy as np

from . import world
from .bench import fault_name
from .join import polygon, rect
from .plans import V, apply_edits, last_line, not_finished
from .preproc import Preprocess, content, torn, world_read
from .runjob import copytree


def scenario(rng):
    step = rng.choice([1.0, 0.25])
    span = rng.choice([4, 7, 10])
    feats = []
    for k in range(rng.choice([1, 2, 3, 4, 6, 9])):
        g = polygon(rng, span, step) if rng.random() < 0.92 else None
        feats.append([g, {"ident": k + 1, "CAT": rng.choice([0, 1, 11, 205, 511, 307, 60000])}])
    if all(g is None for g, _ in feats):
        feats[0][0] = polygon(rng, span, step)
    px = rng.choice([0.25, 0.5, 0.4]) * step
    d = {"x0": rng.choice([-1.25, 0.5]) * step, "y0": (span + rng.choice([0.25, 4])) * step, "px": px,
         "nx": rng.choice([5, 20, 40, 70]), "ny": rng.choice([4, 16, 40, 70]), "dt": rng.choice(["f4", "i2"]),
         "void": rng.choice([0, 0, 0.1, 0.6])}
    mask = None
    if rng.random() < 0.65:
        mask = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            # in cells of the raster, at least four wide
            w, h = [rng.randrange(4, max(5, n)) for n in (d["nx"], d["ny"])]
            c, r = rng.randrange(0, d["nx"] - w + 1), rng.randrange(0, d["ny"] - h + 1)
            kind = rng.choice(["rect", "rect", "tri", "five"])
            # GDAL drops slanted masks whose corners coincide with those of the raster but for rounding
            s = rng.choice([0, 0, 0.2]) if kind == "rect" else 0.2
            x1, y1 = d["x0"] + (c + s) * px, d["y0"] - (r + s) * px
            x2, y2 = d["x0"] + (c + w - s) * px, d["y0"] - (r + h - s) * px
            if kind == "rect":
                ring = rect(x1, y2, x2 - x1, y1 - y2)
            elif kind == "tri":
                ring = [[x1, y2], [x1, y1], [x2, y2], [x1, y2]]
            else:
                ring = [[x1, y2], [x1, y1], [(x1 + x2) / 2, y1], [x2, (y1 + 2 * y2) / 3], [x2, y2], [x1, y2]]
            if not any(overlap(ring, m) for m in mask):      # GDAL wants a valid cutline
                mask.append(ring)
    return {"pre": 2, "seed": rng.randrange(1 << 30), "land": feats, "mask": mask, "dem": d, "rel": rng.random() < 0.4,
            "topo": rng.choice(["dem.tif", "dem.tif", "d.e m/dem.v1.tif", "dem"])}


def overlap(a, b):
    return all(min(p[k] for p in a) <= max(p[k] for p in b) and min(p[k] for p in b) <= max(p[k] for p in a)
               for k in (0, 1))


def paths(sc, root):
    data, start = os.path.join(root, "data"), os.path.join(root, "work")
    p = {"start": start, "data": data, "out": start, "cfg": os.path.join(data, "none.cfg"),
         "shp": os.path.join(data, "merged.shp"), "mask": os.path.join(data, "mask.shp"),
         "topodir": os.path.dirname(os.path.join(root, "topo", sc["topo"])),
         "topo": os.path.join(root, "topo", sc["topo"])}
    stem, ext = os.path.splitext(p["topo"])
    p["topo_crop"] = stem + "_crop" + ext
    p["tif"], p["tif_crop"] = os.path.join(start, "test.tiff"), os.path.join(start, "test_crop.tiff")
    f = (lambda x: os.path.relpath(x, start)) if sc["rel"] else (lambda x: x)
    p["text"] = {k: f(v) for k, v in p.items()}
    return p


def build(sc, root):
    import fiona
    p = paths(sc, root)
    for d in ("data", "start", "topodir"):
        os.makedirs(p[d])
    sets = {"shp": sc["land"]}
    if sc["mask"]:
        sets["mask"] = [[{"type": "Polygon", "coordinates": [m]}, {"ident": k}] for k, m in enumerate(sc["mask"])]
    for k, fs in sets.items():
        sch = {"geometry": "Polygon", "properties": {"ident": "int:9"}}
        if k == "shp":
            sch["properties"]["CAT"] = "int:9"
        with fiona.open(p[k], "w", driver="ESRI Shapefile", crs="EPSG:4326", schema=sch) as dst:
            for g, att in fs:
                dst.write({"type": "Feature", "geometry": g, "properties": att})
    d = sc["dem"]
    world.write_raster(p["topo"], heights(sc), (d["x0"], d["px"], 0.0, d["y0"], 0.0, -d["px"]), world.wkt_of("geo"),
                       nodata=-9999 if d.get("void") else None)
    return p


def heights(sc):
    d = sc["dem"]
    h = np.arange(d["nx"] * d["ny"]).reshape(d["ny"], d["nx"]) + 1
    if d.get("void"):                            # cells without data
        h = np.where(np.random.default_rng(sc["seed"]).random(h.shape) < d["void"], -9999, h)
    return h.astype(d["dt"])


# ------------------------------------------------------------------ the oracle
def grid_of(sc, gt, shape):
    """Row and column of the elevation raster that the corner of a cropped grid lies on; None if it is another grid."""
    d = sc["dem"]
    c, r = (gt[0] - d["x0"]) / d["px"], (d["y0"] - gt[3]) / d["px"]
    if not np.allclose((gt[1], gt[5]), (d["px"], -d["px"]), rtol=1e-9) or gt[2] or gt[4]:
        return None
    if abs(c - round(c)) > 1e-6 or abs(r - round(r)) > 1e-6:
        return None
    xs = [x for m in sc["mask"] for x, _ in m]
    ys = [y for m in sc["mask"] for _, y in m]
    want = (min(xs), max(ys), max(xs), min(ys))
    have = (gt[0], gt[3], gt[0] + shape[1] * gt[1], gt[3] + shape[0] * gt[5])
    if any(abs(a - b) > 1.01 * d["px"] for a, b in zip(want, have)):
        return None
    return int(round(r)), int(round(c))


def inside(geoms, xx, yy, eps=1e-7):
    """(surely inside any, on an edge of any, how many contain it) per point."""
    from shapely import contains_xy
    edge, count = np.zeros(xx.shape, bool), np.zeros(xx.shape, int)
    for g in geoms:
        full = contains_xy(g.buffer(-eps), xx, yy)
        edge |= contains_xy(g.buffer(eps), xx, yy) & ~full
        count += full
    return count > 0, edge, count


def centres(gt, shape):
    x = gt[0] + (np.arange(shape[1]) + 0.5) * gt[1]
    y = gt[3] + (np.arange(shape[0]) + 0.5) * gt[5]
    return np.meshgrid(x, y)


def first(diff):
    return "row %d, column %d" % tuple(int(v[0]) for v in np.nonzero(diff))


def codes(sc, gt, shape):
    """Category of each cell and where it is certain."""
    from shapely.geometry import shape as geometry
    xx, yy = centres(gt, shape)
    code = np.zeros(shape, int)
    count = np.zeros(shape, int)
    edge = np.zeros(shape, bool)
    for g, att in sc["land"]:
        if g is not None:
            full, e, _ = inside([geometry(g)], xx, yy)
            code = np.where(full, att["CAT"], code)
            count += full
            edge |= e
    return code, ~edge & (count <= 1)


def check_output(sc, p):
    from shapely.geometry import Polygon
    d = sc["dem"]
    arr, gt, _ = world_read(p["tif"])
    if arr is None:
        return ["test.tiff cannot be read: %s" % gt]
    topo = heights(sc).astype(int)
    topo[topo == -9999] = 0
    for k in ("tif",) + (("topo_crop", "tif_crop") if sc["mask"] else ()):
        got = world_read(p[k])
        if got[0] is not None and got[2] != 0:
            return ["%s does not mark 0 as no data" % os.path.basename(p[k])]
    if sc["mask"]:
        small, tgt, _ = world_read(p["topo_crop"])
        if small is None:
            return ["the cropped elevation raster cannot be read: %s" % tgt]
        at = grid_of(sc, tgt, small.shape)
        if at is None:
            return ["the cropped elevation raster does not lie on the cells of the elevation raster under the mask"]
        part = np.zeros(small.shape, int)
        r0, c0 = at
        rows = [r for r in range(small.shape[0]) if 0 <= r + r0 < d["ny"]]
        cols = [c for c in range(small.shape[1]) if 0 <= c + c0 < d["nx"]]
        if rows and cols:
            part[rows[0]:rows[-1] + 1, cols[0]:cols[-1] + 1] = topo[rows[0] + r0:rows[-1] + r0 + 1,
                                                                    cols[0] + c0:cols[-1] + c0 + 1]
        xx, yy = centres(tgt, small.shape)
        full, edge, _ = inside([Polygon(m) for m in sc["mask"]], xx, yy, 0.75 * d["px"])   # GDAL's own rounding
        diff = ~edge & (small != np.where(full, part, 0))
        if diff.any():
            return ["the cropped elevation raster is wrong at %s" % first(diff)]
        want = tgt, small.shape
    else:
        want = (d["x0"], d["px"], 0, d["y0"], 0, -d["px"]), topo.shape
    if arr.shape != want[1] or not np.allclose(gt, want[0]):
        return ["test.tiff is not on the grid of the %selevation raster" % ("cropped " if sc["mask"] else "")]
    code, sure = codes(sc, want[0], want[1])
    diff = sure & (arr != code)
    if diff.any():
        return ["test.tiff is wrong at %s" % first(diff)]
    if sc["mask"]:
        crop, cgt, _ = world_read(p["tif_crop"])
        if crop is None:
            return ["test_crop.tiff cannot be read: %s" % cgt]
        if crop.shape != arr.shape or not np.allclose(cgt, gt):
            return ["test_crop.tiff is not on the grid of the cropped elevation raster"]
        diff = ~edge & (crop != np.where(full, arr, 0))
        if diff.any():
            return ["test_crop.tiff is wrong at %s" % first(diff)]
    return []


def inputs(p):
    out = {"data/" + k: v for k, v in content(p["data"]).items()}
    crop = os.path.basename(p["topo_crop"])
    out.update({"topo/" + k: v for k, v in content(p["topodir"]).items() if not k.startswith(crop)})
    return out


class Rasterize(Preprocess):
    pid = "W20"
    rule = ("generated shapefiles with categories, elevation grids and masks of several shapes; storage faults and kills at "
            "stratified operations, with torn outputs or outputs of other data left behind, then a repetition; "
            "non-trivial: a fault or kill fired, or several features; distinct: by world, fault and interleaving hash")
    components = ("real: rasterize.py, pre_process.rasterize, utilities/shapefiles.py, fiona, GDAL (rasterising, warping, "
                  "GeoTIFF); stub: clocks")

    def spec_of(self, rng):
        return {"n": 1, "mode": "serial", "script": "rasterize.py", "args": []}

    def ph_of(self, rng, spec):
        return {"spec": copy.deepcopy(spec), "faults": [], "dseed": rng.randrange(1 << 30)}

    def worlds(self, rng):
        return scenario(rng)

    def go(self, b, p, ph, sc, **kw):
        t = p["text"]
        args = ["-i", t["shp"], "-t", t["topo"]] + (["-c", t["mask"]] if sc["mask"] else [])
        q = dict(ph, spec=dict(ph["spec"], args=args))
        r = b.phase(p, q, sc, **kw)
        ph["taken"] = q["taken"]
        return r

    def execute(self, b, case):
        sc = case["sc"]
        stale = case["x"]["stale"]
        keep = {}
        if stale == "other":
            o = dict(sc, mask=[rect(sc["dem"]["x0"], sc["dem"]["y0"] - 3 * sc["dem"]["px"], 3 * sc["dem"]["px"],
                                    3 * sc["dem"]["px"])],
                     land=[[{"type": "Polygon", "coordinates": [rect(-50, -50, 100, 100)]}, {"ident": 1, "CAT": 99}]])
            po = b.setup(o)
            r = self.go(b, po, {"spec": self.spec_of(None), "dseed": 0}, o)
            if r.success:
                for k in ("tif", "tif_crop", "topo_crop"):
                    with open(po[k], "rb") as fh:
                        keep[k] = fh.read()
        p = b.setup(sc)
        if stale == "garbage":
            for k in ("tif", "tif_crop", "topo_crop"):
                keep[k] = random.Random(sc["seed"]).randbytes(700)
        for k, data in keep.items():
            with open(p[k], "wb") as fh:
                fh.write(data)
        before = inputs(p)
        bad_old = stale == "garbage"
        v = []
        fired = 0
        for ph in case["phases"]:
            r = self.go(b, p, ph, sc)
            fired += len(r.fired)
            where = " (with %s)" % ", ".join(fault_name(f) for f in r.fired) if r.fired else ""
            if r.end in ("deadlock", "step-limit"):
                return not_finished(r, "rasterising%s" % where)
            after = inputs(p)
            changed = sorted(k for k in before if before[k] != after.get(k)) + sorted(k for k in after if k not in before)
            if changed:
                v.append(V("inputs", "rasterising%s changes %s" % (where, changed[0])))
                break
            b.stats["raster:" + ("success" if r.success else str(r.end))] += 1
            if r.end == "crash":
                if "post" not in ph:
                    rng = random.Random(ph["post_seed"])
                    ph["post"] = torn(rng, b.ctx.run, p["out"])
                    ph["post"] += [e for e in torn(rng, b.ctx.run, p["topodir"])
                                   if os.path.basename(e[0]).startswith(os.path.basename(p["topo_crop"]))]
                apply_edits(b.ctx.run, ph["post"])
                bad_old = True
                continue
            if r.success:
                v += [V("output", "rasterising%s ends normally, but %s" % (where, t)) for t in check_output(sc, p)[:2]]
            elif bad_old:
                b.stats["refuses damaged old outputs"] += 1
            elif not r.fired:
                v.append(V("fails", "rasterising fails: %s" % last_line(r)))
            bad_old = bad_old or bool(r.fired)
            if v:
                break
        b.nontrivial = bool(fired) or len(sc["land"]) > 1
        return v[:4]


PLANS = {"W20": Rasterize}
