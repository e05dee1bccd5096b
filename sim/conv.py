"""Worlds and plans of the stand-alone conversion: directories of layers written by the harness."""
import copy
import os
import random

from . import oracle, seams, world
from .bench import fault_name, make_fault, path_class, random_spec, trace_ops
from .plans import (FaultPlan, V, apply_edits, diff_violations, make_edits, not_finished, short, texts)
from .runjob import clear, copytree
from .world import DIRS8, SUBDIRS, TYPES

VARS = {"ms": "Ms", "mz": "Mz", "mt": "Mt"}
ALL = [(u, d) for u in ("ms", "mz", "mt") for d in DIRS8]


def scenario(rng, many=False):
    px = rng.choice([0.1, 0.25, 0.00025, 0.5])
    py = px if rng.random() < 0.7 else 2 * px
    ncol, nrow = rng.choice([(0, 0), (1, 1), (1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (3, 2), (1, 4), (5, 1)])
    sizes = [1, 1, 2, 3, 4, 5, 7]
    if rng.random() < 0.2:
        sizes = rng.choice([[1, 5, 9, 16], [8, 9, 12, 33], [12, 30, 70], [3, 300]])
    elif many and rng.random() < 0.02:
        ncol, nrow = rng.choice([(9, 8), (13, 6), (70, 1)])
        sizes = [1, 2]
    size = lambda: rng.choice(sizes)
    cols, rows = [size() for _ in range(ncol)], [size() for _ in range(nrow)]
    x0, y0 = rng.choice([140.0, 9.5, 113.25, 151.0]), rng.choice([-20.0, -9.75, -41.0, 3.0])
    while x0 + sum(cols) * px > 179 or y0 - sum(rows) * py < -89:      # GDAL moves longitudes beyond 180 degrees
        px, py = px / 2, py / 2
    tiles = [[i, j] for i in range(ncol) for j in range(nrow)]
    if len(tiles) > 1 and rng.random() < 0.25:
        tiles.pop(rng.randrange(len(tiles)))
    sc = {"conv": 1, "seed": rng.randrange(1 << 30), "px": px, "py": py, "x0": x0, "y0": y0, "cols": cols,
          "rows": rows, "tiles": tiles, "nan": rng.choice([0, 0, 0.1, 0.5]), "fill": rng.choice([0, 0, 0.1, 0.4]),
          "low": rng.choice([0, 0, 0, 0.1]),
          "blank": [], "names": rng.choice(["grid", "grid", "grid", "odd"]),
          "layout": {"base": rng.choice(["out", "res/a.b/x y", "o_1/d_2", "shielding_ms_n.nc/M3"]), "rel": rng.random() < 0.3,
                     "slash": rng.random() < 0.2, "bystanders": rng.random() < 0.3}}
    for t in range(len(tiles)):
        if rng.random() < 0.15:
            u, d = rng.choice(ALL)
            sc["blank"].append([t, u, d, rng.choice(["nan", "fill"])])
        elif rng.random() < 0.08:
            sc["blank"].append([t, "*", "*", rng.choice(["nan", "fill"])])
    return sc


def tile_names(sc):
    out = []
    for k, (i, j) in enumerate(sc["tiles"]):
        x = sc["x0"] + sum(sc["cols"][:i]) * sc["px"]
        y = sc["y0"] - sum(sc["rows"][:j]) * sc["py"]
        if sc["names"] == "odd":
            out.append("T%d.%s-x" % (k, "ab c"[k % 4]))
        else:
            out.append("%s%.4f%s%.4f" % ("ew"[x < 0], abs(x), "ns"[y < 0], abs(y)))
    return out


def paths(sc, root):
    start = os.path.join(root, "work")
    base = os.path.join(root, sc["layout"]["base"])
    arg = os.path.relpath(base, start) if sc["layout"]["rel"] else base
    if sc["layout"]["slash"]:
        arg += "/"
    return {"start": start, "out": base, "arg": arg, "text": {"cfg": "-"}}


def write_layer(path, u, d, vals, lon, lat, px, py):
    import numpy as np
    Base = seams.REAL["netCDF4.Dataset"]
    with Base(path, "w", format="NETCDF3_CLASSIC") as ds:
        for n, v, unit, std in (("lat", lat, "degrees_north", "latitude"), ("lon", lon, "degrees_east", "longitude")):
            ds.createDimension(n, len(v))
            x = ds.createVariable(n, "f8", (n,))
            x.units, x.standard_name, x.long_name = unit, std, std.capitalize()
            x[:] = v
        x = ds.createVariable(VARS[u], "f4", ("lat", "lon"), fill_value=-9999)
        x.grid_mapping = "crs"
        x[:] = vals.astype("f4")
        c = ds.createVariable("crs", "i4", ())
        c.grid_mapping_name = "latitude_longitude"
        c.semi_major_axis, c.inverse_flattening, c.longitude_of_prime_meridian = 6378137.0, 298.257222101, 0.0
        c.spatial_ref = world.wkt_of("geo")
        c.GeoTransform = " ".join(str(float(v)) for v in (lon[0] - px / 2, px, 0.0, lat[0] + py / 2, 0.0, -py))
        ds.title = "layer"


def build(sc, root):
    import numpy as np
    p = paths(sc, root)
    os.makedirs(p["start"], exist_ok=True)
    rng = np.random.default_rng(sc["seed"])
    for folder in TYPES:
        os.makedirs(os.path.join(p["out"], folder), exist_ok=True)
    names = tile_names(sc)
    for k, (i, j) in enumerate(sc["tiles"]):
        nx, ny = sc["cols"][i], sc["rows"][j]
        lon = sc["x0"] + (sum(sc["cols"][:i]) + np.arange(nx) + 0.5) * sc["px"]
        lat = sc["y0"] - (sum(sc["rows"][:j]) + np.arange(ny) + 0.5) * sc["py"]
        for folder, u in TYPES.items():
            for d in DIRS8:
                v = rng.uniform(0.5, 2.0, (ny, nx))
                if sc.get("low"):
                    v[rng.random((ny, nx)) < sc["low"]] = 0.0
                    v[rng.random((ny, nx)) < sc["low"] / 4] = -0.5
                v[rng.random((ny, nx)) < sc["nan"]] = np.nan
                v[rng.random((ny, nx)) < sc["fill"]] = -9999
                for t, bu, bd, how in sc["blank"]:
                    if t == k and bu in ("*", u) and bd in ("*", d):
                        v[:] = np.nan if how == "nan" else -9999
                write_layer(os.path.join(p["out"], folder, "%s_%s_%s.nc" % (names[k], u, d)), u, d, v, lon, lat,
                            sc["px"], sc["py"])
    if sc["layout"]["bystanders"]:
        for f in ("keep.txt", "M3.bak", "terrain2/a.nc"):
            f = os.path.join(p["out"], f)
            os.makedirs(os.path.dirname(f), exist_ok=True)
            with open(f, "w") as fh:
                fh.write("somebody else's\n")
    return p


class ConvPlan(FaultPlan):
    components = ("real: utilities/mpi_runner.py, convert.py, parallel.py, GDAL; stub: MPI transport (simulated); the "
                  "layers are written by the harness")

    def conv_spec(self, rng, sc, **kw):
        spec = random_spec(rng, ntiles=max(1, len(sc["tiles"])), clocks=False, **kw)
        if rng.random() < 0.25 and spec["mode"] == "mpi":
            spec["n"] = min(8, len(sc["tiles"]) + rng.choice([0, 1, 2, 3]) or 1)
        spec["script"] = "utilities/mpi_runner.py"
        return spec

    def convert(self, b, p, ph, **kw):
        ph["spec"]["args"] = ["-p", p["arg"]]
        return b.phase(p, ph, **kw)

    def layers_state(self, b, p):
        rel = os.path.relpath(p["out"], b.ctx.run)
        return oracle.tree_state(b.ctx.run, [rel + "/M3", rel + "/M3_max"])

    def unchanged(self, b, p, before):
        after = self.layers_state(b, p)
        v = []
        for f in sorted(set(before) | set(after)):
            if before.get(f) != after.get(f):
                v.append(V("layers", "%s %s" % (f, "is gone" if f not in after else "appeared" if f not in before
                                                else "changed")))
        return v[:3]


# ------------------------------------------------------------------ W07
class Combined(ConvPlan):
    pid = "W07"
    rule = ("0-6 tiles of any shape with random values, NaN, fill values and blank layers, converted by 1-8 processes "
            "(also more than tiles) under random schedules and directory orders; also the rasters of whole runs; "
            "non-trivial: at least one tile; distinct: by world and interleaving hash")

    def generate(self, b, rng, i):
        if i % 6 == 5:
            sc = world.scenario(rng, rng.choice(["tiny", "small"]))
            return [self.case(sc, [self.ph(rng, self.spec(rng, sc))])]
        sc = scenario(rng, many=True)
        return [self.case(sc, [self.ph(rng, self.conv_spec(rng, sc))]) for _ in range(2)]

    def execute(self, b, case):
        sc = case["sc"]
        p = b.setup(sc)
        ph = case["phases"][0]
        if not sc.get("conv"):
            r = b.phase(p, ph)
            v = not_finished(r)
            b.nontrivial = bool(oracle.tiles_of(p["out"]))
            return v or texts("raster", oracle.check_conversion(p["out"]))
        before = self.layers_state(b, p)
        r = self.convert(b, p, ph)
        b.nontrivial = bool(sc["tiles"])
        v = not_finished(r, "conversion")
        if v:
            return v
        v = self.unchanged(b, p, before)
        return v + texts("raster", oracle.check_conversion(p["out"], tiles=sorted(tile_names(sc))))


# ------------------------------------------------------------------ W08
HOWS = ("gone", "gone", "empty", "garbage", "dir", "locked", "head", "text")


def damage(path, how, seed):
    if how == "locked":
        os.chmod(path, 0)
        return
    if how == "gone" or how == "dir":
        os.remove(path)
        if how == "dir":
            os.mkdir(path)
        return
    data = {"empty": b"", "garbage": random.Random(seed).randbytes(700), "head": b"CDF\x01\0\0",
            "text": b"this is not a NetCDF file\n"}[how]
    with open(path, "wb") as fh:
        fh.write(data)


class MissingLayers(ConvPlan):
    pid = "W08"
    rule = ("any set of layers missing, empty, unreadable, garbage or a directory, or failing to open while the "
            "conversion runs; 1-8 processes; non-trivial: at least one layer missing; distinct: by world, set and "
            "interleaving hash")

    def generate(self, b, rng, i):
        while True:
            sc = scenario(rng)
            if sc["tiles"]:
                break
        ph = self.ph(rng, self.conv_spec(rng, sc))
        out = []
        n = len(sc["tiles"])
        for _ in range(2):
            miss = []
            how = rng.choice(["one", "few", "dir", "direction", "random", "tile"])
            for k in range(n):
                if how == "one":
                    sel = [rng.choice(ALL)] if k == n - 1 else []
                elif how == "few":
                    sel = rng.sample(ALL, 3)
                elif how == "dir":
                    sel = [x for x in ALL if x[0] == ("mz", "mt")[sc["seed"] % 2]]
                elif how == "direction":
                    d = rng.choice(DIRS8)
                    sel = [x for x in ALL if x[1] == d]
                elif how == "tile":
                    sel = [x for x in ALL if x != ("ms", "n")] if k == 0 else []
                else:
                    sel = [x for x in ALL if rng.random() < 0.3]
                for u, d in sel:
                    if (u, d) == ("ms", "n") and rng.random() < 0.8:
                        continue
                    miss.append([k, u, d, rng.choice(HOWS)])
            out.append(self.case(sc, [copy.deepcopy(ph)], miss=miss, nodirs=[]))
        gone = rng.choice([["terrain"], ["topographic"], ["terrain", "topographic"]])
        out.append(self.case(sc, [copy.deepcopy(ph)], miss=[], nodirs=gone))
        p = b.setup(sc)
        r = self.convert(b, p, copy.deepcopy(ph))
        if r.success:
            ops = [o for o in trace_ops(r.events) if o[2] in ("gdal.Open", "nc.open:r", "open:r") and
                   o[3] is not None and o[3].endswith(".nc")]
            for _ in range(2):
                q = copy.deepcopy(ph)
                q["faults"] = []
                for o in rng.sample(ops, min(len(ops), rng.choice([1, 1, 2, 4]))):
                    q["faults"].append({"rank": o[0], "at": o[1], "op": o[2], "kind": "err",
                                        "errno": rng.choice(["EIO", "EACCES", "ENOENT", "EMFILE", "ESTALE"])})
                out.append(self.case(sc, [q], miss=[], nodirs=[]))
        return out

    def execute(self, b, case):
        sc, x = case["sc"], case["x"]
        p = b.setup(sc)
        ph = case["phases"][0]
        names = tile_names(sc)
        bad, files = {}, []
        for folder in x["nodirs"]:
            for k, t in enumerate(names):
                for d in DIRS8:
                    bad.setdefault(t, set()).add((TYPES[folder], d))
                    files.append((t, "%s_%s_%s.nc" % (t, TYPES[folder], d)))
            clear(os.path.join(p["out"], folder))
        inv = {u: f for f, u in TYPES.items()}
        template = set()
        for k, u, d, how in x["miss"]:
            t = names[k]
            f = "%s_%s_%s.nc" % (t, u, d)
            damage(os.path.join(p["out"], inv[u], f), how, sc["seed"] + k)
            if (u, d) == ("ms", "n"):
                template.add(t)
                if how == "gone":
                    pass
            bad.setdefault(t, set()).add((u, d))
            files.append((t, f))
        r = self.convert(b, p, ph)
        for k, u, d, how in x["miss"]:
            f = os.path.join(p["out"], inv[u], "%s_%s_%s.nc" % (names[k], u, d))
            if how == "locked" and os.path.isfile(f):
                os.chmod(f, 0o644)
        hit = []
        for f in r.fired:
            m = oracle.LAYER.match(os.path.basename(f["path"] or ""))
            if m:
                hit.append((m.group("tile"), m.group("u"), m.group("d")))
                files.append((m.group("tile"), os.path.basename(f["path"])))
        b.nontrivial = bool(files)
        b.stats["layers_missing"] += len(files)
        says = "\n".join(t for lst in r.log_errors.values() for t in lst)
        # a tile whose northern shielding layer is gone altogether and of which no other shielding layer remains
        # is not known to the conversion
        left = {oracle.LAYER.match(n).group("tile") for n in os.listdir(os.path.join(p["out"], "shielding"))
                if oracle.LAYER.match(n)}
        template &= left
        if r.end in ("deadlock", "step-limit"):
            return [V(r.end, "conversion ends in %s; waiting: %s" % (r.end, short(str(r.blocked))))]
        for t in template:
            if r.success:
                return [V("published", "the northern shielding layer of %s cannot be read and the conversion "
                                       "succeeds" % t)]
            if os.path.exists(os.path.join(p["out"], "M3", t + ".tif")):
                return [V("published", "a raster of %s is published although its northern shielding layer cannot be "
                                       "read" % t)]
        if template:
            return []
        if not r.success:
            if any(h[1:] == ("ms", "n") for h in hit):
                # the first read of a northern shielding layer may have been hit: a failure is right
                return []
            return not_finished(r, "conversion with missing layers")
        v = []
        for t, f in files:
            if t in left and f not in says:
                v.append(V("silent", "no error names the layer %s, which cannot be opened" % f))
                break
        for t, u, d in hit:
            bad.setdefault(t, set()).add((u, d))
        for t in sorted(left):
            got = oracle.check_combined(p["out"], t, bad.get(t, set()))
            v += [V("combined", "layers %s of this tile count as ones: %s" % (sorted(bad.get(t, ()))[:4], g))
                  for g in got[:2]]
        v += texts("mosaic", oracle.check_mosaics(p["out"], sorted(left)))
        return v[:5]


# ------------------------------------------------------------------ W09
class Repeat(ConvPlan):
    pid = "W09"
    rule = ("conversions repeated 1-4 times with other process counts and schedules, after conversions killed at "
            "stratified operations (rasters and mosaics left torn, empty or garbage), over rasters and mosaics of other "
            "layers or of tiles that are gone, with missing output directories; non-trivial: an earlier conversion left something; distinct: by "
            "history and interleaving hash")

    def generate(self, b, rng, i):
        while True:
            sc = scenario(rng)
            if sc["tiles"]:
                break
        ph = self.ph(rng, self.conv_spec(rng, sc))
        p = b.setup(sc)
        r = self.convert(b, p, copy.deepcopy(ph))
        out = []
        if not r.success:
            return [self.case(sc, [ph], stale=None)]
        ops = trace_ops(r.events)
        for _ in range(4):
            phases = []
            for c in range(rng.choice([0, 1, 1, 2, 3])):
                q = copy.deepcopy(ph)
                if rng.random() < 0.75:
                    if c == 0:
                        o = b.strata.pick(rng, ops)
                    else:
                        o = rng.choice(ops)
                    q["faults"] = [{"rank": o[0], "at": o[1], "op": o[2], "kind": rng.choice(["crash", "killrank"])}]
                    if rng.random() < 0.3:
                        q["faults"] = [make_fault(rng, o, FaultPlan.kinds, b.strata.used if c == 0 else None)]
                    if c == 0:
                        b.strata.hit(o, q["faults"][0])
                else:
                    q = self.ph(rng, self.conv_spec(rng, sc))
                q["post_seed"] = rng.randrange(1 << 30) if rng.random() < 0.75 else None
                phases.append(q)
            stale = rng.choice([None, None, "other", "other", "nodirs", "garbage", "vrt", "onedir", "sidecar", "tile"])
            if not phases and stale is None:
                stale = "other"
            phases.append(self.ph(rng, self.conv_spec(rng, sc)))
            out.append(self.case(sc, phases, stale=stale))
        return out

    def execute(self, b, case):
        sc, stale = case["sc"], case["x"]["stale"]
        names = tile_names(sc)
        old = set()
        p = b.setup(sc)
        rel = os.path.relpath(p["out"], b.ctx.run)
        m3 = [os.path.join(p["out"], s) for s in ("M3", "M3_max")]
        # a clean conversion
        r = self.convert(b, p, {"spec": {"n": 1, "mode": "serial", "script": "utilities/mpi_runner.py"}, "dseed": 0})
        v = not_finished(r, "conversion")
        if v:
            return v
        ref = os.path.join(b.base, "cref")
        clear(ref)
        os.mkdir(ref)
        for d in m3:
            copytree(d, os.path.join(ref, os.path.basename(d)))
        p = b.setup(sc)
        if stale == "other":
            o = dict(sc, seed=sc["seed"] + 1, nan=0, fill=0, blank=[])
            keep = os.path.join(b.base, "ckeep")
            po = b.setup(o)
            r = self.convert(b, po, {"spec": {"n": 1, "mode": "serial", "script": "utilities/mpi_runner.py"},
                                     "dseed": 0})
            clear(keep)
            os.mkdir(keep)
            for d in m3:
                if os.path.isdir(d):
                    copytree(d, os.path.join(keep, os.path.basename(d)))
            p = b.setup(sc)
            for d in m3:
                if os.path.isdir(os.path.join(keep, os.path.basename(d))):
                    copytree(os.path.join(keep, os.path.basename(d)), d)
        elif stale in ("garbage", "vrt", "sidecar", "onedir"):
            os.mkdir(m3[0])
            if stale != "onedir":
                os.mkdir(m3[1])
            for d in m3[:1 if stale == "onedir" else 2]:
                files = {"garbage": [n + ".tif" for n in names] + ["wind-multipliers.vrt"],
                         "vrt": ["wind-multipliers.vrt"], "onedir": [names[0] + ".tif"],
                         "sidecar": []}[stale]
                for f in files:
                    with open(os.path.join(d, f), "wb") as fh:
                        fh.write(random.Random(sc["seed"]).randbytes(300) if stale == "garbage" else
                                 b"<VRTDataset rasterXSize=\"3\" rasterYSize=\"3\"/>" if f.endswith("vrt") else b"")
        if stale == "tile":                      # rasters of a tile whose layers are gone
            o = scenario(random.Random(sc["seed"]))
            o = dict(o, x0=sc["x0"] + 5, y0=sc["y0"], layout=dict(sc["layout"], bystanders=False), tiles=[[0, 0]],
                     cols=[2], rows=[3], names="grid", blank=[], px=0.25, py=0.25)
            po = b.setup(o)
            self.convert(b, po, {"spec": {"n": 1, "mode": "serial", "script": "utilities/mpi_runner.py"}, "dseed": 0})
            keep = os.path.join(b.base, "ckeep")
            clear(keep)
            os.mkdir(keep)
            for d in m3:
                if os.path.isdir(d):
                    copytree(d, os.path.join(keep, os.path.basename(d)))
            p = b.setup(sc)
            for d in m3:
                if os.path.isdir(os.path.join(keep, os.path.basename(d))):
                    copytree(os.path.join(keep, os.path.basename(d)), d)
            old = {t + ".tif" for t in tile_names(o)} - {t + ".tif" for t in names}
        before = self.layers_state(b, p)
        n = 0
        mutated = []

        def hook(a, kind, path):
            if not path.startswith((rel + "/M3/", rel + "/M3_max/")) and path not in (rel + "/M3", rel + "/M3_max"):
                mutated.append("%s %s" % (kind, path))
        for ph in case["phases"][:-1]:
            r = self.convert(b, p, ph, mutation_hook=hook)
            n += 1
            if ph["faults"] and r.fired:
                make_edits(ph, b.ctx.run, p["out"], r)
                b.stats["torn_files"] += len(ph["post"])
        b.nontrivial = bool(n or stale)
        r = self.convert(b, p, case["phases"][-1], mutation_hook=hook)
        v = not_finished(r, "repeated conversion")
        if v:
            return v
        v = self.unchanged(b, p, before)
        v += [V("layers", "the conversion does %s" % m) for m in mutated[:1]]
        for d in m3:
            s = os.path.basename(d)
            got = oracle.compare(os.path.join(ref, s), d, skip=old)
            v += diff_violations([(s + "/" + f, t) for f, t in got], what="differs from a first conversion: ")
        if not v:
            for d in m3:
                for f in old:
                    if os.path.exists(os.path.join(d, f)):
                        os.remove(os.path.join(d, f))
            v = texts("raster", oracle.check_conversion(p["out"], tiles=sorted(names)))
        return v[:5]


PLANS = {c.pid: c for c in (Combined, MissingLayers, Repeat)}
