"""W16: grids saved with nctools.nc_save_grid under storage faults."""
import copy
import gc
import json
import os
import random
import shutil
import types

import numpy as np

from . import seams
from .bench import HERE, fault_name, make_fault, trace_ops
from .plans import FaultPlan, V, not_finished, short
from .runjob import clear

OLD = ("none", "none", "bigger", "nc4", "garbage", "empty", "locked", "dir", "nodir", "rodir")
BAD = ("locked", "dir", "nodir", "rodir")


# ------------------------------------------------------------------ the world
def paths(sc, root):
    return {"start": os.path.join(root, "work"), "text": {"cfg": ""}, "grids": os.path.join(root, "grids")}


def target(sc, k):
    """File of the k-th save, as the caller names it."""
    s = sc["saves"][k]
    name = os.path.join("..", "grids", s["file"]) if s["rel"] else os.path.join("@grids", s["file"])
    return name


def build(sc, root):
    os.makedirs(os.path.join(root, "work"))
    g = os.path.join(root, "grids")
    os.makedirs(g)
    for name, how in sorted(sc["old"].items()):
        p = os.path.join(g, name)
        if how == "nodir":
            continue
        os.makedirs(os.path.dirname(p), exist_ok=True)
        rng = random.Random(sc["seed"])
        if how == "garbage":
            with open(p, "wb") as fh:
                fh.write(rng.randbytes(9000))
        elif how == "empty":
            open(p, "wb").close()
        elif how == "dir":
            os.makedirs(p)
        elif how in ("bigger", "nc4", "locked", "rodir"):
            import netCDF4
            d = seams.REAL.get("netCDF4.Dataset", netCDF4.Dataset)(
                p, "w", format="NETCDF4" if how == "nc4" else "NETCDF3_CLASSIC")
            d.createDimension("old_d", 60)
            d.createDimension("lat", 11)
            for n in ("old_v", "lat"):
                v = d.createVariable(n, "f8", ("old_d",))
                v[:] = np.arange(60.0)
            d.setncattr("old_att", "x" * 300)
            d.close()
            if how == "locked":
                os.chmod(p, 0o444)
            if how == "rodir":
                os.remove(p)
    job = []
    for k, s in enumerate(sc["saves"]):
        job.append({"file": target(sc, k).replace("@grids", g), "dims": s["dims"], "vars": s["vars"], "kw": s["kw"]})
    with open(os.path.join(root, "work", "job.json"), "w") as fh:
        json.dump(job, fh)


def attrs(rng):
    out = {}
    for _ in range(rng.choice([0, 1, 2, 3])):
        out[rng.choice(["units", "long_name", "note", "scale_hint", "axis", "a1", "lat", "Ms", "title2", "title"])] = rng.choice(
            ["degrees", "m", "", "caf\u00e9 \u2192", 1.5, -3, 7, [1, 2, 3], [0.5, 2.25], "x" * 200, "line\nbreak"])
    return out


def data(rng, shape, dt):
    n = int(np.prod(shape))
    if dt in ("f4", "f8"):
        v = [rng.choice([0.0, 1.0, -9999.0, rng.uniform(-3, 3), rng.uniform(-1e6, 1e6), None]) for _ in range(n)]
        if dt == "f4":
            v = [x if x is None else float(np.float32(x)) for x in v]
    else:
        hi = {"i1": 100, "i2": 30000, "i4": 2 ** 31 - 1}[dt]
        v = [rng.randint(-hi, hi) for _ in range(n)]
    return {"dt": dt, "shape": list(shape), "data": v}


def scenario(rng):
    saves, old = [], {}
    names = ["a_e.nc", "sub.dir/b c.nc", "d.nc", "x"]
    for _ in range(rng.choice([1, 1, 2, 3])):
        f = rng.choice(names[:3]) if rng.random() < 0.85 else names[3]
        if f not in old:
            old[f] = rng.choice(OLD)
            if old[f] in ("nodir", "rodir"):
                f2 = "gone/%s" % f
                old[f2] = old.pop(f)
                f = f2
        size = lambda: rng.choice([1, 1, 2, 3, 5, 17]) if rng.random() < 0.9 else 60
        dims, ln = [], {}
        for n in rng.sample(["time", "lat", "lon", "z"], rng.choice([1, 2, 2, 2, 3])):
            ln[n] = size()
            dt = rng.choice(["f8", "f8", "f4", "i4", "f8:np", "f4:type"])
            dims.append({"name": n, "values": data(rng, (ln[n],), dt[:2]), "dtype": dt, "atts": attrs(rng),
                         "keys": ["name", "values", "dtype", "atts"]})
        vs = []
        for n in rng.sample(["Ms", "var_2", "q", "cnt"], rng.choice([0, 1, 1, 1, 2, 3])):
            k = rng.choice([len(ln), len(ln), len(ln), rng.randint(0, len(ln))])
            d = sorted(rng.sample(range(len(ln)), k))
            d = [dims[j]["name"] for j in d]
            dt = rng.choice(["f4", "f4", "f8", "i4", "i2", "f8:np", "f4:type"])
            v = {"name": n, "dims": d, "values": data(rng, [ln[x] for x in d], dt[:2]), "dtype": dt,
                 "atts": attrs(rng), "keys": ["name", "dims", "values", "dtype", "atts"]}
            if rng.random() < 0.1:
                v["values"] = None
            if rng.random() < 0.15:
                v["least_significant_digit"] = rng.choice([1, 2, 3])
                v["keys"].append("least_significant_digit")
            vs.append(v)
        kw = {}
        if rng.random() < 0.4:
            kw["nodata"] = rng.choice([-9999, -9999.0, 0, -1, 255])
        if rng.random() < 0.5:
            kw["datatitle"] = rng.choice(["shielding multiplier", "", "t \u00e9"])
        if rng.random() < 0.7:
            kw["gatts"] = attrs(rng)
        if rng.random() < 0.1:
            kw["writedata"] = False
        if rng.random() < 0.12:
            kw["keepfileopen"] = True
        if rng.random() < 0.2:
            kw["zlib"] = rng.random() < 0.5
        if rng.random() < 0.1:
            kw["lsd"] = rng.choice([1, 3])
        bad = None
        r = rng.random()
        if r < 0.06:
            e = rng.choice(dims + vs)
            key = rng.choice([x for x in e["keys"] if x != "least_significant_digit"])
            e["keys"] = [x for x in e["keys"] if x != key]
            bad = "KeyError"
        elif r < 0.14 and vs:
            v = rng.choice(vs)
            if v["values"] is not None:
                sh = [ln[x] for x in v["dims"]]
                new = rng.choice([sh + [2], sh[:-1], [x + 1 for x in sh], [1] * len(sh), sh[::-1]])
                if new != sh and (kw.get("writedata", True) or len(new) != len(sh)):
                    v["values"] = data(rng, new, v["dtype"][:2])
                    bad = "ValueError"
        saves.append({"file": f, "rel": rng.random() < 0.4, "dims": dims, "vars": vs, "kw": kw, "bad": bad})
    return {"save": 1, "seed": rng.randrange(1 << 30), "saves": saves, "old": old}


# ------------------------------------------------------------------ the oracle
def same_att(a, b):
    if isinstance(b, str):
        return isinstance(a, str) and a == b
    try:
        return np.array_equal(np.atleast_1d(np.asarray(a, dtype="f8")), np.atleast_1d(np.asarray(b, dtype="f8")))
    except (TypeError, ValueError):
        return False


def check_file(path, s):
    """Difference between the file and what was passed to the save, or None."""
    import netCDF4
    try:
        d = seams.REAL["netCDF4.Dataset"](path)
    except Exception as e:
        return "the file cannot be read: %s" % e
    kw = s["kw"]
    try:
        d.set_auto_mask(False)
        d.set_auto_scale(False)
        nodata = kw.get("nodata", -9999)
        want = {}
        for x in s["dims"]:
            n = x["values"]["shape"][0]
            if x["name"] not in d.dimensions or len(d.dimensions[x["name"]]) != n:
                return "dimension %s of size %d is missing or has another size" % (x["name"], n)
            want[x["name"]] = (x, (x["name"],), None)
        for x in s["vars"]:
            want[x["name"]] = (x, tuple(x["dims"]), nodata)
        for n, (x, dims, fill) in want.items():
            if n not in d.variables:
                return "variable %s is missing" % n
            v = d.variables[n]
            dt = np.dtype(x["dtype"][:2])
            if v.dtype != dt:
                return "variable %s has type %s instead of %s" % (n, v.dtype, dt)
            if v.dimensions != dims:
                return "variable %s has dimensions %s instead of %s" % (n, v.dimensions, dims)
            got = v[:]
            if fill is not None:
                f = v.getncattr("_FillValue") if "_FillValue" in v.ncattrs() else None
                if f is None or float(f) != float(fill):
                    return "the missing value of %s is %r instead of %r" % (n, f, fill)
            if fill is not None and (x["values"] is None or not kw.get("writedata", True)):
                if not np.all(got == np.array(fill, dt)):
                    return "%s holds values although none were to be written" % n
            else:
                a = np.array([np.nan if y is None else y for y in x["values"]["data"]],
                             dtype=x["values"]["dt"]).reshape(x["values"]["shape"])
                lsd = None if fill is None else x.get("least_significant_digit", kw.get("lsd"))
                if got.shape != a.shape:
                    return "%s has shape %s instead of %s" % (n, got.shape, a.shape)
                if lsd is None or dt.kind != "f":
                    ok = np.array_equal(got, a, equal_nan=dt.kind == "f")
                else:
                    ok = np.allclose(got, a, rtol=1e-6, atol=10.0 ** -lsd, equal_nan=True)
                if not ok:
                    return "the values of %s are not those passed" % n
            for k, val in x["atts"].items():
                if k not in v.ncattrs() or not same_att(v.getncattr(k), val):
                    return "attribute %s of %s is not %r" % (k, n, val)
        g = dict(kw.get("gatts", {}))
        if kw.get("datatitle"):
            g["title"] = kw["datatitle"]
        for k, val in g.items():
            if k not in d.ncattrs() or not same_att(d.getncattr(k), val):
                return "global attribute %s is not %r" % (k, short(val, 60))
        if "title" in d.ncattrs() and "title" not in g:
            return "the file has the title %r nobody asked for" % d.getncattr("title")
        extra = set(d.variables) - set(want)
        if extra:
            return "the file also holds %s" % ", ".join(sorted(extra))
        extra = set(d.dimensions) - {x["name"] for x in s["dims"]}
        if extra:
            return "the file also has the dimensions %s" % ", ".join(sorted(extra))
        if "old_att" in d.ncattrs():
            return "attributes of an earlier file survive"
    except Exception as e:
        return "the file cannot be read: %s: %s" % (type(e).__name__, e)
    finally:
        d.close()
    return None


class Probe:
    """What the driver reports; runs outside the simulation."""

    def __init__(self, b, sc, p):
        self.b, self.sc, self.p = b, sc, p
        self.outcome, self.state, self.handles, self.done = {}, {}, {}, False
        self.keep = os.path.join(b.base, "saved")
        clear(self.keep)
        os.mkdir(self.keep)
        m = self.module = types.ModuleType("wm_probe")
        for f in (self.before, self.kept, self.raised, self.returned, self.after, self.finished):
            setattr(m, f.__name__, self.wrap(f))

    def wrap(self, f):
        def g(*args):
            with seams.raw():
                return f(*args)
        return g

    def file(self, k):
        return os.path.join(self.p["grids"], self.sc["saves"][k]["file"])

    def kept(self, k, obj):
        self.outcome[k] = ("kept", None)

    def raised(self, k, t, e):
        self.outcome[k] = ("raised", [c.__name__ for c in t.__mro__], "%s: %s" % (t.__name__, e))

    def returned(self, k):
        self.outcome[k] = ("returned",)
        if os.path.isfile(self.file(k)):
            shutil.copyfile(self.file(k), os.path.join(self.keep, "%d.nc" % k))

    def before(self, k):
        self.held = {held for t, held in self.open_files(k)}

    def after(self, k):
        gc.collect()
        self.handles[k] = [t for t, held in self.open_files(k) if held not in self.held]

    def open_files(self, k):
        out = []
        want = os.path.realpath(self.file(k))
        for fd in seams.REAL["os.listdir"]("/proc/self/fd"):
            try:
                t = seams.REAL["os.readlink"]("/proc/self/fd/" + fd)
                st = os.fstat(int(fd))
            except OSError:
                continue
            if t.startswith(want):               # the name changes when the file is replaced
                out.append((t, (fd, st.st_dev, st.st_ino)))
        return out

    def finished(self):
        self.done = True


class SavedGrid(FaultPlan):
    pid = "W16"
    rule = ("1-3 saves of generated dimensions, variables, types, fill values and attributes over none, other, foreign, "
            "broken, locked or impossible earlier files; storage errors at stratified operations, allocation failures, "
            "file-size limits and descriptor limits; non-trivial: a fault fires, the request is invalid or an earlier "
            "file exists; distinct: by world and fault")
    components = ("real: utilities/nctools.py, netCDF4 and the file system; stub: clocks, user name; the calls are made "
                  "by a generated driver program")

    def phase(self, b, sc, ph):
        p = b.setup(sc)
        for f, how in sc["old"].items():
            if how == "rodir":
                os.chmod(os.path.dirname(os.path.join(p["grids"], f)), 0o555)
        probe = Probe(b, sc, p)
        ph["spec"].update(script=os.path.join(HERE, "save_driver.py"), args=["job.json"])
        try:
            r = b.phase(p, ph, sc, mods={"wm_probe": probe.module})
        finally:
            for f, how in sc["old"].items():
                d = os.path.dirname(os.path.join(p["grids"], f))
                if how == "rodir" and os.path.isdir(d):
                    os.chmod(d, 0o755)
        return r, probe

    def lists(self, sc):
        return [(sc["saves"], 1)] + [(s["vars"], 0) for s in sc["saves"] if not s.get("bad")]

    def generate(self, b, rng, i):
        sc = scenario(rng)
        ph = self.ph(rng, {"n": 1, "mode": "serial"})
        r, _ = self.phase(b, sc, copy.deepcopy(ph))
        out = [self.case(sc, [ph])]
        ops = [o for o in trace_ops(r.events) if o[2].startswith(("nc.", "open:w", "remove", "rename", "mkdir", "stat",
                                                                 "open:r")) and "job.json" not in (o[3] or "")]
        if not ops:
            return out
        for _ in range(6):
            q = copy.deepcopy(ph)
            for _ in range(rng.choice([1, 1, 1, 2])):
                o = b.strata.pick(rng, ops)
                f = make_fault(rng, o, ("err", "mem", "memline", "fsize", "nofile"), b.strata.used)
                b.strata.hit(o, f)
                q["faults"].append(f)
                if f["kind"] == "fsize":
                    f["limit"] = rng.choice([0, 0, 1, 100, 300, 600, 1200, 3000])
            out.append(self.case(sc, [q]))
        return out

    def execute(self, b, case):
        sc, ph = case["sc"], case["phases"][0]
        r, pr = self.phase(b, sc, ph)
        b.nontrivial = bool(r.fired or any(s["bad"] for s in sc["saves"]) or
                            any(h != "none" for h in sc["old"].values()))
        v = []
        if not pr.done:
            if not r.fired or r.end in ("deadlock", "step-limit"):
                v = not_finished(r, "the caller of nc_save_grid") or [V("lost", "a save neither returns nor raises")]
            return v
        state = dict(sc["old"])
        where = ", with %s" % ", ".join(fault_name(f) for f in r.fired) if r.fired else ""
        for k, s in enumerate(sc["saves"]):
            o = pr.outcome[k]
            b.stats["save:" + o[0]] += 1
            what = "save %d (%s, earlier file: %s)%s" % (k, s["file"], state[s["file"]], where)
            bad_place = state[s["file"]] in BAD
            if o[0] == "returned":
                if s["bad"]:
                    v.append(V("accepted", "%s returns normally although the request is invalid (%s)" % (what, s["bad"])))
                elif not (s["kw"].get("keepfileopen") and r.fired):
                    f = os.path.join(pr.keep, "%d.nc" % k)
                    d = check_file(f, s) if os.path.isfile(f) else "there is no such file"
                    if d:
                        v.append(V("incomplete", "%s returns normally, but %s" % (what, d)))
                if not bad_place:
                    state[s["file"]] = "saved"
            elif not r.fired:
                if not s["bad"] and not bad_place:
                    v.append(V("fails", "%s fails: %s" % (what, o[-1])))
                elif s["bad"] and not bad_place and s["bad"] not in o[1]:
                    v.append(V("error", "%s is invalid (%s) and raises %s" % (what, s["bad"], o[-1])))
                elif bad_place and not s["bad"] and not {"OSError", "RuntimeError"} & set(o[1]):
                    v.append(V("error", "%s cannot create the file and raises %s" % (what, o[-1])))
            if pr.handles.get(k) and not s["kw"].get("keepfileopen"):
                v.append(V("handle", "%s leaves the file open (%s)" % (what, o[0])))
        return v[:5]


PLANS = {"W16": SavedGrid}
