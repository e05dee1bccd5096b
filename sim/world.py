"""Generated worlds: rasters, tables, configuration and innocent bystanders of one simulated run."""
import json
import os
import random

DIRS8 = ("n", "s", "e", "w", "ne", "nw", "se", "sw")
BANDS = ("e", "n", "ne", "nw", "s", "se", "sw", "w")
TYPES = {"shielding": "ms", "terrain": "mz", "topographic": "mt"}
SUBDIRS = ("terrain", "shielding", "topographic", "M3", "M3_max")
OWN_NAMES = ["tile_dem", "run_ms_n.d", "shielding", "M3", "x.img", "terrain_mz_e.nc", "o #1", "o ;b", "5%d"]     # like the ones of the code itself
KM = "+proj=tmerc +lat_0=0 +lon_0=0 +k=1 +x_0=0 +y_0=0 +ellps=WGS84 +units=km"

# category, roughness length, shielding factor
TABLE = [(1, 2.0, 85), (2, 1.0, 100), (3, 0.8, 88), (4, 0.4, 90), (5, 0.2, 95), (6, 0.06, 100), (7, 0.02, 100),
         (8, 0.006, 100), (9, 0.003, 100)]


def step(px):
    import math
    return int(math.ceil(1.0 / float(px)))


def scenario(rng, size="small", crs=None):
    """Parameters of a world (JSON)."""
    crs = crs or rng.choice(["geo", "geo", "geo", "km"])
    if crs == "geo":
        px = rng.choice([0.5, 0.5, 0.4, 0.25, 0.3, 0.5])
        py = px if rng.random() < 0.7 else rng.choice([0.5, 0.4])
        x0 = rng.choice([140.0, 147.25, 115.5, 9.0, 147.25, -170.5])
        y0 = rng.choice([-20.0, -33.25, -12.5, -41.0])
        if rng.random() < 0.12:
            y0 = rng.choice([20.0, 1.0])
    else:
        px = rng.choice([0.5, 0.25, 0.4, 0.125, 0.1])
        if rng.random() < (0.12 if size != "tiny" else 0.2):
            px = 0.05                            # below 100 m shielding is averaged upwind
        py = px
        x0 = rng.choice([10.0, 100.0, 2.5])
        y0 = rng.choice([-20.0, -100.0, -1.5])
    sx, sy = step(px), step(py)
    top = {"tiny": 2, "small": 4, "medium": 6, "large": 9}[size]
    if px < 0.2:                                 # many cells: the upwind windows span several of them
        top = 2 if px == 0.05 else min(top, 4)
    while True:
        tx = rng.choice([1, 1, 2, 2, 3, 3, 4])
        ty = rng.choice([1, 1, 2, 2, 3])
        if tx * ty <= top and not (tx * ty == 1 and rng.random() < 0.5):
            break
    nx = tx * sx - rng.randrange(sx)
    ny = ty * sy - rng.randrange(sy)
    if px == 0.05 and size == "tiny":
        nx, ny = (tx - 1) * sx + rng.randrange(3, 9), (ty - 1) * sy + rng.randrange(3, 9)
    if crs == "km":                              # tiles with at least three cells: slopes exist
        nx, ny = max(nx, 3), max(ny, 3)
    if crs == "geo" and size != "tiny" and rng.random() < 0.04:
        # cells of about 1 km, more in the northern tile and less in the southern: one averages upwind
        px = py = 0.0105
        y0 = -43.4 + rng.choice([-0.3, 0.0, 0.25])
        sx = sy = step(px)
        nx, ny = rng.randrange(3, 6), sy + rng.choice([sy, sy, sy - 3])
        tx, ty = 1, 2
    b = rng.choice([0, 0, 1, 1, 2, sx, sx + 1]) if px > 0.02 else rng.choice([0, 0, 1, 3])
    up = round((b + 0.3) * max(px, py), 6)
    tbl = [list(r) for r in TABLE]
    if rng.random() < 0.5:
        rng.shuffle(tbl)
        tbl = tbl[:rng.randrange(4, 10)]
    sc = {
        "crs": crs, "px": px, "py": py, "x0": x0, "y0": y0, "nx": nx, "ny": ny, "upwind": up,
        "seed": rng.randrange(1 << 30),
        "dem": {"dtype": rng.choice(["f4", "f4", "i4", "i2", "f8"]), "fmt": rng.choice(["GTiff", "GTiff", "HFA"]),
                "kind": rng.choice(["rough", "alps", "alps", "gentle", "ridge", "negative"]),
                "zero": [rng.randrange(tx * ty)] if tx * ty > 1 and rng.random() < 0.3 else [],
                "zerosum": rng.random() < 0.1},
        "lc": {"factor": rng.choice([1, 1, 3]), "dtype": rng.choice(["i4", "i4", "u1", "i2", "f4"]),
               "fmt": rng.choice(["GTiff", "GTiff", "HFA"]), "margin": rng.choice([0, 0, 1]),
               "crs": rng.random() < 0.12,
               "unclass": rng.choice([0.0, 0.0, 0.3]),
               "empty": [rng.randrange(tx * ty)] if rng.random() < 0.25 else []},
        "table": tbl,
        "layout": {"rel": False, "out": rng.choice(["out", "out", "res/a/out", "out.d/x y", "run[12]"] + OWN_NAMES), "log": "log",
                   "level": rng.choice(["INFO", "INFO", "DEBUG", "WARNING"]),
                   "bystanders": rng.random() < 0.5, "slash": rng.random() < 0.2},
    }
    if sc["lc"]["dtype"] != "u1" and rng.random() < 0.25:      # class numbers of any size
        new = rng.sample([3, 76, 78, 200, 255, 256, 300, 511, 1000, 12345, 32767], len(tbl))
        for row, c in zip(tbl, new):
            row[0] = c
    g = Grid(sc)
    r = rng.random()
    if r < 0.15:                                 # zero is how cells without data arrive in a tile
        sc["dem"].update(void="nodata", holes=rng.choice([0, 0, 0.1]))
    elif r < 0.3 and sc["dem"]["dtype"] in ("f4", "f8") and g.bx == g.by == 0:
        sc["dem"]["void"] = "nan"                # whole tiles only: the windows do not overlap
        if tx * ty > 1 and not sc["dem"]["zero"]:
            sc["dem"]["zero"] = [rng.randrange(tx * ty)]
    if rng.random() < 0.15:
        sc["lc"]["nodata"] = rng.choice([77, 77, 0, rng.choice(tbl)[0]])
    if sc["lc"]["crs"]:
        sc["lc"]["fmt"] = "GTiff"                # the HFA driver does not keep prime meridians
    return sc


class Grid:
    """The tile grid as documented: 1 x 1 (map unit) tiles from the upper left corner, column by column."""

    def __init__(self, sc):
        self.sc = sc
        self.nx, self.ny, self.px, self.py = sc["nx"], sc["ny"], sc["px"], sc["py"]
        self.sx, self.sy = step(self.px), step(self.py)
        self.bx, self.by = int(sc["upwind"] / self.px), int(sc["upwind"] / self.py)
        self.cols = -(-self.nx // self.sx)
        self.rows = -(-self.ny // self.sy)
        self.n = self.cols * self.rows

    def core(self, k):
        """x1, x2, y1, y2 of the tile itself (half open)."""
        i, j = divmod(k, self.rows)
        return (i * self.sx, min((i + 1) * self.sx, self.nx), j * self.sy, min((j + 1) * self.sy, self.ny))

    def window(self, k):
        i, j = divmod(k, self.rows)
        return (max(0, i * self.sx - self.bx), min((i + 1) * self.sx + self.bx, self.nx),
                max(0, j * self.sy - self.by), min((j + 1) * self.sy + self.by, self.ny))


def arrays(sc):
    """Elevation and land cover (at the elevation grid: the class of the land-cover cell holding each centre)."""
    import numpy as np
    g = Grid(sc)
    rng = np.random.default_rng(sc["seed"])
    ny, nx = g.ny, g.nx
    kind = sc["dem"]["kind"]
    yy, xx = np.mgrid[0:ny, 0:nx]
    if kind == "gentle":
        z = 5 + 0.5 * xx + 0.25 * yy + rng.random((ny, nx))
    elif kind == "ridge":
        z = 30 + 120.0 * np.abs(np.sin(0.9 * xx + 0.4 * yy)) + 10 * rng.random((ny, nx))
    elif kind == "alps":                         # slopes that matter even with cells of 50 km
        z = 10 + rng.random((ny, nx)) * (9000 if sc["crs"] == "geo" else 400)
    elif kind == "negative":
        z = rng.random((ny, nx)) * 60 - 30
    else:
        z = 1 + rng.random((ny, nx)) * 200
    if sc["crs"] == "geo" and kind not in ("negative", "alps"):
        z = z * 3
    z = np.where(np.abs(z) < 1, 1, z)
    if sc["dem"]["dtype"] in ("i4", "i2"):
        z = np.around(z)
    for k in sc["dem"]["zero"]:
        if k < g.n:
            a, b, c, d = g.window(k)
            z[c:d, a:b] = 0
    if sc["dem"].get("holes"):
        z[np.random.default_rng(sc["seed"] + 1).random((ny, nx)) < sc["dem"]["holes"]] = 0
    if sc["dem"].get("zerosum"):
        a, b, c, d = g.core(0)
        z[c:d, a:b] = np.where((yy + xx)[c:d, a:b] % 2 == 0, 7, -7)
    z = z.astype(sc["dem"]["dtype"])
    f, m = sc["lc"]["factor"], sc["lc"]["margin"]
    cats = [r[0] for r in sc["table"]]
    lcf = rng.choice(np.array(cats), size=((ny + 2 * m) * f, (nx + 2 * m) * f))
    un = sc["lc"]["unclass"]
    if un:
        lcf = np.where(rng.random(lcf.shape) < un, 77, lcf)
    for k in sc["lc"]["empty"]:
        if k < g.n:
            a, b, c, d = g.window(k)
            lcf[(c + m) * f:(d + m) * f, (a + m) * f:(b + m) * f] = 0
    lcf = lcf.astype(sc["lc"]["dtype"])
    own = lcf[m * f + f // 2:(m + ny) * f:f, m * f + f // 2:(m + nx) * f:f]
    if sc["lc"].get("nodata") is not None:
        own = np.where(own == sc["lc"]["nodata"], 0, own)
    return z, lcf, own


GT = {"f4": 6, "f8": 7, "i4": 5, "i2": 3, "u1": 1}


def write_raster(path, arr, gt, wkt, fmt="GTiff", nodata=None):
    from osgeo import gdal
    ds = gdal.GetDriverByName(fmt).Create(path, arr.shape[1], arr.shape[0], 1, GT[arr.dtype.str[1:]])
    ds.SetGeoTransform(gt)
    ds.SetProjection(wkt)
    if nodata is not None:
        ds.GetRasterBand(1).SetNoDataValue(nodata)
    ds.GetRasterBand(1).WriteArray(arr)
    ds.FlushCache()
    del ds


_wkt = {}


def wkt_of(crs):
    from osgeo import osr
    if crs not in _wkt:
        s = osr.SpatialReference()
        if crs == "geo":
            s.ImportFromEPSG(4326)
        elif crs == "pm":
            s.ImportFromProj4("+proj=longlat +datum=WGS84 +pm=2.5 +no_defs")
        else:
            s.ImportFromProj4(KM if crs == "km" else KM.replace("units=km", "units=m"))
        _wkt[crs] = s.ExportToWkt()
    return _wkt[crs]


def elsewhere(crs, gt):
    """Another coordinate system in which the cells are as regular: other prime meridian, other unit."""
    if crs == "geo":
        return wkt_of("pm"), (gt[0] - 2.5,) + tuple(gt[1:])
    return wkt_of("m"), tuple(1000 * x for x in gt)


def geotransform(sc):
    return (sc["x0"], sc["px"], 0.0, sc["y0"], 0.0, -sc["py"])


def paths(sc, root):
    """Absolute locations of everything, and the strings that go into the configuration."""
    lay = sc["layout"]
    start = os.path.join(root, "work")
    p = {"start": start, "cfg": os.path.join(root, lay.get("cfgdir") or "work", "mult.cfg"),
         "dem": os.path.join(root, "data", "dem." + ("tif" if sc["dem"]["fmt"] == "GTiff" else "img")),
         "lc": os.path.join(root, "data", "lc." + ("tif" if sc["lc"]["fmt"] == "GTiff" else "img")),
         "table": os.path.join(root, "data", "table.csv"),
         "out": os.path.join(root, lay["out"]),
         "log": os.path.join(root, lay["log"], "mult.log")}
    if lay.get("out_in_start"):
        p["out"] = os.path.join(start, lay["out"])
    if lay.get("log_in_start"):
        p["log"] = os.path.join(start, lay["log"], "mult.log") if lay["log"] else os.path.join(start, "mult.log")
    if lay.get("log_in_out"):
        p["log"] = os.path.join(p["out"], lay["log"], "mult.log") if lay["log"] else os.path.join(p["out"], "mult.log")
    rel = lay["rel"]
    names = ("dem", "lc", "table", "out", "log", "cfg")
    chosen = names if rel is True else (rel or ())
    text = {}
    for n in names:
        text[n] = os.path.relpath(p[n], start) if n in chosen else p[n]
        if n in chosen and lay.get("dot"):
            text[n] = "./" + text[n]
    if lay.get("slash"):
        text["out"] += "/"
    p["text"] = text
    return p


def config_text(sc, p):
    t = p["text"]
    lay = sc["layout"]
    return """[inputValues]
root = %s
upwind_length = %r
terrain_data = %s
terrain_table = %s
dem_data = %s

[Output]
output_dir = %s

[Logging]
LogFile = %s
LogLevel = %s
Verbose = %s

[Extra]
Note = run %d
%s""" % (root_option(lay, p), sc["upwind"], t["lc"], t["table"], t["dem"], t["out"], t["log"], lay["level"],
       lay.get("verbose", "False"), sc["seed"] % 1000, "".join(x + "\n" for x in lay.get("extra") or ()))


def root_option(lay, p):
    """The option `root`; no path is resolved against it."""
    base = os.path.dirname(p["start"])
    return {"base": base, "data": os.path.join(base, "data"), "none": os.path.join(base, "no/such/place"),
            "dot": "."}.get(lay.get("root"), p["start"])


def table_text(sc):
    lines = ["CATEGORY,DESCRIPTION,ROUGHNESS_LENGTH_m,SHIELDING"]
    for c, z0, s in sc["table"]:
        lines.append('%d,"class %d",%r,%r' % (c, c, z0, s))
    return "\n".join(lines) + "\n"


def build(sc, root):
    """Write the world below `root` (an empty directory)."""
    p = paths(sc, root)
    z, lcf, _ = arrays(sc)
    os.makedirs(p["start"], exist_ok=True)
    os.makedirs(os.path.join(root, "data"), exist_ok=True)
    os.makedirs(os.path.dirname(p["cfg"]), exist_ok=True)
    wkt = wkt_of(sc["crs"])
    gt = geotransform(sc)
    void = sc["dem"].get("void")
    if void:
        z[z == 0] = -9999 if void == "nodata" else float("nan")
    write_raster(p["dem"], z, gt, wkt, sc["dem"]["fmt"], -9999 if void == "nodata" else None)
    f, m = sc["lc"]["factor"], sc["lc"]["margin"]
    lgt = (gt[0] - m * gt[1], gt[1] / f, 0.0, gt[3] - m * gt[5], 0.0, gt[5] / f)
    if sc["lc"].get("crs"):                      # another coordinate system, with the same places
        wkt, lgt = elsewhere(sc["crs"], lgt)
    write_raster(p["lc"], lcf, lgt, wkt, sc["lc"]["fmt"], sc["lc"].get("nodata"))
    with open(p["table"], "w") as fh:
        fh.write(table_text(sc))
    with open(p["cfg"], "w") as fh:
        fh.write(config_text(sc, p))
    lay = sc["layout"]
    if lay.get("logdir") in ("exists", "old"):
        os.makedirs(os.path.dirname(p["log"]), exist_ok=True)
    elif lay.get("logdir") == "locked":
        d = os.path.dirname(os.path.dirname(p["log"]))
        os.makedirs(d, exist_ok=True)
        os.chmod(d, 0o555)
    elif lay.get("logdir") == "file":
        d = os.path.dirname(p["log"])
        os.makedirs(os.path.dirname(d), exist_ok=True)
        with open(d, "w") as fh:
            fh.write("in the way\n")
    if lay.get("outdir") == "exists":
        for s in ("terrain", "shielding", "junk"):
            os.makedirs(os.path.join(p["out"], s), exist_ok=True)
        for f in ("terrain/e1.0s1.0_mz_n.nc", "shielding/e1.0s1.0_ms_n.nc", "old.txt", "junk/x_dem.img", "README",
                  "x.vrt"):
            with open(os.path.join(p["out"], f), "w") as fh:
                fh.write("old\n")
    if lay["bystanders"]:
        bystanders(p, root)
    return p


def bystanders(p, root):
    """Files of somebody else, close to those of the run."""
    start = p["start"]
    parent = os.path.dirname(p["out"])
    base = os.path.basename(p["out"])
    spots = [os.path.join(start, "notes.xml"), os.path.join(start, "x_dem.img"), os.path.join(start, "a.nc"),
             os.path.join(start, "shielding", "keep.aux.xml"), os.path.join(start, "M3", "wind-multipliers.vrt"),
             os.path.join(parent, base + "2", "shielding", "a_ms.img"), os.path.join(parent, base + ".bak"),
             os.path.join(parent, base + ".old", "terrain", "a_mz.nc"), os.path.join(parent, base + "_old", "keep"),
             os.path.join(parent, base + "~"), os.path.join(parent, base + ".tmp", "keep"),
             os.path.join(parent, base + ".1"), os.path.join(parent, base + "_tmp", "keep"),
             os.path.join(parent, "." + base, "keep"), os.path.join(parent, base + ".lock"),
             os.path.join(start, "iso.py"), os.path.join(start, "tmp", "keep"), os.path.join(start, "multipliers.log.old"),
             os.path.join(parent, "keep.xml"), os.path.join(parent, "shielding", "b.xml"),
             os.path.join(root, "data", "dem.aux.keep"), os.path.join(root, "data", "other.img"),
             os.path.join(root, "data", "table.csv.bak"), os.path.join(root, "terrain", "t.nc"),
             os.path.join(root, "shielding", "s.xml")]
    if base == "run[12]":                        # what the name would match as a pattern
        spots += [os.path.join(parent, "run1", s) for s in ("shielding/keep.xml", "shielding/a_ms.img", "terrain/a_mz_n.nc",
                                                            "M3/a.tif", "x_dem.img")]
    if os.path.isdir(os.path.dirname(p["log"])):
        spots += [p["log"] + x for x in (".1", ".keep", "_notes.txt", ".2001-01-01", "_old")]
        spots += [os.path.join(os.path.dirname(p["log"]), x) for x in ("other.log", "other.log_1", "multipliers.log.1")]
    for s in spots:
        if s.startswith(p["out"] + "/"):
            continue
        try:
            os.makedirs(os.path.dirname(s), exist_ok=True)
            if not os.path.exists(s):
                with open(s, "w") as fh:
                    fh.write("somebody else's\n")
        except (NotADirectoryError, FileExistsError):
            pass


def expected_tiles(sc):
    """Tiles with elevation data, with their windows; and whether the terrain layer exists."""
    import numpy as np
    g = Grid(sc)
    z, _, own = arrays(sc)
    cats = [r[0] for r in sc["table"]]
    out = []
    for k in range(g.n):
        a, b, c, d = g.window(k)
        if np.any(z[c:d, a:b] != 0):
            out.append({"k": k, "core": g.core(k), "window": (a, b, c, d),
                        "mz": bool(np.isin(own[c:d, a:b], cats).any())})
    return out
