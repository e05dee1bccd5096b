"""Reading and comparing what a run leaves behind, and the independent models it is compared with."""
import hashlib
import math
import os
import re
import xml.etree.ElementTree as ET

from . import seams
from .world import BANDS, DIRS8, SUBDIRS, TYPES, Grid, arrays, expected_tiles

VOLATILE = re.compile(r"creat|date|time|host|user|pid|rank|python|history", re.I)
LAYER = re.compile(r"^(?P<tile>.+)_(?P<u>ms|mz|mt)_(?P<d>ne|nw|se|sw|n|s|e|w)\.nc$")


def walk(root):
    """rel path -> 'd' | 'f' | 'l'."""
    out = {}
    stack = [""]
    while stack:
        d = stack.pop()
        try:
            it = sorted(os.scandir(os.path.join(root, d)), key=lambda e: e.name)
        except OSError:
            continue
        for e in it:
            rel = os.path.join(d, e.name) if d else e.name
            if e.is_symlink():
                out[rel] = "l"
            elif e.is_dir():
                out[rel] = "d"
                stack.append(rel)
            else:
                out[rel] = "f"
    return out


def raw_bytes(path):
    with open(path, "rb") as f:
        return f.read()


def masked(b):
    """NetCDF-3 bytes without the value of Created_on."""
    i = b.find(b"Created_on")
    if i >= 0:
        i += 12
        if b[i:i + 8] == b"\x00\x00\x00\x02\x00\x00\x00\x13":
            return b[:i] + b[i + 28:]
    return b


def nc_content(path):
    import numpy as np
    Base = seams.REAL.get("netCDF4.Dataset")
    if Base is None:
        import netCDF4
        Base = netCDF4.Dataset
    with Base(path) as ds:
        ds.set_auto_maskandscale(False)
        g = {k: ds.getncattr(k) for k in ds.ncattrs()}
        vs = {}
        for n, v in ds.variables.items():
            vs[n] = {"dims": v.dimensions, "dtype": str(v.dtype), "data": np.array(v[...]),
                     "atts": {k: v.getncattr(k) for k in v.ncattrs()}}
        dims = {k: len(d) for k, d in ds.dimensions.items()}
    return {"gatts": g, "vars": vs, "dims": dims}


def same_array(a, b):
    import numpy as np
    return a.shape == b.shape and a.dtype == b.dtype and \
        (a.tobytes() == b.tobytes() or bool(np.array_equal(a, b, equal_nan=a.dtype.kind == "f")))


def same_att(a, b):
    import numpy as np
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    x, y = np.asarray(a), np.asarray(b)
    return x.shape == y.shape and bool(np.array_equal(x, y, equal_nan=x.dtype.kind == "f" and y.dtype.kind == "f"))


def nc_diff(a, b, atts=True):
    try:
        x, y = nc_content(a), nc_content(b)
    except (OSError, RuntimeError) as e:
        return "unreadable (%s)" % str(e)[:80]
    if x["dims"] != y["dims"]:
        return "dimensions differ"
    if set(x["vars"]) != set(y["vars"]):
        return "variables differ: %s / %s" % (sorted(x["vars"]), sorted(y["vars"]))
    for n in x["vars"]:
        u, v = x["vars"][n], y["vars"][n]
        if u["dims"] != v["dims"] or u["dtype"] != v["dtype"] or not same_array(u["data"], v["data"]):
            return "values of %s differ" % n
        if atts:
            for k in set(u["atts"]) | set(v["atts"]):
                if k not in u["atts"] or k not in v["atts"] or not same_att(u["atts"][k], v["atts"][k]):
                    return "attribute %s of %s differs" % (k, n)
    if atts:
        volatile = VOLATILE if atts is True else atts
        for k in set(x["gatts"]) | set(y["gatts"]):
            if volatile.search(k):
                continue
            if k not in x["gatts"] or k not in y["gatts"] or not same_att(x["gatts"][k], y["gatts"][k]):
                return "global attribute %s differs" % k
    return None


def tif_content(path):
    from osgeo import gdal
    ds = gdal.Open(path)
    if ds is None:
        raise RuntimeError("cannot open %s" % path)
    bands = []
    for i in range(1, ds.RasterCount + 1):
        b = ds.GetRasterBand(i)
        a = b.ReadAsArray()
        if a is None:
            raise RuntimeError("cannot read band %d of %s" % (i, path))
        bands.append({"data": a, "nodata": b.GetNoDataValue(), "desc": b.GetDescription(), "type": b.DataType})
    out = {"gt": tuple(round(v, 9) for v in ds.GetGeoTransform()), "proj": ds.GetProjection(), "bands": bands,
           "size": (ds.RasterXSize, ds.RasterYSize), "files": ds.GetFileList()}
    del ds
    return out


def tif_diff(a, b):
    try:
        x, y = tif_content(a), tif_content(b)
    except RuntimeError as e:
        return "unreadable (%s)" % str(e)[:80]
    for k in ("size", "gt", "proj"):
        if x[k] != y[k]:
            return "%s differs: %s / %s" % (k, str(x[k])[:60], str(y[k])[:60])
    if len(x["bands"]) != len(y["bands"]):
        return "band count differs"
    for i, (u, v) in enumerate(zip(x["bands"], y["bands"])):
        if not same_array(u["data"], v["data"]):
            return "values of band %d differ" % (i + 1)
        for k in ("nodata", "desc", "type"):
            if u[k] != v[k]:
                return "%s of band %d differs" % (k, i + 1)
    return None


def vrt_sources(path):
    """Absolute paths of the rasters a mosaic refers to, with multiplicity per band."""
    root = ET.parse(path).getroot()
    out = []
    for b in root.findall("VRTRasterBand"):
        lst = []
        for s in b:
            fn = s.find("SourceFilename")
            if fn is not None:
                p = fn.text or ""
                if fn.get("relativeToVRT") == "1":
                    p = os.path.join(os.path.dirname(path), p)
                lst.append(os.path.normpath(p))
        out.append(lst)
    return out


def vrt_diff(a, b, roota, rootb):
    try:
        x, y = vrt_sources(a), vrt_sources(b)
    except (ET.ParseError, OSError) as e:
        return "unreadable mosaic (%s)" % str(e)[:60]
    sx = [sorted(os.path.relpath(p, roota) for p in lst) for lst in x]
    sy = [sorted(os.path.relpath(p, rootb) for p in lst) for lst in y]
    if sx != sy:
        return "mosaic sources differ: %s / %s" % (str(sx)[:100], str(sy)[:100])
    return tif_diff(a, b)


def compare(ref, out, atts=True, only=None, skip=()):
    """Differences between two output directories: list of (relative path, what)."""
    a, b = walk(ref), walk(out)
    diffs = []
    for rel in sorted(set(a) | set(b)):
        if only is not None and not only(rel):
            continue
        if rel in skip:
            continue
        if rel not in b:
            diffs.append((rel, "missing"))
        elif rel not in a:
            diffs.append((rel, "unexpected"))
        elif a[rel] != b[rel]:
            diffs.append((rel, "type differs"))
        elif a[rel] == "f":
            d = file_diff(os.path.join(ref, rel), os.path.join(out, rel), ref, out, atts)
            if d:
                diffs.append((rel, d))
    return diffs


def file_diff(p, q, roota, rootb, atts=True):
    x, y = raw_bytes(p), raw_bytes(q)
    if x == y:
        return None
    if p.endswith(".nc"):
        if masked(x) == masked(y):
            return None
        return nc_diff(p, q, atts)
    if p.endswith((".tif", ".img")):
        return tif_diff(p, q)
    if p.endswith(".vrt"):
        return vrt_diff(p, q, roota, rootb)
    return "content differs"


# ------------------------------------------------------------------ W01: the tile grid and the values
def mz_of(z0):
    return -0.2827 * math.log(0.4554 * math.log(z0) + 3.734) + 1.0762


def ms_of(s):
    v = s / 100.0
    return v * 0.9 if v < 0.9 else v * v


def read_layers(out):
    """(type, direction) -> list of (file, lon, lat, values)."""
    res = {}
    bad = []
    for folder, u in TYPES.items():
        d = os.path.join(out, folder)
        names = sorted(os.listdir(d)) if os.path.isdir(d) else []
        for n in names:
            m = LAYER.match(n)
            if not m or m.group("u") != u:
                continue
            p = os.path.join(d, n)
            try:
                c = nc_content(p)
            except (OSError, RuntimeError) as e:
                bad.append((folder + "/" + n, "unreadable (%s)" % str(e)[:60]))
                continue
            var = {"ms": "Ms", "mz": "Mz", "mt": "Mt"}[u]
            if var not in c["vars"] or "lat" not in c["vars"] or "lon" not in c["vars"]:
                bad.append((folder + "/" + n, "variables %s" % sorted(c["vars"])))
                continue
            res.setdefault((u, m.group("d")), []).append(
                (folder + "/" + n, c["vars"]["lon"]["data"], c["vars"]["lat"]["data"], c["vars"][var]["data"],
                 m.group("tile"), c))
    return res, bad


def centres(sc, core):
    import numpy as np
    a, b, c, d = core
    lon = sc["x0"] + (np.arange(a, b) + 0.5) * sc["px"]
    lat = sc["y0"] - (np.arange(c, d) + 0.5) * sc["py"]
    return lon, lat


def no_data(v):
    import numpy as np
    return np.isnan(v) | (v == -9999)


def same_values(got, want, tol=2e-5):
    import numpy as np
    if got.shape != want.shape:
        return "shape %s instead of %s" % (got.shape, want.shape)
    g, w = no_data(got), no_data(want)
    if (g != w).any():
        return "no-data cells differ"
    d = np.abs(np.where(g, 0, got) - np.where(w, 0, want))
    if d.size and d.max() > tol:
        j, i = np.unravel_index(np.argmax(d), d.shape)
        return "cell (row %d, column %d) is %.6f instead of %.6f" % (j, i, got[j, i], want[j, i])
    return None


def check_tiles(sc, out, iso=None):
    """W01 against the model.  `iso`: tile number -> {(u, d): values} computed tile by tile, or None."""
    import numpy as np
    viol = []
    layers, bad = read_layers(out)
    viol += ["%s: %s" % x for x in bad]
    tiles = expected_tiles(sc)
    z, _, own = arrays(sc)
    mzv = {c: mz_of(z0) for c, z0, _ in sc["table"]}
    msv = {c: ms_of(s) for c, _, s in sc["table"]}
    mz_full = np.full(own.shape, np.nan)
    ms_full = np.ones(own.shape)
    for c in mzv:
        mz_full[own == c] = mzv[c]
        ms_full[own == c] = msv[c]
    for folder, u in TYPES.items():
        for d in DIRS8:
            have = list(layers.get((u, d), []))
            for t in tiles:
                if u == "mz" and not t["mz"]:
                    continue
                lon, lat = centres(sc, t["core"])
                hit = [x for x in have if x[1].shape == lon.shape and x[2].shape == lat.shape and
                       np.allclose(x[1], lon, atol=1e-5 * sc["px"] + 1e-9) and
                       np.allclose(x[2], lat, atol=1e-5 * sc["py"] + 1e-9)]
                what = "tile %d (columns %d-%d, rows %d-%d) %s %s" % ((t["k"],) + t["core"] + (u, d))
                if len(hit) != 1:
                    viol.append("%s: %d layers at its coordinates" % (what, len(hit)))
                    continue
                have.remove(hit[0])
                a, b, c, e = t["core"]
                got = hit[0][3]
                if sc["crs"] == "geo" and sc["px"] > 0.02 and u in ("mz", "ms"):
                    want = (mz_full if u == "mz" else ms_full)[c:e, a:b]
                    if u == "ms" and _steep(sc):
                        want = None
                    if want is not None:
                        bad1 = same_values(got, want)
                        if bad1:
                            viol.append("%s: %s" % (what, bad1))
                if iso is not None and (u, d) in iso.get(t["k"], {}):
                    bad1 = same_values(got, iso[t["k"]][(u, d)], 1e-6)
                    if bad1:
                        viol.append("%s: differs from the tile computed on its own: %s" % (what, bad1))
            for x in have:
                viol.append("%s: layer that belongs to no tile" % x[0])
    return viol


def _steep(sc):
    return sc["dem"]["kind"] == "alps"      # otherwise slopes stay far below 3.27 degrees: geographic cells are wide


# ------------------------------------------------------------------ W07/W08: combined rasters
def layer_value(path, var):
    """Cell values of a layer, top row first, no-data as NaN."""
    import numpy as np
    c = nc_content(path)
    v = c["vars"][var]["data"].astype("f8")
    fill = c["vars"][var]["atts"].get("_FillValue", -9999)
    v = np.where((v == fill) | (v == -9999), np.nan, v)
    lat = c["vars"]["lat"]["data"]
    if len(lat) > 1 and lat[0] < lat[-1]:
        v = v[::-1]
    return v, c


def expected_bands(base, tile, missing=()):
    """Bands e..w of the combined raster of a tile; `missing`: (u, d) pairs that count as 1.0."""
    import numpy as np
    bands = []
    for d in BANDS:
        prod = None
        for folder, u in TYPES.items():
            var = {"ms": "Ms", "mz": "Mz", "mt": "Mt"}[u]
            p = os.path.join(base, folder, "%s_%s_%s.nc" % (tile, u, d))
            if (u, d) in missing or not os.path.exists(p):
                v = 1.0
            else:
                v = layer_value(p, var)[0]
            prod = v if prod is None else prod * v
        bands.append(prod)
    shape = next((np.shape(b) for b in bands if np.shape(b)), None)
    return [np.broadcast_to(b, shape).astype("f8") if shape else None for b in bands]


def check_combined(base, tile, missing=(), tol=2e-6):
    """W07 for one tile, against numpy."""
    import numpy as np
    viol = []
    want = expected_bands(base, tile, missing)
    if want[0] is None:
        return ["tile %s: no layer to compare with" % tile]
    m3, mx = os.path.join(base, "M3", tile + ".tif"), os.path.join(base, "M3_max", tile + ".tif")
    for p in (m3, mx):
        if not os.path.exists(p):
            viol.append("%s: missing" % os.path.relpath(p, base))
    if viol:
        return viol
    try:
        a, b = tif_content(m3), tif_content(mx)
    except RuntimeError as e:
        return ["tile %s: unreadable raster (%s)" % (tile, str(e)[:80])]
    if len(a["bands"]) != 8:
        return ["M3/%s.tif: %d bands" % (tile, len(a["bands"]))]
    if len(b["bands"]) != 1:
        return ["M3_max/%s.tif: %d bands" % (tile, len(b["bands"]))]
    gt = expected_gt(base, tile, missing)
    for name, c in (("M3", a), ("M3_max", b)):
        if gt is not None and any(abs(x - y) > 1e-6 * max(1, abs(y)) for x, y in zip(c["gt"], gt)):
            viol.append("%s/%s.tif: lies at %s instead of %s" % (name, tile, c["gt"], gt))
    full = []
    for i, d in enumerate(BANDS):
        band = a["bands"][i]
        w = np.where(np.isnan(want[i]), -9999, want[i])
        bad = same_values(np.where(np.isnan(band["data"]), np.nan, band["data"]).astype("f8"), w, tol)
        if bad:
            viol.append("M3/%s.tif band %d (%s): %s" % (tile, i + 1, d, bad))
        if band["nodata"] != -9999:
            viol.append("M3/%s.tif band %d: no-data value %s" % (tile, i + 1, band["nodata"]))
        if np.isnan(band["data"]).any():
            viol.append("M3/%s.tif band %d: NaN cells" % (tile, i + 1))
        if band["desc"] != d:
            viol.append("M3/%s.tif band %d: described as %r" % (tile, i + 1, band["desc"]))
        full.append(want[i])
    st = np.stack(full)
    allnan = np.isnan(st).all(axis=0)
    w = np.where(allnan, -9999, np.nanmax(np.where(np.isnan(st), -np.inf, st), axis=0))
    bad = same_values(b["bands"][0]["data"].astype("f8"), w, tol)
    if bad:
        viol.append("M3_max/%s.tif: %s" % (tile, bad))
    if b["bands"][0]["nodata"] != -9999:
        viol.append("M3_max/%s.tif: no-data value %s" % (tile, b["bands"][0]["nodata"]))
    return viol


def expected_gt(base, tile, missing=()):
    """Geotransform from the coordinates of the northern shielding layer (None for one row or column)."""
    p = os.path.join(base, "shielding", "%s_ms_n.nc" % tile)
    c = nc_content(p)
    lon, lat = c["vars"]["lon"]["data"], c["vars"]["lat"]["data"]
    if len(lon) < 2 or len(lat) < 2:
        att = c["vars"].get("crs", {}).get("atts", {}).get("GeoTransform")
        return tuple(float(x) for x in att.split()) if att else None
    dx = (lon[-1] - lon[0]) / (len(lon) - 1)
    dy = (lat[-1] - lat[0]) / (len(lat) - 1)
    top = max(lat[0], lat[-1])
    return (lon[0] - dx / 2, dx, 0.0, top + abs(dy) / 2, 0.0, -abs(dy))


def tiles_of(base):
    """Tiles that have shielding layers."""
    d = os.path.join(base, "shielding")
    out = set()
    for n in os.listdir(d) if os.path.isdir(d) else ():
        m = LAYER.match(n)
        if m:
            out.add(m.group("tile"))
    return sorted(out)


def check_mosaics(base, tiles):
    import numpy as np
    from osgeo import gdal
    viol = []
    for sub, nb in (("M3", 8), ("M3_max", 1)):
        p = os.path.join(base, sub, "wind-multipliers.vrt")
        if not tiles:
            continue
        if not os.path.exists(p):
            viol.append("%s: no mosaic" % sub)
            continue
        try:
            src = vrt_sources(p)
        except ET.ParseError as e:
            viol.append("%s: broken mosaic (%s)" % (sub, e))
            continue
        want = sorted(os.path.join(base, sub, t + ".tif") for t in tiles)
        if len(src) != nb:
            viol.append("%s mosaic: %d bands" % (sub, len(src)))
        for i, s in enumerate(src):
            if sorted(s) != want:
                viol.append("%s mosaic band %d refers to %s instead of %s" % (
                    sub, i + 1, sorted(os.path.basename(x) for x in s), [os.path.basename(x) for x in want]))
                break
        ds = gdal.Open(p)
        if ds is None:
            viol.append("%s: mosaic cannot be opened" % sub)
            continue
        g = ds.GetGeoTransform()
        nd = [ds.GetRasterBand(i + 1).GetNoDataValue() for i in range(ds.RasterCount)]
        if any(v != -9999 for v in nd):
            viol.append("%s mosaic marks %s as no data" % (sub, sorted(set(map(str, nd)))))
        for t in tiles:
            q = os.path.join(base, sub, t + ".tif")
            if not os.path.exists(q):
                continue
            c = tif_content(q)
            ox = (c["gt"][0] - g[0]) / g[1]
            oy = (c["gt"][3] - g[3]) / g[5]
            nx, ny = c["size"]
            if abs(ox - round(ox)) > 1e-3 or abs(oy - round(oy)) > 1e-3 or abs(c["gt"][1] - g[1]) > 1e-6 * g[1] \
                    or abs(c["gt"][5] - g[5]) > 1e-6 * abs(g[5]):
                viol_aligned = False
            else:
                viol_aligned = True
            if not viol_aligned:
                continue
            ox, oy = int(round(ox)), int(round(oy))
            if ox < 0 or oy < 0 or ox + nx > ds.RasterXSize or oy + ny > ds.RasterYSize:
                viol.append("%s mosaic does not cover tile %s" % (sub, t))
                continue
            for i in range(min(nb, ds.RasterCount)):
                got = ds.GetRasterBand(i + 1).ReadAsArray(ox, oy, nx, ny)
                if got is None or not np.array_equal(got, c["bands"][i]["data"], equal_nan=True):
                    viol.append("%s mosaic band %d shows other values than tile %s" % (sub, i + 1, t))
                    break
        del ds
    return viol


def check_conversion(base, missing=None, tiles=None):
    """W07/W08 on a directory: every tile with shielding layers, both rasters, both mosaics."""
    tiles = tiles_of(base) if tiles is None else tiles
    missing = missing or {}
    viol = []
    for t in tiles:
        viol += check_combined(base, t, missing.get(t, ()))
    for sub in ("M3", "M3_max"):
        d = os.path.join(base, sub)
        for n in sorted(os.listdir(d)) if os.path.isdir(d) else ():
            if n.endswith(".tif") and n[:-4] not in tiles:
                viol.append("%s/%s: belongs to no tile" % (sub, n))
    viol += check_mosaics(base, tiles)
    return viol


# ------------------------------------------------------------------ trees
def tree_state(root, skip=()):
    """rel -> (kind, digest) of everything below root, except subtrees in `skip`."""
    out = {}
    for rel, k in walk(root).items():
        if any(rel == s or rel.startswith(s + "/") for s in skip):
            continue
        if k == "f":
            out[rel] = ("f", hashlib.blake2b(raw_bytes(os.path.join(root, rel)), digest_size=12).hexdigest())
        else:
            out[rel] = (k, "")
    return out


def expected_listing(sc, names=None):
    """What a successful run leaves in the output directory: number of files per sub-directory."""
    tiles = expected_tiles(sc)
    n, m = len(tiles), sum(t["mz"] for t in tiles)
    return {"terrain": 8 * m, "shielding": 8 * n, "topographic": 8 * n, "M3": n + (1 if n else 0),
            "M3_max": n + (1 if n else 0)}


def check_listing(sc, out):
    """W11: only layers, combined rasters and mosaics."""
    viol = []
    have = walk(out)
    allowed = set(SUBDIRS)
    tiles = set()
    for rel, k in have.items():
        parts = rel.split("/")
        if len(parts) == 2 and parts[0] in TYPES:
            m = LAYER.match(parts[1])
            if m and m.group("u") == TYPES[parts[0]] and k == "f":
                allowed.add(rel)
                tiles.add(m.group("tile"))
    for t in tiles:
        for sub in ("M3", "M3_max"):
            allowed |= {sub + "/" + t + ".tif", sub + "/wind-multipliers.vrt"}
    for rel in sorted(have):
        if rel not in allowed:
            viol.append("%s is left behind" % rel)
    want = expected_listing(sc)
    for sub, n in want.items():
        got = sum(1 for rel, k in have.items() if rel.startswith(sub + "/") and k == "f" and rel in allowed)
        if got != n:
            viol.append("%s holds %d result files instead of %d" % (sub, got, n))
    for s in SUBDIRS:
        if s not in have:
            viol.append("directory %s is missing" % s)
    return viol
