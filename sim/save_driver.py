"""Run as the main program of a simulated process: saves generated grids with nctools.nc_save_grid."""
import json
import sys

import numpy as np
import wm_probe
from utilities import nctools

KINDS = {"f4": np.float32, "f8": float}


def values(v):
    if v is None:
        return None
    a = np.array([np.nan if x is None else x for x in v["data"]], dtype=v["dt"])
    return a.reshape(v["shape"])


def dtype(name):
    kind, _, form = name.partition(":")
    return {"": kind, "np": np.dtype(kind), "type": np.dtype(kind).type}[form]


def build(lst):
    out = {}
    for k, e in enumerate(lst):
        d = {}
        for key in e["keys"]:
            d[key] = values(e[key]) if key == "values" else dtype(e[key]) if key == "dtype" else \
                tuple(e[key]) if key == "dims" else e[key]
        out[k] = d
    return out


with open(sys.argv[1]) as fh:
    job = json.load(fh)
for k, s in enumerate(job):
    kw = dict(s["kw"])
    res = None
    wm_probe.before(k)
    try:
        res = nctools.nc_save_grid(s["file"], build(s["dims"]), build(s["vars"]), **kw)
        if kw.get("keepfileopen"):
            wm_probe.kept(k, res)
            res.close()
    except Exception as e:
        wm_probe.raised(k, type(e), e)
    else:
        wm_probe.returned(k)
    res = None
    wm_probe.after(k)
wm_probe.finished()
