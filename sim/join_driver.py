"""Run as the main program of a simulated process: joins generated land-use features with settlement areas."""
import json
import sys
import threading

import wm_probe
from shapely.geometry import shape
from utilities.shapefiles import shp_file

with open(sys.argv[1]) as fh:
    job = json.load(fh)


def load(features):
    s = shp_file()
    for g, att in features:
        s.geom.append(shape(g))
        s.attribute.append(dict(att))
    return s


others = [load(x) for x in job["others"]]
lands = [load(x) for x in job["lands"]]


def join(k):
    j = job["joins"][k]
    land, other = lands[j["land"]], others[j["other"]]
    wm_probe.before(k, land, other)
    try:
        land.spatial_join(other, j["var"])
    except Exception as e:
        wm_probe.failed(k, land, other, e)
    else:
        wm_probe.joined(k, land, other)


if job["parallel"]:
    ts = [threading.Thread(target=join, args=(k,)) for k in range(len(job["joins"]))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
else:
    for k in range(len(job["joins"])):
        join(k)
wm_probe.finished()
