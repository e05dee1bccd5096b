"""Run as the main program of each simulated process: calls the helpers of utilities.files as its program says."""
import json
import logging
import sys

import numpy as np
import wm_probe
from utilities import files
from utilities.parallel import attempt_parallel

MPI = attempt_parallel()
rank = MPI.COMM_WORLD.rank
with open(sys.argv[1]) as fh:
    job = json.load(fh)["procs"][rank]
for k, a in enumerate(job):
    kw = a.get("kw", {})
    wm_probe.before(rank, k)
    try:
        res = None
        if a["do"] == "save":
            res = files.fl_save_file(a["file"], np.array([np.nan if x is None else x for x in a["vals"]],
                                                         dtype=a["dt"]).reshape(a["shape"]), **kw)
        elif a["do"] == "load":
            res = files.fl_load_file(a["file"], **kw)
        elif a["do"] == "stat":
            res = files.fl_get_stat(a["file"], **kw)
        elif a["do"] == "size":
            res = files.fl_size(a["file"])
        elif a["do"] == "date":
            res = files.fl_mod_date(a["file"], **kw)
        elif a["do"] == "log":
            files.fl_start_log(a["file"], a["level"], **kw)
            for n, (level, text) in enumerate(a["records"]):
                logging.log(level, text)
    except Exception as e:
        wm_probe.raised(rank, k, type(e), e)
    else:
        wm_probe.returned(rank, k, res)
    res = None
    wm_probe.after(rank, k)
wm_probe.finished(rank)
MPI.Finalize()
