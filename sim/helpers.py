"""W21: the helpers of utilities.files, called by several processes, under storage faults."""
import copy
import gc
import gzip
import hashlib
import json
import math
import os
import re
import shutil
import time
import types

import numpy as np

from . import seams
from .bench import HERE, fault_name, line_fault, make_fault, trace_ops
from .core import random_policy
from .plans import FaultPlan, V, not_finished, short
from .runjob import clear

LEVELS = {"DEBUG": 10, "INFO": 20, "WARNING": 30, "ERROR": 40}
OLD = ("none", "none", "none", "longer", "empty", "dir")


# ------------------------------------------------------------------ the world
def paths(sc, root):
    return {"start": os.path.join(root, "work"), "text": {"cfg": ""}, "root": root}


def build(sc, root):
    os.makedirs(os.path.join(root, "work"))
    os.makedirs(os.path.join(root, "data"))
    with open(os.path.join(root, "blocked"), "w") as fh:
        fh.write("a file, not a directory\n")
    for name, text in sorted(sc["given"].items()):
        with open(os.path.join(root, "data", name), "w", newline="") as fh:
            fh.write(text)
    for k, job in enumerate(sc["procs"]):
        for a in job:
            how = a.get("old", "none")
            f = place(a, root)
            if how in ("longer", "empty", "dir"):
                os.makedirs(os.path.dirname(f), exist_ok=True)
                if how == "dir":
                    os.makedirs(f, exist_ok=True)
                elif not os.path.exists(f):
                    with open(f, "w") as fh:
                        fh.write("77,88\n" * 900 if how == "longer" else "")
    job = copy.deepcopy(sc)
    for lst in job["procs"]:
        for a in lst:
            a["file"] = a["file"].replace("@", root + "/")
    with open(os.path.join(root, "work", "job.json"), "w") as fh:
        json.dump(job, fh)


def place(a, root):
    return os.path.normpath(os.path.join(root, "work", a["file"].replace("@", root + "/")))


DIRS = ["@new/a b", "@new/a b", "@new", "@data", "", "./", "sub", "../new/a b", "@new/a b/c", "@blocked/x"]


def scenario(rng):
    given = {}
    for n in rng.sample(["t1.csv", "t2.txt", "big.csv"], rng.choice([1, 2])):
        rows, cols, d = rng.choice([1, 2, 3, 40]), rng.choice([1, 2, 3]), ","
        if n == "big.csv":
            rows, cols = 700, 12
        text = []
        for r in range(rows):
            if rng.random() < 0.05:
                text.append("% a remark")
            text.append(d.join("%.*f" % (rng.choice([1, 3, 9]), rng.uniform(-99, 99)) for _ in range(cols)) +
                        rng.choice(["", "", "  % remark"]))
        given[n] = "\n".join(text) + rng.choice(["", "\n", "\n", "\r\n"])
    procs = []
    for k in range(rng.choice([1, 1, 2, 2, 3, 4])):
        lst, logged = [], False
        for j in range(rng.choice([1, 2, 3, 4])):
            do = rng.choice(["save", "save", "save", "load", "stat", "stat", "size", "date", "log"])
            if do == "log" and logged:
                do = "save"
            a = {"do": do}
            saves = [x for x in lst if x["do"] == "save" and x.get("old") != "dir" and not x["file"].startswith("@blocked")]
            if do in ("save", "log"):
                d = rng.choice(DIRS)
                ext = rng.choice([".csv", ".txt", "", ".x.gz"]) if do == "save" else rng.choice([".log", "", ".a.log"])
                a["file"] = (d + "/" if d and not d.endswith("/") else d) + "p%d_%d%s" % (k, j, ext)
                if rng.random() < 0.3 and not d.startswith("@blocked"):
                    a["old"] = rng.choice(OLD)
                if rng.random() < 0.2 and saves and do == "save":
                    a["file"] = rng.choice(saves)["file"]
                    a.pop("old", None)
            elif saves and rng.random() < 0.5:
                s = rng.choice(saves)
                a["file"] = s["file"]
            else:
                a["file"] = "@data/" + rng.choice(sorted(given)) if rng.random() < 0.9 else rng.choice(["@data/no", "no"])
            kw = a["kw"] = {}
            if do == "save":
                sh = rng.choice([[3], [1], [2, 2], [1, 3], [4, 1], [60, 5], [300, 12], [0], [2, 1]])
                a["shape"], a["dt"] = sh, rng.choice(["f8", "f8", "f4", "i4"])
                n = int(np.prod(sh))
                a["vals"] = [rng.choice([0.0, 1.0, -2.5, rng.uniform(-1e3, 1e3), rng.uniform(-1, 1) * 10 ** rng.randint(-30, 30),
                                         None]) if a["dt"] != "i4" else rng.randint(-2 ** 31, 2 ** 31 - 1) for _ in range(n)]
                if rng.random() < 0.4:
                    kw["header"] = rng.choice(["a,b", "two\nlines", "", "x" * 300])
                if rng.random() < 0.3:
                    kw["delimiter"] = rng.choice([";", " ", "\t"])
                if rng.random() < 0.4:
                    kw["fmt"] = rng.choice(["%.3f", "%12.5e", "%g", "%d" if a["dt"] == "i4" else "%.1f"])
            elif do == "load":
                s = [x for x in lst if x["do"] == "save" and x["file"] == a["file"]]
                if s and s[-1]["kw"].get("delimiter"):
                    kw["delimiter"] = s[-1]["kw"]["delimiter"]
                if rng.random() < 0.2:
                    kw["skiprows"] = rng.choice([0, 1, 2])
            elif do == "stat" and rng.random() < 0.5:
                kw["chunk_whole"] = rng.choice([1, 16, 4096, 2 ** 20])
            elif do == "date" and rng.random() < 0.5:
                kw["dateformat"] = rng.choice(["%Y-%m-%dT%H:%M:%S", "%j %H"])
            elif do == "log":
                logged = True
                a["level"] = rng.choice(sorted(LEVELS))
                if rng.random() < 0.4:
                    kw["datestamp"] = True
                if rng.random() < 0.5:
                    kw["newlog"] = rng.random() < 0.4
                a["records"] = [[rng.choice([10, 20, 30, 40]), "record %d of %d" % (n, k)] for n in range(rng.choice([0, 1, 4]))]
            lst.append(a)
        procs.append(lst)
    if len(procs) > 1 and rng.random() < 0.3:
        d = rng.choice(["", "@new/a b/", "@data/"])
        for k, lst in enumerate(procs):
            if any(a["do"] == "log" for a in lst):
                continue
            lst.insert(rng.randint(0, len(lst)), {
                "do": "log", "file": d + "shared.log", "level": "INFO", "kw": {"newlog": False},
                "records": [[rng.choice([10, 20, 40]), "record %d of %d" % (n, k)] for n in range(rng.choice([1, 4]))]})
    return {"helpers": 1, "given": given, "procs": procs}


# ------------------------------------------------------------------ the oracle
def expected_text(a):
    kw = a["kw"]
    fmt, d = kw.get("fmt", "%.18e"), kw.get("delimiter", ",")
    v = np.array([np.nan if x is None else x for x in a["vals"]], dtype=a["dt"]).reshape(a["shape"])
    rows = v.reshape(-1, 1) if v.ndim == 1 else v
    out = []
    if kw.get("header"):
        out.append("%" + kw["header"].replace("\n", "\n%"))
    for r in rows:
        out.append(d.join(fmt % x for x in r))
    return "".join(x + "\n" for x in out)


def contents(path, data):
    if path.endswith(".gz"):
        data = gzip.decompress(data)
    return data


def parse(text, kw):
    """The numbers of a text file."""
    lines = text.replace("\r\n", "\n").split("\n")[kw.get("skiprows", 0):]
    rows = []
    for x in lines:
        x = x.split(kw.get("comments", "%"))[0]
        if x.strip():
            rows.append([float(y) for y in x.strip().split(kw.get("delimiter", ","))])
    return rows


class Probe:
    """What the driver reports; runs outside the simulation."""

    def __init__(self, b, sc, p):
        self.b, self.sc, self.p = b, sc, p
        self.outcome, self.handles, self.finish, self.stats, self.data, self.first = {}, {}, set(), {}, {}, {}
        self.now = {}
        m = self.module = types.ModuleType("wm_probe")
        for f in (self.before, self.raised, self.returned, self.after, self.finished):
            setattr(m, f.__name__, self.wrap(f))

    def wrap(self, f):
        def g(*args):
            with seams.raw():
                return f(*args)
        return g

    def file(self, k, j):
        return place(self.sc["procs"][k][j], self.p["root"])

    def read(self, f):
        try:
            with seams.REAL["open"](f, "rb") as fh:
                return fh.read()
        except OSError:
            return None

    def before(self, k, j):
        f = self.file(k, j)
        self.first[k, j] = self.read(f)
        try:
            self.stats[k, j] = os.stat(f)
        except OSError:
            self.stats[k, j] = None
        self.held = self.open_files(f)

    def raised(self, k, j, t, e):
        self.outcome[k, j] = ("raised", [c.__name__ for c in t.__mro__], "%s: %s" % (t.__name__, e))

    def returned(self, k, j, res):
        if isinstance(res, np.ndarray):
            res = res.copy()
        self.outcome[k, j] = ("returned", res)

    def after(self, k, j):
        gc.collect()
        f = self.file(k, j)
        self.data[k, j] = self.read(f)
        if self.sc["procs"][k][j]["do"] != "log":
            self.handles[k, j] = self.open_files(f) - self.held

    def open_files(self, f):
        out = set()
        f = os.path.realpath(f)
        for fd in seams.REAL["os.listdir"]("/proc/self/fd"):
            try:
                t = seams.REAL["os.readlink"]("/proc/self/fd/" + fd)
                st = os.fstat(int(fd))
            except OSError:
                continue
            if t.startswith(f):
                out.add((fd, st.st_dev, st.st_ino))
        return out

    def finished(self, k):
        self.finish.add(k)


class FileHelpers(FaultPlan):
    pid = "W21"
    rule = ("1-4 processes that save, load, describe and log to generated files in existing, missing, shared and impossible "
            "directories, over none or other files; random schedules; storage errors at stratified operations, failing "
            "reads, allocation failures at lines, file-size and descriptor limits; non-trivial: a fault fires or two "
            "processes run; distinct: by world, fault and interleaving hash")
    components = ("real: utilities/files.py, numpy, logging and the file system; stub: MPI (only to start the processes), "
                  "clocks, pids; the calls are made by a generated driver program")

    def lists(self, sc):
        return [(sc["procs"], 1)] + [(x, 1) for x in sc["procs"]]

    def phase(self, b, sc, ph, **kw):
        p = b.setup(sc)
        probe = Probe(b, sc, p)
        n = len(sc["procs"])
        ph["spec"].update(script=os.path.join(HERE, "helpers_driver.py"), args=["job.json"], n=n,
                          mode="mpi" if n > 1 else ph["spec"].get("mode", "serial"))
        r = b.phase(p, ph, sc, mods={"wm_probe": probe.module}, **kw)
        return r, probe, p

    def generate(self, b, rng, i):
        sc = scenario(rng)
        n = len(sc["procs"])
        ph = self.ph(rng, {"n": n, "mode": "mpi" if n > 1 else "serial", "clocks": [[rng.choice([0.0, 86400.0, -1e6]), 1.0]
                                                                                   for _ in range(n)]})
        r, _, _ = self.phase(b, sc, copy.deepcopy(ph), calls=True)
        out = [self.case(sc, [ph])]
        if n > 1:
            for _ in range(3):
                q = copy.deepcopy(ph)
                q["policy"] = random_policy(rng, n)
                q["dseed"] = rng.randrange(1 << 30)
                out.append(self.case(sc, [q]))
        ops = [o for o in trace_ops(r.events) if o[2].startswith(("open", "stat", "mkdir", "listdir", "remove", "rename", "f"))
               and not (o[3] or "").endswith(("job.json", ".py"))]
        if not ops:
            return out
        for _ in range(5):
            q = copy.deepcopy(ph)
            f = line_fault(rng, b.strata, r.calls, ops) if rng.random() < 0.15 else None
            if f is None:
                o = b.strata.pick(rng, ops)
                f = make_fault(rng, o, ("err", "mem", "memline", "fsize", "nofile"), b.strata.used)
                b.strata.hit(o, f)
                if o[2].startswith("open:r") and rng.random() < 0.35:
                    f = {"rank": o[0], "at": o[1], "op": o[2], "kind": "err", "errno": "EIO",
                         "mode": "read", "after": rng.choice([0, 0, 1, 20, 5000])}
                if f["kind"] == "fsize":
                    f["limit"] = rng.choice([0, 0, 1, 20, 100, 300, 3000, 9000])
            q["faults"] = [f]
            out.append(self.case(sc, [q]))
        return out

    def execute(self, b, case):
        sc, ph = case["sc"], case["phases"][0]
        r, pr, p = self.phase(b, sc, ph)
        n = len(sc["procs"])
        b.nontrivial = bool(r.fired or n > 1)
        v = []
        if len(pr.finish) < n:
            if not r.fired or r.end in ("deadlock", "step-limit"):
                v = not_finished(r, "the caller of the helpers") or [V("lost", "a call neither returns nor raises")]
            return v
        where = ", with %s" % ", ".join(fault_name(f) for f in r.fired) if r.fired else ""
        for k, job in enumerate(sc["procs"]):
            for j, a in enumerate(job):
                if (k, j) not in pr.outcome:
                    continue
                o = pr.outcome[k, j]
                b.stats["%s:%s" % (a["do"], o[0])] += 1
                what = "%s of %s by process %d of %d%s" % (a["do"], a["file"], k, n, where)
                v += [V(c, "%s %s" % (what, t)) for c, t in self.judge(p, pr, r, k, j, a, o)]
                if pr.handles.get((k, j)):
                    v.append(V("handle", "%s leaves the file open (%s)" % (what, o[0])))
        return v[:5]

    def judge(self, p, pr, r, k, j, a, o):
        f = place(a, p["root"])
        first, data = pr.first[k, j], pr.data[k, j]
        impossible = a["do"] == "save" and (a["file"].startswith("@blocked") or a.get("old") == "dir" or
                                            os.path.isdir(f)) or a["do"] != "save" and first is None and a["do"] != "log"
        if a["do"] == "log":
            return self.judge_log(p, pr, r, k, j, a, o, f)
        out = []
        if a["do"] != "save" and data != first:
            out.append(("changed", "changes the file"))
        if o[0] == "raised":
            if not r.fired and not impossible:
                if a["do"] == "load" and self.unloadable(f, first, a):
                    return out
                out.append(("fails", "fails: %s" % o[2]))
            elif impossible and not r.fired and not {"OSError"} & set(o[1]):
                out.append(("error", "is impossible and raises %s" % o[2]))
            elif r.fired and a["do"] in ("size", "date") and not {"OSError", "MemoryError"} & set(o[1]):
                out.append(("error", "raises %s instead of an OSError" % o[2]))
            return out
        res = o[1]
        if impossible:
            return out + [("accepted", "returns normally although there is no such file, or none can be there")]
        if a["do"] == "save":
            if data is None:
                return out + [("incomplete", "returns normally, but there is no such file")]
            try:
                text = contents(f, data).decode("latin1")
            except Exception as e:
                return out + [("incomplete", "returns normally, but the file is damaged (%s)" % e)]
            want = expected_text(a)
            if text != want:
                out.append(("incomplete", "returns normally, but the file holds %d characters instead of %d; from %s on: %s" % (
                    len(text), len(want), *tail(text, want))))
        elif a["do"] == "load":
            text = contents(f, first).decode("latin1")
            rows = parse(text, a["kw"])
            got = np.asarray(res, dtype=float).ravel()
            want = np.array([x for row in rows for x in row], dtype=float)
            if got.shape != want.shape or not np.array_equal(got, want, equal_nan=True):
                out.append(("wrong", "returns %s instead of %s" % (short(got.tolist(), 80), short(want.tolist(), 80))))
            elif len(rows) > 1 and len(rows[0]) > 1 and np.shape(res) != (len(rows), len(rows[0])):
                out.append(("wrong", "returns the shape %s instead of %s" % (np.shape(res), (len(rows), len(rows[0])))))
        elif a["do"] == "stat":
            name = a["file"].replace("@", p["root"] + "/")
            want = (os.path.dirname(name), os.path.basename(name), hashlib.md5(first).hexdigest(),
                    REAL_CTIME(pr.stats[k, j].st_mtime))
            if tuple(res) != want:
                out.append(("wrong", "returns %r instead of %r" % (res, want)))
        elif a["do"] == "size":
            if res != len(first):
                out.append(("wrong", "returns %r instead of %d" % (res, len(first))))
        elif a["do"] == "date":
            want = REAL_STRFTIME(a["kw"].get("dateformat", "%Y-%m-%d %H:%M:%S"), time_of(pr.stats[k, j].st_mtime))
            if res != want:
                out.append(("wrong", "returns %r instead of %r" % (res, want)))
        return out

    def unloadable(self, f, first, a):
        try:
            rows = parse(contents(f, first).decode("latin1"), a["kw"])
        except Exception:
            return True
        return len({len(x) for x in rows}) > 1

    def judge_log(self, p, pr, r, k, j, a, o, f):
        if r.fired:
            return []
        name, kw = f, a["kw"]
        if a["file"].startswith("@blocked"):
            name = os.path.join(p["start"], os.path.basename(f))
        if kw.get("datestamp"):
            base, ext = os.path.splitext(os.path.basename(name))
            pat = re.compile(re.escape(base) + r"\.\d{12}\." + re.escape(ext.lstrip(".")) + "$")
            found = sorted(x for x in (os.listdir(os.path.dirname(name)) if os.path.isdir(os.path.dirname(name)) else ())
                           if pat.match(x))
            if o[0] == "raised":
                return [("fails", "fails: %s" % o[2])]
            if len(found) != 1:
                return [("log", "leaves %s as files with a time stamp" % found)]
            name = os.path.join(os.path.dirname(name), found[0])
        if os.path.isdir(name):
            return [] if o[0] == "raised" else [("accepted", "returns normally although a directory is there")]
        if o[0] == "raised":
            return [("fails", "fails: %s" % o[2])]
        text = pr.read(name)
        if text is None:
            return [("log", "leaves no file")]
        text = text.decode("utf-8", "replace")
        out = []
        old = "77,88\n" * 900 if a.get("old") == "longer" and not kw.get("datestamp") and \
            not a["file"].startswith("@blocked") else ""
        append = kw.get("newlog", True) is False
        if append and not text.startswith(old):
            out.append(("log", "does not append to the earlier file"))
        if not append and "77,88" in text:
            out.append(("log", "keeps the earlier file"))
        body = text[len(old):] if append else text
        lines = [x for x in body.split("\n") if x]
        for level, t in a["records"]:
            hits = [x for x in lines if x.endswith(": " + t)]
            n = sum(1 for m in a["records"] if m == [level, t])
            if len(hits) != (n if level >= LEVELS[a["level"]] else 0):
                out.append(("log", "holds the record %r (level %d) %d times" % (t, level, len(hits))))
        if LEVELS[a["level"]] <= 20 and not any("Started log file" in x for x in lines):
            out.append(("log", "has no banner"))
        if not f.endswith("shared.log") and any(re.search(r"record \d+ of (?!%d$)" % k, x) for x in lines):
            out.append(("log", "holds records of another process"))
        return out[:2]


def tail(a, b):
    n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return n, "%r, not %r" % (a[n:n + 30], b[n:n + 30])


REAL_CTIME, REAL_STRFTIME, REAL_LOCAL = time.ctime, time.strftime, time.localtime


def time_of(t):
    return REAL_LOCAL(t)


PLANS = {"W21": FileHelpers}
