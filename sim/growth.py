"""W22: open files and scratch files of a run do not accumulate with the number of tiles."""
import copy
import gc
import os
import re

from . import conv, seams, world
from .plans import FaultPlan, V, not_finished

TILE = re.compile(r"[ew]\d+\.\d+[ns]\d+\.\d+")
AT = re.compile(r"(_n\.nc|\.tif|\.img)$")


class Sampler:
    """Called before every operation: which process holds which open files, and who wrote which scratch files."""

    def __init__(self, root):
        self.root = root
        self.prev = self.fds()
        self.first = set(self.prev)
        self.held, self.made, self.seq, self.peak = {}, {}, {}, 0
        gc.collect()
        gc.freeze()

    @staticmethod
    def fds():
        """Descriptors of regular files (what the simulator itself keeps open apart)."""
        out = {}
        for fd in seams.REAL["os.listdir"]("/proc/self/fd"):
            try:
                out[fd] = seams.REAL["os.readlink"]("/proc/self/fd/" + fd)
            except OSError:
                continue
        return {k: v for k, v in out.items() if v.startswith("/") and not v.startswith(("/proc", "/dev/null", "/dev/pts"))}

    def __call__(self, a, kind, path):
        with seams.raw():
            p = path if isinstance(path, str) else ""
            m = TILE.search(os.path.basename(p)) if AT.search(p) else None
            if m:
                gc.collect()
            now = self.fds()
            mine = self.held.setdefault(a.key, {})
            for fd, f in now.items():
                if self.prev.get(fd) != f:
                    mine[fd] = f
            for h in self.held.values():
                for fd in [x for x in h if now.get(x) != h[x]]:
                    del h[fd]
            self.prev = now
            self.peak = max(self.peak, len(mine))
            if p and not p.endswith((".nc", ".log", ".py")) and not p.startswith("/proc"):
                self.made.setdefault(p, a.key)
            if not m:
                return
            tile = m.group(0)
            key = (a.key, kind, p.replace(tile, "*"))
            lst = self.seq.setdefault(key, [])
            if lst and lst[-1][0] == tile or tile in [x[0] for x in lst]:
                return
            lst.append((tile, len(mine), self.scratch(a.key, p, tile), sorted(mine.values())[:12]))

    def scratch(self, who, p, tile):
        """Files of other tiles beside the output that this process made and that are no results."""
        n = 0
        for f, k in self.made.items():
            if k == who and tile not in f and TILE.search(os.path.basename(f)) and not f.endswith(".tif"):
                full = f if f.startswith("/") else os.path.join(self.root, f)
                n += os.path.lexists(full)
        return n

    def done(self):
        gc.unfreeze()


def grows(c):
    return len(c) >= 4 and c[-1] - c[1] >= 2 and min(c[len(c) // 2:]) > max(c[:2]) and c[-1] == max(c)


class NoGrowth(FaultPlan):
    pid = "W22"
    rule = ("computations of 5-14 tiles and conversions of 5-40 tiles with complete, missing and damaged layers by 1-4 "
            "processes under random schedules; at the operations of every tile the open files and the remaining scratch "
            "files of the process are counted; non-trivial: one process handles at least four tiles; distinct: by world, "
            "damage and interleaving hash")
    components = ("real: all_multipliers.py, utilities/mpi_runner.py and everything they import, the descriptors of the "
                  "simulating process, attributed to the simulated process that opened them; stub: MPI transport "
                  "(simulated), git (simulated child process), clocks, pids, user name")

    def generate(self, b, rng, i):
        if i % 3 == 2:
            while True:
                sc = world.scenario(rng, "tiny", rng.choice(["geo", "geo", "km"]))
                s = world.step(sc["px"])
                if s <= 4:
                    break
            tx, ty = rng.choice([(5, 1), (6, 1), (8, 1), (1, 7), (3, 3), (7, 2), (4, 2)])
            sc.update(nx=tx * s, ny=ty * world.step(sc["py"]))
            n = tx * ty
            sc["dem"]["zero"] = sorted({rng.randrange(n) for _ in range(rng.choice([0, 0, n // 2, n - 1]))})
            sc["dem"].pop("void", None)
            sc["lc"]["empty"] = sorted({rng.randrange(n) for _ in range(rng.choice([0, 0, n // 2]))})
            spec = self.spec(rng, sc)
            spec["n"] = 1 if spec["mode"] == "serial" else rng.choice([1, 2, 2, 3])
            spec.pop("clocks", None)
            return [self.case(sc, [self.ph(rng, spec)])]
        while True:
            sc = conv.scenario(rng)
            if len(sc["tiles"]):
                break
        nc, nr = rng.choice([(5, 1), (6, 1), (4, 2), (1, 8), (3, 3), (5, 4), (8, 5)])
        sc.update(cols=[rng.choice([1, 2, 3]) for _ in range(nc)], rows=[rng.choice([1, 2, 3]) for _ in range(nr)],
                  names="grid", px=0.25, py=0.25, x0=113.25, y0=-20.0)
        sc["tiles"] = [[x, y] for x in range(nc) for y in range(nr)]
        sc["blank"] = [x for x in sc["blank"] if x[0] < nc * nr]
        ph = self.ph(rng, conv.ConvPlan.conv_spec(self, rng, sc))
        if ph["spec"]["mode"] == "mpi":
            ph = self.ph(rng, dict(ph["spec"], n=rng.choice([1, 1, 2, 2, 3])))
        miss = []
        rate = rng.choice([0, 0, 0.05, 0.3, 1])
        how = rng.choice([None, "gone", "garbage", "empty", "head", "dir", "locked"])
        sel = rng.choice([None, None, rng.choice(conv.ALL)])
        for k in range(nc * nr):
            for u, d in conv.ALL:
                if (u, d) != ("ms", "n") and (sel == (u, d) or sel is None and rng.random() < rate):
                    miss.append([k, u, d, how or rng.choice(conv.HOWS)])
        return [self.case(sc, [copy.deepcopy(ph)], miss=miss), self.case(sc, [ph], miss=[])]

    def execute(self, b, case):
        sc, ph = case["sc"], case["phases"][0]
        p = b.setup(sc)
        if sc.get("conv"):
            names = conv.tile_names(sc)
            for k, u, d, how in case["x"].get("miss", []):
                folder = next(f for f, t in conv.TYPES.items() if t == u)
                conv.damage(os.path.join(p["out"], folder, "%s_%s_%s.nc" % (names[k], u, d)), how, sc["seed"] + k)
            ph["spec"]["args"] = ["-p", p["arg"]]
        s = Sampler(b.ctx.run)
        try:
            r = b.phase(p, ph, op_hook=s)
        finally:
            s.done()
        v = not_finished(r, "conversion" if sc.get("conv") else "fault-free run")
        b.nontrivial = any(len(x) >= 4 for x in s.seq.values())
        b.stats["peak_open_files"] = max(b.stats["peak_open_files"], s.peak)
        for (who, kind, f), lst in sorted(s.seq.items()):
            b.stats["sequences_of_tiles"] += 1
            c = [x[1] for x in lst]
            if grows(c):
                v.append(V("open-files", "process %d of %d holds %s open files at the %s of %s of its tiles one after the "
                           "other; finally %s" % (who[1], ph["spec"]["n"], c, kind, os.path.basename(f), lst[-1][3][-5:])))
            c = [x[2] for x in lst]
            if grows(c):
                v.append(V("scratch", "process %d of %d has left %s scratch files of earlier tiles at the %s of %s of its "
                           "tiles" % (who[1], ph["spec"]["n"], c, kind, os.path.basename(f))))
        return v[:4]


PLANS = {"W22": NoGrowth}
