"""One worker process: explores seeds, replays a case, or shrinks it.  Talks JSON lines on stdout."""
import argparse
import copy
import json
import os
import random
import sys
import time
import traceback

START = time.monotonic()


def say(fd, **m):
    os.write(fd, (json.dumps(m, default=str) + "\n").encode())


def plan_for(pid):
    from . import registry
    return registry.PLANS[pid]()


def known_for(pid):
    from . import registry
    return registry.known(pid)


def strip(case):
    """A case with the decisions of its own run as replay record."""
    c = copy.deepcopy(case)
    for ph in c["phases"]:
        t = ph.pop("taken", None)
        if t is not None:
            ph["decisions"] = {str(k): v for k, v in t.items()}
    return c


def clean(case):
    c = copy.deepcopy(case)
    for ph in c["phases"]:
        ph.pop("taken", None)
    return c


def explore(b, plan, args, fd):
    mono = clock()
    known = known_for(args.prop)
    i = args.worker
    cases = nontrivial = 0
    distinct = set()
    samples = []
    errors = 0
    end = START + args.budget
    last = mono()

    def report(t):
        say(fd, t=t, cases=cases, nontrivial=nontrivial, distinct=[h & 0xffffffffffff for h in distinct],
            samples=samples, errors=errors, wall=mono() - START, seeds=(i - args.worker) // args.of,
            stats=b.stats, fired=b.faults_fired, planned=b.faults_planned, ops=b.op_kinds, sim_time=b.sim_time,
            interleavings=len(b.interleavings))

    while True:
        now = mono()
        if now - last > 2:
            last = now
            report("snap")
        if now > end and (cases >= args.mincases or now > START + args.cap):
            break
        rng = random.Random("%s:%s:%d" % (args.prop, args.seed, i))
        say(fd, t="seed", i=i)
        try:
            todo = plan.generate(b, rng, i)
        except Exception:
            errors += 1
            say(fd, t="error", i=i, text=traceback.format_exc()[-3000:])
            todo = []
            if errors > 20:
                break
        for case in todo:
            say(fd, t="case", case=case if args.hold else None)
            try:
                viol = b.execute(plan, case)
            except Exception:
                errors += 1
                say(fd, t="error", i=i, case=clean(case), text=traceback.format_exc()[-3000:])
                if errors > 20:
                    break
                continue
            cases += 1
            if b.nontrivial:
                nontrivial += 1
                distinct.add(hash(json.dumps(case["sc"], sort_keys=True) + "".join(b.marks)))
                if len(samples) < 2:
                    samples.append(clean(case))
            if viol:
                fresh = [v for v in viol if not any(k.search(v.msg) for k in known)]
                if not fresh:
                    b.stats["known_findings_seen"] += 1
                    continue
                v = fresh[0]
                report("snap")
                say(fd, t="viol", i=i, cls=v.cls, msg=v.msg[:600], case=strip(case), raw=clean(case))
                b.stats["violations"] += 1
                if b.stats["violations"] >= 3:
                    end = 0
                    break
            if mono() > START + args.cap:
                break
        i += args.of
        if end == 0:
            break
    report("done")


def batch(b, plan, cases, fd):
    """The given cases one after the other, each twice reported as marks of its runs (see tools/selftest.py)."""
    for k, case in cases:
        viol = b.execute(plan, case)
        say(fd, t="marks", k=k, marks=list(b.marks), viol=[v.msg[:200] for v in viol or ()], case=strip(case))


def generate(b, plan, args, fd):
    """Cases of some seeds, not executed."""
    for i in range(args.worker, args.worker + args.mincases):
        for case in plan.generate(b, random.Random("%s:%s:%d" % (args.prop, args.seed, i)), i):
            say(fd, t="made", case=clean(case))


def clock():
    from . import seams
    return seams.REAL.get("time.monotonic", time.monotonic)


def judge(b, plan, case):
    c = copy.deepcopy(case)
    known = known_for(case["property"])
    viol = [v for v in b.execute(plan, c) if not any(k.search(v.msg) for k in known)]
    return viol, c


def replay(b, plan, case, fd):
    viol, _ = judge(b, plan, case)
    if viol:
        say(fd, t="replayed", cls=viol[0].cls, msg=viol[0].msg[:600], mark=b.marks, all=[v.msg[:300] for v in viol[:5]])
    else:
        say(fd, t="replayed", cls=None, msg="", mark=b.marks, all=[])


def shrink(b, plan, case, cls, limit, fd):
    mono = clock()
    stop = mono() + limit
    best = copy.deepcopy(case)
    tries = 0

    def holds(c):
        nonlocal tries
        if mono() > stop:
            return None
        tries += 1
        say(fd, t="try")
        try:
            viol, done = judge(b, plan, c)
        except Exception:
            return None
        for v in viol:
            if v.cls == cls:
                return strip(done), v
        return None

    first = holds(best)
    if first is None:
        say(fd, t="shrunk", case=None, tries=tries)
        return
    best, viol = first

    def attempt(edit):
        nonlocal best, viol
        c = copy.deepcopy(best)
        try:
            if edit(c) is False:
                return False
        except (KeyError, IndexError, TypeError):
            return False
        if c == best:
            return False
        got = holds(c)
        if got:
            best, viol = got
            return True
        return False

    def edits():
        # fewer phases, faults, torn files
        for k in range(len(best["phases"]) - 1):
            yield lambda c, k=k: c["phases"].pop(k)
        for k, ph in enumerate(best["phases"]):
            for j in range(len(ph.get("faults", ()))):
                yield lambda c, k=k, j=j: c["phases"][k]["faults"].pop(j)
            for j in range(len(ph.get("post") or ())):
                yield lambda c, k=k, j=j: c["phases"][k]["post"].pop(j)

            def default(c, k=k):
                c["phases"][k]["decisions"] = {}
            yield default
            for key, val in (("clocks", None), ("git", "notag"), ("send", "eager"), ("coll", "lazy"),
                             ("kill_delay", 0)):
                def setv(c, k=k, key=key, val=val):
                    s = c["phases"][k]["spec"]
                    if s.get(key, val) == val:
                        return False
                    s[key] = val
                yield setv

            def fewer(c, k=k):
                s = c["phases"][k]["spec"]
                if s["n"] <= 1:
                    return False
                s["n"] -= 1
            yield fewer
        for path, val in ((("dem", "void"), None), (("dem", "holes"), 0), (("lc", "nodata"), None), (("lc", "crs"), False),
                          (("dem", "zero"), []), (("dem", "zerosum"), False), (("lc", "empty"), []),
                          (("lc", "unclass"), 0.0), (("lc", "factor"), 1), (("lc", "margin"), 0),
                          (("lc", "fmt"), "GTiff"), (("dem", "fmt"), "GTiff"), (("dem", "dtype"), "f4"),
                          (("lc", "dtype"), "i4"), (("layout", "bystanders"), False), (("layout", "slash"), False),
                          (("layout", "outdir"), None), (("layout", "root"), None), (("layout", "rel"), False), (("layout", "dot"), False),
                          (("layout", "level"), "INFO"), (("dem", "kind"), "rough")):
            def sets(c, path=path, val=val):
                d = c["sc"][path[0]]
                if d.get(path[1], val) == val:
                    return False
                d[path[1]] = val
            yield sets
        # a smaller world
        for n, (items, _) in enumerate(plan.lists(best["sc"])):
            for j in reversed(range(len(items))):
                def drop(c, n=n, j=j):
                    items, least = plan.lists(c["sc"])[n]
                    items.pop(j)
                    if len(items) < least:
                        return False
                    return plan.valid(c["sc"])
                yield drop

    def ddmin(k):
        """Fewer scheduling decisions in phase k."""
        n = 2
        while mono() < stop:
            keys = sorted(best["phases"][k].get("decisions", {}), key=int)
            if len(keys) < 1:
                return
            size = max(1, len(keys) // n)
            parts = [keys[i:i + size] for i in range(0, len(keys), size)]
            hit = False
            for part in parts:
                if attempt(lambda c: [c["phases"][k]["decisions"].pop(x, None) for x in part] and None):
                    hit = True
                    break
            if hit:
                n = max(n - 1, 2)
            elif size == 1:
                return
            else:
                n = min(len(keys), n * 2)

    again = True
    while again and mono() < stop:
        again = False
        for e in list(edits()):
            if mono() > stop:
                break
            if attempt(e):
                again = True
        for k in range(len(best["phases"])):
            if len(best["phases"][k].get("decisions", {})) < 400 or mono() < stop - limit / 2:
                ddmin(k)
    say(fd, t="shrunk", case=best, cls=viol.cls, msg=viol.msg[:600], tries=tries)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("mode")
    ap.add_argument("--prop", required=True)
    ap.add_argument("--worker", type=int, default=0)
    ap.add_argument("--of", type=int, default=1)
    ap.add_argument("--seed", default="1")
    ap.add_argument("--budget", type=float, default=20)
    ap.add_argument("--cap", type=float, default=300)
    ap.add_argument("--mincases", type=int, default=0)
    ap.add_argument("--hold", action="store_true")
    ap.add_argument("--base", required=True)
    ap.add_argument("--src", required=True)
    ap.add_argument("--case")
    ap.add_argument("--cls")
    ap.add_argument("--limit", type=float, default=60)
    args = ap.parse_args()
    from . import env
    fd = os.dup(1)
    null = os.open("/dev/null", os.O_WRONLY)
    os.dup2(null, 1)
    env.drop_privileges()
    os.umask(0o022)
    plan = plan_for(args.prop)
    env.quiet_fd2(os.path.join(os.path.dirname(args.base), "err%02d.txt" % args.worker))
    import faulthandler
    import signal
    faulthandler.register(signal.SIGUSR1, all_threads=True)
    env.warm(args.base, plan.shapefiles)
    from .bench import Bench, Strata
    src = args.src
    b = Bench(args.base, src)
    b.strata = Strata(args.worker, args.of)
    plan.prepare_worker(b)
    case = None
    if args.case:
        with open(args.case) as fh:
            case = json.load(fh)
    say(fd, t="ready")
    if args.mode == "explore":
        explore(b, plan, args, fd)
    elif args.mode == "replay":
        replay(b, plan, case, fd)
    elif args.mode == "batch":
        batch(b, plan, case, fd)
    elif args.mode == "generate":
        generate(b, plan, args, fd)
    elif args.mode == "shrink":
        shrink(b, plan, case, args.cls, args.limit, fd)
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
