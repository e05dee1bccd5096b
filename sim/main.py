"""The check of one property: stages the sources, runs the workers, confirms, shrinks and reports."""
import collections
import json
import os
import re
import selectors
import shutil
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("WM_REPO", "/repo")
PYTHON = next(p for p in ("/opt/venv/bin/python", sys.executable) if os.path.exists(p))
WORKERS = 8
BUDGET = {"quick": 50.0, "thorough": 600.0}
CAP = {"quick": 240.0, "thorough": 900.0}
HANG = 150.0


def scratch():
    for base in ("/dev/shm", "/tmp"):
        if os.access(base, os.W_OK):
            break
    for k in range(100):
        d = "%s/wm-%06d" % (base, (os.getpid() * 100 + k) % 1000000)
        try:
            os.mkdir(d)
            return d
        except FileExistsError:
            continue
    raise SystemExit("no scratch directory")


class Proc:
    def __init__(self, root, slot, mode, prop, *args, hashseed=0):
        from . import env
        self.slot = slot
        base = "%s/w%02d" % (root, slot)
        if os.path.isdir(base):
            remove(base)
        os.mkdir(base)
        if os.getuid() == 0:
            os.chown(base, 65534, 65534)
        e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "PYTHONHASHSEED": str(hashseed)}
        e.update(env.ENV)
        if mode == "replay" and os.environ.get("WM_TRACE"):
            e["WM_TRACE"] = "1"
        self.base = base
        self.p = subprocess.Popen([PYTHON, "-m", "sim.worker", mode, "--prop", prop, "--base", base, "--src",
                                   root + "/src", *args], cwd=VERIF, env=e, stdin=subprocess.DEVNULL,
                                  stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
        self.buf = b""
        self.last = time.monotonic()
        self.holding = None
        self.seed = None
        self.done = None
        self.snap = None
        self.err = b""

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        self.p.wait()

    def where(self):
        """A silent worker writes its stacks to its error file."""
        try:
            os.kill(self.p.pid, signal.SIGUSR1)
            time.sleep(0.5)
        except ProcessLookupError:
            pass

    def lines(self):
        data = os.read(self.p.stdout.fileno(), 1 << 20)
        if not data:
            return None
        self.last = time.monotonic()
        self.buf += data
        *full, self.buf = self.buf.split(b"\n")
        return [json.loads(x) for x in full if x.strip()]


def remove(d):
    for root, dirs, files in os.walk(d):
        for x in dirs:
            p = os.path.join(root, x)
            if not os.path.islink(p):
                os.chmod(p, 0o755)
    shutil.rmtree(d, ignore_errors=True)


def one(root, slot, mode, prop, *args, hashseed=0, timeout=120):
    """Run a single worker to its end; returns the last message ('hang' if it goes silent)."""
    w = Proc(root, slot, mode, prop, *args, hashseed=hashseed)
    out = []
    sel = selectors.DefaultSelector()
    sel.register(w.p.stdout, selectors.EVENT_READ)
    hang = False
    while True:
        if not sel.select(timeout=2):
            if time.monotonic() - w.last > timeout:
                hang = True
                w.kill()
                break
            continue
        ls = w.lines()
        if ls is None:
            break
        out += ls
    w.kill()
    err = w.p.stderr.read()
    if hang:
        return {"t": "hang"}
    for m in reversed(out):
        if m["t"] in ("replayed", "shrunk", "done"):
            return m
    return {"t": "died", "text": err.decode("utf-8", "replace")[-1500:] + tail("%s/err%02d.txt" % (root, slot))}


def tail(path):
    try:
        with open(path, errors="replace") as fh:
            return fh.read()[-2500:]
    except OSError:
        return ""


def write_replay(prop, rec):
    d = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    import hashlib
    k = hashlib.blake2b(json.dumps(rec["case"], sort_keys=True).encode(), digest_size=5).hexdigest()
    path = os.path.join(d, "%s-%s.json" % (prop, k))
    with open(path, "w") as fh:
        json.dump(rec, fh, indent=1, sort_keys=True)
    return path


def stage(root):
    from . import env
    env.stage(REPO, root + "/src")
    os.chmod(root, 0o755)


def main(argv):
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    budget = float(os.environ.get("WM_BUDGET", BUDGET[tier]))
    from . import registry
    if prop not in registry.PLANS:
        print("no check for %s" % prop)
        return 2
    plan = registry.PLANS[prop]
    t0 = time.monotonic()
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(3))
    root = scratch()
    procs = []
    try:
        os.chmod(root, 0o777)
        stage(root)
        os.chmod(root, 0o777)
        return run(prop, plan, tier, seed, budget, root, procs, t0)
    finally:
        for w in procs:
            w.kill()
        remove(root)


def confirm(root, prop, rec, hashseed):
    path = os.path.join(root, "case.json")
    with open(path, "w") as fh:
        json.dump(rec, fh)
    os.chmod(path, 0o644)
    return one(root, 50, "replay", prop, "--case", path, hashseed=hashseed)


def run(prop, plan, tier, seed, budget, root, procs, t0):
    n = int(os.environ.get("WM_WORKERS", WORKERS))
    hs = lambda k: 101 + 7 * (k % 100)
    budget = budget * getattr(plan, "budget_factor", 1.0)
    mincases = getattr(plan, "mincases", 3) if tier == "quick" else 50
    sel = selectors.DefaultSelector()
    live = set()
    cap = CAP[tier] if tier == "quick" else budget + 120

    def start(slot, at, spent=0.0):
        w = Proc(root, slot, "explore", prop, "--worker", str(at), "--of", str(n), "--seed", seed, "--budget",
                 str(max(1.0, budget - spent)), "--cap", str(max(1.0, cap - spent)), "--mincases",
                 str(mincases if not spent else 0), "--hold", hashseed=hs(slot))
        procs.append(w)
        live.add(w)
        sel.register(w.p.stdout, selectors.EVENT_READ, w)
    for k in range(n):
        start(k, k)
    t1 = time.monotonic()
    deaths = 0
    errors, found, unconfirmed, hangs = [], None, [], []
    while live and found is None:
        for key, _ in sel.select(timeout=2):
            w = key.data
            ls = w.lines()
            if ls is None:
                sel.unregister(w.p.stdout)
                live.discard(w)
                if w.done is None and w.p.wait() in (-11, -6, -7, -8) and w.holding is not None:
                    # the real process would have died, too: a failure, not a success
                    deaths += 1
                    if not any(ph.get("faults") or ph.get("post") for ph in w.holding["phases"]):
                        got = confirm(root, prop, w.holding, hs(w.slot))
                        if got["t"] == "died" and found is None:
                            found = ({"i": w.seed, "cls": "died", "case": w.holding,
                                      "msg": "a fault-free run kills the interpreter"}, hs(w.slot))
                            break
                    if deaths > 60:
                        errors.append("interpreters keep dying: %s" % json.dumps(w.holding))
                    else:
                        start(w.slot, w.seed + n, time.monotonic() - t1)
                elif w.done is None:
                    errors.append("worker %d died (%s) at %s: %s" % (w.slot, w.p.wait(), json.dumps(w.holding), w.p.stderr.read().decode("utf-8", "replace")[-1500:] +
                                                          tail("%s/err%02d.txt" % (root, w.slot))))
                continue
            for m in ls:
                if m["t"] == "seed":
                    w.seed = m["i"]
                    w.holding = None
                elif m["t"] == "case":
                    w.holding = m["case"]
                elif m["t"] == "snap":
                    w.snap = m
                elif m["t"] == "done":
                    w.done = m
                elif m["t"] == "error":
                    errors.append("seed %s: %s" % (m["i"], m["text"]))
                elif m["t"] == "viol" and found is None:
                    got = confirm(root, prop, m["case"], hs(w.slot))
                    if got["t"] == "replayed" and got["cls"] == m["cls"]:
                        found = (m, hs(w.slot))
                    else:
                        unconfirmed.append("seed %d: %s / replay: %s %s" % (m["i"], m["msg"], got["t"],
                                                                            got.get("msg") or got.get("text")))
        now = time.monotonic()
        for w in list(live):
            if now - w.last > HANG and found is None:
                w.where()
                w.kill()
                case, hseed = w.holding, hs(w.slot)
                if case is None:
                    # it hangs while generating: the same seed again, alone
                    errors.append("worker %d hangs at seed %s: %s" % (w.slot, w.seed,
                                                                      tail("%s/err%02d.txt" % (root, w.slot))))
                else:
                    got = confirm(root, prop, case, hseed)
                    if got["t"] == "hang":
                        found = ({"i": w.seed, "cls": "hang", "case": case,
                                  "msg": "the run neither ends nor reaches another operation"}, hseed)
                    else:
                        errors.append("worker %d went silent at seed %s" % (w.slot, w.seed))
                live.discard(w)
                w.done = w.done or {"t": "done", "empty": True}
    for w in procs:
        if w in live:
            w.kill()
    wall = time.monotonic() - t0
    code = 0
    violations = 0
    for text, _ in registry_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    if found:
        m, hseed = found
        case, cls, msg = m["case"], m["cls"], m["msg"]
        if cls not in ("hang", "died"):
            path = os.path.join(root, "case.json")
            with open(path, "w") as fh:
                json.dump(case, fh)
            limit = 60 if tier == "quick" else 240
            got = one(root, 51, "shrink", prop, "--case", path, "--cls", cls, "--limit", str(limit), hashseed=hseed)
            if got["t"] == "shrunk" and got["case"] is not None:
                again = confirm(root, prop, got["case"], hseed)
                if again["t"] == "replayed" and again["cls"] == got["cls"]:
                    case, msg = got["case"], again["msg"]
        rec = {"property": prop, "class": cls, "message": msg, "hashseed": hseed, "case": case,
               "found_at": {"seed": seed, "index": m["i"]}}
        path = write_replay(prop, rec)
        print("%s: %s" % (cls, msg))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        violations = 1
        code = 1
    elif errors or not any(w.done or w.snap for w in procs):
        print("ERROR in the check itself (%d):" % len(errors))
        for e in errors[:3]:
            print(e[-2500:])
        code = 2
    write_evidence(prop, plan, tier, seed, procs, wall, violations, unconfirmed, errors, n, deaths)
    for u in unconfirmed[:5]:
        print("note: not reproduced in a fresh process, not reported: %s" % u[:500])
    return code


def registry_findings(prop):
    from . import registry
    return registry.findings(prop)


def write_evidence(prop, plan, tier, seed, procs, wall, violations, unconfirmed, errors, n, deaths=0):
    done = [d for d in (w.done if w.done and not w.done.get("empty") else w.snap for w in procs) if d]
    tot = collections.Counter()
    stats, fired, planned, ops = (collections.Counter() for _ in range(4))
    distinct = set()
    samples = []
    for d in done:
        for k in ("cases", "nontrivial", "errors", "seeds", "sim_time", "interleavings"):
            tot[k] += d[k]
        for c, name in ((stats, "stats"), (fired, "fired"), (planned, "planned"), (ops, "ops")):
            c.update(d[name])
        distinct.update(d["distinct"])
        samples += d["samples"][:1]
    busy = sum(d["wall"] for d in done) / max(1, len(done))
    ev = {
        "property": prop, "tier": tier, "seed": int(re.sub(r"\D", "", seed) or 0), "level": "exploration",
        "coverage": {
            "evaluations": int(tot["cases"]), "distinct_nontrivial": len(distinct),
            "rule": plan.rule, "samples": samples[:3],
            "seeds": int(tot["seeds"]), "simulated_runs": int(stats.get("runs", 0)),
            "runs_per_hour": int(stats.get("runs", 0) * 3600 / max(busy, 1)),
            "seeds_per_hour": int(tot["seeds"] * 3600 / max(busy, 1)),
            "simulated_seconds": round(tot["sim_time"], 1), "operations": int(stats.get("steps", 0)),
            "context_switches": int(stats.get("switches", 0)), "messages_delivered": int(stats.get("deliveries", 0)),
            "distinct_interleavings": int(tot["interleavings"]),
            "interleaving_measure": "hash of the sequence of (process resumed, its operation count) and deliveries",
            "faults_planned": dict(sorted(planned.items())), "faults_fired": dict(sorted(fired.items())),
            "operations_by_kind": dict(sorted(ops.items())),
            "outcomes": {k: int(v) for k, v in sorted(stats.items()) if k not in ("runs", "steps", "switches",
                                                                                   "deliveries")},
            "components": plan.components, "workers": n,
            "simulated_processes_killed_by_native_code": deaths,
            "unconfirmed": unconfirmed[:5], "harness_errors": len(errors),
        },
        "assumptions": getattr(plan, "assumptions", []), "wall_s": round(wall, 2), "violations": violations,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    c = ev["coverage"]
    print("%s %s: %d cases (%d distinct non-trivial), %d simulated runs, %d faults fired, %d interleavings, %.0f s" % (
        prop, tier, c["evaluations"], c["distinct_nontrivial"], c["simulated_runs"], sum(fired.values()),
        c["distinct_interleavings"], wall))


def replay_main(argv):
    with open(argv[0]) as fh:
        rec = json.load(fh)
    prop = rec["property"]
    root = scratch()
    try:
        os.chmod(root, 0o777)
        stage(root)
        os.chmod(root, 0o777)
        got = confirm(root, prop, rec["case"], rec["hashseed"])
        if os.environ.get("WM_TRACE") and os.path.exists(root + "/w50/trace.txt"):
            shutil.copyfile(root + "/w50/trace.txt", os.environ["WM_TRACE"])
    finally:
        remove(root)
    if got["t"] == "hang" or (got["t"] == "died" and rec["class"] == "died") or (got["t"] == "replayed" and got["cls"]):
        for x in got.get("all", [got["t"]]):
            print(x)
        print("run fingerprint: %s" % (got.get("mark"),))
        print("VIOLATION property=%s replay=%s" % (prop, argv[0]))
        return 1
    if got["t"] != "replayed":
        print("ERROR: %s" % got)
        return 2
    print("property=%s holds in this replay; run fingerprint: %s" % (prop, got.get("mark")))
    return 0
