"""W17: singleton classes requested by several threads."""
import copy
import json
import os
import types

from . import seams
from .bench import HERE
from .core import thread_policy
from .plans import Plan, V, not_finished, short


def paths(sc, root):
    return {"start": os.path.join(root, "work"), "text": {"cfg": ""}}


def build(sc, root):
    os.makedirs(os.path.join(root, "work"))
    with open(os.path.join(root, "work", "job.json"), "w") as fh:
        json.dump(sc, fh)


def scenario(rng):
    n = rng.choice([1, 1, 2, 2, 3])
    classes = []
    for k in range(n):
        c = {"kind": rng.choice(["plain", "plain", "plain", "falsy", "empty", "equal", "new"]), "base": None,
             "nested": [], "steps": rng.choice([0, 1, 3]), "fails": 0}
        if k and rng.random() < 0.35:
            c["base"] = rng.randrange(k)
        if k and rng.random() < 0.35:
            c["nested"] = [rng.randrange(k)]
        if rng.random() < 0.3:
            c["fails"] = rng.choice([1, 1, 2])
        classes.append(c)
    for c in classes:                 # a constructor that asks for a failing singleton would fail with it
        c["nested"] = [o for o in c["nested"] if not classes[o]["fails"]]
    threads = []
    for _ in range(rng.choice([2, 2, 2, 3, 4])):
        threads.append([rng.randrange(n) for _ in range(rng.choice([1, 1, 2, 3]))])
    return {"single": 1, "classes": classes, "threads": threads, "args": rng.random() < 0.3,
            "module": rng.choice(["utilities.meta", "utilities.meta", "meta"])}


class Probe:
    def __init__(self):
        self.log, self.done = [], False
        self.objects = []
        self.count = {}
        m = self.module = types.ModuleType("wm_probe")
        for f in (self.begin, self.broken, self.built, self.failed, self.got, self.finished):
            setattr(m, f.__name__, f)

    def begin(self, k):
        self.count[k] = self.count.get(k, 0) + 1
        self.log.append(("begin", k, self.count[k]))
        return self.count[k]

    def broken(self, k, n):
        self.log.append(("broken", k, n))

    def built(self, k, n):
        self.log.append(("built", k, n))

    def failed(self, t, k, text):
        self.log.append(("failed", k, t, text))

    def got(self, t, k, x, state, right):
        for j, o in enumerate(self.objects):
            if o is x:
                break
        else:
            j = len(self.objects)
            self.objects.append(x)
        self.log.append(("got", k, t, j, state, right))

    def finished(self):
        self.done = True


class OneInstance(Plan):
    pid = "W17"
    rule = ("1-3 singleton classes (plain, falsy, empty, equal to everything, subclassed, nested, failing the first "
            "times) requested by 2-4 threads, preempted at lines or bytecodes of the constructors and the metaclass; "
            "non-trivial: two threads want the same class; distinct: by scenario and interleaving hash")
    components = ("real: utilities/meta.py, threading.py and the requesting threads; stub: the lock and thread-start "
                  "primitives (_thread)")

    def spec_of(self, rng, sc):
        return {"n": 1, "mode": "serial", "script": os.path.join(HERE, "single_driver.py"), "args": ["job.json"],
                "threads": {"preempt": rng.choice(["line", "opcode"]), "cpus": 4,
                            "files": [os.path.join(HERE, "single_driver.py")]}}

    def generate(self, b, rng, i):
        sc = scenario(rng)
        out = []
        for _ in range(rng.choice([2, 4, 6])):
            spec = self.spec_of(rng, sc)
            ph = {"spec": spec, "faults": [], "dseed": rng.randrange(1 << 30),
                  "policy": thread_policy(rng, len(sc["threads"]), 300 if spec["threads"]["preempt"] == "line" else 1500)}
            out.append(self.case(sc, [ph]))
        return out

    def execute(self, b, case):
        sc, ph = case["sc"], case["phases"][0]
        p = b.setup(sc)
        pr = Probe()
        r = b.phase(p, ph, sc, mods={"wm_probe": pr.module})
        want = [set() for _ in sc["classes"]]
        for t, lst in enumerate(sc["threads"]):
            for k in lst:
                want[k].add(t)
        b.nontrivial = any(len(w) > 1 for w in want)
        return self.judge(sc, r, pr)[:4]

    def judge(self, sc, r, pr):
        v = not_finished(r, "requests for singletons")
        if v or not pr.done:
            return v or [V("lost", "the requesting program does not finish")]
        byobj = {}
        for k, c in enumerate(sc["classes"]):
            ev = [e for e in pr.log if e[1] == k]
            built = [e for e in ev if e[0] == "built"]
            broken = [e for e in ev if e[0] == "broken"]
            begun = [e for e in ev if e[0] == "begin"]
            got = [e for e in ev if e[0] == "got"]
            failed = [e for e in ev if e[0] == "failed"]
            what = "class C%d (%s)" % (k, c["kind"])
            nested = any(k in o["nested"] for o in sc["classes"])
            if len(built) > 1 or len(begun) - len(broken) > 1:
                return [V("twice", "%s is constructed %d times" % (what, max(len(built), len(begun) - len(broken))))]
            if (got or nested and begun) and not built:
                return [V("half", "%s is handed out, but no constructor completed" % what)]
            for e in got:
                if e[4] != "ready":
                    return [V("half", "%s is handed out in state %r" % (what, e[4]))]
                if not e[5]:
                    return [V("mixed", "a request for %s yields an instance of another class" % what)]
                if e[3] in byobj and byobj[e[3]] != k:
                    return [V("mixed", "%s and C%d share an instance" % (what, byobj[e[3]]))]
                byobj[e[3]] = k
            if len({e[3] for e in got}) > 1:
                return [V("twice", "requests for %s yield %d different instances" % (what, len({e[3] for e in got})))]
            if sorted("%d:%d" % (k, e[2]) for e in broken) != sorted(e[3] for e in failed):
                return [V("error", "constructors of %s failed %d times, callers saw %d exceptions" % (
                    what, len(broken), len(failed)))]
            total = sum(lst.count(k) for lst in sc["threads"])
            if total != len(got) + len(failed):
                return [V("lost", "requests for %s: %d, answers: %d" % (what, total, len(got) + len(failed)))]
        return []


PLANS = {"W17": OneInstance}
