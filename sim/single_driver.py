"""Run as the main program of a simulated process: threads request instances of singleton classes."""
import json
import sys
import threading

import wm_probe

with open(sys.argv[1]) as fh:
    job = json.load(fh)
if job["module"] == "meta":
    from meta import Singleton
else:
    from utilities.meta import Singleton

classes = []


class Boom(Exception):
    pass


def make(k, c):
    bases = (classes[c["base"]],) if c["base"] is not None else (object,)
    ns = {"__module__": __name__}
    if c["kind"] == "falsy":
        ns["__bool__"] = lambda self: False
    elif c["kind"] == "empty":
        ns["__len__"] = lambda self: 0
    elif c["kind"] == "equal":
        ns["__eq__"] = lambda self, other: True
        ns["__hash__"] = lambda self: 0
    if c["kind"] == "new":
        def __new__(cls, *args, **kw):
            return object.__new__(cls)
        ns["__new__"] = __new__

    def __init__(self, *args, **kw):
        self.state = "raw"
        n = wm_probe.begin(k)
        self.number = n
        for other in c["nested"]:
            self.other = classes[other]()
        for step in range(c["steps"]):
            self.state = "step %d" % step
        if n <= c["fails"]:
            wm_probe.broken(k, n)
            raise Boom("%d:%d" % (k, n))
        self.state = "ready"
        wm_probe.built(k, n)
    ns["__init__"] = __init__
    return Singleton("C%d" % k, bases, ns)


for k, c in enumerate(job["classes"]):
    classes.append(make(k, c))


def thread(t):
    for k in job["threads"][t]:
        try:
            x = classes[k](*([t] if job["args"] else []))
        except Boom as e:
            wm_probe.failed(t, k, str(e))
        else:
            state = getattr(x, "state", None)
            wm_probe.got(t, k, x, state, type(x) is classes[k])


ts = [threading.Thread(target=thread, args=(t,)) for t in range(len(job["threads"]))]
for t in ts:
    t.start()
for t in ts:
    t.join()
wm_probe.finished()
