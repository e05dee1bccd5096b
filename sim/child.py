"""One run of a case in a fresh interpreter (other hash seed); the output stays in the run directory."""
import json
import sys


def main():
    with open(sys.argv[1]) as fh:
        job = json.load(fh)
    from . import env
    env.warm(job["base"])
    from .bench import Bench
    from .plans import not_finished
    b = Bench(job["base"], job["src"])
    case = job["case"]
    p = b.setup(case["sc"])
    b.marks = []
    ph = case["phases"][0]
    r = b.phase(p, ph)
    bad = not_finished(r)
    print(json.dumps({"bad": bad[0].msg if bad else None, "mark": b.marks[0], "steps": r.steps, "taken": r.taken}))


main()
