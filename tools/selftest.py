"""Is one seed one execution?  Cases of every property are run in several fresh interpreters: in another order, after
other cases, with other machine load, and again from their recorded decisions.  The hash of every event, decision and
interleaving of each run must be the same each time.  PYTHONHASHSEED is an input of an execution (the code walks sets of
tile names; replay files record it): this is done for two hash seeds, between which only the verdicts must agree.

usage: python3 tools/selftest.py [seeds per property] [property ...]      (WM_REPO, VERIF_SEED as for the checks)
"""
import concurrent.futures
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import main as M, registry                                    # noqa: E402


def messages(root, slot, mode, prop, *args, hashseed=0):
    w = M.Proc(root, slot, mode, prop, *args, hashseed=hashseed)
    out, _ = w.p.communicate()
    ls = [json.loads(x) for x in (w.buf + out).split(b"\n") if x.strip()]
    return ls, w.p.returncode


def check(root, slot, prop, seeds, seed):
    made, rc = messages(root, slot, "generate", prop, "--seed", seed, "--worker", "0", "--mincases", str(seeds))
    cases = [(k, m["case"]) for k, m in enumerate(m for m in made if m["t"] == "made")]
    bad, runs, count, verdicts = [], 0, 0, {}
    for hashseed in (0, 424242):
        ref = {}

        def run(tag, items):
            nonlocal runs
            path = "%s/self-%s.json" % (root, prop)
            with open(path, "w") as fh:
                json.dump(items, fh)
            os.chmod(path, 0o644)
            got, rc = messages(root, slot, "batch", prop, "--case", path, hashseed=hashseed)
            done = {m["k"]: m for m in got if m["t"] == "marks"}
            if len(done) < len(items):
                print("   %s (%s, %d): stopped after %d of %d cases, status %s" % (prop, tag, hashseed, len(done),
                                                                                   len(items), rc), flush=True)
            for k, _ in items:
                if k not in done:
                    continue
                runs += len(done[k]["marks"])
                if k not in ref:
                    ref[k] = done[k]
                elif (ref[k]["marks"], ref[k]["viol"]) != (done[k]["marks"], done[k]["viol"]):
                    bad.append("%s case %d (%s): %s / %s" % (prop, k, tag, ref[k]["marks"], done[k]["marks"]))
            return len(done)
        count = run("first", cases)
        run("backwards", cases[::-1])
        run("every second", cases[::2])
        run("from recorded decisions", [(k, ref[k]["case"]) for k in sorted(ref)])
        for k in ref:
            if verdicts.setdefault(k, ref[k]["viol"]) != ref[k]["viol"]:
                bad.append("%s case %d: verdict depends on the hash seed: %s / %s" % (prop, k, verdicts[k],
                                                                                     ref[k]["viol"]))
    return prop, len(cases), count, runs, bad


def main():
    seeds = int(sys.argv[1]) if len(sys.argv) > 1 else 3
    props = sys.argv[2:] or sorted(registry.PLANS)
    root = M.scratch()
    code = 0
    try:
        os.chmod(root, 0o777)
        M.stage(root)
        os.chmod(root, 0o777)
        with concurrent.futures.ThreadPoolExecutor(8) as pool:
            jobs = [pool.submit(check, root, 20 + k, p, seeds, os.environ.get("VERIF_SEED", "1"))
                    for k, p in enumerate(props)]
            for j in concurrent.futures.as_completed(jobs):
                prop, made, done, runs, bad = j.result()
                print("%s: %d cases, %d executed, %d runs compared, %d differ" % (prop, made, done, runs, len(bad)),
                      flush=True)
                for t in bad[:3]:
                    print("   " + t[:600])
                code = code or bool(bad)
    finally:
        M.remove(root)
    return int(code)


sys.exit(main())
