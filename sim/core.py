"""Deterministic scheduler: decisions, actors (parked OS threads), operations, faults.

Exactly one actor thread runs at any time.  Whoever yields picks the next actor through the run's
`Decider`; every decision that is not the default one is recorded, which makes the recorded list the
replay file of the run.
"""
import hashlib
import random
import sys
import threading


class SimKill(BaseException):
    """Ends an actor thread: every further operation of that actor raises it again."""


class SimStop(Exception):
    """A run that cannot go on (harness-level end of a simulation)."""


class Decider:
    """All nondeterminism of one run.  Search mode draws from a PRNG, replay mode follows a record."""

    def __init__(self, seed=0, policy=None, replay=None):
        self.seed = seed
        self.rng = random.Random(seed)
        self.policy = policy or {"name": "default"}
        self.replay = None if replay is None else {int(k): v for k, v in replay.items()}
        self.idx = 0
        self.taken = {}            # index -> non-default value
        self.kinds = {}
        self.trace_hash = hashlib.blake2b(digest_size=8)
        self._prio = {}
        self._change = None
        self._rr = 0

    def choose(self, kind, n, pick=None):
        """An integer in [0, n); 0 is the default.  `pick` computes the choice in search mode."""
        if n <= 1:
            return 0
        i = self.idx
        self.idx += 1
        if self.replay is not None:
            v = self.replay.get(i, 0)
            if v >= n:
                v = v % n
        elif pick is not None:
            v = pick()
        else:
            v = self.rng.randrange(n)
        if v:
            self.taken[i] = v
            self.kinds[i] = kind
        self.trace_hash.update(b"%d:%d;" % (i, v))
        return v

    def flag(self, kind, p):
        """A boolean, false by default."""
        return bool(self.choose(kind, 2, lambda: 1 if self.rng.random() < p else 0))

    # --- scheduling policies -------------------------------------------------------------------
    def pick_actor(self, options, current):
        """`options`: list of keys (current first if enabled).  Returns the chosen index."""
        n = len(options)
        if n <= 1:
            return 0
        return self.choose("sched", n, lambda: self._policy_pick(options, current))

    def _policy_pick(self, options, current):
        name = self.policy["name"]
        rng = self.rng
        n = len(options)
        if name == "default":
            return 0
        if name == "random":
            return rng.randrange(n)
        if name == "sticky":
            if options[0] == current and rng.random() >= self.policy.get("p", 0.05):
                return 0
            return rng.randrange(n)
        if name == "pct":
            d = self.policy.get("d", 3)
            if self._change is None:
                span = self.policy.get("span", 800)
                self._change = {rng.randrange(span) for _ in range(d)}
            for o in options:
                if o not in self._prio:
                    self._prio[o] = rng.random() + 1.0
            best = max(range(n), key=lambda k: self._prio[options[k]])
            if self.idx in self._change:
                self._prio[options[best]] = rng.random() * 0.001
                best = max(range(n), key=lambda k: self._prio[options[k]])
            return best
        if name == "starve":
            victim = self.policy["victim"]
            victim = ("rank", victim) if isinstance(victim, int) else tuple(victim)
            rest = [k for k in range(n) if options[k] != victim]
            if rest and rng.random() >= self.policy.get("p", 0.002):
                if options[0] == current and 0 in rest and rng.random() < 0.7:
                    return 0
                return rng.choice(rest)
            return rng.randrange(n)
        if name == "rr":
            self._rr += 1
            ks = sorted(range(n), key=lambda k: str(options[k]))
            return ks[self._rr % n]
        if name == "late":            # messages as late as possible
            runs = [k for k in range(n) if options[k][0] in ("rank", "task")]
            if runs and rng.random() >= 0.02:
                if options[0] == current and rng.random() < 0.5:
                    return 0
                return rng.choice(runs)
            return rng.randrange(n)
        raise AssertionError(name)


POLICIES = ("random", "sticky", "pct", "starve", "rr", "late", "sticky", "pct")


def thread_policy(rng, ntasks, span):
    """A policy for the threads of one process."""
    p = random_policy(rng, 1)
    if p["name"] == "starve":
        p["victim"] = rng.choice([["rank", 0]] + [["task", 0, k + 1] for k in range(ntasks)])
        p["p"] = rng.choice([0.0, 0.01, 0.05])
    elif p["name"] == "pct":
        p["span"] = rng.choice([max(4, span // 8), span, 2 * span])
    return p


def random_policy(rng, nranks):
    name = rng.choice(POLICIES)
    p = {"name": name}
    if name == "sticky":
        p["p"] = rng.choice([0.01, 0.05, 0.2])
    elif name == "pct":
        p["d"] = rng.choice([1, 2, 3, 5])
        p["span"] = rng.choice([100, 500, 2000, 6000])
    elif name == "starve":
        p["victim"] = rng.randrange(nranks)
        p["p"] = rng.choice([0.0, 0.001, 0.01])
    return p


class Actor:
    def __init__(self, sim, key, target):
        self.sim = sim
        self.key = key
        self.target = target
        self.gate = threading.Semaphore(0)
        self.started = False
        self.done = False
        self.pred = None               # blocked until pred() is true
        self.why = None
        self.wake_at = None
        self.nops = 0
        self.killed = False
        self.kill_count = 0
        self.thread = None
        self.zombie = False
        self.killed_early = False
        self.blocked_at_end = False
        self.blocked_why = None

    def enabled(self):
        if self.done or self.killed:
            return False
        if self.wake_at is not None and (self.pred is None or self.sim.now >= self.wake_at):
            return self.sim.now >= self.wake_at
        return self.pred is None or self.pred()

    def switch_in(self):
        pass

    def switch_out(self):
        pass


class Events(list):
    """The operations of a run; .sites holds the place in the code under test of each step."""

    def __init__(self):
        super().__init__()
        self.sites = {}


class Sim:
    """One simulated execution."""

    current = None          # the running Sim, if any

    def __init__(self, decider, max_steps=60000):
        self.dec = decider
        self.actors = []
        self.cur = None
        self.now = 0.0
        self.steps = 0
        self.max_steps = max_steps
        self.events = Events()           # (step, actor key, kind, path)
        self.src = None                  # directory of the code under test
        self.faults = []                 # planned faults
        self.fired = []                  # faults that fired
        self.calls = None                # calls per process and function, if they are to be counted
        self.mem_raised = []             # where "memline" faults raised
        self.end = None                  # reason the run ended
        self.main_gate = threading.Semaphore(0)
        self.killing = False
        self.extra_options = None        # callable -> list of (key, action)
        self.op_hooks = []               # called as hook(actor, kind, path) before the operation
        self.interleaving = hashlib.blake2b(digest_size=8)
        self.switches = 0
        self.stop_after = None           # stop when steps reaches this value
        self.harness_error = None
        self.on_end = None               # called when the run is over, before actors are unwound

    # ------------------------------------------------------------------ lifecycle
    def add(self, actor):
        self.actors.append(actor)
        return actor

    def run(self):
        assert Sim.current is None
        Sim.current = self
        try:
            nxt = self._next(None)
            if nxt is not None:
                self._resume(nxt)
                self.main_gate.acquire()
            if self.on_end is not None:
                self.on_end()
            self._unwind()
        finally:
            Sim.current = None
            self.cur = None
        if self.harness_error:
            raise self.harness_error
        return self

    def _resume(self, actor):
        self.cur = actor
        actor.switch_in()
        if not actor.started:
            actor.started = True
            actor.thread = threading.Thread(target=self._body, args=(actor,), daemon=True)
            actor.thread.start()
        else:
            actor.gate.release()

    def _body(self, actor):
        try:
            actor.target()
        except SimKill:
            pass
        except BaseException as e:      # noqa  (harness failure: targets handle their own errors)
            self.harness_error = e
            self.end = self.end or "harness-error"
        actor.done = True
        actor.switch_out()
        if self.killing:
            self.main_gate.release()
            return
        nxt = None
        try:
            nxt = self._next(actor)
        except BaseException as e:     # noqa
            self.harness_error = e
            self.end = self.end or "harness-error"
        if nxt is None:
            self.cur = None
            self.main_gate.release()
        else:
            self._resume(nxt)

    def _unwind(self):
        """Kill whatever is left, one actor at a time."""
        self.killing = True
        for a in self.actors:
            if a.done or not a.started:
                a.done = True
                continue
            a.killed_early = a.killed
            a.blocked_at_end = a.pred is not None
            a.blocked_why = a.why
            a.killed = True
            self.cur = a
            a.switch_in()
            a.gate.release()
            if not self.main_gate.acquire(timeout=20):
                a.zombie = True
                self.harness_error = self.harness_error or SimStop("actor %r cannot be unwound" % (a.key,))
                a.switch_out()

    def stop(self, reason):
        """End the simulation at this instant (the caller's actor is killed)."""
        if self.end is None:
            self.end = reason
        a = self.cur
        if a is not None:
            a.killed = True
        raise SimKill(reason)

    # ------------------------------------------------------------------ scheduling
    def _options(self, cur):
        out = []
        if cur is not None and cur.enabled():
            out.append((cur.key, cur))
        for a in self.actors:
            if a is not cur and a.enabled():
                out.append((a.key, a))
        if self.extra_options is not None:
            out.extend(self.extra_options())
        return out

    def _next(self, cur):
        """The next actor to run; executes message deliveries on the way.  None: the run is over."""
        while True:
            if self.end is not None:
                return None
            if self.steps >= self.max_steps:
                self.end = "step-limit"
                return None
            if self.stop_after is not None and self.steps >= self.stop_after[0]:
                self.end = self.stop_after[1]
                return None
            opts = self._options(cur)
            if not opts:
                sleepers = [a for a in self.actors if not a.done and not a.killed and a.wake_at is not None]
                if sleepers:
                    self.now = min(a.wake_at for a in sleepers)
                    continue
                if self.stop_after is not None:
                    self.end = self.stop_after[1]       # nothing moves until the job is ended from outside
                elif all(a.done or a.killed for a in self.actors):
                    self.end = self.end or "finished"
                else:
                    self.end = "deadlock"
                return None
            k = self.dec.pick_actor([o[0] for o in opts], cur.key if cur is not None else None)
            key, act = opts[k]
            if isinstance(act, Actor):
                if act is not cur:
                    self.switches += 1
                    self.interleaving.update(repr((key, act.nops)).encode())
                return act
            self.steps += 1
            self.now += 0.0005
            self.interleaving.update(repr(key).encode())
            act()

    def yield_(self, pred=None, why=None, wake_at=None):
        """Give up the processor; return when this actor is chosen again (and `pred` holds)."""
        a = self.cur
        if self.killing or a.killed:
            self._dead(a)
        a.pred, a.why, a.wake_at = pred, why, wake_at
        nxt = self._next(a)
        if nxt is not a:
            a.switch_out()
            if nxt is None:
                self.cur = None
                self.main_gate.release()
            else:
                self._resume(nxt)
            a.gate.acquire()
            # running again: the resumer has called switch_in
        if self.killing or a.killed:
            a.pred = a.why = a.wake_at = None
            self._dead(a)
        a.pred = a.why = a.wake_at = None

    def _dead(self, a):
        a.kill_count += 1
        if a.kill_count > 3000:
            # code that swallows everything: leave the thread parked for good
            a.zombie = True
            a.done = True
            a.switch_out()
            self.main_gate.release()
            threading.Semaphore(0).acquire()
        raise SimKill()

    # ------------------------------------------------------------------ operations
    def op(self, kind, path=None, cost=0.001, nosched=False):
        """An operation point of the running actor; returns the fault to apply, if any."""
        a = self.cur
        if self.killing or a.killed:
            self._dead(a)
        a.nops += 1
        self.steps += 1
        self.now += cost
        n = a.nops
        self.events.append((self.steps, a.key, kind, path))
        if self.src is not None:
            self.events.sites[self.steps] = self.site()
        for h in self.op_hooks:
            h(a, kind, path)
        if getattr(a, "windows", None):
            a.expire()
        if not nosched:
            self.yield_()
        hit = None
        for f in self.faults:
            if f.get("rank") == a.key[1] and f.get("task", 0) == (a.key[2] if len(a.key) > 2 else 0) and "_fired" not in f:
                if f["at"] == n and (f.get("kind") is None or f.get("op") in (None, kind)):
                    f["_fired"] = path
                    self.fired.append({k: v for k, v in f.items() if not k.startswith("_")} |
                                      {"step": self.steps, "op": kind, "path": path})
                    hit = f
            elif f.get("again") and "_fired" in f and f["_fired"] == path and f.get("op") == kind and f["rank"] == a.key[1]:
                f["again"] -= 1                  # the same operation on the same file fails again
                hit = f
        return hit

    def site(self):
        """The innermost line of the code under test on the stack."""
        f = sys._getframe(2)
        n = 0
        while f is not None and n < 40:
            c = f.f_code
            if c.co_filename.startswith(self.src):
                return c.co_name, f.f_lineno
            f = f.f_back
            n += 1
        return None

    def event_hash(self):
        h = hashlib.blake2b(digest_size=16)
        for e in self.events:
            h.update(repr(e).encode("utf-8", "replace"))
        return h.hexdigest()
