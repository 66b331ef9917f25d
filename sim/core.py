"""Simulation kernel: one seed decides every choice; every choice is recorded.

A `Sim` owns the pseudo-random streams, the virtual clock, the event log and
the fault plan.  Two modes:

* search mode  - choices and faults are drawn from streams derived from `seed`;
* replay mode  - choices come from the recorded pick list (then default 0) and
  faults from the recorded list of (site, index, kind); nothing is random.

Faults are addressed by (site, n): the n-th time the named site was passed.
"""

import hashlib
import random
from collections import Counter


class SimCrash(BaseException):
    """The simulated client process died (kill -9 / node loss)."""


class WorkerDied(BaseException):
    """The simulated dask worker running this task died."""


class StepLimit(BaseException):
    """The run exceeded its step budget (liveness bound)."""


class InjectedError(RuntimeError):
    """A permanent, injected failure of user code on a worker."""


# exceptions a hard fault raises inside a task or at a disk operation
HARD_KINDS = ("task_error", "task_oom", "eio", "enospc", "eio_read", "torn_error", "killed_worker")


class Sim:
    def __init__(self, seed, faults=None, picks=None, replay=False, fault_rates=None, policy="random",
                 n_workers=3, preempt=False, max_steps=400_000, transfer=True, lazy_persist=0.0,
                 max_faults=6, switch_p=0.3, keep_events=0, aim=None):
        self.seed = seed
        self.replay = replay
        self.rng = random.Random(f"sched-{seed}")
        self.frng = random.Random(f"fault-{seed}")
        self.urng = {}
        self.fault_rates = dict(fault_rates or {})  # site -> [(kind, prob)]
        self.plan = {}
        for f in faults or []:
            self.plan[(f["site"], f["n"])] = f
        self.use_plan = faults is not None
        self.aim = {(f["site"], f["n"]): f for f in aim or []}  # faults placed before the run (search mode)
        self.ops = None  # when a list: every disk operation as (site, n, store)
        self.fired = []
        self.max_faults = max_faults
        self.picks_in = list(picks) if picks is not None else None
        self.picks = []
        self.policy = policy
        self.n_workers = n_workers
        self.preempt = preempt
        self.max_steps = max_steps
        self.transfer = transfer
        self.lazy_persist = lazy_persist
        self.switch_p = switch_p
        self.counters = Counter()
        self.stats = Counter()
        self.steps = 0
        self.now = 0.0
        self.clock_skew = 0.0
        self.crashed = False
        self._h = hashlib.blake2b(digest_size=16)
        self._sched_h = hashlib.blake2b(digest_size=8)
        self.keep_events = keep_events
        self.events = []
        self.quiet_depth = 0  # >0: faults suspended (oracle code running)

    # ------------------------------------------------------------------ log
    def log(self, *parts):
        line = "|".join(str(p) for p in parts)
        self._h.update(line.encode())
        self._h.update(b"\n")
        if len(self.events) < self.keep_events:
            self.events.append(line)

    def digest(self):
        return self._h.hexdigest()

    def sched_digest(self):
        return self._sched_h.hexdigest()

    # --------------------------------------------------------------- choice
    def pick(self, n, tag=""):
        if n <= 1:
            return 0
        if self.picks_in is not None:
            i = len(self.picks)
            v = self.picks_in[i] if i < len(self.picks_in) else 0
            v = v if v < n else v % n
        elif self.replay:
            v = 0
        else:
            v = self.rng.randrange(n)
        self.picks.append(v)
        return v

    def chance(self, p, tag=""):
        """A recorded biased coin (0 is the default outcome: no)."""
        if p <= 0:
            return False
        if self.picks_in is not None:
            i = len(self.picks)
            v = self.picks_in[i] if i < len(self.picks_in) else 0
        elif self.replay:
            v = 0
        else:
            v = 1 if self.rng.random() < p else 0
        self.picks.append(v)
        return bool(v)

    # ---------------------------------------------------------------- fault
    def fault(self, site, allowed=None, **info):
        """Pass a named fault site; returns the fault record that fires, or None."""
        if self.quiet_depth:
            return None
        n = self.counters[site]
        self.counters[site] = n + 1
        if self.use_plan:
            f = self.plan.get((site, n))
            if f is None or (allowed is not None and f["kind"] not in allowed):
                return None
        else:
            if len(self.fired) >= self.max_faults:
                return None
            f = self.aim.get((site, n))
            if f is not None and allowed is not None and f["kind"] not in allowed:
                f = None
            for kind, prob in self.fault_rates.get(site, ()) if f is None else ():
                if allowed is not None and kind not in allowed:
                    continue
                if prob > 0 and self.frng.random() < prob:
                    f = {"site": site, "n": n, "kind": kind, "arg": self.frng.randrange(1 << 16)}
                    break
            if f is None:
                return None
        rec = dict(f)
        self.fired.append(rec)
        self.stats["fault:" + f["kind"]] += 1
        self.log("fault", site, n, f["kind"], f.get("arg"))
        return rec

    def step(self):
        self.steps += 1
        self.now += 0.001
        if self.steps > self.max_steps:
            raise StepLimit(f"more than {self.max_steps} simulated steps")

    def uuid_hex(self, who=""):
        if who not in self.urng:
            self.urng[who] = random.Random(f"uuid-{self.seed}-{who}")
        return "%032x" % self.urng[who].getrandbits(128)

    def quiet(self):
        return _Quiet(self)


class _Quiet:
    def __init__(self, sim):
        self.sim = sim

    def __enter__(self):
        self.sim.quiet_depth += 1

    def __exit__(self, *a):
        self.sim.quiet_depth -= 1
