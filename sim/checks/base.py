"""Common parts of the checks."""

import copy
import json
import random

from ..runner import Outcome, bad, known, ok, skip  # noqa: F401


class Check:
    rule = ""

    def __init__(self, pid):
        self.pid = pid

    def corpus(self):
        return []

    def scenario(self, r, tier):
        raise NotImplementedError

    def run(self, sc, ctx):
        raise NotImplementedError

    def shrinks(self, sc):
        return iter(())

    def unexpected(self, sc, e, where):
        return None

    def warmup(self, scratch):
        pass

    def describe(self, sc):
        s = json.dumps(sc)
        return json.loads(s) if len(s) < 4000 else s[:4000] + "..."


SOFT = ("worker_crash_before", "worker_crash_after", "other_worker_crash", "duplicate", "stall")


def sim_conf(r: random.Random, soft=True, hard=(), disk=(), disk_r=(), preempt=False, p_faults=0.75, rate=None):
    """A swarm configuration: which policy, how many workers, which faults, how often."""
    conf = dict(
        policy=r.choice(["fifo", "lifo", "sticky", "random", "random"]), n_workers=r.randint(1, 4),
        transfer=r.random() < 0.6, lazy_persist=r.choice([0.0, 0.0, 0.5, 1.0]), max_faults=r.choice([1, 2, 4, 8]),
    )
    if preempt:
        conf["preempt"] = r.random() < 0.8
        conf["switch_p"] = r.choice([0.1, 0.3, 0.6])
    rates = {}
    if r.random() < p_faults:
        t = []
        if soft:
            kinds = [k for k in SOFT if r.random() < 0.6] or [r.choice(SOFT)]
            p = rate or r.choice([0.002, 0.01, 0.03])
            t += [[k, p / len(kinds)] for k in kinds]
        for k, p in hard:
            t.append([k, p])
        if t:
            rates["task"] = t
        if disk:
            rates["disk_w"] = [list(x) for x in disk]
        if disk_r:
            rates["disk_r"] = [list(x) for x in disk_r]
    if r.random() < 0.2:
        rates["clock"] = [["skew", 0.05]]
    conf["rates"] = rates
    return conf


PLAIN = dict(policy="fifo", n_workers=1, transfer=False, rates={})


def with_(sc, **kw):
    c = copy.deepcopy(sc)
    c.update(kw)
    return c
