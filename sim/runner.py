"""Runs one property's check: many seeded simulated runs on all cores, then
minimises and records the first violation.

    python -m sim.runner PROPERTY [--replay FILE] [--runs N] [--seed S]

Exit status: 0 held on everything explored, 1 violation (with a VIOLATION line).
"""

import argparse
import gc
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
from collections import Counter
from multiprocessing.connection import wait as mpwait

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def load_findings(pid):
    """{key: what} of the recorded, unrepaired findings of this property."""
    out = {}
    with open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")) as f:
        for line in f:
            line = line.strip()
            if line.startswith("known: property=" + pid + " "):
                rest = line.split(" ", 2)[2]
                key, what = rest.split(" ", 1)
                out[key.split("=", 1)[1]] = what
    return out


class Outcome:
    __slots__ = ("status", "msg", "key", "nontrivial", "sig", "info")

    def __init__(self, status, msg="", key=None, nontrivial=True, sig="", info=None):
        self.status, self.msg, self.key, self.nontrivial, self.sig, self.info = status, msg, key, nontrivial, sig, info or {}


def ok(nontrivial=True, sig="", **info):
    return Outcome("ok", nontrivial=nontrivial, sig=sig, info=info)


def bad(msg, **info):
    return Outcome("violation", msg, info=info)


def known(key, msg, **info):
    return Outcome("known", msg, key=key, info=info)


def skip(reason):
    return Outcome("skip", reason, nontrivial=False)


_SETTLED = [0]


def settle():
    """marEx calls gc.collect() often: do not let it traverse modules and compiled code each time."""
    if _SETTLED[0] < 30:
        _SETTLED[0] += 1
        gc.collect()
        gc.freeze()


class Ctx:
    """What one run may use: simulated phases and a scratch directory."""

    def __init__(self, seed, scratch, replay=None, keep_events=0):
        self.seed = seed
        self.scratch = scratch
        self.replay = replay  # {"phases": {name: {"picks": [...], "faults": [...]}}}
        self.phases = {}
        self.keep_events = keep_events

    def dir(self, name):
        p = os.path.join(self.scratch, name)
        os.makedirs(p, exist_ok=True)
        return p

    def sim(self, name, conf, plain=False):
        """A simulated execution.  conf: policy, n_workers, faults, ... (JSON)."""
        from .core import Sim

        settle()
        conf = dict(conf)
        if plain:
            conf = dict(policy="fifo", n_workers=1, transfer=False)
        rates = conf.pop("rates", None)
        if self.replay is not None:
            ph = self.replay["phases"].get(name, {"picks": [], "faults": []})
            s = Sim(self.seed, faults=ph["faults"], picks=ph["picks"], keep_events=self.keep_events, **conf)
        else:
            h = int.from_bytes(hashlib.blake2b(f"{self.seed}/{name}".encode(), digest_size=7).digest(), "big")
            s = Sim(h, fault_rates=rates, keep_events=self.keep_events, **conf)
        s.seed = int.from_bytes(hashlib.blake2b(f"np{self.seed}/{name}".encode(), digest_size=4).digest(), "big")
        s.urng = {}
        self.phases[name] = s
        return s

    def record(self):
        return {n: {"picks": list(s.picks), "faults": [dict(f) for f in s.fired]} for n, s in self.phases.items()}

    def digest(self):
        h = hashlib.blake2b(digest_size=12)
        for n in sorted(self.phases):
            h.update(n.encode() + self.phases[n].digest().encode())
        return h.hexdigest()


def get_check(pid):
    from . import registry

    modname, cls = registry.CHECKS[pid]
    mod = importlib.import_module("sim.checks." + modname)
    return getattr(mod, cls)(pid)


def clean(path):
    shutil.rmtree(path, ignore_errors=True)


def execute(check, sc, seed, scratch, replay=None, keep_events=0):
    """One run, never raises; returns (Outcome, Ctx)."""
    d = os.path.join(scratch, "run")
    clean(d)
    os.makedirs(d)
    ctx = Ctx(seed, d, replay, keep_events)
    try:
        out = check.run(sc, ctx)
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:  # noqa: B902
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join(f"{os.path.basename(f.filename)}:{f.name}" for f in tb[-3:])
        out = check.unexpected(sc, e, where) or bad(f"unexpected {type(e).__name__}: {str(e)[:300]} [{where}]")
    finally:
        clean(d)
    return out, ctx


# ----------------------------------------------------------------- scenario
def scenario(check, base_seed, i, tier):
    seed = f"{check.pid}-{base_seed}-{i}"
    corpus = check.corpus()
    if i < len(corpus):
        return seed, corpus[i]
    sc = check.scenario(random.Random(seed), tier)
    return seed, sc


# ------------------------------------------------------------------ workers
def _silence():
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(fd, 2)
    os.close(fd)


def worker_main(conn, *args):
    try:
        _worker(conn, *args)
    except Exception:
        conn.send(("error", traceback.format_exc()))


def _worker(conn, pid, scratch, base_seed, tier, det_every):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    _silence()
    sys.stdout = open(os.devnull, "w")
    check = get_check(pid)
    os.makedirs(scratch, exist_ok=True)
    check.warmup(scratch)
    conn.send(("ready", None))
    while True:
        settle()
        i = conn.recv()
        if i is None:
            return
        t0 = time.time()
        seed, sc = scenario(check, base_seed, i, tier)
        out, ctx = execute(check, sc, seed, scratch)
        rec = dict(i=i, seed=seed, status=out.status, msg=out.msg, key=out.key, nontrivial=out.nontrivial, sig=out.sig,
                   info=out.info, wall=time.time() - t0, digest=ctx.digest(), stats={}, sched=[], steps=0, now=0.0)
        st = Counter()
        for n, s in ctx.phases.items():
            st.update({k: v for k, v in s.stats.items() if isinstance(v, (int, float))})
            rec["sched"].append(s.sched_digest())
            rec["steps"] += s.steps
            rec["now"] += s.now
        rec["stats"] = dict(st)
        if out.status in ("violation", "known"):
            rec["scenario"] = sc
            rec["phases"] = ctx.record()
        elif i % 97 == 5:
            rec["sample"] = check.describe(sc)
        if det_every and i % det_every == det_every - 1 and out.status != "violation":
            out2, ctx2 = execute(check, sc, seed, scratch)
            rec["det"] = out2.status == out.status and ctx2.digest() == rec["digest"]
        conn.send(("done", rec))


class Pool:
    def __init__(self, n, args, scratch):
        self.mpc = mp.get_context("spawn")
        self.args, self.scratch = args, scratch
        self.n = n
        self.kids = {}
        self.seq = 0
        for _ in range(n):
            self.spawn()

    def spawn(self):
        a, b = self.mpc.Pipe()
        k = self.seq
        self.seq += 1
        p = self.mpc.Process(target=worker_main, args=(b, self.args[0], os.path.join(self.scratch, f"w{k}")) + self.args[1:], daemon=True)
        p.start()
        b.close()
        self.kids[a] = dict(p=p, job=None, t=time.time(), ready=False)

    def drop(self, c):
        k = self.kids.pop(c)
        try:
            k["p"].kill()
        except Exception:
            pass
        k["p"].join(10)
        c.close()
        return k

    def close(self):
        for c in list(self.kids):
            self.drop(c)


# ---------------------------------------------------------------- minimiser
class Minimiser:
    def __init__(self, pid, check, scratch, budget):
        self.check, self.scratch = check, scratch
        self.end = time.time() + budget
        self.tries = 0

    def left(self):
        return time.time() < self.end

    def fails(self, sc, seed, replay=None):
        self.tries += 1
        out, ctx = execute(self.check, sc, seed, self.scratch, replay)
        if out.status == "violation":
            return out, ctx.record()
        return None

    def run(self, sc, seed, phases, msg):
        cur = (sc, phases, msg)
        r = self.fails(sc, seed, {"phases": phases})
        if r is None:
            return cur + (False,)
        cur = (sc, r[1], r[0].msg)
        # 1. smaller scenarios (schedule and faults are drawn again from the seed)
        progress = True
        while progress and self.left():
            progress = False
            for cand in self.check.shrinks(cur[0]):
                if not self.left():
                    break
                for rp in ({"phases": {}}, {"phases": cur[1]}, None):
                    try:
                        r = self.fails(cand, seed, rp)
                    except Exception:
                        r = None
                    if r is not None:
                        break
                if r is not None:
                    cur = (cand, r[1], r[0].msg)
                    progress = True
                    break
        # 2. fewer faults
        for name in list(cur[1]):
            faults = cur[1][name]["faults"]
            n = 2
            while faults and self.left():
                size = max(1, len(faults) // n)
                for k in range(0, len(faults), size):
                    cand = faults[:k] + faults[k + size :]
                    ph = json.loads(json.dumps(cur[1]))
                    ph[name]["faults"] = cand
                    r = self.fails(cur[0], seed, {"phases": ph})
                    if r is not None:
                        cur = (cur[0], r[1], r[0].msg)
                        faults = cur[1].get(name, {"faults": []})["faults"]
                        break
                else:
                    if size == 1:
                        break
                    n *= 2
                if not self.left():
                    break
        # 3. simplest schedule: all default choices, then the shortest failing prefix
        for name in list(cur[1]):
            if name not in cur[1]:
                continue
            picks = cur[1][name]["picks"]

            def attempt(p):
                ph = json.loads(json.dumps(cur[1]))
                ph[name]["picks"] = p
                return self.fails(cur[0], seed, {"phases": ph})

            if not picks or not self.left():
                continue
            r = attempt([])
            if r is not None:
                cur = (cur[0], self._strip(r[1], name, []), r[0].msg)
                continue
            lo, hi = 0, len(picks)
            while hi - lo > 1 and self.left():
                mid = (lo + hi) // 2
                r = attempt(picks[:mid])
                if r is not None:
                    hi = mid
                else:
                    lo = mid
            ph = json.loads(json.dumps(cur[1]))
            ph[name]["picks"] = picks[:hi]
            r = self.fails(cur[0], seed, {"phases": ph})
            if r is not None:
                cur = (cur[0], self._strip(r[1], name, picks[:hi]), r[0].msg)
        return cur + (True,)

    @staticmethod
    def _strip(ph, name, picks):
        ph = json.loads(json.dumps(ph))
        p = list(picks)
        while p and p[-1] == 0:
            p.pop()
        ph[name]["picks"] = p
        return ph


def _minimise_child(conn, pid, scratch, sc, seed, phases, msg, budget):
    _silence()
    sys.stdout = open(os.devnull, "w")
    check = get_check(pid)
    os.makedirs(scratch, exist_ok=True)
    check.warmup(scratch)
    m = Minimiser(pid, check, scratch, budget)
    conn.send(m.run(sc, seed, phases, msg) + (m.tries,))


def minimise(pid, scratch, sc, seed, phases, msg, budget):
    ctx = mp.get_context("spawn")
    a, b = ctx.Pipe()
    p = ctx.Process(target=_minimise_child, args=(b, pid, os.path.join(scratch, "min"), sc, seed, phases, msg, budget), daemon=True)
    p.start()
    b.close()
    res = None
    if a.poll(budget + 90):
        try:
            res = a.recv()
        except EOFError:
            res = None
    p.kill()
    p.join(10)
    return res


# ---------------------------------------------------------------------- main
def write_json(path, obj):
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(obj, f, indent=1, default=str)
        f.write("\n")
    os.replace(tmp, path)


def run_replay(pid, path, scratch):
    with open(path) as f:
        rp = json.load(f)
    check = get_check(pid)
    check.warmup(scratch)
    real = os.dup(1)
    _silence()
    sys.stdout = open(os.devnull, "w")
    res = [execute(check, rp["scenario"], rp["seed"], scratch, rp, keep_events=int(os.environ.get("VERIF_EVENTS", "0"))) for _ in range(2)]
    sys.stdout = os.fdopen(real, "w")
    (o1, c1), (o2, c2) = res
    print(f"replay {path}: {o1.status}: {o1.msg}")
    for n, s in c1.phases.items():
        for e in s.events:
            print("  ", n, e)
    same = o1.status == o2.status and o1.msg == o2.msg and c1.digest() == c2.digest()
    print(f"event digest {c1.digest()} repeated exactly: {same}; recorded digest matches: {rp.get('digest') in (None, c1.digest())}")
    if o1.status == "violation":
        print(f"VIOLATION property={pid} replay={path}", flush=True)
        return 1
    return 0


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--budget", type=float)
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 8))
    ap.add_argument("--keep-going", action="store_true")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--digests", help="write the event digest of every run to this file")
    a = ap.parse_args(argv)
    pid = a.property
    from . import registry

    if a.selftest:
        for p in registry.CHECKS:
            get_check(p)
        from . import env

        env.install_static()
        print(f"simulator ready: {len(registry.CHECKS)} checks, marEx from {sys.modules['marEx'].__file__}")
        return 0
    tier = "thorough" if a.tier == "thorough" else "quick"
    q = registry.BUDGET[pid][tier]
    n_runs, budget = a.runs or q[0], a.budget or q[1]
    scratch = tempfile.mkdtemp(prefix="verif-sim-")
    code = 1
    try:
        if a.replay:
            code = run_replay(pid, a.replay, scratch)
        else:
            code = search(pid, a, tier, n_runs, budget, scratch)
    finally:
        clean(scratch)
    sys.stdout.flush()
    return code


def search(pid, a, tier, n_runs, budget, scratch):
    from . import registry

    t0 = time.time()
    findings = load_findings(pid)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    hang_limit = registry.HANG_S
    pool = Pool(a.jobs, (pid, a.seed, tier, 25), scratch)
    nxt = 0
    recs, violations, seen_known = [], [], {}
    deaths, again = [], []
    samples = []
    start = t0
    first = True
    while True:
        if first and any(k["ready"] for k in pool.kids.values()):
            first, t0 = False, time.time()  # the budget counts from the first process ready
        stop = (violations and not a.keep_going) or (nxt >= n_runs and not again) or time.time() - t0 > budget
        if stop and not [c for c, k in pool.kids.items() if k["job"] is not None]:
            break
        if stop and violations and not a.keep_going:
            break
        for c in mpwait(list(pool.kids), timeout=1.0):
            k = pool.kids[c]
            try:
                what, rec = c.recv()
            except (EOFError, OSError):
                k = pool.drop(c)
                deaths.append(k["job"])
                if k["job"] is not None and deaths.count(k["job"]) < 2:
                    again.append(k["job"])  # e.g. memory ran out: reported after a second death of the same run
                elif k["job"] is not None:
                    seed, sc = scenario(get_check_light(pid), a.seed, k["job"], tier)
                    violations.append(dict(i=k["job"], seed=seed, scenario=sc, phases={}, msg="the process running this execution died"))
                elif len(deaths) > 20:
                    raise RuntimeError("workers cannot start")
                pool.spawn()
                continue
            if what == "error":
                raise RuntimeError(f"the simulator failed:\n{rec}")
            if what == "ready":
                k["ready"] = True
            else:
                k["job"] = None
                recs.append(rec)
                if "sample" in rec and len(samples) < 5:
                    samples.append(rec["sample"])
                if rec["status"] == "known":
                    if rec["key"] in findings:
                        seen_known.setdefault(rec["key"], rec)
                    else:
                        rec["msg"] = f"[{rec['key']}] {rec['msg']}"
                        rec["status"] = "violation"
                if rec["status"] == "violation":
                    violations.append(rec)
        for c, k in pool.kids.items():
            more = (again or nxt < n_runs) and time.time() - t0 <= budget and not (violations and not a.keep_going)
            if k["ready"] and k["job"] is None and more:
                job = again.pop() if again else nxt
                try:
                    c.send(job)
                    k["job"], k["t"] = job, time.time()
                    nxt = max(nxt, job + 1)
                except (OSError, BrokenPipeError):
                    again.append(job)
        for c, k in list(pool.kids.items()):
            if k["job"] is not None and time.time() - k["t"] > hang_limit:
                pool.drop(c)
                seed, sc = scenario(get_check_light(pid), a.seed, k["job"], tier)
                violations.append(dict(i=k["job"], seed=seed, scenario=sc, phases={}, hang=True,
                                       msg=f"no result after {hang_limit:.0f} s (runs normally take seconds)"))
                pool.spawn()
    pool.close()
    wall = time.time() - start
    if a.digests:
        write_json(a.digests, {str(r["i"]): r["digest"] for r in sorted(recs, key=lambda r: r["i"])})
    code = 0
    if violations:
        code = 1
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        v = sorted(violations, key=lambda r: r["i"])[0]
        path = os.path.join(rdir, f"{pid}-{v['i']}.json")
        rp = dict(property=pid, seed=v["seed"], scenario=v["scenario"], phases=v["phases"], msg=v["msg"], digest=None)
        write_json(path, rp)
        print(f"violation in run {v['i']} (seed {v['seed']}): {v['msg']}", flush=True)
        if a.keep_going:
            for m, n in Counter(r["msg"][:160] for r in violations).most_common(30):
                print(f"  {n} x {m} (run {next(r['i'] for r in violations if r['msg'][:160] == m)})")
        if not v.get("hang") and not a.keep_going:
            res = minimise(pid, scratch, v["scenario"], v["seed"], v["phases"], v["msg"], registry.MINIMISE_S[tier])
            if res is not None:
                sc, ph, msg, repro, tries = res
                rp.update(scenario=sc, phases=ph, msg=msg, reproduced=repro, minimiser_runs=tries)
                write_json(path, rp)
                nf = sum(len(p["faults"]) for p in ph.values())
                np_ = sum(len(p["picks"]) for p in ph.values())
                print(f"minimised after {tries} runs ({'reproduced' if repro else 'NOT reproduced'}): {nf} faults, {np_} scheduling choices: {msg}")
        print(f"VIOLATION property={pid} replay={path}", flush=True)
    for key, what in findings.items():
        if key in seen_known or code == 0:
            print(f"KNOWN-FINDING: property={pid} {what}" + ("" if key in seen_known else " (not met in this run)"))
    evidence(pid, tier, a, recs, violations, seen_known, samples, wall, deaths)
    sk = Counter(r["msg"] for r in recs if r["status"] == "skip")
    print(f"{pid}: {len(recs)} runs in {wall:.0f} s, {sum(1 for r in recs if r['nontrivial'])} non-trivial, "
          f"{len(violations)} violations, known findings met: {sorted(seen_known)}, skipped: {dict(sk)}", flush=True)
    return code


_light = {}


def get_check_light(pid):
    if pid not in _light:
        _light[pid] = get_check(pid)
    return _light[pid]


def evidence(pid, tier, a, recs, violations, seen_known, samples, wall, deaths):
    from . import registry

    stats = Counter()
    for r in recs:
        stats.update({k: v for k, v in r["stats"].items() if isinstance(v, (int, float))})
    info = Counter()
    for r in recs:
        for k, v in r["info"].items():
            if isinstance(v, bool):
                info[k] += int(v)
            elif isinstance(v, (int, float)):
                info[k] += v
            else:
                info[f"{k}={v}"] += 1
    faults = {k[6:]: int(v) for k, v in stats.items() if k.startswith("fault:")}
    scheds = set()
    for r in recs:
        scheds.update(r["sched"])
    nontriv = {(r["sig"] or r["seed"]) for r in recs if r["nontrivial"] and r["status"] in ("ok", "known", "violation")}
    det = [r["det"] for r in recs if "det" in r]
    if not samples and recs:
        samples = [get_check_light(pid).describe(scenario(get_check_light(pid), a.seed, recs[0]["i"], tier)[1])]
    ev = dict(
        property=pid, tier=tier, seed=a.seed, level="exploration",
        coverage=dict(
            evaluations=len(recs), distinct_nontrivial=len(nontriv), rule=get_check_light(pid).rule, samples=samples,
            simulated_phases=int(sum(len(r["sched"]) for r in recs)), runs_per_hour=int(len(recs) / max(wall, 1e-9) * 3600),
            seeds_per_hour=int(len(recs) / max(wall, 1e-9) * 3600),
            simulated_steps=int(sum(r["steps"] for r in recs)), simulated_seconds=round(sum(r["now"] for r in recs), 3),
            faults_injected=faults, other_counters={k: round(v, 3) for k, v in stats.items() if not k.startswith("fault:")},
            outcome_counters=dict(info), distinct_interleavings=len(scheds),
            interleaving_measure="distinct hashes of the sequence (job, start/resume, task rank, worker) of one simulated phase",
            determinism_rechecks=len(det), determinism_mismatches=det.count(False),
            skipped=dict(Counter(r["msg"] for r in recs if r["status"] == "skip")),
            known_findings_met=sorted(seen_known), process_deaths=len([d for d in deaths if d is not None]),
            real_components=registry.REAL, stubbed_components=registry.STUB,
        ),
        assumptions=registry.ASSUMPTIONS, wall_s=round(wall, 2), violations=len(violations),
    )
    write_json(os.path.join(VERIF, "evidence", f"{pid}.json"), ev)


if __name__ == "__main__":
    try:
        code = main()
    except BaseException:  # noqa: B902 - a failure of the harness, not of the code under test
        traceback.print_exc()
        code = 2
    sys.exit(code)
