"""A simulated dask cluster: the real graphs and the real tasks, run by a
seeded scheduler over simulated workers that can die, stall, repeat work, lose
persisted results and hand data to each other by serialisation.

* `Cluster.get` is installed as dask's scheduler.  Which ready task runs next,
  on which worker, is a recorded choice.
* `persist` hands back *references*: fetching one later reads worker memory, or
  recomputes from lineage if the holder died - as dask.distributed does.
* With `preempt`, every task runs on its own parked thread and gives up the
  baton at every disk operation, so tasks' I/O interleaves under the scheduler.
"""

import hashlib
import os
import pickle
import re
import threading

import dask
import numpy as np
from dask._task_spec import Alias, DataNode, Task, TaskRef, convert_legacy_graph
from dask.core import flatten
from dask.utils import ensure_dict

from .core import InjectedError, Sim, SimCrash, StepLimit, WorkerDied

_SCRATCH = re.compile(r"[^\s'\"]*verif-sim-[^/]+(/[^/]+)?/run")
_HEX = re.compile(r"[-_]?(?:[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}|[0-9a-f]{16,64})|-+[0-9a-f]{3,8}$")


def _label(key):
    if isinstance(key, tuple):
        return _HEX.sub("", str(key[0])) + str(key[1:])
    return _HEX.sub("", str(key))


def _lit(x, depth=0):
    """Hash-seed and process independent summary of a task's literal arguments."""
    if isinstance(x, (bool, int, float, complex, type(None), slice)):
        return repr(x)
    if isinstance(x, (str, os.PathLike)):
        c = _ACTIVE[0]
        x = os.fspath(x)
        x = x.replace(c.sim.disk.root, "/") if c is not None and isinstance(x, str) else str(x)
        return _HEX.sub("", _SCRATCH.sub("", x))
    if depth > 6:
        return type(x).__name__
    if isinstance(x, (list, tuple)):
        return "(" + ",".join(_lit(i, depth + 1) for i in x) + ")"
    if isinstance(x, dict):
        return "{" + ",".join(sorted(_lit(k, depth + 1) + ":" + _lit(v, depth + 1) for k, v in x.items())) + "}"
    if isinstance(x, (set, frozenset)):
        return "{" + ",".join(sorted(_lit(i, depth + 1) for i in x)) + "}"
    if isinstance(x, Task):
        f = getattr(x.func, "__name__", type(x.func).__name__)
        if f == "_execute_subgraph":  # dask lists the inputs of a fused task in set order
            inner, outkey, inkeys, *ins = x.args
            pairs = sorted(_lit(k, depth + 1) + "=" + _lit(v, depth + 1) for k, v in zip(_seq(inkeys), ins))
            return f"F:{_lit(_val(inner), depth + 1)}{_lit(_val(outkey), depth + 1)}{pairs}"
        return f"T:{f}{_lit(x.args, depth + 1)}{_lit(x.kwargs, depth + 1) if x.kwargs else ''}"
    if isinstance(x, DataNode):
        return "D" + _lit(x.value, depth + 1)
    if isinstance(x, Alias):
        return "A" + _lit(getattr(x, "target", ""), depth + 1)
    if isinstance(x, TaskRef):
        return "R" + _lit(x.key, depth + 1)
    if isinstance(x, np.ndarray) and x.dtype != object and x.size < 65536:
        return f"n{x.dtype}{x.shape}" + hashlib.blake2b(np.ascontiguousarray(x).tobytes(), digest_size=6).hexdigest()
    if isinstance(x, np.generic):
        return repr(x)
    return type(x).__name__


def _val(x):
    return x.value if isinstance(x, DataNode) else x


def _seq(x):
    x = _val(x)
    return x if isinstance(x, (list, tuple)) else getattr(x, "args", ())


def _refs(x, out, depth=0):
    """Dependency keys in argument order (dict items in canonical order)."""
    if isinstance(x, TaskRef):
        out.append(x.key)
    elif isinstance(x, Alias):
        out.append(x.target)
    elif isinstance(x, Task):
        a = x.args
        if getattr(x.func, "__name__", "") == "_execute_subgraph":
            inner, _, inkeys, *ins = a
            groups = {}
            for k, v in zip(_seq(inkeys), ins):
                groups.setdefault(_lit(k), []).append(v)
            for g in sorted(groups):
                sub = []
                _refs(groups[g], sub, depth + 1)
                out.append([x for s in sub for x in (s if isinstance(s, list) else [s])])
            return
        _refs(a, out, depth + 1)
        if x.kwargs:
            _refs(x.kwargs, out, depth + 1)
    elif depth > 8:
        return
    elif isinstance(x, (list, tuple)):
        for i in x:
            _refs(i, out, depth + 1)
    elif isinstance(x, dict):
        for _, v in sorted(((_lit(k), v) for k, v in x.items()), key=lambda t: t[0]):
            _refs(v, out, depth + 1)


def _node_label(k, n):
    return _label(k) + "/" + hashlib.blake2b(_lit(n).encode(), digest_size=8).hexdigest()


class Ref:
    """Handle on a persisted result living in simulated worker memory."""

    __slots__ = ("cluster", "rid", "key", "lineage", "__weakref__")

    def __init__(self, cluster, rid, key, lineage):
        self.cluster, self.rid, self.key, self.lineage = cluster, rid, key, lineage

    def __reduce__(self):
        return (_fetch_by_id, (self.rid,))

    def __dask_tokenize__(self):
        return ("simref", self.rid)


_REFS = {}


def _fetch_by_id(rid):
    return _REFS[rid]


def fetch(rid):
    """Graph task standing for a persisted result."""
    ref = _REFS[rid]
    return ref.cluster.fetch(ref)


class _Worker:
    __slots__ = ("wid", "mem", "stalled", "running", "alive")

    def __init__(self, wid):
        self.wid = wid
        self.mem = {}
        self.stalled = 0
        self.running = None


class _Run:
    """One preemptible task execution on a parked thread."""

    def __init__(self, cluster, worker, key, node, values):
        self.cluster, self.worker, self.key = cluster, worker, key
        self.node, self.values = node, values
        self.result = self.error = None
        self.done = False
        self.kill = False
        self.go = threading.Semaphore(0)
        self.thread = threading.Thread(target=self._main, daemon=True)
        self.started = False

    def _main(self):
        self.go.acquire()
        self.cluster.current_run = self
        try:
            if self.kill:
                raise WorkerDied()
            self.result = self.node(self.values)
        except BaseException as e:  # noqa: B902 - transported to the scheduler
            self.error = e
        self.done = True
        self.cluster.baton.release()

    def resume(self):
        if not self.started:
            self.started = True
            self.thread.start()
        self.cluster.current_run = self
        self.go.release()
        self.cluster.baton.acquire()
        self.cluster.current_run = None

    def park(self):
        """Called on the task thread at a disk operation."""
        self.cluster.baton.release()
        self.go.acquire()
        if self.kill:
            raise WorkerDied()


class Cluster:
    def __init__(self, sim: Sim):
        self.sim = sim
        self.workers = [_Worker(i) for i in range(sim.n_workers)]
        self.baton = threading.Semaphore(0)
        self.current_run = None
        self.depth = 0
        self.persist_mode = False
        self.ref_seq = 0
        self.pending = []  # refs persisted lazily and not yet computed
        self.job_seq = 0
        self.sched_thread = threading.get_ident()
        self.tasks_run = 0

    # ------------------------------------------------------------ workers
    def _choose_worker(self, busy=()):
        sim = self.sim
        free = [w for w in self.workers if w.stalled <= 0 and w not in busy]
        if not free:
            for w in self.workers:
                w.stalled = 0
            free = [w for w in self.workers if w not in busy]
        return free[sim.pick(len(free), "worker")] if free else None

    def crash_worker(self, w):
        lost = len(w.mem)
        self.sim.stats["worker_crashes"] += 1
        self.sim.stats["results_lost"] += lost
        self.sim.log("worker_crash", w.wid, lost)
        w.mem = {}
        w.stalled = 0
        if w.running is not None:
            w.running.kill = True

    def _holder(self, mkey, prefer=None):
        if prefer is not None and mkey in prefer.mem:
            return prefer
        for w in self.workers:
            if mkey in w.mem:
                return w
        return None

    def _transfer(self, value):
        try:
            out = pickle.loads(pickle.dumps(value, protocol=5))
        except Exception:
            return value
        self.sim.stats["transfers"] += 1
        return out

    def _value_on(self, mkey, worker):
        h = self._holder(mkey, worker)
        if h is None:
            return None, False
        v = h.mem[mkey]
        if h is not worker and self.sim.transfer:
            v = self._transfer(v)
            worker.mem[mkey] = v
        return v, True

    # ---------------------------------------------------------------- refs
    def make_ref(self, key, lineage):
        self.ref_seq += 1
        rid = f"r{self.ref_seq}"
        ref = Ref(self, rid, key, lineage)
        _REFS[rid] = ref
        return ref

    def fetch(self, ref):
        mkey = ("ref", ref.rid)
        h = self._holder(mkey)
        if h is None:
            if ref.rid in self._ever:
                self.sim.stats["lineage_recomputes"] += 1
                self.sim.log("lineage", ref.rid)
            self._materialise([ref])
            h = self._holder(mkey)
            if h is None:  # lost again right after: last computed value
                return self._last[ref.rid]
        return h.mem[mkey]

    _ever: set
    _last: dict

    def _materialise(self, refs):
        by_lineage = {}
        for r in refs:
            by_lineage.setdefault(id(r.lineage), (r.lineage, []))[1].append(r)
        for lineage, rs in by_lineage.values():
            vals = self._run_graph(lineage, [r.key for r in rs])
            for r, v in zip(rs, vals):
                w = self.workers[self.sim.pick(len(self.workers), "home")]
                w.mem[("ref", r.rid)] = v
                self._ever.add(r.rid)
                self._last[r.rid] = v

    def flush_pending(self, rids=None):
        todo = [r for r in self.pending if rids is None or r.rid in rids]
        self.pending = [r for r in self.pending if r not in todo]
        todo = [r for r in todo if self._holder(("ref", r.rid)) is None]
        if todo:
            self._materialise(todo)

    def wait_on(self, rids):
        self.flush_pending(rids)

    # ----------------------------------------------------------------- get
    def get(self, dsk, keys, **kwargs):
        if self.sim.crashed:
            raise SimCrash()
        # distributed may or may not have finished earlier persists by now
        if self.pending and not self.persist_mode and self.depth == 0 and self.sim.chance(0.5, "flush"):
            self.flush_pending()
        flat = list(flatten([keys])) if isinstance(keys, list) else [keys]
        graph = convert_legacy_graph(ensure_dict(dsk))
        if self.persist_mode:
            self.persist_mode = False
            uniq = list(dict.fromkeys(flat))
            refs = {k: self.make_ref(k, graph) for k in uniq}
            if self.sim.lazy_persist and self.depth == 0 and self.sim.chance(self.sim.lazy_persist, "lazy"):
                self.sim.stats["lazy_persists"] += 1
                self.pending.extend(refs.values())
            else:
                self._materialise(list(refs.values()))
            res = {k: Task(k, fetch, refs[k].rid) for k in uniq}
        else:
            uniq = list(dict.fromkeys(flat))
            vals = self._run_graph(graph, uniq)
            # results travel to the client: the caller owns its copy
            res = {k: (self._transfer(v) if self.sim.transfer else v) for k, v in zip(uniq, vals)}
        return self._pack(keys, res)

    def _pack(self, keys, res):
        if isinstance(keys, list):
            return tuple(self._pack(k, res) for k in keys)
        return res[keys]

    # ------------------------------------------------------------ executor
    def _canonical(self, graph, outs):
        """Reachable nodes with a hash-seed independent canonical order."""
        need, stack = {}, list(outs)
        while stack:
            k = stack.pop()
            if k in need:
                continue
            node = graph[k]
            need[k] = node
            stack.extend(d for d in node.dependencies if d not in need)
        base = {k: _node_label(k, n) for k, n in need.items()}
        up, args = {}, {}
        topo = []
        for root in outs:
            st = [(root, False)]
            while st:
                k, ready = st.pop()
                if k in up:
                    continue
                deps = need[k].dependencies
                if ready:
                    r = []
                    _refs(need[k], r)
                    args[k] = []
                    for g in r:
                        g = g if isinstance(g, list) else [g]
                        args[k] += sorted((d for d in g if d in deps), key=up.__getitem__)
                    rest = deps.difference(args[k])
                    up[k] = hash_label(base[k], [up[d] for d in args[k]] + sorted(up[d] for d in rest))
                    topo.append(k)
                else:
                    st.append((k, True))
                    st.extend((d, False) for d in deps if d not in up)
        par = {k: [] for k in need}
        for k, n in need.items():
            for d in n.dependencies:
                par[d].append(k)
        opos = {o: i for i, o in enumerate(outs)}
        down = {}
        for k in sorted(topo, key={k: i for i, k in enumerate(topo)}.__getitem__, reverse=True):
            down[k] = hash_label(str(opos.get(k, -1)), sorted(up[p] + down[p] + repr([i for i, d in enumerate(args[p]) if d == k]).encode() for p in par[k]))
        order = sorted(need, key=lambda k: (base[k], up[k], down[k], str(k)))
        return need, {k: i for i, k in enumerate(order)}

    def _run_graph(self, graph, outs):
        sim = self.sim
        self.depth += 1
        self.job_seq += 1
        job = self.job_seq
        try:
            need, rank = self._canonical(graph, outs)
            deps = {k: n.dependencies for k, n in need.items()}
            dependents = {k: [] for k in need}
            for k, ds in deps.items():
                for d in ds:
                    dependents[d].append(k)
            done = set()
            waiting = {k: len(ds) for k, ds in deps.items()}
            ready = sorted((k for k, n in waiting.items() if n == 0), key=rank.__getitem__)
            running = []
            outset = set(outs)
            preempt = sim.preempt and self.depth == 1
            pol = sim.policy
            consumers = {k: len(v) for k, v in dependents.items()}
            sim.log("job", job, len(need), self.depth)
            if self.depth == 1:  # progress is bounded by the work submitted, recomputation after faults included
                sim.max_steps += 40 * len(need)
            retry = {}

            def invalidate_lost():
                """Re-queue finished keys whose only copy died and are still needed."""
                changed = True
                while changed:
                    changed = False
                    for k in list(done):
                        if self._holder((job, k)) is None and (
                            k in outset or any(c not in done for c in dependents[k])
                        ):
                            done.discard(k)
                            changed = True
                ready[:] = sorted(
                    (
                        k
                        for k in need
                        if k not in done and all(d in done for d in deps[k]) and not any(r.key == k for r in running)
                    ),
                    key=rank.__getitem__,
                )

            def finish(k, w, value):
                w.mem[(job, k)] = value
                done.add(k)
                self.tasks_run += 1
                newly = [c for c in dependents[k] if c not in done and all(d in done for d in deps[c])]
                for c in sorted(newly, key=rank.__getitem__):
                    if c not in ready and not any(r.key == c for r in running):
                        ready.append(c)
                # forget inputs nobody needs any more
                for d in deps[k]:
                    if d not in outset and all(c in done for c in dependents[d]):
                        for ww in self.workers:
                            ww.mem.pop((job, d), None)

            def gather(k, w):
                vals = {}
                for d in deps[k]:
                    v, ok = self._value_on((job, d), w)
                    if not ok:
                        return None
                    vals[d] = v
                return vals

            while len(done) < len(need) or not all(self._holder((job, o)) for o in outs):
                if sim.crashed:
                    raise SimCrash()
                if len(done) == len(need):
                    invalidate_lost()
                for w in self.workers:
                    if w.stalled > 0:
                        w.stalled -= 1
                # --- decide: resume a parked task or start a ready one
                if running and (not ready or len(running) >= sim.n_workers or sim.chance(0.5, "resume")):
                    r = running[sim.pick(len(running), "run")]
                    self._sched_event(job, "resume", rank[r.key])
                    r.resume()
                    if not r.done:
                        continue
                    running.remove(r)
                    r.worker.running = None
                    r.thread.join()
                    k, w = r.key, r.worker
                    if r.kill or isinstance(r.error, WorkerDied):
                        sim.stats["tasks_killed"] += 1
                        invalidate_lost()
                        continue
                    if r.error is not None:
                        self._abandon(running)
                        raise r.error
                    if r.dup is not None:  # the result never reached the scheduler: the task runs again
                        sim.stats["duplicate_runs"] += 1
                        if r.dup == "worker_crash_after":
                            self.crash_worker(w)
                        invalidate_lost()
                        continue
                    finish(k, w, r.result)
                    continue
                if not ready:
                    invalidate_lost()
                    if not ready and not running:
                        raise RuntimeError("simulated scheduler stuck")
                    if not ready:
                        continue
                if pol == "fifo":
                    i = 0
                elif pol == "lifo":
                    i = len(ready) - 1
                elif pol == "sticky":  # mostly newest-first, sometimes anywhere
                    i = sim.pick(len(ready), "ready") if sim.chance(0.2, "jump") else len(ready) - 1
                else:
                    i = sim.pick(len(ready), "ready")
                k = ready.pop(i)
                busy = [r.worker for r in running]
                w = self._choose_worker(busy)
                if w is None:
                    ready.append(k)
                    continue
                node = need[k]
                vals = gather(k, w)
                if vals is None:
                    invalidate_lost()
                    continue
                sim.step()
                self._sched_event(job, "start", rank[k], w.wid)
                if isinstance(node, (Alias, DataNode)):
                    finish(k, w, node(vals))
                    continue
                f = sim.fault("task")
                kind = f["kind"] if f else None
                if kind == "task_error":
                    self._abandon(running)
                    raise InjectedError(f"injected task failure at {_label(k)}")
                if kind == "task_oom":
                    self._abandon(running)
                    raise MemoryError(f"injected memory failure at {_label(k)}")
                if kind == "killed_worker":
                    self._abandon(running)
                    from distributed.scheduler import KilledWorker

                    raise KilledWorker(str(_label(k)), None, 50)
                if kind == "client_crash":
                    self._abandon(running)
                    sim.crashed = True
                    raise SimCrash()
                if kind == "stall":
                    w.stalled = 1 + f["arg"] % 40
                    ready.append(k)
                    continue
                if kind == "worker_crash_before":
                    self.crash_worker(w)
                    invalidate_lost()
                    continue
                if kind == "other_worker_crash":
                    victim = self.workers[f["arg"] % len(self.workers)]
                    if victim is not w:
                        self.crash_worker(victim)
                        # our own inputs are held here already; the task itself goes on
                if preempt:
                    run = _Run(self, w, k, node, vals)
                    w.running = run
                    running.append(run)
                    run.dup = kind if kind in ("duplicate", "worker_crash_after") else None
                    if kind == "worker_crash_mid":
                        run.die_at = 1 + f["arg"] % 6
                    if kind == "other_worker_crash":
                        invalidate_lost()
                    continue
                val = node(vals)
                if kind == "duplicate":
                    # first run's result never arrived: the task is run again
                    sim.stats["duplicate_runs"] += 1
                    w2 = self._choose_worker()
                    vals2 = gather(k, w2)
                    if vals2 is not None:
                        w, val = w2, node(vals2)
                if kind == "worker_crash_after":
                    self.crash_worker(w)
                    invalidate_lost()
                    continue
                finish(k, w, val)
                if kind == "other_worker_crash":
                    invalidate_lost()
            out = []
            for o in outs:
                h = self._holder((job, o))
                out.append(h.mem[(job, o)])
            return out
        finally:
            self.depth -= 1
            for w in self.workers:
                for mk in [m for m in w.mem if m[0] == job]:
                    del w.mem[mk]

    def _abandon(self, running):
        for r in running:
            r.kill = True
        for r in list(running):
            guard = 0
            while not r.done and guard < 1000:
                r.resume()
                guard += 1
            r.worker.running = None
        running.clear()

    def _sched_event(self, job, what, *a):
        self.sim.log(what, job, *a)
        self.sim._sched_h.update(repr((job, what) + a).encode())

    # -------------------------------------------------------- disk callback
    def io_point(self):
        """Disk seam calls this before every operation: a preemption point."""
        r = self.current_run
        if r is None or threading.current_thread() is not r.thread:
            return
        n = getattr(r, "die_at", None)
        if n is not None:
            n -= 1
            r.die_at = n
            if n <= 0:
                r.die_at = None
                r.kill = True
                self.sim.stats["mid_task_kills"] += 1
                self.crash_worker_quiet(r.worker)
                raise WorkerDied()
        if r.kill:
            raise WorkerDied()
        if self.sim.chance(self.sim.switch_p, "yield"):
            self.sim.stats["preemptions"] += 1
            r.park()

    def crash_worker_quiet(self, w):
        run = w.running
        w.running = None
        self.crash_worker(w)
        w.running = run


def hash_label(a, children):
    h = hashlib.blake2b(digest_size=8)
    h.update(a.encode())
    for c in children:
        h.update(c)
    return h.digest()


# ------------------------------------------------------------------ install
_ACTIVE = [None]


def active():
    return _ACTIVE[0]


def sim_get(dsk, keys, **kw):
    c = _ACTIVE[0]
    if c is None:
        return dask.get(dsk, keys)
    return c.get(dsk, keys, **kw)


def sim_wait(obj=None, *a, **k):
    c = _ACTIVE[0]
    if c is not None and c.pending:
        c.flush_pending()
    return None
