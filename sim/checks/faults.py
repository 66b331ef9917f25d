"""Whole runs under hard faults; leftovers on a shared scratch directory; call
histories in one process."""

import copy
import os

import dask
import numpy as np
import xarray as xr

from .. import gen, ref
from ..core import SimCrash
from . import detection as det
from .base import PLAIN, bad, ok, sim_conf, skip, with_
from .gridded import diff_dataset, hash_of
from .history import History, build, draw_field
from .history import fault_conf as disk_conf
from .scratch import hurt


def world(sim, root):
    return det.world(sim, root)


def small_detection(r):
    sc = det.draw(r, years=(1.1, 2.3), cells=(2, 3, 3, 4))
    sc["shape"] = [min(sc["shape"][0], 3), min(sc["shape"][1], 6)]
    sc.update(schunks=None, transpose=False, std=False, ckpt=r.random() < 0.4, exact=sc["extreme"] == "global_extreme" and sc["exact"])
    if not sc["exact"]:
        sc["precision"] = max(sc["precision"], 0.05)
    else:
        sc["precision"], sc["top"] = 0.01, 5.0
    if not det.feasible(sc):
        sc["anomaly"] = "fixed_baseline"
    return sc


def job(sc, root, lazy=False, save=False):
    """One complete use of marEx: detection or tracking; returns loaded datasets (or lazy ones)."""
    if sc["kind"] == "detection":
        import marEx

        da, kw, *_ = det.inputs(sc)
        kw.update(det.options(sc))
        kw.update(det.meta(sc))
        out = [marEx.preprocess_data(da, **kw)]
    else:
        tr = build(sc, root)
        kw = dict(checkpoint="save") if save else {}
        out = list(tr.run(return_merges=True, **kw)) if sc["kind"] == "unstructured" or sc["merging"] else [tr.run(**kw)]
    return out if lazy else [x.compute() for x in out]


def same_job(sc, a, b, exact):
    """None or the difference between two results of one job."""
    if sc["kind"] == "detection":
        return det.same_ds(a[0], b[0], True)
    if sc["kind"] == "unstructured" and not exact:  # numbering may follow the schedule (C08 and C09 judge the values)
        x, y = (v[0].ID_field.transpose(*gen.unames(sc)[:2]).values for v in (a, b))
        if not ref.same_partition(x, y):
            return "the event fields differ"
        if len(a[1].merge_ID) != len(b[1].merge_ID):
            return f"{len(a[1].merge_ID)} / {len(b[1].merge_ID)} mergers"
        if a[0].sizes != b[0].sizes:
            return f"sizes differ: {dict(a[0].sizes)} / {dict(b[0].sizes)}"
        return None
    for n, (x, y) in zip(("events", "mergers"), zip(a, b)):
        d = diff_dataset(x, y)
        if d:
            return f"{n}: {d}"
    return None


def draw_job(r, kinds=("gridded", "gridded", "mesh", "detection")):
    k = r.choice(kinds)
    if k == "detection":
        return small_detection(r)
    return draw_field(r, k == "mesh", need=r.random() < 0.7)


def hard_conf(r, mesh, ops):
    """About one hard fault somewhere in a run of `ops` tasks."""
    task = [[k, r.choice([0.3, 1.0]) / ops] for k in ("task_error", "task_oom", "killed_worker", "client_crash") if r.random() < 0.5]
    rate = r.choice([0.0, 0.003, 0.01])
    conf = disk_conf(r, mesh, rate) if rate else sim_conf(r, preempt=mesh, p_faults=1.0)
    conf["rates"].setdefault("task", [])
    conf["rates"]["task"] = [list(x) for x in conf["rates"]["task"]] + (task or [["task_error", 1.0 / ops]])
    conf["max_faults"] = r.choice([1, 1, 2, 4])
    return conf


def aimed_conf(r, mesh):
    """One hard fault at a drawn place of a drawn store (or task) of the run; placed by `place`."""
    conf = copy.deepcopy(PLAIN) if r.random() < 0.7 else sim_conf(r, preempt=mesh, p_faults=0.0)
    x = r.random()
    site = "disk_w" if x < 0.65 else "disk_r" if x < 0.8 else "task"
    kind = r.choice({"disk_w": ["eio", "enospc", "enospc", "torn_error", "crash_before", "torn_crash"], "disk_r": ["eio_read"],
                     "task": ["task_error", "task_oom", "killed_worker", "client_crash"]}[site])
    conf["aim"] = dict(site=site, kind=kind, u=round(r.random(), 6), v=round(r.random(), 6), arg=r.randrange(1 << 16))
    return conf


def place(conf, plain):
    """The same configuration with its aim turned into the place it names in the fault-free run."""
    a = conf.get("aim")
    if a is None:
        return conf
    site, kind = a["site"], a["kind"]
    ops = [(n, st) for s, n, st in plain.ops if s == site and st not in (".", "scratch")]
    if site == "task" or not ops:
        site, kind = "task", kind if a["site"] == "task" else "task_error"
        n = int(a["v"] * plain.counters["task"])
    else:
        stores = sorted({st for _, st in ops})
        mine = [n for n, st in ops if st == stores[int(a["u"] * len(stores))]]
        n = mine[int(a["v"] * len(mine))]
    return dict(conf, aim=[dict(site=site, n=n, kind=kind, arg=a["arg"])])


def attempt(ctx, name, conf, root, sc, lazy=False, note=False, save=False):
    sim = ctx.sim(name, conf)
    if note:
        sim.ops = []
    with world(sim, root):
        try:
            return sim, job(sc, root, lazy, save), None
        except SimCrash as e:
            return sim, None, e
        except Exception as e:
            return sim, None, e


def label(e):
    return f"{type(e).__name__}: {str(e)[:200]}"


class HardFaults(History):
    """C15"""

    rule = ("one detection or tracking job (structured or mesh), run under permanently failing tasks, failing memory, lost clients, I/O errors, full disks and torn "
            "writes besides lost workers: it returns the fault-free result or raises; then it is repeated without faults on the same scratch directory in the same "
            "process, up to three times under more faults first, and must return the fault-free result; non-trivial: a hard fault fired")

    def scenario(self, r, tier):
        f = draw_job(r, ("gridded", "mesh", "mesh", "detection"))
        mesh = f["kind"] == "unstructured"
        ops = {"gridded": 400, "unstructured": 800, "detection": 150}[f["kind"]]
        return dict(kind="faults", fields=[f], ops=[dict(op="run", field=0, sim=aimed_conf(r, mesh) if r.random() < 0.7 else hard_conf(r, mesh, ops)) for _ in range(r.choice([2, 3, 4, 5]))])

    def run(self, sc, ctx):
        f = sc["fields"][0]
        if f["kind"] == "detection" and not det.feasible(f):
            return skip("too short")
        plain, want, err = attempt(ctx, "plain", PLAIN, ctx.dir("plain"), f, note=True)
        if err is not None:
            return skip("not a valid job")
        root = ctx.dir("root")
        hard = 0
        for k, o in enumerate(sc["ops"] + [dict(sim=PLAIN)]):
            sim, got, err = attempt(ctx, f"op{k}", place(o["sim"], plain), root, f)
            hard += hurt(sim)
            if err is not None:
                if not hurt(sim):
                    return bad(f"attempt {k}: failed without any hard fault of its own: {label(err)}")
                continue
            m = same_job(f, want, got, o["sim"] == PLAIN)
            if m:
                return bad(f"attempt {k}: returned without an error, but not the fault-free result: {m}")
        return ok(nontrivial=hard > 0, sig=hash_of(sc), hard=hard)


class Leftovers(History):
    """C17"""

    rule = ("2..5 detection, checkpoint and tracking jobs of different fields, sizes and kinds one after another on one scratch directory, each possibly killed or failing "
            "at any disk operation or task; every job that returns returns what it returns on an empty directory, and jobs without a fault of their own succeed; "
            "non-trivial: something was left in the directory before a job")

    def scenario(self, r, tier):
        n = r.choice([2, 2, 3])
        fields = [draw_job(r, ("mesh", "mesh", "mesh", "gridded", "detection")) for _ in range(n)]
        if r.random() < 0.5:  # the same mesh, another field
            f0 = next((f for f in fields if f["kind"] == "unstructured"), None)
            if f0 is not None:
                g = copy.deepcopy(f0)
                b = gen.unpack(g["field"], (len(g["mask"]),))
                g["field"] = gen.pack(np.roll(b[::-1], 2 * r.randint(1, 5), axis=1))
                g["nn"], g["R"] = r.random() < 0.5, r.choice([0, 1])
                fields.append(g)
        for f in fields:
            if f["kind"] == "detection":
                f["ckpt"] = True
        ops = []
        for _ in range(r.randint(2, 5)):
            i = r.randrange(len(fields))
            mesh = fields[i]["kind"] == "unstructured"
            rate = r.choice([0.0, 0.004, 0.01])
            op = "run" if fields[i]["kind"] == "detection" else r.choice(["save", "saverun", "run", "run", "run"])
            ops.append(dict(op=op, field=i, sim=disk_conf(r, mesh, rate) if rate else sim_conf(r, preempt=mesh)))
        i = r.randrange(len(fields))
        ops.append(dict(op="saverun" if fields[i]["kind"] != "detection" and r.random() < 0.3 else "run", field=i, sim=copy.deepcopy(PLAIN)))
        return dict(kind="leftovers", fields=fields, ops=ops)

    def run(self, sc, ctx):
        want = {}
        for i, op in sorted({(o["field"], o["op"]) for o in sc["ops"] if o["op"] != "save"}):
            f = sc["fields"][i]
            if f["kind"] == "detection" and not det.feasible(f):
                return skip("too short")
            _, want[i, op], err = attempt(ctx, f"plain{i}{op}", PLAIN, ctx.dir(f"p{i}{op}"), f, save=op == "saverun")
            if err is not None:
                return skip("not a valid job")
        root = ctx.dir("root")
        left = 0
        for k, o in enumerate(sc["ops"]):
            f = sc["fields"][o["field"]]
            left += any(len(fs) for _, _, fs in os.walk(root))
            if o["op"] == "save":
                sim = ctx.sim(f"op{k}", o["sim"])
                with world(sim, root):
                    try:
                        build(f, root).run_preprocess(checkpoint="save")
                    except (SimCrash, Exception):
                        pass
                continue
            sim, got, err = attempt(ctx, f"op{k}", o["sim"], root, f, save=o["op"] == "saverun")
            if err is not None:
                if not hurt(sim):
                    return bad(f"job {k} failed without any hard fault of its own: {label(err)}")
                continue
            m = same_job(f, want[o["field"], o["op"]], got, o["sim"] == PLAIN)
            if m:
                return bad(f"job {k} does not return what it returns on an empty scratch directory: {m}")
        return ok(nontrivial=left > 0, sig=hash_of(sc))


def snapshot(x):
    """Everything a caller can see of an input object."""
    if isinstance(x, (xr.DataArray, xr.Dataset)):
        d = x.to_dataset(name="__v__") if isinstance(x, xr.DataArray) else x
        v = {k: (d[k].dims, str(d[k].dtype), d[k].values.tobytes(), repr(sorted(d[k].attrs.items())), repr(d[k].chunks)) for k in d.variables}
        return (type(x).__name__, getattr(x, "name", None), sorted(v.items()), repr(sorted(x.attrs.items())))
    if isinstance(x, dict):
        return {k: snapshot(v) for k, v in x.items()}
    return copy.deepcopy(x)


def what_changed(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if k not in b or a[k] != b[k]:
                return f"argument {k}: {what_changed(a[k], b.get(k))}"
        return f"keys {sorted(set(b) - set(a))} added"
    if isinstance(a, tuple) and len(a) == 4:
        for (k, u), (_, v) in zip(a[2], b[2]):
            if u != v:
                n = next(i for i in range(5) if u[i] != v[i])
                return f"{'dims type values attributes chunks'.split()[n]} of {k if k != '__v__' else 'the array'}"
        return "attributes or variables"
    return f"{a!r} became {b!r}"[:200]


class CallHistory(History):
    """C16"""

    rule = ("2..5 detection and tracking calls of 1..3 different jobs in one process, each in its own scratch directory, results read at once, at the end, in reverse or "
            "together, under random schedules and worker losses; every result equals the one of a first, single call, repeated calls with the very same input objects agree, "
            "and no input object (data, mask, areas, neighbours, option lists and dicts) is changed; non-trivial: a job is called twice or different jobs mix")

    def scenario(self, r, tier):
        fields = [draw_job(r) for _ in range(r.choice([1, 2, 2, 3]))]
        ops = [dict(op="run", field=r.randrange(len(fields)), sim=None) for _ in range(r.randint(2, 4 if any(f["kind"] == "detection" for f in fields) else 5))]
        return dict(kind="calls", fields=fields, ops=ops, read=r.choice(["now", "end", "reverse", "joint"]), sim=sim_conf(r, preempt=False),
                    attrs=r.random() < 0.5)

    def shrinks(self, sc):
        if sc["sim"] != PLAIN:
            yield with_(sc, sim=copy.deepcopy(PLAIN))
        for v in ("now", "end"):
            if sc["read"] != v:
                yield with_(sc, read=v)
        yield from super().shrinks(sc)

    def args(self, f, root, extra):
        """The input objects of a job, made once and used for all its calls."""
        if f["kind"] == "detection":
            da, kw, *_ = det.inputs(f)
            kw.update(det.options(f))
            kw.update(det.meta(f))
            if extra:
                da[f["tdim"]].attrs["note"] = "x"
                if f["seed"] % 4 == 0:
                    da[f["tdim"]].attrs["calendar"] = "standard"
            return dict(da=da, **kw)
        if f["kind"] == "unstructured":
            da, m, kw = gen.unstructured_inputs(f, root)
        else:
            da, m, kw = gen.gridded_inputs(f)
        return dict(data_bin=da, mask=m, **kw)

    def call(self, f, a, tmp):
        import marEx

        a = dict(a)
        if f["kind"] == "detection":
            return [marEx.preprocess_data(a.pop("da"), **a)]
        if not os.path.exists(tmp):
            os.mkdir(tmp)
        a["temp_dir"] = tmp
        tr = marEx.tracker(a.pop("data_bin"), a.pop("mask"), **a)
        return list(tr.run(return_merges=True)) if f["kind"] == "unstructured" or f["merging"] else [tr.run()]

    def run(self, sc, ctx):
        want = {}
        used = sorted({o["field"] for o in sc["ops"]})
        for i in used:
            f = sc["fields"][i]
            if f["kind"] == "detection" and not det.feasible(f):
                return skip("too short")
            root = ctx.dir(f"p{i}")
            with world(ctx.sim(f"plain{i}", PLAIN), root):
                try:
                    want[i] = [x.compute() for x in self.call(f, self.args(f, root, sc["attrs"]), root + "/s")]
                except Exception:
                    return skip("not a valid job")
        root = ctx.dir("root")
        with world(ctx.sim("run", sc["sim"]), root):
            args = {i: self.args(sc["fields"][i], root, sc["attrs"]) for i in used}
            before = {i: snapshot(args[i]) for i in used}
            res = []
            for k, o in enumerate(sc["ops"]):
                i = o["field"]
                out = self.call(sc["fields"][i], args[i], f"{root}/s{k}")
                res.append([x.compute() for x in out] if sc["read"] == "now" else out)
            if sc["read"] == "joint":
                flat = list(dask.compute(*[x for r in res for x in r]))
                res = [[flat.pop(0) for _ in r] for r in res]
            elif sc["read"] != "now":
                order = range(len(res)) if sc["read"] == "end" else range(len(res) - 1, -1, -1)
                for k in order:
                    res[k] = [x.compute() for x in res[k]]
            after = {i: snapshot(args[i]) for i in used}
        for i in used:
            if before[i] != after[i]:
                return bad(f"a call changed its caller's input: {what_changed(before[i], after[i])}")
        for k, o in enumerate(sc["ops"]):
            m = same_job(sc["fields"][o["field"]], want[o["field"]], res[k], False)
            if m:
                return bad(f"call {k} of job {o['field']} differs from a single call: {m}")
        return ok(nontrivial=len(used) < len(sc["ops"]) or len(used) > 1, sig=hash_of(sc))
