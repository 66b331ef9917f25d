"""Histories of calls on one scratch directory: checkpoints, crashes and
restarts, hard faults and retries, leftovers of earlier runs."""

import contextlib
import copy
import io

import numpy as np

from .. import gen
from ..core import SimCrash
from .base import PLAIN, Check, bad, known, ok, sim_conf, skip, with_
from .gridded import diff_dataset, hash_of, make_tracker, models, with_mergers
from .mesh import udraw, umodel

STATS = ("total_area", "objects_before", "objects_after", "threshold", "accepted_fraction", "preprocessed_fraction")


def draw_field(r, mesh, need=False):
    """A small field that survives preprocessing."""
    for _ in range(20):
        if mesh:
            sc = udraw(r, need)
            p = umodel(sc)
            if not p.empty and p.binary.any():
                return sc
        else:
            sc = with_mergers(r, 0.6) if need else gen.gridded(r, small=True)
            want, drop = models(sc)
            if not want.empty and drop.n_post > 0:
                return sc
    return sc


def build(sc, root, **kw2):
    """(tracker, names) for one field on the scratch directory root/scratch."""
    import os

    import marEx

    tmp = root + "/scratch"
    if sc["kind"] == "unstructured":
        da, m, kw = gen.unstructured_inputs(sc, tmp)
        kw.update(kw2)
        return marEx.tracker(da, m, **kw)
    da, m, kw = gen.gridded_inputs(sc)
    if not os.path.exists(tmp):
        os.mkdir(tmp)
    kw.update(temp_dir=tmp, **kw2)
    return make_tracker(sc, da, m, kw)


def world(sim, root):
    from .. import env

    st = contextlib.ExitStack()
    st.enter_context(env.simulation(sim, root))
    st.enter_context(contextlib.redirect_stdout(io.StringIO()))
    return st


def cleaned(out, stats, sc):
    """Comparable form of a preprocessing result."""
    dims = tuple(gen.unames(sc)[:2]) if sc["kind"] == "unstructured" else tuple(sc.get("names", ["time", "lat", "lon"]))
    a = out.transpose(*dims).compute()
    co = {d: a[d].values for d in dims if d in a.coords}
    return a.values, [float(np.asarray(x)) for x in stats], co, str(a.dtype)


def same_cleaned(a, b):
    if a[0].shape != b[0].shape or not np.array_equal(a[0], b[0]):
        return "the cleaned fields differ"
    if a[3] != b[3]:
        return f"types differ: {a[3]} / {b[3]}"
    for n, x, y in zip(STATS, a[1], b[1]):
        if not np.isclose(x, y, rtol=1e-6, equal_nan=True):
            return f"statistic {n}: {x} / {y}"
    if set(a[2]) != set(b[2]) or any(not np.array_equal(a[2][k], b[2][k]) for k in a[2]):
        return "coordinates differ"
    return None


DISK_HARD = (("crash_before", 1), ("crash_after", 1), ("torn_crash", 1), ("eio", 1), ("enospc", 1), ("torn_error", 1))


def fault_conf(r, mesh, rate, crash=True, errors=True, tasks=True):
    """A world with hard faults placed inside operations."""
    kinds = [k for k, _ in DISK_HARD if (crash and "crash" in k) or (errors and "crash" not in k)]
    kinds = [k for k in kinds if r.random() < 0.6] or [r.choice(kinds)]
    conf = sim_conf(r, preempt=mesh, p_faults=1.0, disk=[[k, rate / len(kinds)] for k in kinds],
                    disk_r=[["eio_read", rate / 8]] if errors and r.random() < 0.3 else (),
                    hard=[["client_crash", rate / 10]] if crash and tasks and r.random() < 0.5 else ())
    conf["max_faults"] = r.choice([1, 1, 2, 3])
    return conf


class History(Check):
    def shrinks(self, sc):
        for i in range(len(sc["ops"])):
            if len(sc["ops"]) > 1:
                yield with_(sc, ops=sc["ops"][:i] + sc["ops"][i + 1 :])
        for i, o in enumerate(sc["ops"]):
            if o.get("sim") and o["sim"] != PLAIN:
                c = copy.deepcopy(sc)
                c["ops"][i]["sim"] = copy.deepcopy(PLAIN)
                yield c
        for i, f in enumerate(sc["fields"]):
            nt = len(f["field"])
            for a, z in ((nt // 2, nt), (0, nt - nt // 2), (0, nt - 1)):
                if z - a >= 2 and z - a < nt:
                    c = copy.deepcopy(sc)
                    c["fields"][i].update(field=f["field"][a:z], tchunks=[z - a])
                    yield c
            for k, v in (("R", 0), ("T", 0), ("tchunks", [nt])):
                if f.get(k) != v:
                    c = copy.deepcopy(sc)
                    c["fields"][i][k] = v
                    yield c


class Checkpoints(History):
    """C13"""

    rule = ("histories of 2..5 saves and loads of preprocessing checkpoints of 1..3 fields (structured and mesh) on one scratch directory; client crashes, torn "
            "writes and I/O errors at every disk operation and task, then restart; each load must fail or return one complete checkpoint that may be the last "
            "one, with its own statistics; then, faults over, a save and a load succeed; non-trivial: a save was interrupted or overwritten before a load")

    def scenario(self, r, tier):
        mesh = r.random() < 0.4
        fields = [draw_field(r, mesh) for _ in range(r.choice([1, 2, 2, 3]))]
        for f in fields:
            if mesh:
                f["unames"] = None
            else:
                f["names"] = ["time", "lat", "lon"]
        if r.random() < 0.5 and len(fields) > 1:  # the same grid, another field: nothing but the content tells them apart
            for f in fields[1:]:
                f0 = copy.deepcopy(fields[0])
                f0["T"], f0["R"] = f["T"], f["R"]
                b = gen.unpack(f0["field"], (len(f0["mask"]),))
                f0["field"] = gen.pack(np.roll(b[::-1], r.randint(1, 5), axis=1))
                f.clear()
                f.update(f0)
        ops = []
        for _ in range(r.randint(2, 5)):
            op = r.choice(["save", "save", "load", "run_load"])
            rate = r.choice([0.0, 0.01, 0.03]) if op == "save" else r.choice([0.0, 0.0, 0.01])
            ops.append(dict(op=op, field=r.randrange(len(fields)), sim=fault_conf(r, mesh, rate) if rate else sim_conf(r, preempt=mesh)))
        ops.append(dict(op="load", field=r.randrange(len(fields)), sim=copy.deepcopy(PLAIN)))
        return dict(kind="history", fields=fields, ops=ops)

    def run(self, sc, ctx):
        fields = sc["fields"]
        want = {}
        for i in sorted({o["field"] for o in sc["ops"]} | {0}):
            with world(ctx.sim(f"plain{i}", PLAIN), ctx.dir(f"p{i}")):
                try:
                    want[i] = cleaned(*build(fields[i], ctx.dir(f"p{i}")).run_preprocess(), fields[i])
                except Exception:
                    return skip("field without objects")
        root = ctx.dir("root")
        allowed = {None}  # what the checkpoint may hold; None: nothing that can be loaded
        touched = loads = 0
        ops = list(sc["ops"]) + [dict(op="save", field=0, sim=PLAIN), dict(op="run_load", field=0, sim=PLAIN)]
        for k, o in enumerate(ops):
            i = o["field"]
            sim = ctx.sim(f"op{k}", o["sim"])
            final = k >= len(sc["ops"])
            got = err = None
            with world(sim, root):
                try:
                    tr = build(fields[i], root, checkpoint="load" if o["op"] == "run_load" and i % 2 else None)
                    if o["op"] == "save":
                        got = cleaned(*tr.run_preprocess(checkpoint="save"), fields[i])
                    else:
                        got = cleaned(*tr.run_preprocess(checkpoint="load"), fields[i])
                except SimCrash as e:
                    err = e
                except Exception as e:
                    err = e
            hurt = any(f["kind"] not in ("stall", "duplicate", "worker_crash_before", "worker_crash_after", "other_worker_crash", "skew")
                       for f in sim.fired)
            step = f"step {k} ({o['op']} field {i})"
            if o["op"] == "save":
                if err is None:
                    m = same_cleaned(got, want[i])
                    if m:
                        return bad(f"{step}: preprocessing with saving differs from preprocessing without: {m}")
                    touched += allowed != {None} and allowed != {i}
                    allowed = {i}
                else:
                    if not hurt:
                        return bad(f"{step}: saving failed without any fault: {type(err).__name__}: {str(err)[:200]}")
                    touched += 1
                    allowed = allowed | {i, None}
                continue
            if err is not None:
                if hurt or None in allowed:
                    continue
                return bad(f"{step}: a checkpoint that was saved completely cannot be loaded: {type(err).__name__}: {str(err)[:200]}")
            loads += 1
            cand = [j for j in allowed if j is not None]
            ms = [same_cleaned(got, want[j]) for j in cand]
            if not cand:
                return bad(f"{step}: loading succeeded although nothing was ever saved")
            if all(m is not None for m in ms):
                return bad(f"{step}: the loaded checkpoint is none of those it may be (fields {sorted(cand)}): {ms[0]}"
                           + (" after an interrupted save" if None in allowed else ""))
        return ok(nontrivial=touched > 0, sig=hash_of(sc), loads=loads, interrupted_or_overwritten=touched)
