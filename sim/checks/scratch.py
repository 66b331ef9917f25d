"""Scratch checkpoints of detection: what comes back is what was stored."""

import copy

import numpy as np
import pandas as pd
import xarray as xr

from .. import gen
from ..core import SimCrash
from .base import PLAIN, Check, bad, ok, sim_conf, skip, with_
from .detection import draw, feasible, run_pre, same_ds, shrink_det, world
from .gridded import hash_of
from .history import fault_conf

SOFTK = ("stall", "duplicate", "worker_crash_before", "worker_crash_after", "other_worker_crash", "skew")


def hurt(sim):
    return any(f["kind"] not in SOFTK for f in sim.fired)


def ragged(r, n):
    out = []
    while n:
        c = r.randint(1, n)
        out.append(c)
        n -= c
    return out


def item(r):
    nt, nx, ny = r.randint(1, 30), r.randint(1, 6), r.randint(1, 5)
    style = r.choice(["even", "ragged", "ragged", "one"])
    c = r.randint(1, nt)
    tch = [nt] if style == "one" else ragged(r, nt) if style == "ragged" else [c] * (nt // c) + ([nt % c] if nt % c else [])
    return dict(
        ds=r.random() < 0.35, nt=nt, nx=nx, ny=ny, tch=tch, xch=ragged(r, nx) if r.random() < 0.3 else [nx], tdim=r.choice(["time", "time", "t", "dayofyear"]),
        dtype=r.choice(["bool", "float32", "float64", "int32", "uint16"]), nan=r.random() < 0.4, name=r.choice(["anomalies", "anomalies", "thr", "checkpoint"]),
        cleanup=r.random() < 0.4, told=r.random() < 0.8, seed=r.randrange(1 << 30), numpy=r.random() < 0.1, order=r.choice(["txy", "txy", "xty"]),
    )


def make(it):
    rng = np.random.default_rng(it["seed"])
    shp = (it["nt"], it["ny"], it["nx"])
    T = it["tdim"]
    co = {T: np.arange(1, it["nt"] + 1) if T == "dayofyear" else pd.date_range("2001-02-03", periods=it["nt"]), "lat": np.linspace(-10, 10, it["ny"]),
          "lon": ("lon", np.arange(it["nx"]) * 2.5), "area": (("lat", "lon"), rng.random(shp[1:]))}

    def arr(k):
        v = rng.normal(size=shp) * 100
        if it["dtype"] == "bool":
            v = v > 0
        elif it["dtype"] in ("int32", "uint16"):
            v = np.abs(v) if it["dtype"] == "uint16" else v
        v = v.astype(it["dtype"])
        if it["nan"] and it["dtype"].startswith("f"):
            v[rng.random(shp) < 0.2] = np.nan
        return v

    if it["ds"]:
        d = xr.Dataset({"dat_anomaly": ((T, "lat", "lon"), arr(0), {"units": "K"}), "second": ((T, "lat", "lon"), arr(1)),
                        "mask": (("lat", "lon"), rng.random(shp[1:]) < 0.5)}, coords=co, attrs={"origin": "sim"})
    else:
        d = xr.DataArray(arr(0), dims=(T, "lat", "lon"), coords=co, name="dat", attrs={"units": "K"})
    if it["order"] == "xty":
        d = d.transpose("lon", T, "lat", ...)
    if not it["numpy"]:
        d = d.chunk({T: tuple(it["tch"]), "lon": tuple(it["xch"]), "lat": -1})
    return d


def same_obj(a, b):
    if type(a) is not type(b):
        return f"a {type(b).__name__} came back as {type(a).__name__}"
    a = a.to_dataset() if isinstance(a, xr.DataArray) else a
    b = b.to_dataset() if isinstance(b, xr.DataArray) else b
    for k in b.data_vars:
        if k in a.data_vars and dict(a[k].attrs) != dict(b[k].attrs):
            return f"attributes of {k}: {a[k].attrs} / {b[k].attrs}"
        if k in a.data_vars and a[k].dims != b[k].dims:
            return f"dimensions of {k}: {a[k].dims} / {b[k].dims}"
    return same_ds(a, b, True)


class ScratchCheckpoints(Check):
    """C14"""

    rule = ("1..4 arrays or datasets (types, missing values, regular and irregular chunks, dimension orders, equal names) stored by checkpoint_to_zarr in one scratch "
            "directory and read back in any order, and preprocess_data with scratch checkpoints on, under disk errors, full disks, torn writes, client crashes, worker "
            "losses and random schedules; every result equals what was stored (preprocess_data: the result without checkpoints) unless an error was raised after an "
            "injected fault, then a fault-free repetition on the same directory succeeds; with cleanup nothing is left; non-trivial: a fault fired or several checkpoints")

    def scenario(self, r, tier):
        if r.random() < 0.2:
            sc = draw(r)
            sc["ckpt"], sc["transpose"] = True, False
            if sc["exact"] and sc["extreme"] == "hobday_extreme":
                sc["exact"], sc["precision"] = False, 0.05
            if not sc["exact"]:
                sc["precision"] = max(sc["precision"], 0.05)
            if not feasible(sc):
                sc["anomaly"], sc["std"] = "fixed_baseline", False
            rate = r.choice([0.0, 0.002, 0.01])
        else:
            sc = dict(kind="items", items=[item(r) for _ in range(r.randint(1, 4))], compute=r.choice(["end", "joint", "reverse"]))
            rate = r.choice([0.0, 0.0, 0.02, 0.06])
        sc["sim"] = fault_conf(r, False, rate) if rate else sim_conf(r)
        return sc

    def shrinks(self, sc):
        if sc["kind"] != "items":
            yield from (s for s in shrink_det(sc) if s["ckpt"])
            return
        if sc["sim"] != PLAIN:
            yield with_(sc, sim=copy.deepcopy(PLAIN))
        for i in range(len(sc["items"])):
            if len(sc["items"]) > 1:
                yield with_(sc, items=sc["items"][:i] + sc["items"][i + 1 :])
        for i, it in enumerate(sc["items"]):
            for k, v in (("numpy", True), ("xch", [it["nx"]]), ("tch", [it["nt"]]), ("nan", False), ("dtype", "float64"), ("ds", False), ("order", "txy")):
                if it[k] != v:
                    c = copy.deepcopy(sc)
                    c["items"][i][k] = v
                    yield c

    def run(self, sc, ctx):
        return self.items(sc, ctx) if sc["kind"] == "items" else self.pre(sc, ctx)

    def items(self, sc, ctx):
        import os

        import dask
        from marEx.helper import checkpoint_to_zarr

        root = ctx.dir("root")
        fired = False
        for k, conf in (("run", sc["sim"]), ("again", PLAIN)):
            sim = ctx.sim(k, conf)
            err = None
            got = []
            with world(sim, root):
                try:
                    src = [make(it) for it in sc["items"]]
                    res = []
                    for it, d in zip(sc["items"], src):
                        kw = dict(timedim=it["tdim"]) if it["told"] or it["tdim"] != "time" else {}
                        res.append(checkpoint_to_zarr(d, name=it["name"], cleanup=it["cleanup"], **kw))
                    if sc["compute"] == "joint":
                        got = list(dask.compute(*res))
                    elif sc["compute"] == "reverse":
                        got = [x.compute() for x in res[::-1]][::-1]
                    else:
                        got = [x.compute() for x in res]
                except SimCrash as e:
                    err = e
                except Exception as e:
                    err = e
            fired = fired or bool(sim.fired)
            if err is not None:
                if not hurt(sim):
                    return bad(f"{k}: storing and reading back failed without any fault: {type(err).__name__}: {str(err)[:200]}")
            else:
                for i, (g, it) in enumerate(zip(got, sc["items"])):
                    m = same_obj(g, make(it).compute())
                    if m:
                        return bad(f"{k}: item {i} ({it['name']}) came back changed: {m}")
                if k == "again" or not hurt(sim):
                    n = len([f for f in os.listdir(root) if f.startswith("marEx")])
                    if all(it["cleanup"] for it in sc["items"]) and k == "run" and n:
                        return bad(f"{n} checkpoints were left although all were to be removed")
        return ok(nontrivial=fired or len(sc["items"]) > 1, sig=hash_of(sc))

    def pre(self, sc, ctx):
        if not feasible(sc):
            return skip("too short")
        with world(ctx.sim("plain", PLAIN), ctx.dir("plain")):
            want = run_pre(with_(sc, ckpt=False))[0]
        root = ctx.dir("root")
        fired = False
        for k, conf in (("run", sc["sim"]), ("again", PLAIN)):
            sim = ctx.sim(k, conf)
            err = None
            with world(sim, root):
                try:
                    got = run_pre(sc)[0]
                except SimCrash as e:
                    err = e
                except Exception as e:
                    err = e
            fired = fired or bool(sim.fired)
            if err is not None:
                if not hurt(sim):
                    return bad(f"{k}: detection with scratch checkpoints failed without any fault: {type(err).__name__}: {str(err)[:200]}")
                continue
            m = same_ds(want, got, True)
            if m:
                return bad(f"{k}: detection with scratch checkpoints differs from detection without: {m}")
            if not fired:
                break
        return ok(nontrivial=fired, sig=hash_of(sc))
