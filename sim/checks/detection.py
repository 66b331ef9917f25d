"""Extreme detection: anomalies, thresholds and extremes against float64 models;
independence of layout, schedule and lost workers; scratch checkpoints."""

import contextlib
import copy
import io

import numpy as np
import pandas as pd
import xarray as xr

from .. import dref, gen
from .base import PLAIN, Check, bad, ok, sim_conf, skip, with_
from .gridded import hash_of

ANOMALY = ("detrend_harmonic", "shifting_baseline", "fixed_baseline", "detrend_fixed_baseline")


def rough_chunks(r, n, lo=40, hi=None):
    """A chunk layout of a long axis."""
    hi = hi or n
    style = r.choice(["one", "even", "even", "ragged"])
    if style == "one":
        return [n]
    if style == "even":
        c = r.randint(lo, hi)
        return [c] * (n // c) + ([n % c] if n % c else [])
    out, left = [], n
    while left:
        c = min(left, r.choice([r.randint(lo, max(lo, n // 2)), r.randint(lo, 2 * lo), r.randint(1, 9) if r.random() < 0.1 else lo]))
        out.append(c)
        left -= c
    return out


def draw(r, years=(2.0, 3.6), cells=(2, 5, 3, 6)):
    uns = r.random() < 0.4
    ny, nx = (1, r.randint(3, 14)) if uns else (r.randint(cells[0], cells[1]), r.randint(cells[2], cells[3]))
    start = pd.Timestamp("1999-01-01") + pd.Timedelta(days=r.choice([0, 0, r.randrange(0, 1500), r.randrange(0, 1500)]))
    nt = int(r.uniform(*years) * 365.25)
    if r.random() < 0.2:  # whole calendar years
        nt = int((pd.Timestamp(year=start.year + r.choice([2, 3]), month=1, day=1) - start).days)
        nt = max(nt, 400)
    anomaly = r.choice(ANOMALY + ("shifting_baseline",))
    sc = dict(
        kind="detection", uns=uns, shape=[ny, nx], start=str(start.date()), nt=nt, seed=r.randrange(1 << 30),
        trend=r.choice([0.0, 0.3, 1.0, -0.5]), season=r.choice([0.5, 4.0, 8.0]), noise=r.choice([0.3, 0.7]), ar=r.choice([0.0, 0.6, 0.9]),
        base=r.choice([0.0, 15.0, -1.5]), nan=round(r.choice([0, 0, 0.15, 0.3]), 2), dtype=r.choice(["f4", "f4", "f8"]),
        anomaly=anomaly, window_year=r.choice([1, 1, 2]), smooth=r.choice([1, 3, 5, 5, 11, 21, 4]),
        orders=r.choice([[1], [1], [1, 2], [2], [1, 2, 3]]), zero_mean=r.random() < 0.75, std=False,
        extreme=r.choice(["global_extreme", "hobday_extreme"]), pct=r.choice([60, 80, 90, 90, 95, 95, 97.5]),
        exact=r.random() < 0.5, days=r.choice([1, 3, 5, 11, 11]), spatial=r.choice([None, 1, 3, 5]),
        precision=r.choice([0.01, 0.05, 0.05, 0.2]), top=r.choice([5.0, 5.0, 6.5]),
        tchunks=rough_chunks(r, nt), schunks=[r.randint(1, ny), r.randint(1, nx)] if r.random() < 0.35 else None,
        out_chunk=r.choice([None, 10, 100, r.randint(20, 400)]), tdim=r.choice(["time", "time", "time", "t"]),
        transpose=r.random() < 0.12, extra=r.random() < 0.4, ckpt=r.random() < 0.15, taxis=r.choice(["daily"] * 7 + ["gaps", "two", "half"]),
        quant=r.choice([0, 0, 0, 0.125, 0.5]), const=r.choice([None] * 6 + ["zero", "any"]),
    )
    if anomaly == "detrend_harmonic" and r.random() < 0.5:
        sc["std"] = True
    if sc["exact"]:
        sc["precision"], sc["top"], sc["spatial"] = 0.01, 5.0, None
    if sc["extreme"] == "global_extreme" or uns:
        sc["spatial"] = None
    if sc["transpose"]:
        sc["ckpt"] = False
    return sc


def affordable(sc):
    """Exact day-of-year percentiles build tasks per block and day: keep the number of blocks moderate."""
    if sc["exact"] and sc["extreme"] == "hobday_extreme":
        if sc["schunks"]:
            sc["schunks"] = [max(sc["schunks"][0], (sc["shape"][0] + 1) // 2), max(sc["schunks"][1], (sc["shape"][1] + 1) // 2)]
        if sc["out_chunk"]:
            sc["out_chunk"] = max(sc["out_chunk"], 60)
    return sc


def time_of(sc):
    """The time axis: daily, every second day, twice a day, or daily with days missing."""
    k = sc.get("taxis", "daily")
    if k == "gaps":
        t = pd.date_range(sc["start"], periods=sc["nt"] + sc["nt"] // 20, freq="D")
        keep = np.sort(np.random.default_rng(sc["seed"]).permutation(len(t))[: sc["nt"]])
        return t[keep]
    return pd.date_range(sc["start"], periods=sc["nt"], freq={"daily": "D", "two": "2D", "half": "12h", "dense": "5min"}[k])


def large(r, sc, nt=None):
    """More cells than one block of the histogram code, a short series given directly."""
    nt = nt or r.randint(60, 160)
    ny, nx = (1, r.randint(17, 40)) if sc["uns"] else r.choice([(r.randint(2, 4), r.randint(17, 36)), (r.randint(17, 24), r.randint(3, 5))])
    sc.update(call="direct", shape=[ny, nx], nt=nt, tchunks=rough_chunks(r, nt, 10), schunks=[r.randint(1, ny), r.randint(1, nx)] if r.random() < 0.5 else None,
              season=0.0, trend=0.0, base=0.0, std=False, anomaly="fixed_baseline", precision=0.2, top=5.0, exact=r.random() < 0.15)
    if sc["exact"]:
        sc["precision"], sc["spatial"], sc["extreme"] = 0.01, None, "global_extreme"
    if r.random() < 0.25:  # many values on one day
        nt = r.randint(300, 800)
        sc.update(taxis="dense", nt=nt, tchunks=rough_chunks(r, nt))
    return sc


def data_of(sc):
    """(time, cells) raw data, NaN on masked cells."""
    ny, nx = sc["shape"]
    nc = ny * nx
    t = time_of(sc)
    rng = np.random.default_rng(sc["seed"])
    ph = rng.uniform(0, 2 * np.pi, nc)
    dy = dref.decimal_year(t)
    e = rng.normal(size=(sc["nt"], nc)) * sc["noise"]
    if sc["ar"]:
        for i in range(1, len(e)):
            e[i] = sc["ar"] * e[i - 1] + np.sqrt(1 - sc["ar"] ** 2) * e[i]
    x = sc["base"] + rng.uniform(-1, 1, nc) + sc["season"] * np.sin(2 * np.pi * dy[:, None] + ph) + sc["trend"] * (dy - dy[0])[:, None] * rng.uniform(0.2, 1, nc) + e
    dead = rng.random(nc) < sc["nan"]
    if dead.all():
        dead[rng.integers(nc)] = False
    if sc.get("quant"):
        x = np.round(x / sc["quant"]) * sc["quant"]
    if sc.get("const"):  # e.g. under sea ice
        flatc = rng.random(nc) < 0.3
        x[:, flatc] = np.round(x[0, flatc] * 2) / 2 if sc["const"] == "any" else 0.0
    x[:, dead] = np.nan
    return x.astype(np.float32), ~dead


def inputs(sc, tchunks=None, schunks="same"):
    x, alive = data_of(sc)
    ny, nx = sc["shape"]
    t = time_of(sc)
    T = sc["tdim"]
    sch = sc["schunks"] if schunks == "same" else schunks
    a = x.astype(sc["dtype"])
    attrs = {"units": "degC", "origin": "sim"}
    if sc["uns"]:
        lat, lon = np.linspace(-60, 60, nx), np.linspace(-170, 170, nx)
        da = xr.DataArray(a, dims=(T, "ncells"), coords={T: t, "lat": ("ncells", lat), "lon": ("ncells", lon)}, name="sst", attrs=attrs)
        ch = {T: tuple(tchunks or sc["tchunks"]), "ncells": sch[1] if sch else -1}
        kw = dict(dimensions={"time": T, "x": "ncells"}, coordinates={"time": T, "x": "lon", "y": "lat"})
    else:
        lat, lon = np.linspace(-60, 60, ny), np.arange(nx) * 360.0 / nx
        da = xr.DataArray(a.reshape(-1, ny, nx), dims=(T, "lat", "lon"), coords={T: t, "lat": lat, "lon": lon}, name="sst", attrs=attrs)
        ch = {T: tuple(tchunks or sc["tchunks"]), "lat": sch[0] if sch else -1, "lon": sch[1] if sch else -1}
        kw = {}
        if T != "time" or sc["seed"] % 3 == 0:
            kw = dict(dimensions={"time": T, "x": "lon", "y": "lat"})
    if sc["transpose"]:
        da = da.transpose("ncells", T) if sc["uns"] else da.transpose("lat", T, "lon")
    return da.chunk(ch), kw, x, alive


def options(sc):
    """Keyword arguments of preprocess_data (defaults left out where they are the value)."""
    kw = dict(method_anomaly=sc["anomaly"], method_extreme=sc["extreme"], threshold_percentile=sc["pct"],
              method_percentile="exact" if sc["exact"] else "approximate", quiet=True)
    if sc["anomaly"] == "shifting_baseline":
        kw.update(window_year_baseline=sc["window_year"], smooth_days_baseline=sc["smooth"])
    if "detrend" in sc["anomaly"]:
        kw.update(detrend_orders=list(sc["orders"]), force_zero_mean=sc["zero_mean"])
    if sc["std"]:
        kw["std_normalise"] = True
    if sc["extreme"] == "hobday_extreme":
        kw["window_days_hobday"] = sc["days"]
        if sc["spatial"] is not None:
            kw["window_spatial_hobday"] = sc["spatial"]
    if not sc["exact"]:
        kw.update(precision=sc["precision"], max_anomaly=sc["top"])
    if sc["out_chunk"]:
        kw["dask_chunks"] = {sc["tdim"] if sc["seed"] % 2 else "time": sc["out_chunk"]}
    if sc["ckpt"]:
        kw["use_temp_checkpoints"] = True
    return kw


def meta(sc):
    """Optional neighbours and cell areas of a mesh."""
    if not (sc["uns"] and sc["extra"]):
        return {}
    n = sc["shape"][1]
    nb = np.stack([np.roll(np.arange(1, n + 1), k) for k in (1, -1, 2)]).astype(np.int64)
    area = np.linspace(1.0, 2.0, n)
    return dict(neighbours=xr.DataArray(nb, dims=("nv", "ncells"), coords={"nv": [0, 1, 2]}), cell_areas=xr.DataArray(area, dims=("ncells",)))


def world(sim, root):
    from .. import env
    import dask

    st = contextlib.ExitStack()
    st.enter_context(env.simulation(sim, root))
    st.enter_context(contextlib.redirect_stdout(io.StringIO()))
    st.enter_context(dask.config.set({"temporary-directory": root}))
    return st


def flat(da, sc, lead=None):
    """(lead, cells) values of a result variable."""
    sp = ("ncells",) if sc["uns"] else ("lat", "lon")
    da = da.transpose(*((lead,) if lead else ()), *sp)
    v = da.values
    return v.reshape((v.shape[0], -1) if lead else (-1,))


def run_pre(sc, tchunks=None, schunks="same", **kw2):
    import marEx

    da, kw, x, alive = inputs(sc, tchunks, schunks)
    kw.update(options(sc))
    kw.update(meta(sc))
    kw.update(kw2)
    ds = marEx.preprocess_data(da, **kw)
    return ds.compute(), da, x, alive


def close(a, b, atol, what):
    """None or a description of the first difference (NaN equals NaN)."""
    if a.shape != b.shape:
        return f"{what}: shape {a.shape}, expected {b.shape}"
    na, nb = np.isnan(a), np.isnan(b)
    d = np.where(na | nb, 0.0, np.abs(a.astype(np.float64) - b))
    wrong = (na != nb) | (d > atol)
    if not wrong.any():
        return None
    i = tuple(int(v) for v in np.argwhere(wrong)[0])
    return f"{what}: {int(wrong.sum())} of {wrong.size} values differ, first at {i}: got {a[i]!r}, expected {b[i]!r}"


def check_anomaly(sc, ds, x, alive):
    """The anomaly part of a preprocess result against the model."""
    t = time_of(sc)
    T = sc["tdim"]
    want, keep = dref.anomaly(x.astype(np.float64), t, sc)
    tt = pd.DatetimeIndex(ds[T].values)
    if not np.array_equal(tt.values, t[keep].values):
        return f"time axis: {len(tt)} steps from {tt[:1].values}, expected {int(keep.sum())} from {t[keep][:1].values}"
    got = flat(ds.dat_anomaly, sc, T)
    scale = max(1.0, float(np.nanmax(np.abs(x))))
    m = close(got, want, 3e-5 * scale + 1e-4, "anomaly")
    if m:
        return m
    if not np.array_equal(flat(ds["mask"], sc).astype(bool), alive):
        return "mask is not where the first step is finite"
    if ds["mask"].dtype != bool:
        return f"mask has type {ds['mask'].dtype}"
    if ds.dat_anomaly.dtype != np.float32:
        return f"anomalies have type {ds.dat_anomaly.dtype}"
    return None


def check_extremes(sc, a, time, ext, thr, valid):
    """Extremes and thresholds of anomalies a (time, cells) against the models; thr is a DataArray."""
    T = sc["tdim"]
    q = sc["pct"] / 100.0
    e = flat(ext, sc, T)
    if e.dtype != bool:
        return f"extremes have type {e.dtype}"
    if sc["extreme"] == "global_extreme":
        got = flat(thr, sc)
        if sc["exact"]:
            with np.errstate(all="ignore"):
                want = dref.global_exact(a, q)
        else:
            want = dref.global_approx(a, q, sc["precision"], sc["top"])
        m = close(got, want, 2e-4, "threshold")
        if m:
            return m
        lim = np.broadcast_to(got[None], a.shape)
    else:
        got = flat(thr, sc, "dayofyear")
        if sc["exact"]:
            days, want = dref.day_exact(a, time, sc["pct"], sc["days"])
        else:
            days = np.arange(1, 367)
            sp = sc["spatial"] if sc["spatial"] is not None else 5
            want = dref.day_approx(a, time, q, sc["days"], None if sc["uns"] else sp, None if sc["uns"] else sc["shape"], sc["precision"], sc["top"], valid)
        if sc["std"] and not sc["exact"] and thr.sizes["dayofyear"] == 365 and not (pd.DatetimeIndex(time).dayofyear == 366).any():
            days, want = days[:365], want[:365]  # in one dataset with standard deviations, which exist for the days present
        if not np.array_equal(thr["dayofyear"].values, days):
            return f"thresholds are given for days {thr['dayofyear'].values[:3]}..., expected {days[:3]}... ({len(days)} days)"
        m = close(got, want, 2e-4, "threshold")
        if m:
            return m
        pos = {int(d): i for i, d in enumerate(days)}
        lim = got[[pos[int(d)] for d in pd.DatetimeIndex(time).dayofyear]]
    with np.errstate(invalid="ignore"):
        wrong = e != (a >= lim)
    if wrong.any():
        i = tuple(int(v) for v in np.argwhere(wrong)[0])
        return f"extremes: {int(wrong.sum())} of {wrong.size} differ from anomaly >= threshold, first at {i}: anomaly {a[i]}, threshold {lim[i]}"
    return None


def shrink_det(sc):
    if sc.get("sim") and sc["sim"] != PLAIN:
        yield with_(sc, sim=copy.deepcopy(PLAIN))
    for k, v in (("taxis", "daily"), ("quant", 0), ("const", None), ("ckpt", False), ("transpose", False), ("schunks", None), ("tdim", "time"), ("nan", 0), ("extra", False), ("out_chunk", None), ("std", False),
                 ("dtype", "f4"), ("trend", 0.0), ("ar", 0.0), ("base", 0.0), ("orders", [1]), ("zero_mean", True), ("smooth", 1), ("days", 1), ("spatial", 1)):
        if sc.get(k) != v and not (k == "spatial" and (sc["uns"] or sc["exact"] or sc["extreme"] != "hobday_extreme")):
            yield with_(sc, **{k: v})
    if sc["tchunks"] != [sc["nt"]]:
        yield with_(sc, tchunks=[sc["nt"]])
        if len(sc["tchunks"]) > 2:
            h = sc["nt"] // 2
            yield with_(sc, tchunks=[h, sc["nt"] - h])
    ny, nx = sc["shape"]
    for s in ([1 if sc["uns"] else 2, 3], [ny, 3], [1 if sc["uns"] else 2, nx]):
        if s != [ny, nx] and s[0] <= ny and s[1] <= nx:
            yield with_(sc, shape=s, schunks=None)
    for nt in (400, 800):
        if nt < sc["nt"] and not (sc["anomaly"] == "shifting_baseline" and nt < 800):
            yield with_(sc, nt=nt, tchunks=[nt])


def feasible(sc):
    """Enough years for the method (marEx refuses otherwise)?"""
    t = time_of(sc)
    n = t.year.max() - t.year.min() + 1
    if sc["anomaly"] == "shifting_baseline":
        return n > sc["window_year"]
    return True


class Detection(Check):
    def shrinks(self, sc):
        return shrink_det(sc)


class Anomalies(Detection):
    """C10"""

    rule = ("random daily series of 1.1..3.6 years (seasons, trends, red noise, masked cells, any start day, leap years) on 2x3..5x6 grids and 3..14-cell meshes, all four "
            "anomaly methods and their parameters, any chunking in time and space, dimension names and order, task orders and worker losses; anomalies, mask, "
            "standardised anomalies and rolling climatologies equal float64 models; non-trivial: more than one chunk or masked cells")

    def scenario(self, r, tier):
        sc = draw(r)
        sc["call"] = r.choice(["pre", "anomaly", "anomaly", "anomaly", "clim", "smooth", "gap"])
        if sc["call"] == "gap":
            sc["gap"] = [r.choice([1, sc["nt"] - 1, r.randrange(1, sc["nt"])]), r.randrange(1 << 16), r.choice(["nan", "inf", "-inf"]), r.random() < 0.25]
        if sc["call"] == "pre":
            sc["extreme"], sc["exact"], sc["spatial"], sc["precision"], sc["top"] = "global_extreme", True, None, 0.01, 5.0
        if not feasible(sc):
            sc["anomaly"] = "fixed_baseline"
            sc["std"] = False
        affordable(sc)["sim"] = sim_conf(r)
        return sc

    def run(self, sc, ctx):
        import marEx

        if not feasible(sc):
            return skip("too short")
        root = ctx.dir("root")
        t = time_of(sc)
        T = sc["tdim"]
        if sc["call"] == "gap":
            return self.gap(sc, ctx, root)
        with world(ctx.sim("run", sc["sim"]), root):
            if sc["call"] == "pre":
                ds, da, x, alive = run_pre(sc)
            else:
                da, kw, x, alive = inputs(sc)
                if sc["dtype"] == "f8" and sc["call"] == "anomaly":
                    da = da.astype(np.float32)
                if sc["call"] in ("clim", "smooth"):
                    f = marEx.rolling_climatology if sc["call"] == "clim" else marEx.smoothed_rolling_climatology
                    kw["window_year_baseline"] = sc["window_year"]
                    if sc["call"] == "smooth":
                        kw["smooth_days_baseline"] = sc["smooth"]
                    out = f(da, **kw).compute()
                else:
                    o = options(sc)
                    o = {k: v for k, v in o.items() if k in ("method_anomaly", "window_year_baseline", "smooth_days_baseline", "std_normalise", "detrend_orders",
                                                             "force_zero_mean", "use_temp_checkpoints", "quiet")}
                    ds = marEx.compute_normalised_anomaly(da, **kw, **o).compute()
        nontrivial = len(sc["tchunks"]) > 1 or not alive.all()
        scale = max(1.0, float(np.nanmax(np.abs(x))))
        if sc["call"] in ("clim", "smooth"):
            y = dref.centred_mean(x.astype(np.float64), sc["smooth"]) if sc["call"] == "smooth" else x.astype(np.float64)
            want = dref.climatology(y, t, sc["window_year"])
            m = close(flat(out, sc, T), want, 3e-5 * scale + 1e-4, "climatology")
            return bad(m) if m else ok(nontrivial=nontrivial, sig=hash_of(sc))
        if sc["call"] == "anomaly" and sc["anomaly"] == "shifting_baseline":
            # untrimmed: the years without a baseline are empty
            want, keep = dref.anomaly(x.astype(np.float64), t, sc)
            got = flat(ds.dat_anomaly, sc, T)
            if got.shape[0] != len(t):
                return bad(f"anomalies have {got.shape[0]} steps, the data {len(t)}")
            if not np.isnan(got[~keep]).all():
                return bad("anomalies exist in years without a complete baseline")
            ds = ds.isel({T: keep})
        m = check_anomaly(sc, ds, x, alive)
        if m:
            return bad(m)
        if sc["std"]:
            a = flat(ds.dat_anomaly, sc, T).astype(np.float64)
            days, sd = dref.std_by_day(a, t)
            if not np.array_equal(ds.STD["dayofyear"].values, days):
                return bad("STD is not given for the days of the year")
            m = close(flat(ds.STD, sc, "dayofyear"), sd, 1e-3 * max(1.0, float(np.nanmax(sd))), "STD")
            if m:
                return bad(m)
            s = flat(ds.STD, sc, "dayofyear").astype(np.float64)[np.searchsorted(days, t.dayofyear.values)]
            with np.errstate(all="ignore"):
                w = a / np.where(s > 1e-10, s, np.nan)
                m = close(flat(ds.dat_stn, sc, T) / np.maximum(1.0, np.abs(w)), w / np.maximum(1.0, np.abs(w)), 1e-3, "standardised anomaly")
            if m:
                return bad(m)
        for c in ("lat", "lon"):
            if c not in ds.coords or not np.array_equal(ds[c].values, da[c].values):
                return bad(f"coordinate {c} is not the input's")
        if sc["call"] == "pre":
            if ds.attrs.get("method_anomaly") != sc["anomaly"] or ds.attrs.get("threshold_percentile") != sc["pct"]:
                return bad(f"attributes do not describe the call: {ds.attrs}")
            if meta(sc):
                mm = meta(sc)
                if not np.array_equal(ds.neighbours.values, mm["neighbours"].values) or not np.allclose(ds.cell_areas.values, mm["cell_areas"].values):
                    return bad("neighbours or cell areas were changed")
        return ok(nontrivial=nontrivial, sig=hash_of(sc))


    def gap(self, sc, ctx, root):
        """One missing value in a cell that has data at the first step is refused; one in a masked cell is not a gap."""
        import marEx
        from marEx.exceptions import DataValidationError

        ti, pick, what, masked = sc["gap"]
        da, kw, x, alive = inputs(sc)
        if ti >= sc["nt"]:
            return skip("no such step")
        masked = masked and not alive.all()
        cells = np.nonzero(alive != masked)[0]
        c = int(cells[pick % len(cells)])
        v = da.values.copy() if not sc["transpose"] else da.transpose(sc["tdim"], ...).values.copy()
        v.reshape(len(v), -1)[ti, c] = {"nan": np.nan, "inf": np.inf, "-inf": -np.inf}[what] if not masked else 1.0
        src = da.transpose(sc["tdim"], ...)
        da = xr.DataArray(v, dims=src.dims, coords=src.coords, name=src.name, attrs=src.attrs).chunk(src.chunksizes).transpose(*da.dims)
        err = None
        o = options(dict(sc, extreme="global_extreme", exact=True, anomaly=sc["anomaly"] if masked else "fixed_baseline", std=False, ckpt=False))
        with world(ctx.sim("run", sc["sim"]), root):
            try:
                ds = marEx.preprocess_data(da, **kw, **o)
                if masked:
                    m = flat(ds["mask"].compute(), sc)
                    if not np.array_equal(m, alive):
                        return bad("mask is not where the first step is finite")
            except DataValidationError as e:
                err = e
        if masked and err is not None:
            return bad(f"data were refused although every cell with data is complete: {str(err)[:200]}")
        if not masked and err is None:
            return bad(f"data with {what} at step {ti} in a cell that has data were accepted")
        return ok(nontrivial=True, sig=hash_of(sc))


class Extremes(Detection):
    """C11"""

    rule = ("random anomaly fields (given directly, or computed by preprocess_data by any anomaly method) of 0.3..3.6 years, global and day-of-year thresholds, exact "
            "and histogram percentiles with all their parameters (percentile, bin width, range, window in days, window in space), masked cells, any chunking in time "
            "and space, task orders and worker losses; thresholds equal float64 models and extremes are exactly where anomaly >= threshold; "
            "non-trivial: some extreme found")

    def scenario(self, r, tier):
        sc = draw(r)
        sc["call"] = r.choice(["pre", "pre", "direct", "direct", "direct"])
        if sc["exact"] and sc["extreme"] == "hobday_extreme" and r.random() < 0.7:  # slow: rarely
            sc["exact"] = False
            sc["precision"] = r.choice([0.01, 0.05, 0.2])
            sc["spatial"] = None if sc["uns"] else r.choice([None, 1, 3, 5])
        if sc["extreme"] == "hobday_extreme" and not sc["exact"] and sc["precision"] < 0.05:
            sc["shape"] = [min(sc["shape"][0], 3), min(sc["shape"][1], 5)]
            sc["schunks"] = None
        if sc["call"] == "direct":
            sc.update(season=r.choice([0.0, 0.0, 0.5]), trend=0.0, base=r.choice([0.0, 0.0, 0.3, -0.5]), std=False)
            if r.random() < 0.3:
                nt = r.randint(120, 500)
                sc.update(nt=nt, tchunks=rough_chunks(r, nt))
            if r.random() < 0.25:
                sc["noise"] = 2.5  # beyond the histogram range
        if not feasible(sc):
            sc["anomaly"] = "fixed_baseline"
            sc["std"] = False
        if r.random() < 0.12:
            sc = large(r, sc)
        affordable(sc)["sim"] = sim_conf(r)
        return sc

    def run(self, sc, ctx):
        import marEx

        if not feasible(sc):
            return skip("too short")
        if sc["extreme"] == "global_extreme" and sc["exact"] is False and sc["pct"] < 60:
            return skip("refused")
        root = ctx.dir("root")
        T = sc["tdim"]
        with world(ctx.sim("run", sc["sim"]), root):
            if sc["call"] == "pre":
                ds, da, x, alive = run_pre(sc)
                pairs = [(ds.dat_anomaly, ds.extreme_events, ds.thresholds)]
                if sc["std"]:
                    pairs.append((ds.dat_stn, ds.extreme_events_stn, ds.thresholds_stn))
            else:
                da, kw, x, alive = inputs(sc)
                da = da.astype(np.float32)
                o = options(sc)
                o = {k: v for k, v in o.items() if k in ("method_extreme", "threshold_percentile", "window_days_hobday", "window_spatial_hobday", "method_percentile",
                                                         "precision", "max_anomaly", "use_temp_checkpoints", "quiet")}
                e, t = marEx.identify_extremes(da, **kw, **o)
                pairs = [(da.compute(), e.compute(), t.compute())]
        found = 0
        for a, e, t in pairs:
            av = flat(a, sc, T)
            m = check_extremes(sc, av, a[T].values, e, t, np.isfinite(av[0]))  # a cell whose series starts empty has no threshold
            if m:
                return bad(m)
            found += int(e.values.sum())
            if not np.array_equal(e[T].values, a[T].values):
                return bad("the extremes' time axis is not the anomalies'")
        return ok(nontrivial=found > 0, sig=hash_of(sc), extremes=found)


def same_ds(a, b, exact, skip_vars=()):
    """None or the first difference of two detection results; exact: to the bit, else up to rounding of anomalies."""
    if set(a.data_vars) != set(b.data_vars):
        return f"variables differ: {sorted(set(a.data_vars) ^ set(b.data_vars))}"
    if set(a.coords) != set(b.coords):
        return f"coordinates differ: {sorted(set(a.coords) ^ set(b.coords))}"
    if a.attrs != b.attrs:
        return f"attributes differ: {[(k, a.attrs.get(k), b.attrs.get(k)) for k in set(a.attrs) | set(b.attrs) if a.attrs.get(k) != b.attrs.get(k)][:2]}"
    for k in sorted(set(a.variables)):
        if k in skip_vars:
            continue
        u, v = a[k], b[k]
        if set(u.dims) != set(v.dims):
            return f"{k}: dimensions {u.dims} / {v.dims}"
        x, y = u.values, v.transpose(*u.dims).values
        if x.dtype.kind == y.dtype.kind == "M":  # the unit in which times are held is free
            x, y = x.astype("M8[ns]"), y.astype("M8[ns]")
        if x.shape != y.shape or x.dtype != y.dtype:
            return f"{k}: {x.dtype}{x.shape} / {y.dtype}{y.shape}"
        if x.dtype.kind != "f":
            if not np.array_equal(x, y):
                return f"{k}: {int((x != y).sum())} of {x.size} values differ"
        elif exact or k in a.coords:
            if not np.array_equal(x, y, equal_nan=True):
                return f"{k}: {int(((x != y) & ~(np.isnan(x) & np.isnan(y))).sum())} of {x.size} values differ"
        else:
            m = close(x, y, 1e-4 * max(1.0, float(np.nanmax(np.abs(y))) if np.isfinite(y).any() else 1.0), k)
            if m:
                return m
    return None


class DetectLayout(Detection):
    """C12"""

    rule = ("the same daily series twice: once in one chunk on one worker in order, once chunked at random in time and space (and possibly dimensions in another order) "
            "under a random schedule with worker losses, duplicates, stalls and clock skew; detection from raw data or from given anomalies, scratch checkpoints on or "
            "off. Same layout: results equal to the bit; other layout: thresholds and extremes of given anomalies equal, anomalies equal up to rounding; "
            "non-trivial: more than one chunk or a fault fired")

    def scenario(self, r, tier):
        sc = draw(r)
        sc["call"] = r.choice(["pre_same", "pre_layout", "direct", "direct"])
        if sc["exact"] and sc["extreme"] == "hobday_extreme":  # slow
            sc["exact"], sc["precision"] = False, 0.05
        if not sc["exact"] and sc["extreme"] == "hobday_extreme":
            sc["precision"] = max(sc["precision"], 0.05)
        if sc["call"] == "direct":
            sc.update(season=0.0, trend=0.0, base=0.0, std=False)
        if not feasible(sc):
            sc["anomaly"], sc["std"] = "fixed_baseline", False
        if sc["schunks"] is None and r.random() < 0.5:
            sc["schunks"] = [r.randint(1, sc["shape"][0]), r.randint(1, sc["shape"][1])]
        if r.random() < 0.1:
            sc = large(r, sc)
        sc["sim"] = sim_conf(r, p_faults=0.9)
        return sc

    def run(self, sc, ctx):
        import marEx

        if not feasible(sc):
            return skip("too short")
        out = []
        for k, conf in (("plain", PLAIN), ("run", sc["sim"])):
            sim = ctx.sim(k, conf)
            c = sc
            if k == "plain" and sc["call"] != "pre_same":
                c = with_(sc, tchunks=[sc["nt"]], schunks=None, transpose=False, ckpt=False)
            with world(sim, ctx.dir(k)):
                if sc["call"] == "direct":
                    da, kw, x, alive = inputs(c)
                    o = options(c)
                    o = {n: v for n, v in o.items() if n in ("method_extreme", "threshold_percentile", "window_days_hobday", "window_spatial_hobday",
                                                             "method_percentile", "precision", "max_anomaly", "use_temp_checkpoints", "quiet")}
                    e, t = marEx.identify_extremes(da.astype(np.float32), **kw, **o)
                    out.append(xr.Dataset(dict(ext=e, thr=t), attrs={}).compute())
                else:
                    out.append(run_pre(c)[0])
        fired = bool(sim.fired)
        a, b = out
        if sc["call"] == "pre_layout":
            # how anomalies are rounded depends on the layout; what is an extreme given the anomalies is judged by C11
            m = same_ds(a, b, False, ("extreme_events", "thresholds", "extreme_events_stn", "thresholds_stn", "dat_stn"))
        elif sc["call"] == "direct" and (sc["extreme"] == "global_extreme"):
            m = same_ds(a, b, False, ("ext",))
            if m is None:
                m = "extremes differ" if (a.ext.values != b.ext.transpose(*a.ext.dims).values).mean() > 1e-3 else None
        else:
            m = same_ds(a, b, True)
        if m:
            return bad(("schedule or lost workers" if sc["call"] == "pre_same" else "chunks, schedule or lost workers") + f" change the result: {m}")
        return ok(nontrivial=fired or len(sc["tchunks"]) > 1, sig=hash_of(sc))
