"""Tracking on structured grids: preprocessing, labelling, splitting and
merging, event tables, merge records - against sequential reference models."""

import contextlib
import copy
import io

import numpy as np

from .. import gen, ref
from .base import PLAIN, Check, bad, known, ok, sim_conf, skip, with_


def make_tracker(sc, da, m, kw):
    import marEx

    if sc["regional"] and sc.get("api") == "regional":
        kw = dict(kw)
        kw.pop("regional_mode", None)
        return marEx.regional_tracker(da, m, kw.pop("coordinate_units"), kw.pop("R_fill"), **kw)
    return marEx.tracker(da, m, **kw)


EMPTY_ERRORS = ("No objects", "ZeroDivisionError", "division by zero", "No valid")


def track(sc, sim, root, tchunks=None, merges=True):
    """One complete simulated execution; returns (events, merges) loaded."""
    from .. import env

    with env.simulation(sim, root), contextlib.redirect_stdout(io.StringIO()):
        da, m, kw = gen.gridded_inputs(sc, tchunks)
        tr = make_tracker(sc, da, m, kw)
        if sc["merging"] and merges:
            ds, mg = tr.run(return_merges=True)
            return ds.compute(), mg.compute()
        return tr.run().compute(), None


def idfield(sc, ds):
    T, Y, X = sc.get("names", ["time", "lat", "lon"])
    return ds.ID_field.transpose(T, Y, X).values


def models(sc):
    b, mask, *_ = gen.gridded_arrays(sc)
    want = ref.preprocess_gridded(b, mask, sc["R"], sc["T"], sc["filter"], sc["regional"])
    drop = ref.preprocess_gridded(b, mask, sc["R"], sc["T"], sc["filter"], sc["regional"], drop_first=True)
    return want, drop


def simplify_sim(sc):
    """Simpler worlds first: no faults, one worker."""
    if sc.get("sim") and sc["sim"] != PLAIN:
        yield with_(sc, sim=copy.deepcopy(PLAIN))


def shrink_gridded(sc):
    yield from simplify_sim(sc)
    nt = len(sc["field"])
    ny, nx = sc["shape"]
    if sc["tchunks"] != [nt]:
        yield with_(sc, tchunks=[nt])
    for a, z in ((nt // 2, nt), (0, nt - nt // 2), (1, nt), (0, nt - 1)):
        if z - a >= 2 and (a, z) != (0, nt):
            yield with_(sc, field=sc["field"][a:z], tchunks=[z - a])
            if len(sc["tchunks"]) > 1:
                yield with_(sc, field=sc["field"][a:z], tchunks=[1] * (z - a))
    for k, v in (("mask", "#" * (ny * nx)), ("R", 0), ("T", 0), ("filter", ["abs", 1]), ("areas", "none"), ("units", "degrees"),
                 ("transpose", False), ("schunks", None), ("lat_flip", False), ("names", ["time", "lat", "lon"]), ("defaults", False)):
        if sc.get(k) != v:
            yield with_(sc, **{k: v})
    # blank whole objects, then single cells
    b = gen.unpack(sc["field"], (ny, nx))
    if not sc.get("wide"):
        for t in range(nt):
            lab, n = ref.label2d(b[t], not sc["regional"])
            if n > 1 or (n == 1 and nt > 2):
                for i in range(1, n + 1):
                    c = b.copy()
                    c[t][lab == i] = False
                    if c.any():
                        yield with_(sc, field=gen.pack(c))


def with_mergers(r, p=0.7):
    """Draw again (a few times) until the reference history has a merger, usually."""
    need = r.random() < 0.75
    for _ in range(8):
        sc = gen.long(r) if r.random() < 0.07 else gen.merging(r, p)
        if not need:
            break
        want, drop = models(sc)
        if want.empty or drop.n_post == 0:
            continue
        try:
            if ref.track_merging(drop.binary, sc["overlap"], sc["nn"], sc["regional"])[1]:
                break
        except ref.Tie:
            continue
    return sc


class Gridded(Check):
    merging = None

    def scenario(self, r, tier):
        sc = gen.wide(r) if r.random() < 0.04 else with_mergers(r, 0.55)
        sc["sim"] = sim_conf(r)
        return sc

    def shrinks(self, sc):
        return shrink_gridded(sc)

    def prepare(self, sc):
        want, drop = models(sc)
        if want.empty or drop.n_post == 0:
            return None, None, skip("no object survives preprocessing")
        return want, drop, None


class Preprocess(Gridded):
    """C01"""

    rule = ("random moving, converging and noisy fields on global/regional grids of 6x8..14x20 cells and 3..12 steps, masks, fill radii 0..2, "
            "gaps 0..4, absolute/percentile filters, any time chunking; the cleaned field and its statistics equal the sequential model's; "
            "non-trivial: filling or filtering changed the field")

    def scenario(self, r, tier):
        sc = gen.gridded(r)
        if r.random() < 0.25:
            sc["R"], sc["T"] = r.choice([2, 3]), r.choice([2, 4, 6])
        sc["float_R"] = r.random() < 0.1
        sc["sim"] = sim_conf(r)
        return sc

    def run(self, sc, ctx):
        from .. import env

        b, mask, *_ = gen.gridded_arrays(sc)
        want, drop = models(sc)
        sim = ctx.sim("run", sc["sim"])
        try:
            with env.simulation(sim, ctx.dir("root")), contextlib.redirect_stdout(io.StringIO()):
                da, m, kw = gen.gridded_inputs(sc)
                if sc.get("float_R"):
                    kw["R_fill"] = float(kw["R_fill"])
                tr = make_tracker(sc, da, m, kw)
                out, stats = tr.run_preprocess()
                T, Y, X = sc.get("names", ["time", "lat", "lon"])
                got = out.transpose(T, Y, X).compute()
                stats = [float(np.asarray(x)) for x in stats]
                dt = out.dtype
                vals = got.values
        except Exception as e:
            if want.empty or drop.n_post == 0:
                return ok(nontrivial=False, empty_rejected=True)
            raise e
        if want.empty:
            return bad("a field without any object did not fail and produced a result") if vals.any() else ok(nontrivial=False)
        if dt != np.bool_:
            return bad(f"preprocessed field has type {dt}")
        res = None
        if np.array_equal(vals, want.binary):
            p = want
        elif np.array_equal(vals, drop.binary):
            p = drop
            res = known("first-object-dropped", "the first object found in time is removed whatever its size")
        else:
            d = np.argwhere(vals != want.binary)
            t, y, x = (int(v) for v in d[0])
            return bad(f"cleaned field differs from the model in {len(d)} cells, first at step {t} row {y} column {x}: "
                       f"got {bool(vals[t, y, x])}, expected {bool(want.binary[t, y, x])}")
        msg = self.stats(stats, p, want, b, sc)
        if msg:
            return bad(msg)
        if not np.array_equal(got[T].values, gen.gridded_arrays(sc)[4].values):
            return bad("time axis changed")
        nt = (p.binary != b).any()
        if res is not None:
            res.nontrivial, res.sig = bool(nt), str(hash_of(sc))
            return res
        return ok(nontrivial=bool(nt), sig=str(hash_of(sc)))

    @staticmethod
    def stats(st, p, want, b, sc):
        total, n_pre, n_post, thr, acc, frac = st
        a = want.areas.astype(float)
        exp = dict(total=a.sum(), n_pre=want.n_pre, thr=want.threshold, frac=p.raw_fraction)
        got = dict(total=total, n_pre=n_pre, thr=thr, frac=frac)
        for k in exp:
            if not np.isclose(got[k], exp[k], rtol=1e-5, atol=1e-6):
                return f"preprocessing statistic {k}: got {got[k]}, expected {exp[k]}"
        if n_post not in (want.n_post, p.n_post):
            return f"number of objects kept: got {n_post}, expected {want.n_post}"
        hi = a[a >= want.threshold].sum() / a.sum()
        if not np.isclose(acc, hi, rtol=1e-5):
            return f"accepted area fraction: got {acc}, expected {hi}"
        return None


def hash_of(sc):
    import hashlib
    import json

    return hashlib.blake2b(json.dumps({k: v for k, v in sc.items() if k != "sim"}, sort_keys=True).encode(), digest_size=8).hexdigest()


def pick_binary(ID, want, drop):
    """Which preprocessed field did the tracker work on? (C01 judges it; here either is accepted.)"""
    for p in (want, drop):
        if np.array_equal(ID > 0, p.binary):
            return p
    return None


class Label3D(Gridded):
    """C02"""

    merging = False
    rule = ("random fields as for preprocessing, tracking without merging; event field equals the 26-connected space-time components of the cleaned "
            "field, periodic in longitude (global) or not (regional); non-trivial: two or more events or an event touching the seam")

    def scenario(self, r, tier):
        sc = gen.gridded(r, merging=False)
        if r.random() < 0.5:
            sc["R"], sc["T"], sc["filter"] = 0, 0, ["abs", 1]
        sc["sim"] = sim_conf(r)
        return sc

    def run(self, sc, ctx):
        want, drop, sk = self.prepare(sc)
        if sk:
            return sk
        ds, _ = track(sc, ctx.sim("run", sc["sim"]), ctx.dir("root"))
        ID = idfield(sc, ds)
        p = pick_binary(ID, want, drop)
        if p is None:
            return bad(f"the labelled cells are not the cells of the cleaned field ({int(((ID > 0) != want.binary).sum())} cells differ)")
        E = ref.label3d(p.binary, not sc["regional"])
        if not ref.same_partition(ID, E):
            return bad(f"events are not the connected space-time regions: got {len(np.unique(ID[ID > 0]))} events, expected {len(np.unique(E[E > 0]))}")
        n = len(np.unique(E[E > 0]))
        if ds.attrs.get("N_events_final") != n:
            return bad(f"reported number of events {ds.attrs.get('N_events_final')}, the field holds {n}")
        if ID.min() < 0 or ID.dtype.kind not in "iu":
            return bad("event field holds values that are not event numbers")
        if sorted(np.unique(ID[ID > 0])) != list(range(1, n + 1)):
            return bad("event numbers are not 1..N")
        seam = (p.binary[:, :, 0].any() and p.binary[:, :, -1].any())
        return ok(nontrivial=n > 1 or seam, sig=hash_of(sc), events=n)


class Merging(Gridded):
    """C03"""

    merging = True
    rule = ("random drifting, converging and parting objects, overlap thresholds 0..1, both partition rules, any time chunking, simulated schedules and "
            "worker losses; event field equals the sequential split-and-merge model up to renaming; non-trivial: at least one merger")

    def run(self, sc, ctx):
        want, drop, sk = self.prepare(sc)
        if sk:
            return sk
        ds, mg = track(sc, ctx.sim("run", sc["sim"]), ctx.dir("root"))
        ID = idfield(sc, ds)
        p = pick_binary(ID, want, drop)
        if p is None:
            return bad(f"the labelled cells are not the cells of the cleaned field ({int(((ID > 0) != want.binary).sum())} cells differ)")
        try:
            E, merges, _ = ref.track_merging(p.binary, sc["overlap"], sc["nn"], sc["regional"])
        except ref.Tie:
            return skip("floating-point tie between parent centroids")
        if not ref.same_partition(ID, E):
            t = first_bad_time(ID, E)
            return bad(f"events differ from the sequential split-and-merge model (first at step {t}): got {len(np.unique(ID[ID > 0]))} events, "
                       f"expected {len(np.unique(E[E > 0]))}")
        if len(mg.merge_ID) != len(merges):
            return bad(f"{len(mg.merge_ID)} mergers recorded, the model has {len(merges)}")
        return ok(nontrivial=len(merges) > 0, sig=hash_of(sc), mergers=len(merges))


def first_bad_time(A, B):
    for t in range(len(A)):
        if not ref.same_partition(A[: t + 1], B[: t + 1]):
            return t
    return len(A)


class EventTable(Gridded):
    """C04"""

    merging = True
    rule = ("as for merging; every entry of the event table is recomputed from the returned event field: area, centroid, presence, start, end, "
            "numbering, counts, attributes, coordinates; non-trivial: two or more events")

    def run(self, sc, ctx):
        want, drop, sk = self.prepare(sc)
        if sk:
            return sk
        ds, mg = track(sc, ctx.sim("run", sc["sim"]), ctx.dir("root"))
        b, mask, lat, lon, time = gen.gridded_arrays(sc)
        T, Y, X = sc.get("names", ["time", "lat", "lon"])
        ID = idfield(sc, ds)
        msg = event_table(ds, ID, time, T) or self.geometry(sc, ds, ID, lat, lon, T) or self.attrs(sc, ds, mg, ID, want, drop)
        if msg:
            return bad(msg)
        if not (np.array_equal(ds[Y].values, lat) and np.array_equal(ds[X].values, lon)):
            return bad("coordinates of the result are not the caller's")
        return ok(nontrivial=ID.max() > 1, sig=hash_of(sc), events=int(ID.max()), entries=int(ds.presence.sum()))

    def geometry(self, sc, ds, ID, lat, lon, T):
        ny, nx = sc["shape"]
        ca = gen.cell_areas(sc)
        if sc["areas"] == "res":
            la = np.degrees(lat) if sc["units"] == "radians" else lat
            h = np.radians(2.0)
            row = 6378.0**2 * np.abs(np.sin(np.radians(la) + h / 2) - np.sin(np.radians(la) - h / 2)) * h
            ca = np.repeat(row[:, None], nx, 1)
        if ca is None:
            ca = np.ones((ny, nx))
        ca = ca.astype(np.float64)
        area = ds.area.transpose(T, "ID").values
        cen = ds.centroid.transpose("component", T, "ID").values
        dlon = abs(lon[1] - lon[0])
        full = (2 * np.pi if sc["units"] == "radians" else 360.0)
        for t in range(len(ID)):
            for e in np.unique(ID[t][ID[t] > 0]):
                m = ID[t] == e
                w = ca[m]
                y, x = np.nonzero(m)
                if not np.isclose(area[t, e - 1], w.sum(), rtol=2e-5):
                    return f"area of event {e} at step {t}: got {area[t, e - 1]}, its cells sum to {w.sum()}"
                cy = (y * w).sum() / w.sum()
                clat = np.interp(cy, np.arange(ny), lat)
                glat, glon = cen[0, t, e - 1], cen[1, t, e - 1]
                if not abs(glat - clat) <= 1e-3 * max(1e-2, abs(lat[1] - lat[0])):
                    return f"latitude of the centre of event {e} at step {t}: got {glat}, expected {clat}"
                cands = []
                if sc["regional"]:
                    cands = [(x * w).sum() / w.sum()]
                else:
                    for s in ref.cut_candidates(x, nx)[0]:
                        cands.append((((x - s) % nx + s) * w).sum() / w.sum())
                    if sc.get("wide") and ref.label2d(m, True)[1] > 1:
                        cands.append((x * w).sum() / w.sum())
                good = False
                for c in cands:
                    if sc["regional"]:
                        good |= abs(glon - np.interp(c, np.arange(nx), lon)) <= 2e-3 * dlon
                    else:
                        d = abs((glon - (lon[0] + (c % nx) * dlon)) % full)
                        d = min(d, full - d)
                        good |= d <= 2e-3 * dlon
                if not good:
                    return f"longitude of the centre of event {e} at step {t}: got {glon}, expected {[lon[0] + (c % nx) * dlon for c in cands]}"
        absent = ~ds.presence.transpose(T, "ID").values
        if (~np.isnan(area[absent])).any() or (~np.isnan(cen[:, absent])).any():
            return "area or centre given for an event at a time it does not exist"
        return None

    def attrs(self, sc, ds, mg, ID, want, drop):
        A = ds.attrs
        n = int(ID.max())
        exp = dict(N_events_final=n, allow_merging=1, R_fill=sc["R"], T_fill=sc["T"], overlap_threshold=sc["overlap"],
                   nn_partitioning=int(sc["nn"]), N_objects_prefiltered=want.n_pre, total_merges=len(mg.merge_ID),
                   multi_parent_merges=int((mg.n_parents.values > 2).sum()), source="sim", threshold=95)
        for k, v in exp.items():
            if k not in A or A[k] != v:
                return f"attribute {k}: got {A.get(k)}, expected {v}"
        if A.get("N_objects_filtered") not in (want.n_post, drop.n_post):
            return f"attribute N_objects_filtered: got {A.get('N_objects_filtered')}, expected {want.n_post}"
        if not np.isclose(float(A["area_threshold (cells)"]), want.threshold):
            return f"area threshold attribute {A['area_threshold (cells)']}, expected {want.threshold}"
        return None


def event_table(ds, ID, time, T="time"):
    """Structural consistency of the event table with the event field."""
    n = int(ID.max())
    if n == 0:
        return "no event in the result"
    present = np.unique(ID[ID > 0])
    if list(present) != list(range(1, n + 1)):
        return f"event numbers are not 1..N: {present[:20]}"
    if list(ds.ID.values) != list(range(1, n + 1)):
        return f"event table lists IDs {ds.ID.values[:20]}, the field holds 1..{n}"
    if ds.sizes[T] != len(time) or not np.array_equal(ds[T].values, time.values):
        return "time axis of the result is not the input's"
    pres = ds.presence.transpose(T, "ID").values
    want = np.stack([np.isin(np.arange(1, n + 1), np.unique(ID[t])) for t in range(len(ID))])
    if not np.array_equal(pres, want):
        t, e = (int(v) for v in np.argwhere(pres != want)[0])
        return f"presence of event {e + 1} at step {t} is {bool(pres[t, e])}, the field says {bool(want[t, e])}"
    g = ds.global_ID.transpose(T, "ID").values
    if not np.array_equal(g > 0, want):
        return "object numbers are not given exactly where the event exists"
    if len(np.unique(g[g > 0])) != int((g > 0).sum()):
        return "one object number stands for several events or times"
    first = [time.values[i] for i in want.argmax(0)]
    last = [time.values[len(time) - 1 - i] for i in want[::-1].argmax(0)]
    if not np.array_equal(ds.time_start.values, np.array(first)):
        return f"start times {ds.time_start.values[:5]} differ from the field's {first[:5]}"
    if not np.array_equal(ds.time_end.values, np.array(last)):
        return f"end times {ds.time_end.values[:5]} differ from the field's {last[:5]}"
    return None


class Ledger(Gridded):
    """C05"""

    merging = True
    rule = ("as for merging, fields biased towards mergers of 2..4 objects; every recorded merger (time, parents, children, shared areas) and every row of "
            "the ledger is compared with the model's history mapped through the event field; non-trivial: at least one merger")

    def scenario(self, r, tier):
        sc = with_mergers(r)
        sc["sim"] = sim_conf(r)
        return sc

    def run(self, sc, ctx):
        want, drop, sk = self.prepare(sc)
        if sk:
            return sk
        ds, mg = track(sc, ctx.sim("run", sc["sim"]), ctx.dir("root"))
        *_, time = gen.gridded_arrays(sc)
        T = sc.get("names", ["time"])[0]
        ID = idfield(sc, ds)
        p = pick_binary(ID, want, drop)
        if p is None:
            return skip("cleaned field differs (judged by another property)")
        try:
            E, merges, F = ref.track_merging(p.binary, sc["overlap"], sc["nn"], sc["regional"])
        except ref.Tie:
            return skip("floating-point tie between parent centroids")
        if not ref.same_partition(ID, E):
            return skip("event field differs (judged by another property)")
        msg = ledger(ds, mg, ID, F, merges, time, T)
        if msg:
            return bad(msg)
        return ok(nontrivial=len(merges) > 0, sig=hash_of(sc), mergers=len(merges), multi=sum(len(m["parents"]) > 2 for m in merges))


def ledger(ds, mg, ID, F, merges, time, T):
    ev = {}  # object number in the model -> event number in the result
    for o in np.unique(F[F > 0]):
        t, *pos = (int(v) for v in np.argwhere(F == o)[0])
        ev[int(o)] = int(ID[(t, *pos)])
    n = int(ID.max())
    got = []
    for i in range(len(mg.merge_ID)):
        par = [int(v) for v in mg.parent_IDs.values[i] if v > 0]
        ch = [int(v) for v in mg.child_IDs.values[i] if v > 0]
        ar = [float(v) for v in np.asarray(mg.overlap_areas.values[i])]
        ar = ar[: len(par)]
        tt = int(np.nonzero(time.values == mg.merge_time.values[i])[0][0])
        if int(mg.n_parents.values[i]) != len(par) or int(mg.n_children.values[i]) != len(ch):
            return f"merger {i}: counts of parents/children do not match the lists ({mg.n_parents.values[i]}, {par}; {mg.n_children.values[i]}, {ch})"
        if len(par) < 2:
            return f"merger {i} has fewer than two parents"
        got.append((tt, len(par), len(ch), tuple(sorted(ar))))
    exp = [(m["t"], len(m["parents"]), len(m["children"]), tuple(sorted(float(a) for a in m["areas"]))) for m in merges]
    left = list(exp)
    for g in got:
        hit = next((e for e in left if e[:3] == g[:3] and len(e[3]) == len(g[3]) and np.allclose(e[3], g[3], rtol=1e-4)), None)
        if hit is not None:
            left.remove(hit)
    if left or len(got) != len(exp):
        return f"recorded mergers (step, parents, children, shared cells) {sorted(got)[:6]} differ from the history {sorted(exp)[:6]}"
    # parents must be objects that exist one step before the merger
    g = ds.global_ID.transpose(T, "ID").values
    want_par = sorted((m["t"], tuple(sorted(ev.get(p, 0) for p in m["parents"]))) for m in merges)
    evs = []
    for i in range(len(mg.merge_ID)):
        tt = got[i][0]
        row = []
        for p in (int(v) for v in mg.parent_IDs.values[i] if v > 0):
            hit = np.nonzero(g[tt - 1] == p)[0]
            row.append(int(hit[0]) + 1 if len(hit) else None)
        evs.append((tt, row))
    for tt, row in evs:
        known_ = sorted(e for e in row if e is not None)
        if not any(wt == tt and len(wp) == len(row) and not _missing(known_, wp) for wt, wp in want_par):
            return f"merger at step {tt}: parents {row} are not the events that met there {[w for w in want_par if w[0] == tt]}"
    # ledger rows
    L = ds.merge_ledger.transpose(T, "ID", "sibling_ID").values
    acc = {}
    for m in merges:
        sib = tuple(sorted(e for e in (ev.get(p, 0) for p in m["parents"]) if e > 0))
        for e in set(sib):
            acc.setdefault((m["t"], e), []).append(sib)
    for t in range(L.shape[0]):
        for e in range(1, n + 1):
            row = tuple(sorted(int(v) for v in L[t, e - 1] if v != -1))
            cand = acc.get((t, e))
            if cand is None and row:
                return f"ledger reports event {e} merging with {row} at step {t}, where it does not merge"
            if cand is not None and row not in cand:
                return f"ledger row of event {e} at step {t} is {row}, it merged with {cand}"
    return None


def _missing(a, b):
    b = list(b)
    for x in a:
        if x in b:
            b.remove(x)
        else:
            return True
    return False


def diff_dataset(a, b, exact=False):
    """First difference between two loaded datasets, or None."""
    if set(a.data_vars) != set(b.data_vars):
        return f"variables differ: {sorted(set(a.data_vars) ^ set(b.data_vars))}"
    if dict(a.sizes) != dict(b.sizes):
        return f"sizes differ: {dict(a.sizes)} / {dict(b.sizes)}"
    for v in list(a.data_vars) + [c for c in a.coords if c in b.coords]:
        x, y = a[v], b[v]
        if set(x.dims) != set(y.dims):
            return f"{v}: dimensions {x.dims} / {y.dims}"
        if x.dtype != y.dtype:
            return f"{v}: type {x.dtype} / {y.dtype}"
        y = y.transpose(*x.dims)
        xv, yv = x.values, y.values
        if xv.dtype.kind == "f":
            same = np.allclose(xv, yv, rtol=0 if exact else 1e-5, atol=0 if exact else 1e-5, equal_nan=True)
        else:
            same = np.array_equal(xv, yv)
        if not same:
            return f"{v} differs"
    ka = {k: v for k, v in a.attrs.items()}
    kb = {k: v for k, v in b.attrs.items()}
    if set(ka) != set(kb):
        return f"attributes differ: {sorted(set(ka) ^ set(kb))}"
    for k in ka:
        if isinstance(ka[k], float):
            if not np.isclose(ka[k], kb[k], rtol=1e-6, equal_nan=True):
                return f"attribute {k}: {ka[k]} / {kb[k]}"
        elif np.any(ka[k] != kb[k]):
            return f"attribute {k}: {ka[k]} / {kb[k]}"
    return None


class Layout(Gridded):
    """C06: same answer whatever the chunking, the schedule and the workers lost."""

    rule = ("each field is tracked twice: once in one chunk on one worker in graph order without faults, once in a random chunk layout under a random "
            "schedule with worker losses, repeated tasks and lazily computed results; everything returned (events, tables, mergers, attributes) must be "
            "equal; non-trivial: layouts differ and an event spans a chunk boundary")

    def scenario(self, r, tier):
        u = r.random()
        sc = with_mergers(r) if u < 0.6 else gen.gridded(r)
        if len(sc["tchunks"]) == 1:
            sc["tchunks"] = gen.chunks_of(r, len(sc["field"]), r.choice(["unit", "ragged", "even"]))
        if r.random() < 0.3:
            sc["schunks"] = [r.randint(2, sc["shape"][0]), r.randint(2, sc["shape"][1])]
        sc["sim"] = sim_conf(r, p_faults=0.9)
        return sc

    def run(self, sc, ctx):
        want, drop, sk = self.prepare(sc)
        if sk:
            return sk
        a, ma = track(with_(sc, schunks=None, tchunks=[len(sc["field"])]), ctx.sim("plain", PLAIN), ctx.dir("a"))
        b, mb = track(sc, ctx.sim("run", sc["sim"]), ctx.dir("b"))
        T = sc.get("names", ["time"])[0]
        d = diff_dataset(a, b)
        if d is None and ma is not None:
            d = diff_dataset(ma, mb)
            d = d and "mergers: " + d
        if d:
            return bad(f"result depends on chunking {sc['tchunks']} or schedule: {d}")
        ID = idfield(sc, b)
        cuts = np.cumsum(sc["tchunks"])[:-1]
        span = any(np.intersect1d(ID[c - 1][ID[c - 1] > 0], ID[c][ID[c] > 0]).size for c in cuts)
        return ok(nontrivial=bool(span), sig=hash_of(sc), mergers=0 if mb is None else len(mb.merge_ID))
