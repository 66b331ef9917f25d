"""Tracking on unstructured (triangular) meshes."""

import contextlib
import io

import numpy as np

from .. import gen, ref, uref
from .base import PLAIN, Check, bad, known, ok, sim_conf, skip, with_
from .gridded import event_table, first_bad_time, hash_of, ledger, simplify_sim


def umodel(sc):
    b, mask, nb, lat, lon, area, time = gen.unstructured_arrays(sc)
    return uref.preprocess(b, mask, nb - 1, sc["R"], sc["T"], sc["filter"])


def umesh(sc):
    b, mask, nb, lat, lon, area, time = gen.unstructured_arrays(sc)
    return uref.Mesh(nb - 1, lat, lon, area, sc["overlap"], sc["nn"])


def utrack(sc, sim, root, tchunks=None, hook=None):
    import marEx

    from .. import env

    with env.simulation(sim, root), contextlib.redirect_stdout(io.StringIO()):
        da, m, kw = gen.unstructured_inputs(sc, root + "/scratch", tchunks)
        tr = marEx.tracker(da, m, **kw)
        ds, mg = tr.run(return_merges=True)
        if hook:
            hook(ds, mg)
        return ds.compute(), mg.compute()


def uconf(r, **kw):
    return sim_conf(r, preempt=True, **kw)


def udraw(r, need):
    """Draw until the history has a merger (usually)."""
    for _ in range(8):
        sc = gen.unstructured(r)
        p = umodel(sc)
        if p.empty or not p.binary.any():
            continue
        if not need:
            break
        try:
            if uref.track(p.binary, umesh(sc), len(p.binary))[1]:
                break
        except (uref.Limit, ref.Tie):
            continue
    return sc


class Mesh(Check):
    need = 0.75

    def scenario(self, r, tier):
        sc = udraw(r, r.random() < self.need)
        sc["sim"] = uconf(r)
        return sc

    def shrinks(self, sc):
        yield from simplify_sim(sc)
        nt = len(sc["field"])
        nc = len(sc["mask"])
        if sc["tchunks"] != [nt]:
            yield with_(sc, tchunks=[nt])
        c = sc["tchunks"][0]
        for a, z in ((nt // 2, nt), (0, nt - nt // 2), (1, nt), (0, nt - 1)):
            n = z - a
            if n >= 2 and (a, z) != (0, nt):
                yield with_(sc, field=sc["field"][a:z], tchunks=[min(c, n)] * (n // min(c, n)) + ([n % min(c, n)] if n % min(c, n) else []))
        for k, v in (("mask", "#" * nc), ("R", 0), ("T", 0), ("filter", ["abs", 1]), ("areas", "unit"), ("units", "degrees"), ("lon0", False), ("scale", 1), ("unames", None)):
            if sc.get(k, v) != v:
                yield with_(sc, **{k: v})
        b = gen.unpack(sc["field"], (nc,))
        nb = gen.unstructured_arrays(sc)[2] - 1
        for t in range(nt):
            lab, n = uref.components(b[t], nb)
            if n > 1:
                for i in range(1, n + 1):
                    c2 = b.copy()
                    c2[t][lab == i] = False
                    yield with_(sc, field=gen.pack(c2))


class MeshPreprocess(Mesh):
    rule = ("random fields on periodic triangular meshes of 80..224 cells (a tenth: up to 640 with the percentile filter) and 3..8 steps, masks, fill "
            "radii 0..2, gaps 0..4; the cleaned field and its statistics equal the sequential model's; non-trivial: the field changed")

    def scenario(self, r, tier):
        sc = gen.unstructured(r)
        sc["T"] = r.choice([0, 0, 2, 2, 4])
        if r.random() < 0.15:
            sc["R"] = 3
        if r.random() < 0.15:
            sc = gen.unstructured(r, big=True)
            sc["filter"] = ["q", r.choice([0.0, 0.25, 0.5, 0.8])]
        else:
            sc["filter"] = ["abs", r.choice([1, 4, 6, 8, 12])]
        sc["sim"] = uconf(r)
        return sc

    def run(self, sc, ctx):
        import marEx

        from .. import env

        b = gen.unstructured_arrays(sc)[0]
        want = umodel(sc)
        sim, root = ctx.sim("run", sc["sim"]), ctx.dir("root")
        try:
            with env.simulation(sim, root), contextlib.redirect_stdout(io.StringIO()):
                da, m, kw = gen.unstructured_inputs(sc, root + "/scratch")
                out, st = marEx.tracker(da, m, **kw).run_preprocess()
                got = out.transpose(*gen.unames(sc)[:2]).compute().values
                st = [float(np.asarray(x)) for x in st]
        except Exception:
            if want.empty or not want.binary.any():
                return ok(nontrivial=False)
            raise
        if want.empty:
            return bad("a field without any object did not fail") if got.any() else ok(nontrivial=False)
        if not np.array_equal(got, want.binary):
            d = np.argwhere(got != want.binary)
            t, c = (int(v) for v in d[0])
            return bad(f"cleaned field differs from the model in {len(d)} cells, first at step {t} cell {c}: got {bool(got[t, c])}")
        a = want.areas.astype(float)
        area = gen.unstructured_arrays(sc)[5]
        exp = dict(total=a.sum(), n_pre=want.n_pre, n_post=want.n_post, thr=want.threshold)
        g = dict(total=st[0], n_pre=st[1], n_post=st[2], thr=st[3])
        for k in exp:
            if not np.isclose(g[k], exp[k], rtol=1e-5):
                return bad(f"preprocessing statistic {k}: got {g[k]}, expected {exp[k]}")
        hi = a[a >= want.threshold].sum() / a.sum()
        if not np.isclose(st[4], hi, rtol=1e-5):
            return bad(f"accepted area fraction: got {st[4]}, expected {hi}")
        pa, ra = (want.binary * area).sum(), (b * area).sum()
        if pa > 0 and not np.isclose(st[5], ra / pa, rtol=1e-4):
            return bad(f"preprocessed area fraction: got {st[5]}, expected {ra / pa}")
        return ok(nontrivial=bool((want.binary != b).any()), sig=hash_of(sc))


CHUNK_KEY = "mesh-chunk-boundary-merging"


class MeshTracking(Mesh):
    rule = ("random drifting, converging and parting objects on triangular meshes, overlap thresholds 0..0.75, both partition rules, every even time "
            "chunking, schedules in which the tasks' disk operations interleave, worker losses between and during tasks; event field and mergers equal "
            "the sequential split-and-merge model; non-trivial: at least one merger")

    def run(self, sc, ctx):
        p = umodel(sc)
        if p.empty or not p.binary.any():
            return skip("no object survives preprocessing")
        nt = len(p.binary)
        M = umesh(sc)
        try:
            ms = {o: [uref.track(p.binary, M, c, o) for c in dict.fromkeys((nt, sc["tchunks"][0]))] for o in ("set", "up", "down")}
        except ref.Tie:
            return skip("floating-point tie")
        except uref.Limit:
            return skip("more mergers than supported at once")
        ds, mg = utrack(sc, ctx.sim("run", sc["sim"]), ctx.dir("root"))
        ID = ds.ID_field.transpose(*gen.unames(sc)[:2]).values
        if not np.array_equal(ID > 0, p.binary):
            return bad(f"the labelled cells are not the cells of the cleaned field ({int(((ID > 0) != p.binary).sum())} differ)")
        merges = ms["set"][0][1]
        info = dict(nontrivial=len(merges) > 0, sig=hash_of(sc), mergers=len(merges))
        for o in ms:
            E, merges, _ = ms[o][0]
            if ref.same_partition(ID, E) and len(mg.merge_ID) == len(merges):
                return ok(**info)
        for o in ms:
            if len(ms[o]) > 1 and ref.same_partition(ID, ms[o][1][0]) and len(mg.merge_ID) == len(ms[o][1][1]):
                k = known(CHUNK_KEY, "objects near a chunk boundary are divided before the mergers of the preceding chunk are resolved")
                k.sig, k.nontrivial = hash_of(sc), True
                return k
        E, merges, _ = ms["set"][0]
        if ref.same_partition(ID, E):
            return bad(f"{len(mg.merge_ID)} mergers recorded, the model has {len(merges)}")
        return bad(f"events differ from the sequential split-and-merge model (first at step {first_bad_time(ID, E)}): got {len(np.unique(ID[ID > 0]))} "
                   f"events, expected {len(np.unique(E[E > 0]))}")


class MeshTable(Mesh):
    rule = ("as for mesh tracking; area, centre, presence, start, end, numbering and attributes recomputed from the returned event field, mergers and the "
            "ledger compared with the model's history; non-trivial: two or more events")

    def run(self, sc, ctx):
        p = umodel(sc)
        if p.empty or not p.binary.any():
            return skip("no object survives preprocessing")
        M = umesh(sc)
        try:
            models = [uref.track(p.binary, M, sc["tchunks"][0], o) for o in ("set", "up", "down")]
        except ref.Tie:
            return skip("floating-point tie")
        except uref.Limit:
            return skip("more mergers than supported at once")
        b, mask, nb, lat, lon, area, time = gen.unstructured_arrays(sc)
        ds, mg = utrack(sc, ctx.sim("run", sc["sim"]), ctx.dir("root"))
        ID = ds.ID_field.transpose(*gen.unames(sc)[:2]).values
        T, X, LON, LAT = gen.unames(sc)
        rad = 180 / np.pi if sc["units"] == "radians" else 1
        msg = event_table(ds, ID, time, T) or self.geometry(ds, ID, lat, lon, area, T, rad) or self.attrs(sc, ds, mg, ID, p)
        if msg:
            return bad(msg)
        if not (np.array_equal(ds[LAT].values, lat if rad == 1 else np.radians(lat)) and np.array_equal(ds[LON].values, lon if rad == 1 else np.radians(lon))):
            return bad("coordinates of the result are not the caller's")
        tried = []
        for E, merges, F in models:
            if ref.same_partition(ID, E):
                m = ledger(ds, mg, ID, F, merges, time, T)
                if m is None:
                    tried = []
                    break
                tried.append(m)
        if tried:
            return bad(tried[0])
        return ok(nontrivial=ID.max() > 1, sig=hash_of(sc), events=int(ID.max()), mergers=len(mg.merge_ID))

    def geometry(self, ds, ID, lat, lon, area, T, rad):
        A = ds.area.transpose(T, "ID").values
        C = ds.centroid.transpose("component", T, "ID").values * rad
        for t in range(len(ID)):
            for e in np.unique(ID[t][ID[t] > 0]):
                m = ID[t] == e
                w = area[m].astype(float).sum()
                if not np.isclose(A[t, e - 1], w, rtol=2e-5):
                    return f"area of event {e} at step {t}: got {A[t, e - 1]}, its cells sum to {w}"
                c = uref.sphere_mean(m, area, lat, lon)
                if c is None:
                    continue
                g = C[0, t, e - 1], C[1, t, e - 1]
                lo = 0 if lon.min() >= 0 and lon.max() > 180 else -180
                if not lo - 0.01 <= g[1] <= lo + 360.01:
                    return f"longitude {g[1]} of event {e} at step {t} is not in the range of the caller's coordinates"
                dl = abs(g[1] - c[1]) % 360
                dl = min(dl, 360 - dl) * np.cos(np.radians(c[0]))
                if not (abs(g[0] - c[0]) < 0.02 and dl < 0.02):
                    return f"centre of event {e} at step {t}: got {g}, expected {c}"
        absent = ~ds.presence.transpose(T, "ID").values
        if (~np.isnan(A[absent])).any() or (~np.isnan(C[:, absent])).any():
            return "area or centre given for an event at a time it does not exist"
        return None

    def attrs(self, sc, ds, mg, ID, p):
        A = ds.attrs
        exp = dict(N_events_final=int(ID.max()), allow_merging=1, R_fill=sc["R"], T_fill=sc["T"], overlap_threshold=sc["overlap"],
                   nn_partitioning=int(sc["nn"]), N_objects_prefiltered=p.n_pre, N_objects_filtered=p.n_post, total_merges=len(mg.merge_ID),
                   multi_parent_merges=int((mg.n_parents.values > 2).sum()), source="sim")
        for k, v in exp.items():
            if k not in A or A[k] != v:
                return f"attribute {k}: got {A.get(k)}, expected {v}"
        return None
