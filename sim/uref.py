"""Reference model of tracking on unstructured (triangular) meshes.

`track` follows the published algorithm one task at a time: the field is fixed
during a pass, every time chunk is processed in isolation, then all changes are
applied.  With one chunk this is the plain sequential algorithm; with several
it shows what the passes do at chunk boundaries."""

import numpy as np
from scipy.sparse import csr_matrix
from scipy.sparse.csgraph import connected_components

from .ref import Pre, Tie, close_time, relabel  # noqa: F401

MAX_MERGES, MAX_PARENTS = 20, 10


class Limit(Exception):
    """More simultaneous mergers or parents than the tracker supports."""


def spread(a, nb, R):
    """R steps of dilation over cell edges; a: (nt, nc)."""
    a = a.copy()
    for _ in range(R):
        g = a.copy()
        for i in range(3):
            ok = nb[i] >= 0
            g[:, ok] |= a[:, nb[i][ok]]
        a = g
    return a


def open_close(b, mask, nb, R):
    a = spread(b, nb, R)
    a[:, ~mask] = True
    a = ~spread(~a, nb, R)
    a[:, ~mask] = True
    a = ~spread(~a, nb, R)
    return spread(a, nb, R)


def components(row, nb):
    """Connected cells of one step, numbered by first cell; 0 = none."""
    on = np.nonzero(row)[0]
    out = np.zeros(len(row), np.int64)
    if not len(on):
        return out, 0
    pos = np.full(len(row), -1)
    pos[on] = np.arange(len(on))
    r, c = [], []
    for i in range(3):
        n = nb[i][on]
        ok = (n >= 0) & row[n]
        r.append(pos[on[ok]])
        c.append(pos[n[ok]])
    r, c = np.concatenate(r), np.concatenate(c)
    k, lab = connected_components(csr_matrix((np.ones(len(r)), (r, c)), shape=(len(on), len(on))), directed=False)
    out[on] = lab + 1
    return out, k


def preprocess(b, mask, nb, R, T, filt):
    a = open_close(b, mask, nb, R)
    if T:
        a = close_time(a, T)
        a = open_close(a, mask, nb, R // 2)
    a = a & mask
    p = Pre()
    labs, sizes = [], []
    for t in range(len(a)):
        lab, k = components(a[t], nb)
        labs.append(lab)
        sizes.append(np.bincount(lab, minlength=k + 1)[1:])
    every = np.concatenate(sizes)
    big = every[every > (5 if filt[0] == "abs" else 50)]
    p.n_pre = len(big)
    p.empty = p.n_pre == 0
    if p.empty:
        return p
    thr = float(filt[1]) if filt[0] == "abs" else float(np.percentile(big, filt[1] * 100))
    p.threshold, p.areas = thr, every
    p.n_post = int((big >= thr).sum())
    p.binary = np.stack([np.isin(labs[t], np.nonzero(sizes[t] >= thr)[0] + 1) for t in range(len(a))])
    p.filled = a
    return p


def sphere_mean(m, area, lat, lon):
    w = area[m].astype(np.float64)
    la, lo = np.radians(lat[m]), np.radians(lon[m])
    v = np.array([(w * np.cos(la) * np.cos(lo)).sum(), (w * np.cos(la) * np.sin(lo)).sum(), (w * np.sin(la)).sum()])
    n = np.sqrt((v * v).sum())
    if n < 1e-4 * w.sum():
        return None
    v = v / n
    return np.degrees(np.arcsin(np.clip(v[2], -1, 1))), np.degrees(np.arctan2(v[1], v[0]))


def closest(cells, cents, lat, lon):
    if any(c is None for c in cents):
        raise Tie()
    la, lo = np.radians(lat[cells])[:, None], np.radians(lon[cells])[:, None]
    pa, po = np.radians([c[0] for c in cents])[None], np.radians([c[1] for c in cents])[None]
    a = np.sin((pa - la) / 2) ** 2 + np.cos(la) * np.cos(pa) * np.sin((po - lo) / 2) ** 2
    d = 2 * np.arctan2(np.sqrt(a), np.sqrt(1 - a))
    s = np.sort(d, 1)
    if len(cents) > 1 and (s[:, 1] - s[:, 0] < 1e-5).any():
        raise Tie()
    return d.argmin(1)


def spread_from(child, parents, cents, nb, lat, lon, reach):
    """Which parent reaches each child cell first over cell edges."""
    own = np.full(len(child), -1)
    for i, m in enumerate(parents):
        own[m] = i
    step = 0
    while step < reach and (child & (own < 0)).any():
        step += 1
        moved = False
        for i in range(len(parents)):
            for k in range(3):
                n = nb[k][own == i]
                n = n[n >= 0]
                n = n[own[n] < 0]
                own[n] = i
                moved |= bool(child[n].any())
        if not moved:
            break
    left = np.nonzero(child & (own < 0))[0]
    if len(left):
        own[left] = closest(left, cents, lat, lon)
    return own[child]


class Mesh:
    def __init__(self, nb, lat, lon, area, thr, nn):
        self.nb, self.lat, self.lon, self.area = nb, lat.astype(np.float32), lon.astype(np.float32), area.astype(np.float32)
        self.thr, self.nn = thr, nn
        self.mean = float(area.mean())
        self.exact = bool((area == 1).all())

    def size(self, m):
        return float(self.area[m].astype(np.float64).sum())

    def enough(self, shared, a0, a1):
        f = shared / min(a0, a1)
        if not self.exact and self.thr > 0 and abs(f - self.thr) < 1e-5:
            raise Tie()
        return f >= self.thr

    def overlaps(self, a, b):
        both = (a > 0) & (b > 0)
        out = []
        if not both.any():
            return out
        for p, c in np.unique(np.stack([a[both], b[both]], 1), axis=0):
            mp, mc = a == p, b == c
            s = self.size(mp & mc)
            if self.enough(s, self.size(mp), self.size(mc)):
                out.append((int(p), int(c), s))
        return out

    def chunk(self, F, s, e, lists, starts):
        """One task: steps s..e-1 of the field F (not modified)."""
        nt = len(F)
        zero = np.zeros(F.shape[1], F.dtype)
        D = {t: (F[t].copy() if 0 <= t < nt else zero.copy()) for t in range(s - 1, e + 1)}
        lists = {t: list(lists.get(t, [])) for t in range(s, e)}
        merges, later = [], []
        for t in range(s, e):
            nxt = starts[t]
            count = 0
            while lists[t]:
                c = lists[t].pop(0)
                cm = D[t] == c
                prev = D[t - 1]
                ps, ov = [], []
                for p in np.unique(prev[cm]):
                    if p <= 0:
                        continue
                    if len(ps) >= MAX_PARENTS:
                        raise Limit()
                    pm = prev == p
                    o = self.size(pm & cm)
                    if self.enough(o, self.size(pm), self.size(cm)):
                        ps.append(int(p))
                        ov.append(o)
                if len(ps) < 2:
                    continue
                ids = [int(c)] + list(range(nxt, nxt + len(ps) - 1))
                nxt += len(ps) - 1
                count += 1
                if count > MAX_MERGES:
                    raise Limit()
                masks = [prev == p for p in ps]
                cents = [sphere_mean(m, self.area, self.lat, self.lon) for m in masks]
                if self.nn:
                    reach = max(int(np.sqrt(max(self.size(m) for m in masks) / self.mean) * 2.0), 20) * 2
                    who = spread_from(cm, masks, cents, self.nb, self.lat, self.lon, reach)
                else:
                    who = closest(np.nonzero(cm)[0], cents, self.lat, self.lon)
                D[t][cm] = np.array(ids)[who]
                merges.append(dict(t=t, parents=ps, children=ids, areas=ov))
                found = []
                for i in ids:
                    pm = D[t] == i
                    if not pm.any():
                        continue
                    for k in np.unique(D[t + 1][pm]):
                        if k > 0:
                            km = D[t + 1] == k
                            if self.enough(self.size(pm & km), self.size(pm), self.size(km)):
                                found.append(int(k))
                tgt = lists[t + 1] if t < e - 1 else later
                for k in found:
                    if k not in tgt:
                        tgt.append(k)
        if len(later) > MAX_MERGES:
            raise Limit()
        return {t: D[t] for t in range(s, e)}, merges, later


def track(binary, mesh, csize, order="set", max_iteration=40):
    """(event field, merges, object field)."""
    nt = len(binary)
    F = np.zeros(binary.shape, np.int64)
    k = 0
    for t in range(nt):
        lab, n = components(binary[t], mesh.nb)
        F[t] = np.where(lab > 0, lab + k, 0)
        k += n
    counter = k + 1
    pairs = []
    for t in range(nt - 1):
        pairs += mesh.overlaps(F[t], F[t + 1])
    kids, cnt = np.unique(np.array([c for _, c, _ in pairs], dtype=np.int64), return_counts=True)
    todo = set(np.int32(c) for c in kids[cnt > 1])
    done, out = set(), []
    it = 0
    while todo and it < max_iteration:
        when = {}
        for b in todo:
            t = np.nonzero((F == b).any(1))[0]
            if len(t):
                when[int(b)] = int(t[0])
        seq = list(todo) if order == "set" else sorted(todo, reverse=order == "down")
        lists = {}
        for b in seq:
            if int(b) in when:
                lists.setdefault(when[int(b)], []).append(int(b))
        starts = {t: t * MAX_MERGES * MAX_PARENTS + counter for t in range(nt)}
        new, merges, later = F.copy(), [], []
        for s in range(0, nt, csize):
            e = min(nt, s + csize)
            D, m, l = mesh.chunk(F, s, e, lists, starts)
            for t in D:
                new[t] = D[t]
            merges += m
            later += l
        temps = sorted({i for m in merges for i in m["children"] if i >= counter})
        look = {t: counter + i for i, t in enumerate(temps)}
        counter += len(temps)
        for t, i in look.items():
            new[new == t] = -i
        F = np.abs(new)
        for m in merges:
            m["children"] = [look.get(i, i) for i in m["children"]]
            m["parents"] = [look.get(i, i) for i in m["parents"]]
        out += merges
        nx = set()
        nx.update([np.int32(look.get(i, i)) for i in later])
        todo = nx - done
        done.update(nx)
        it += 1
    if it == max_iteration:
        raise Limit()
    edges = []
    for t in range(nt - 1):
        edges += [(p, c) for p, c, _ in mesh.overlaps(F[t], F[t + 1])]
    return relabel(F, edges), out, F
