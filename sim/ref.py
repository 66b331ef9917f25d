"""Executable reference models: small, sequential, chunk-free numpy versions of
what the tracker is documented to compute.  No dask, no marEx import."""

import numpy as np
from scipy import ndimage as ndi
from scipy.sparse import csr_matrix
from scipy.sparse.csgraph import connected_components


# --------------------------------------------------------- gridded morphology
def disk(R):
    y, x = np.ogrid[-R : R + 1, -R : R + 1]
    return x * x + y * y < R * R + 1


def open_close(b, R, regional):
    """Closing then opening with a disk, on the field continued periodically in
    x (global) or by its edge values (regional, and always in y)."""
    if R == 0:
        return b.copy()
    p = 4 * R + 1
    se = disk(R)
    out = np.zeros_like(b)
    for t in range(len(b)):
        a = np.pad(b[t], ((p, p), (0, 0)), mode="edge")
        a = np.pad(a, ((0, 0), (p, p)), mode="edge" if regional else "wrap")
        a = ndi.binary_erosion(ndi.binary_dilation(a, se), se, border_value=1)
        a = ndi.binary_dilation(ndi.binary_erosion(a, se, border_value=1), se)
        out[t] = a[p:-p, p:-p]
    return out


def close_time(b, T):
    """A cell is filled iff it lies in a run of <= T empty steps bounded on both sides."""
    if T == 0:
        return b.copy()
    out = b.copy()
    nt = len(b)
    flat = b.reshape(nt, -1)
    o = out.reshape(nt, -1)
    for c in np.nonzero(flat.any(0))[0]:
        on = np.nonzero(flat[:, c])[0]
        for a, z in zip(on[:-1], on[1:]):
            if z - a - 1 <= T:
                o[a:z, c] = True
    return out


def label2d(a, wrap):
    """8-connected components, raster order of first cell; x periodic if wrap."""
    ny, nx = a.shape
    lab, n = ndi.label(a, np.ones((3, 3)))
    if wrap and n:
        par = list(range(n + 1))

        def find(i):
            while par[i] != i:
                i = par[i]
            return i

        for y in range(ny):
            for d in (-1, 0, 1):
                if 0 <= y + d < ny and lab[y, nx - 1] and lab[y + d, 0]:
                    i, j = find(lab[y, nx - 1]), find(lab[y + d, 0])
                    if i != j:
                        par[max(i, j)] = min(i, j)
        roots = np.array([find(i) for i in range(n + 1)])
        lab = roots[lab]
    # renumber in raster order
    out = np.zeros_like(lab)
    k = 0
    seen = {}
    for v in lab[lab > 0]:
        if v not in seen:
            k += 1
            seen[v] = k
    for v, i in seen.items():
        out[lab == v] = i
    return out, k


def label3d(b, wrap):
    """26-connected space-time components."""
    lab, n = ndi.label(b, np.ones((3, 3, 3)))
    nt, ny, nx = b.shape
    if wrap and n:
        rows, cols = [], []
        L, Rr = lab[:, :, 0], lab[:, :, -1]
        for dt in (-1, 0, 1):
            for dy in (-1, 0, 1):
                for t in range(nt):
                    for y in range(ny):
                        if 0 <= t + dt < nt and 0 <= y + dy < ny and Rr[t, y] and L[t + dt, y + dy]:
                            rows.append(Rr[t, y])
                            cols.append(L[t + dt, y + dy])
        g = csr_matrix((np.ones(len(rows)), (rows, cols)), shape=(n + 1, n + 1))
        _, comp = connected_components(g, directed=False)
        lab = np.where(lab > 0, comp[lab] + 1, 0)
    return lab


class Pre:
    """Result of reference preprocessing."""


def preprocess_gridded(b, mask, R, T, filt, regional, drop_first=False):
    a = open_close(b, R, regional) & mask
    if T:
        a = close_time(a, T)
        a = open_close(a, R // 2, regional) & mask
    labs, areas = [], []
    for t in range(len(a)):
        lab, n = label2d(a[t], not regional)
        labs.append(lab)
        areas.append(np.bincount(lab.ravel(), minlength=n + 1)[1:])
    allareas = np.concatenate(areas) if areas else np.array([])
    p = Pre()
    p.filled = a
    p.n_pre = len(allareas)
    if p.n_pre == 0:
        p.empty = True
        return p
    p.empty = False
    thr = float(filt[1]) if filt[0] == "abs" else float(np.percentile(allareas, filt[1] * 100.0))
    p.threshold = thr
    keep = allareas >= thr
    if drop_first:
        keep[0] = False
    p.n_post = int(keep.sum())
    out = np.zeros_like(a)
    k = 0
    for t in range(len(a)):
        n = len(areas[t])
        ids = np.nonzero(keep[k : k + n])[0] + 1
        out[t] = np.isin(labs[t], ids)
        k += n
    p.binary = out
    p.areas = allareas
    p.accepted = float(allareas[allareas > thr].sum()) / float(allareas.sum())
    ps = out.sum()
    p.raw_fraction = float(b.sum()) / float(ps) if ps else float("inf")
    return p


# ------------------------------------------------------------- merge tracking
def pix_centroid(m, regional):
    """Pixel centroid (y, x); x on the periodic axis unwrapped at the widest empty gap."""
    y, x = np.nonzero(m)
    nx = m.shape[1]
    cy = y.mean()
    if regional:
        return cy, x.mean()
    return cy, unwrap_mean(x, np.ones(len(x)), nx)


def cut_candidates(x, nx):
    """Columns at which the periodic axis may be cut: middles of the widest empty gaps."""
    cols = np.unique(x)
    gaps = [(int((cols[(i + 1) % len(cols)] - cols[i]) % nx) or nx, int(cols[(i + 1) % len(cols)])) for i in range(len(cols))]
    w = max(g for g, _ in gaps)
    return [c for g, c in gaps if g == w], w


def unwrap_mean(x, wts, nx):
    starts, _ = cut_candidates(x, nx)
    if len(starts) > 1:
        return None  # several equally wide gaps: the centre is not determined
    s = starts[0]
    xa = (x - s) % nx + s
    c = float((xa * wts).sum() / wts.sum())
    return c % nx


class Props:
    def __init__(self, m, regional):
        self.area = int(m.sum())
        self.cen = pix_centroid(m, regional)


def overlaps(a, b, props, thr):
    """[(parent, child, cells)] sorted, with overlap >= thr * smaller area."""
    both = (a > 0) & (b > 0)
    if not both.any():
        return []
    pairs, n = np.unique(np.stack([a[both], b[both]], 1), axis=0, return_counts=True)
    out = []
    for (p, c), k in zip(pairs, n):
        p, c, k = int(p), int(c), int(k)
        if p not in props or c not in props:
            continue
        if float(k) / min(props[p].area, props[c].area) >= thr:
            out.append((p, c, k))
    return out


def nearest_partition(child, parents, wrap):
    """For each child cell the index of the parent owning the nearest cell (first on ties)."""
    nx = child.shape[1]
    cy, cx = np.nonzero(child)
    best = np.full(len(cy), np.inf)
    who = np.zeros(len(cy), int)
    for i, m in enumerate(parents):
        py, px = np.nonzero(m)
        if len(py) == 0:
            continue
        dx = np.abs(cx[:, None] - px[None, :])
        if wrap:
            dx = np.minimum(dx, nx - dx)
        d = ((cy[:, None] - py[None, :]) ** 2 + dx**2).min(1)
        upd = d < best
        who[upd] = i
        best[upd] = d[upd]
    return who


def centroid_partition(child, cents, wrap):
    nx = child.shape[1]
    cy, cx = np.nonzero(child)
    D = []
    for y, x in cents:
        dx = cx - x
        if wrap:
            dx = np.where(dx > nx / 2, dx - nx, dx)
            dx = np.where(dx < -nx / 2, dx + nx, dx)
        D.append(np.sqrt((cy - y) ** 2 + dx * dx))
    return np.argmin(np.stack(D, 1), 1), np.stack(D, 1)


class Tie(Exception):
    """The model cannot decide (a floating point tie): the scenario is skipped."""


def consolidate(prev, cur, props, thr, regional):
    ov = overlaps(prev, cur, props, thr)
    kids = {}
    for p, c, _ in ov:
        kids.setdefault(p, []).append(c)
    for p in sorted(kids):
        ch = kids[p]
        if len(ch) < 2 or p not in props:
            continue
        first = ch[0]
        if first not in props:
            continue
        for c in ch[1:]:
            if c not in props:
                continue
            cur = np.where(cur == c, first, cur)
            del props[c]
        m = cur == first
        if m.any():
            props[first] = Props(m, regional)
    return cur


def track_merging(binary, thr, nn, regional):
    """Sequential split-and-merge tracking.  Returns (event field, merges, object field)."""
    nt = len(binary)
    F = np.zeros(binary.shape, np.int64)
    props = {}
    k = 0
    for t in range(nt):
        lab, n = label2d(binary[t], not regional)
        F[t] = np.where(lab > 0, lab + k, 0)
        for i in range(1, n + 1):
            props[k + i] = Props(lab == i, regional)
        k += n
    nxt = k + 1
    merges = []
    for t in range(1, nt):
        if t >= 2:
            F[t - 1] = consolidate(F[t - 2], F[t - 1], props, thr, regional)
        cur = F[t].copy()
        ov = overlaps(F[t - 1], cur, props, thr)
        for it in range(10):
            cnt = {}
            for p, c, a in ov:
                cnt.setdefault(c, []).append((p, a))
            todo = sorted(c for c, v in cnt.items() if len(v) > 1)
            if not todo:
                break
            for c in todo:
                ps = [p for p, _ in cnt[c]]
                ids = [c] + list(range(nxt, nxt + len(ps) - 1))
                nxt += len(ps) - 1
                merges.append(dict(t=t, parents=ps, children=ids, areas=[a for _, a in cnt[c]]))
                cm = cur == c
                if nn:
                    who = nearest_partition(cm, [F[t - 1] == p for p in ps], not regional)
                else:
                    if any(props[p].cen[1] is None for p in ps):
                        raise Tie()
                    who, D = centroid_partition(cm, [props[p].cen for p in ps], not regional)
                    s = np.sort(D, 1)
                    if (s[:, 1] - s[:, 0] < 1e-6).any():
                        raise Tie()
                cur[cm] = np.array(ids)[who]
                for i in ids:
                    m = cur == i
                    if m.any():
                        props[i] = Props(m, regional)
                    else:
                        props.pop(i, None)
            ov = overlaps(F[t - 1], cur, props, thr)
        F[t] = cur
    if nt >= 2:
        F[nt - 1] = consolidate(F[nt - 2], F[nt - 1], props, thr, regional)
    edges = []
    for t in range(nt - 1):
        edges += [(p, c) for p, c, _ in overlaps(F[t], F[t + 1], props, thr)]
    return relabel(F, edges), merges, F


def relabel(F, edges):
    ids = np.unique(F[F > 0])
    pos = {int(v): i for i, v in enumerate(ids)}
    r = [pos[a] for a, b in edges if a in pos and b in pos]
    c = [pos[b] for a, b in edges if a in pos and b in pos]
    g = csr_matrix((np.ones(len(r)), (r, c)), shape=(len(ids), len(ids)))
    n, comp = connected_components(g, directed=False)
    E = np.zeros_like(F)
    for v, i in pos.items():
        E[F == v] = comp[i] + 1
    return E


def same_partition(A, B):
    """Equal up to a bijective renaming of positive labels."""
    A, B = np.asarray(A), np.asarray(B)
    if ((A > 0) != (B > 0)).any():
        return False
    m = A > 0
    if not m.any():
        return True
    pr = np.unique(np.stack([A[m], B[m]], 1), axis=0)
    return len(np.unique(pr[:, 0])) == len(pr) == len(np.unique(pr[:, 1]))
