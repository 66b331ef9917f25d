"""Scenario generators.  A scenario is a JSON-able dict; fields are stored as
strings so that a replay file is self-contained and can be minimised."""

import random

import numpy as np
import pandas as pd
import xarray as xr
from scipy.ndimage import gaussian_filter


def pack(b):
    """(nt, n...) bool -> list of '.#' strings (one per time step, flattened)."""
    nt = b.shape[0]
    return ["".join("#" if v else "." for v in row) for row in np.asarray(b).reshape(nt, -1)]


def unpack(rows, shape):
    return np.array([[c == "#" for c in r] for r in rows], dtype=bool).reshape((len(rows),) + tuple(shape))


# ------------------------------------------------------------------ gridded
def blob_field(r: random.Random, nt, ny, nx, wrap=True, nblobs=None, noise=None):
    """Moving rectangles/ellipses with lifetimes, gaps, splits and mergers."""
    b = np.zeros((nt, ny, nx), bool)
    yy, xx = np.mgrid[0:ny, 0:nx]
    n = nblobs or r.randint(2, 6)
    for _ in range(n):
        y, x = r.uniform(1, ny - 2), r.uniform(0, nx - 1)
        vy, vx = r.uniform(-0.7, 0.7), r.uniform(-1.6, 1.6)
        ry, rx = r.uniform(0.8, max(1.0, ny / 4)), r.uniform(0.8, max(1.0, nx / 5))
        t0 = r.randrange(0, max(1, nt - 1))
        t1 = min(nt, t0 + r.randint(2, nt))
        shape = r.choice(["ellipse", "rect"])
        gap = r.randrange(t0, t1) if r.random() < 0.4 else -1
        gaplen = r.choice([1, 1, 2, 3])
        for t in range(t0, t1):
            if gap <= t < gap + gaplen:
                y, x = y + vy, x + vx
                continue
            dx = xx - x
            if wrap:
                dx = (dx + nx / 2) % nx - nx / 2
            dy = yy - y
            if shape == "ellipse":
                b[t] |= (dx / rx) ** 2 + (dy / ry) ** 2 <= 1
            else:
                b[t] |= (abs(dx) <= rx) & (abs(dy) <= ry)
            y, x = y + vy, x + vx
            ry = max(0.6, ry * r.uniform(0.85, 1.18))
            rx = max(0.6, rx * r.uniform(0.85, 1.18))
    p = noise if noise is not None else r.choice([0, 0, 0.01, 0.04])
    if p:
        rng = np.random.default_rng(r.randrange(1 << 30))
        b ^= rng.random(b.shape) < p
    return b


def smooth_field(r: random.Random, nt, ny, nx, wrap=True):
    rng = np.random.default_rng(r.randrange(1 << 30))
    s = r.uniform(0.8, 1.8)
    f = gaussian_filter(rng.normal(size=(nt, ny, nx)), (r.uniform(0.4, 1.2), s, s), mode=("nearest", "nearest", "wrap" if wrap else "nearest"))
    return f > np.quantile(f, r.uniform(0.6, 0.85))


def chunks_of(r: random.Random, n, style=None):
    """A chunk layout of length-n axis as a list."""
    style = style or r.choice(["one", "unit", "even", "even", "ragged", "ragged"])
    if style == "one":
        return [n]
    if style == "unit":
        return [1] * n
    if style == "even":
        c = r.randint(1, n)
        out = [c] * (n // c)
        if n % c:
            out.append(n % c)
        return out
    out = []
    left = n
    while left:
        c = r.randint(1, min(left, 4))
        out.append(c)
        left -= c
    return out


def gridded(r: random.Random, small=False, merging=None):
    nt = r.randint(3, 9 if small else 12)
    ny = r.randint(6, 10 if small else 14)
    nx = r.randint(8, 14 if small else 20)
    regional = r.random() < 0.3
    wrap = not regional
    u = r.random()
    if u < 0.35:
        b = blob_field(r, nt, ny, nx, wrap)
    elif u < 0.75:
        b = converge_field(r, nt, ny, nx)
    else:
        b = smooth_field(r, nt, ny, nx, wrap)
    if not b.any():
        b[0, 1:4, 1:4] = True
    mask = np.ones((ny, nx), bool)
    if r.random() < 0.5:
        for _ in range(r.randint(1, 3)):
            y, x = r.randrange(ny), r.randrange(nx)
            mask[y : y + r.randint(1, 3), x : x + r.randint(1, 4)] = False
    if not mask.any():
        mask[:] = True
    R = r.choice([0, 0, 1, 1, 2])
    T = r.choice([0, 0, 2, 2, 4])
    if r.random() < 0.04:
        R = 3
    if r.random() < 0.04:
        T = r.choice([6, 8])
    flt = r.choice([("abs", 1), ("abs", r.randint(1, 6)), ("q", 0.0), ("q", 0.5), ("q", round(r.uniform(0.0, 0.7), 2))])
    lon0 = r.choice([0.0, -180.0]) if wrap else 10.0
    sc = dict(
        kind="gridded", shape=[ny, nx], field=pack(b), mask=pack(mask[None])[0], regional=regional,
        R=R, T=T, filter=list(flt), tchunks=chunks_of(r, nt), lat_flip=r.random() < 0.3, lon0=lon0,
        merging=(r.random() < 0.75) if merging is None else merging, nn=r.random() < 0.6,
        overlap=r.choice([0.0, 0.1, 0.25, 0.5, 0.5, 0.75, 1.0]),
        areas=r.choice(["none", "none", "cell", "res"]), units=r.choice(["degrees", "degrees", "degrees", "radians"]),
        transpose=r.random() < 0.15, seed=r.randrange(1 << 30),
        names=r.choice([["time", "lat", "lon"]] * 4 + [["t", "y", "x"]]), defaults=r.random() < 0.2,
        schunks=[r.randint(2, ny), r.randint(2, nx)] if r.random() < 0.12 else None, api=r.choice(["tracker", "tracker", "regional"]),
        freq=r.choice(["D", "D", "D", "6h", "5D"]),
    )
    return sc


def merging(r: random.Random, p=0.7):
    """A field biased towards mergers of two to five objects."""
    sc = gridded(r, merging=True)
    if r.random() < p:
        nt, (ny, nx) = r.randint(4, 10), (r.randint(8, 14), r.randint(12, 22))
        b = converge_field(r, nt, ny, nx)
        if r.random() < 0.5:
            b |= converge_field(r, nt, ny, nx)
        if r.random() < 0.4:  # seeds at every step: objects born inside the merger, so that consolidation has work
            b ^= np.random.default_rng(r.randrange(1 << 30)).random(b.shape) < 0.03
        sc.update(shape=[ny, nx], field=pack(b), mask="#" * (ny * nx), R=r.choice([0, 0, 1]), T=0, filter=["abs", r.choice([1, 1, 2])],
                  tchunks=chunks_of(r, nt), overlap=r.choice([0.0, 0.1, 0.25, 0.5, 0.5]))
    return sc


def long_field(r, nt, ny, nx):
    """Several encounters one after another."""
    b = np.zeros((nt, ny, nx), bool)
    t = 0
    while t < nt:
        n = min(nt - t, r.randint(4, 9))
        b[t : t + n] |= converge_field(r, max(n, 2), ny, nx)[:n]
        t += max(1, n - r.randint(0, 2))
    return b


def many_chunks(r, nt):
    """More than ten chunks where possible."""
    c = r.choice([1, 1, 1, 2])
    out = [c] * (nt // c) + ([nt % c] if nt % c else [])
    if r.random() < 0.3 and len(out) > 12:
        k = r.randrange(len(out) - 1)
        out[k : k + 2] = [out[k] + out[k + 1]]
    return out


def long(r: random.Random):
    """A long history in many small chunks."""
    sc = gridded(r, small=True, merging=True)
    nt, ny, nx = r.randint(11, 26), r.randint(6, 9), r.randint(10, 14)
    sc.update(shape=[ny, nx], field=pack(long_field(r, nt, ny, nx)), mask="#" * (ny * nx), R=r.choice([0, 0, 1]), T=r.choice([0, 0, 2]), filter=["abs", r.choice([1, 1, 2])],
              tchunks=many_chunks(r, nt), overlap=r.choice([0.0, 0.1, 0.25, 0.5, 0.5]))
    return sc


def wide(r: random.Random):
    """A long, thin field: objects far from and across the periodic seam."""
    sc = gridded(r, merging=True)
    nt, ny, nx = r.randint(2, 4), r.randint(3, 4), r.randint(205, 320)
    b = np.zeros((nt, ny, nx), bool)
    for _ in range(r.randint(3, 8)):
        x, w, y, h = r.choice([r.randrange(nx), r.randint(-6, 6) % nx]), r.randint(2, 60), r.randrange(ny), r.randint(1, 3)
        v = r.randint(-4, 4)
        for t in range(nt):
            for i in range(w):
                b[t, y : y + h, (x + v * t + i) % nx] = True
    sc.update(shape=[ny, nx], field=pack(b), mask="#" * (ny * nx), R=r.choice([0, 1]), T=0, filter=["abs", 1],
              tchunks=chunks_of(r, nt), nn=True, kind="gridded", wide=True)
    return sc


def gridded_arrays(sc):
    ny, nx = sc["shape"]
    b = unpack(sc["field"], (ny, nx))
    mask = unpack([sc["mask"]], (ny, nx))[0]
    nt = len(b)
    lat = np.linspace(-60, 60, ny)
    if sc.get("lat_flip"):
        lat = lat[::-1].copy()
    if sc["regional"]:
        lon = sc["lon0"] + np.arange(nx) * 2.0
    else:
        lon = sc["lon0"] + np.arange(nx) * 360.0 / nx
    if sc.get("units") == "radians":
        lat, lon = np.radians(lat), np.radians(lon)
    time = pd.date_range("2001-02-03", periods=nt, freq=sc.get("freq", "D"))
    return b, mask, lat, lon, time


def cell_areas(sc):
    ny, nx = sc["shape"]
    if sc["areas"] == "cell":
        rng = np.random.default_rng(sc["seed"])
        return rng.uniform(0.5, 2.0, size=(ny, nx)).astype(np.float32)
    return None


def gridded_inputs(sc, tchunks=None):
    b, mask, lat, lon, time = gridded_arrays(sc)
    T, Y, X = sc.get("names", ["time", "lat", "lon"])
    da = xr.DataArray(b, dims=(T, Y, X), coords={T: time, Y: lat, X: lon}, name="extreme_events",
                      attrs={"source": "sim", "threshold": 95})
    if sc.get("transpose"):
        da = da.transpose(Y, T, X)
    cy, cx = sc.get("schunks") or (-1, -1)
    da = da.chunk({T: tuple(tchunks or sc["tchunks"]), Y: cy, X: cx})
    co = {} if sc["seed"] % 4 == 1 else {Y: lat, X: lon}
    aux = {0: lambda v: v, 1: lambda v: v.chunk({Y: 3, X: 4})}.get(sc["seed"] % 6, lambda v: v.chunk({Y: cy, X: cx}))
    m = aux(xr.DataArray(mask, dims=(Y, X), coords=co))
    kw = dict(R_fill=sc["R"], T_fill=sc["T"], allow_merging=sc["merging"], nn_partitioning=sc["nn"],
              overlap_threshold=sc["overlap"], regional_mode=sc["regional"], quiet=True, coordinate_units=sc["units"])
    if (T, Y, X) != ("time", "lat", "lon"):
        kw["dimensions"] = {"time": T, "y": Y, "x": X}
    if sc.get("defaults"):
        for k, v in (("T_fill", 2), ("allow_merging", True), ("nn_partitioning", False), ("overlap_threshold", 0.5), ("regional_mode", False)):
            if kw[k] == v:
                del kw[k]
        if not sc["regional"] and sc["units"] == "degrees" and abs(lon.max() - lon.min() - 360) <= 1.0:
            del kw["coordinate_units"]
    if sc["filter"][0] == "abs":
        kw["area_filter_absolute"] = int(sc["filter"][1])
    elif sc.get("defaults") and sc["filter"][1] == 0.5:
        pass
    else:
        kw["area_filter_quartile"] = float(sc["filter"][1])
    if sc["areas"] == "cell":
        kw["cell_areas"] = aux(xr.DataArray(cell_areas(sc), dims=(Y, X), coords=co))
    elif sc["areas"] == "res":
        kw["grid_resolution"] = 2.0
    return da, m, kw


# -------------------------------------------------------------- unstructured
def mesh(ny, nx, wrap=True):
    """Split an (ny, nx) quad grid into 2*ny*nx triangles.

    Returns neighbours (3, ncells) 1-based with 0 = none, lat, lon (degrees)."""
    nc = 2 * ny * nx

    def cid(y, x, k):
        return 2 * (y * nx + x) + k

    nb = np.zeros((3, nc), np.int32)
    lat = np.zeros(nc)
    lon = np.zeros(nc)
    dlat, dlon = 120.0 / ny, 360.0 / nx
    for y in range(ny):
        for x in range(nx):
            lo, up = cid(y, x, 0), cid(y, x, 1)
            # lower triangle: neighbours upper (same quad), upper of quad below, upper of quad left... shared edges
            l = [up]
            if y > 0:
                l.append(cid(y - 1, x, 1))
            if x > 0 or wrap:
                l.append(cid(y, (x - 1) % nx, 1))
            u = [lo]
            if y < ny - 1:
                u.append(cid(y + 1, x, 0))
            if x < nx - 1 or wrap:
                u.append(cid(y, (x + 1) % nx, 0))
            for i, v in enumerate(l):
                nb[i, lo] = v + 1
            for i, v in enumerate(u):
                nb[i, up] = v + 1
            lat[lo], lon[lo] = -60 + (y + 0.33) * dlat, (x + 0.33) * dlon
            lat[up], lon[up] = -60 + (y + 0.67) * dlat, (x + 0.67) * dlon
    lon = (lon + 180) % 360 - 180
    return nb, lat, lon


def converge_field(r: random.Random, nt, ny, nx):
    """Two or more blobs drifting together so that they merge, stay merged, part again."""
    b = np.zeros((nt, ny, nx), bool)
    yy, xx = np.mgrid[0:ny, 0:nx]
    cx, cy = r.uniform(0, nx), r.uniform(ny * 0.3, ny * 0.7)
    tm = r.uniform(0.5, nt - 1)
    for i in range(r.choice([2, 2, 3, 3, 4])):
        ang = r.uniform(0, 2 * np.pi)
        dist = r.uniform(0.25, 0.5) * nx
        ry, rx = r.uniform(1.0, ny / 4), r.uniform(1.2, nx / 6)
        wob = r.uniform(0, 0.6)
        for t in range(nt):
            f = abs(t - tm) / max(1.0, nt / 2)
            f = max(0.0, f - r.choice([0.0, 0.15]))
            x, y = cx + np.cos(ang) * dist * f + rx * wob * np.cos(i), cy + np.sin(ang) * dist * 0.5 * f
            dx = (xx - x + nx / 2) % nx - nx / 2
            b[t] |= (dx / rx) ** 2 + ((yy - y) / ry) ** 2 <= 1
    return b


def busy_field(r: random.Random, nt, ny, nx):
    """Many small objects that join their neighbours in changing groups: several mergers of several parents per step."""
    b = np.zeros((nt, ny, nx), bool)
    my, mx = ny // 3, nx // 3
    p_on, p_join = r.uniform(0.85, 1.0), r.uniform(0.2, 0.55)
    for t in range(nt):
        quiet = t == 0 or r.random() < 0.35
        for j in range(my):
            for i in range(mx):
                if r.random() > p_on:
                    continue
                b[t, 3 * j : 3 * j + 2, 3 * i : 3 * i + 2] = True
                if quiet:
                    continue
                if r.random() < p_join:
                    b[t, 3 * j + r.randrange(2), 3 * i + 2] = True
                if r.random() < p_join * 0.7 and 3 * j + 2 < ny:
                    b[t, 3 * j + 2, 3 * i + r.randrange(2)] = True
    return b


def even_chunks(r, n):
    c = r.randint(1, n)
    return [c] * (n // c) + ([n % c] if n % c else [])


def unames(sc):
    """Time dimension, cell dimension, longitude and latitude of a mesh scenario."""
    return sc.get("unames") or ["time", "ncells", "lon", "lat"]


def unstructured(r: random.Random, big=False):
    sc = _unstructured(r, big)
    sc["units"] = r.choice(["degrees"] * 5 + ["radians"])
    sc["lon0"] = r.random() < 0.3
    if r.random() < 0.15:
        sc["unames"] = r.choice([["t", "cell", "clon", "clat"], ["time", "cell", "clon", "clat"]])
    sc["scale"] = r.choice([1, 1, 1, 1.0e8])
    if not big and r.random() < 0.04:  # a few steps with objects in a long empty record
        nc = len(sc["mask"])
        b = unpack(sc["field"], (nc,))
        nt = r.randint(40, 260)
        full = np.zeros((nt, nc), bool)
        t = r.randint(0, nt - len(b))
        full[t : t + len(b)] = b
        c = r.randint(20, nt)
        sc.update(field=pack(full), tchunks=[c] * (nt // c) + ([nt % c] if nt % c else []))
    return sc


def _unstructured(r: random.Random, big=False):
    nt = r.randint(3, 8)
    ny, nx = r.randint(5, 8), r.randint(8, 14)
    long = not big and r.random() < 0.06
    if long:
        nt, ny, nx = r.randint(11, 22), r.randint(4, 6), r.randint(7, 10)
    if big:
        ny, nx = r.randint(12, 16), r.randint(16, 20)
    busy = not big and not long and r.random() < 0.2
    if busy:
        nt, ny, nx = r.randint(2, 5), 3 * r.randint(2, 3) - r.randint(0, 1), 3 * r.randint(4, 7)
    u = r.random()
    if long:
        q = long_field(r, nt, ny, nx)
    elif busy:
        q = busy_field(r, nt, ny, nx)
    elif u < 0.55:
        q = converge_field(r, nt, ny, nx)
    elif u < 0.85:
        q = blob_field(r, nt, ny, nx, True, noise=0)
    else:
        q = smooth_field(r, nt, ny, nx, True)
    b = np.repeat(q.reshape(nt, -1), 2, axis=1)
    if r.random() < 0.3:
        rng = np.random.default_rng(r.randrange(1 << 30))
        b ^= rng.random(b.shape) < 0.02
    if not b.any() or b.reshape(nt, -1).sum(1).max() < 14:
        b[0, 2 * (nx + 1) : 2 * (nx + 1) + 8] = True
        b[0, 2 * (2 * nx + 1) : 2 * (2 * nx + 1) + 8] = True
    mask = np.ones(2 * ny * nx, bool)
    if r.random() < 0.4:
        for _ in range(r.randint(1, 4)):
            c = r.randrange(2 * ny * nx)
            mask[c : c + r.randint(1, 5)] = False
    if busy:
        return dict(kind="unstructured", quads=[ny, nx], field=pack(b), mask=pack(mask[None])[0], R=0, T=0, filter=["abs", r.choice([1, 1, 4])],
                    tchunks=[nt] if r.random() < 0.7 else even_chunks(r, nt), nn=r.random() < 0.6, overlap=r.choice([0.0, 0.05, 0.1, 0.25, 0.25]),
                    units="degrees", seed=r.randrange(1 << 30), areas=r.choice(["unit", "unit", "random"]))
    return dict(
        kind="unstructured", quads=[ny, nx], field=pack(b), mask=pack(mask[None])[0],
        R=r.choice([0, 0, 1, 1, 2]), T=r.choice([0, 0, 2]), filter=["abs", r.choice([1, 1, 4, 8])],
        tchunks=even_chunks(r, nt), nn=r.random() < 0.6, overlap=r.choice([0.0, 0.1, 0.1, 0.25, 0.25, 0.5, 0.75]),
        units="degrees", seed=r.randrange(1 << 30), areas=r.choice(["unit", "unit", "random"]),
    )


def unstructured_arrays(sc):
    ny, nx = sc["quads"]
    nc = 2 * ny * nx
    b = unpack(sc["field"], (nc,))
    mask = unpack([sc["mask"]], (nc,))[0]
    nb, lat, lon = mesh(ny, nx)
    rng = np.random.default_rng(sc["seed"])
    area = rng.uniform(0.5, 2.0, nc).astype(np.float32)
    if sc.get("areas") == "unit":
        area = np.ones(nc, np.float32)
    area = area * np.float32(sc.get("scale", 1))
    if sc.get("lon0"):
        lon = lon % 360
    time = pd.date_range("2001-02-03", periods=len(b), freq="D")
    return b, mask, nb, lat, lon, area, time


def unstructured_inputs(sc, temp_dir, tchunks=None):
    b, mask, nb, lat, lon, area, time = unstructured_arrays(sc)
    T, X, LON, LAT = unames(sc)
    if sc["units"] == "radians":
        lat, lon = np.radians(lat), np.radians(lon)
    co = {LAT: (X, lat), LON: (X, lon)}
    da = xr.DataArray(b, dims=(T, X), coords={T: time, **co}, name="extreme_events", attrs={"source": "sim"})
    da = da.chunk({T: tuple(tchunks or sc["tchunks"]), X: 25 if sc["seed"] % 7 == 2 else -1})
    m = xr.DataArray(mask, dims=(X,), coords=co)
    n = xr.DataArray(nb, dims=("nv", X), coords=co)
    a = xr.DataArray(area, dims=(X,), coords=co)
    if sc["seed"] % 5 == 1:  # several chunks
        m, n, a = m.chunk({X: 17}), n.chunk({X: 23, "nv": 2}), a.chunk({X: 19})
    elif sc["seed"] % 5 != 2:  # one chunk each; otherwise in memory
        m, n, a = m.chunk(), n.chunk(), a.chunk()
    kw = dict(R_fill=sc["R"], T_fill=sc["T"], allow_merging=True, nn_partitioning=sc["nn"], overlap_threshold=sc["overlap"],
              unstructured_grid=True, dimensions={"x": X}, coordinates={"x": LON, "y": LAT}, neighbours=n,
              cell_areas=a, temp_dir=temp_dir, quiet=True, coordinate_units=sc["units"])
    if T != "time":
        kw["dimensions"]["time"] = kw["coordinates"]["time"] = T
    if sc["filter"][0] == "abs":
        kw["area_filter_absolute"] = int(sc["filter"][1])
    else:
        kw["area_filter_quartile"] = float(sc["filter"][1])
    return da, m, kw
