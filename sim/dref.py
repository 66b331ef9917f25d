"""Reference model of extreme detection: anomalies, thresholds, extremes, in
plain float64 numpy.  Arrays are (time, cells); no dask, no marEx import."""

import numpy as np
import pandas as pd


def decimal_year(time):
    t = pd.DatetimeIndex(time)
    n = np.where(t.is_leap_year, 366, 365)
    return t.year.values + (t.dayofyear.values - 1) / n


def detrend(x, time, orders, harmonics, zero_mean):
    dy = decimal_year(time)
    rows = [np.ones(len(dy))] + [(dy - dy.mean()) ** o for o in orders]
    if harmonics:
        rows += [np.sin(2 * np.pi * dy), np.cos(2 * np.pi * dy), np.sin(4 * np.pi * dy), np.cos(4 * np.pi * dy)]
    M = np.array(rows)
    M[1:] -= M[1:].mean(1, keepdims=True)
    fit = M.T @ (np.linalg.pinv(M).T @ x)
    out = x - fit
    return out - out.mean(0) if zero_mean else out


def fixed(x, time):
    doy = pd.DatetimeIndex(time).dayofyear.values
    out = np.empty_like(x)
    for d in np.unique(doy):
        m = doy == d
        out[m] = x[m] - x[m].mean(0)
    return out


def centred_mean(x, w):
    """Mean over a centred window of w steps (for even w reaching one further back); NaN where incomplete."""
    out = np.full_like(x, np.nan)
    for i in range(len(x)):
        a = i - w // 2
        z = a + w
        if a >= 0 and z <= len(x):
            out[i] = x[a:z].mean(0)
    return out


def climatology(s, time, window):
    """For each step, the mean of s on the same day of the year over the preceding `window` years."""
    t = pd.DatetimeIndex(time)
    year, doy = t.year.values, t.dayofyear.values
    out = np.full_like(s, np.nan)
    for i in np.nonzero(year >= year.min() + window)[0]:
        v = s[(doy == doy[i]) & (year >= year[i] - window) & (year < year[i])]
        n = (~np.isnan(v)).sum(0)
        with np.errstate(invalid="ignore"):
            out[i] = np.where(n > 0, np.nansum(v, 0) / np.maximum(n, 1), np.nan)
    return out


def shifting(x, time, window, smooth):
    year = pd.DatetimeIndex(time).year.values
    keep = year >= year.min() + window
    return (x - climatology(centred_mean(x, smooth), time, window))[keep], keep


def anomaly(x, time, c):
    """(anomalies, which steps are kept)"""
    every = np.ones(len(x), bool)
    m = c["anomaly"]
    if m == "shifting_baseline":
        return shifting(x, time, c["window_year"], c["smooth"])
    if m == "fixed_baseline":
        return fixed(x, time), every
    if m == "detrend_fixed_baseline":
        return fixed(detrend(x, time, c["orders"], False, c["zero_mean"]), time), every
    return detrend(x, time, c["orders"], True, c["zero_mean"]), every


def std_by_day(a, time):
    """30-day running standard deviation by day of year (the days present, in order)."""
    doy = pd.DatetimeIndex(time).dayofyear.values
    days = np.unique(doy)
    v = np.stack([a[doy == d].std(0) ** 2 for d in days])
    n = len(days)
    out = np.empty_like(v)
    for i in range(n):
        out[i] = np.sqrt(v[np.arange(i - 15, i + 15) % n].mean(0))
    return days, out


# ------------------------------------------------------------------ thresholds
def edges(precision, top, dtype):
    return np.concatenate([[-np.inf], np.arange(-precision, top + precision, precision, dtype=dtype)]).astype(dtype)


def global_exact(a, q):
    out = np.full(a.shape[1], np.nan)
    okc = ~np.isnan(a).all(0)
    out[okc] = np.nanquantile(a[:, okc].astype(np.float64), q, axis=0)
    return out


def global_approx(a, q, precision, top):
    e = edges(precision, top, np.float64)
    mid = (e[1:] + e[:-1]) / 2
    mid[0] = 0.0
    nb = len(mid)
    out = np.full(a.shape[1], np.nan)
    for c in range(a.shape[1]):
        v = a[:, c].astype(np.float64)
        if np.isnan(v).any():
            continue
        i = np.digitize(v, e) - 1
        i[v == e[-1]] = nb - 1
        h = np.bincount(i[(i >= 0) & (i < nb)], minlength=nb).astype(float)
        cdf = np.cumsum(h / (h.sum() + 1e-10))
        up = int(np.argmax(cdf >= q - 1e-10))
        tgt = cdf[max(up - 1, 0)]
        lo = min(int(np.argmax(cdf > tgt)), nb - 2)
        up = min(max(up, 1), nb - 1)
        den = cdf[up] - cdf[lo]
        if abs(cdf[lo] - q) < 1e-10:
            t = mid[lo]
        elif abs(den) <= 1e-10:
            t = (mid[lo] + mid[up]) / 2
        else:
            t = mid[lo] + (q - cdf[lo]) / den * (mid[up] - mid[lo])
        out[c] = max(t, e[3])
    return out


def day_exact(a, time, pct, window):
    """(days present, percentile over a centred window of steps around that day in every year)"""
    doy = pd.DatetimeIndex(time).dayofyear.values
    days = np.unique(doy)
    out = np.full((len(days), a.shape[1]), np.nan)
    h = window // 2
    for k, d in enumerate(days):
        idx = [j for i in np.nonzero(doy == d)[0] for j in range(i - h, i + h + 1) if 0 <= j < len(a)]
        v = a[idx].astype(np.float64)
        okc = ~np.isnan(v).all(0)
        if okc.any():
            out[k, okc] = np.nanpercentile(v[:, okc], pct, axis=0)
    return days, out


def day_approx(a, time, q, window, spatial, shape, precision, top, valid):
    """366 days; spatial: window in cells (periodic along x, cut off in y), shape (ny, nx) or None."""
    e = edges(precision, top, np.float32)
    mid = (e[1:] + e[:-1]) / 2
    mid[0] = 0.0
    mid = mid.astype(np.float32)
    nb = len(mid)
    doy = pd.DatetimeIndex(time).dayofyear.values
    nc = a.shape[1]
    H = np.zeros((nc, 366, nb))
    i = np.digitize(a, e) - 1
    for c in range(nc):
        good = i[:, c] < nb
        np.add.at(H[c], (doy[good] - 1, i[good, c]), 1)
    if spatial and spatial > 1 and shape:
        ny, nx = shape
        p = spatial // 2
        G = H.reshape(ny, nx, 366, nb)
        S = np.zeros_like(G)
        for dx in range(-p, p + 1):
            S += np.roll(G, dx, axis=1)
        G, S = S, np.zeros_like(G)
        for y in range(ny):
            S[y] = G[max(0, y - p) : y + p + 1].sum(0)
        H = S.reshape(nc, 366, nb)
    h = window // 2
    W = np.zeros_like(H)
    for d in range(-h, h + 1):
        W += np.roll(H, d, axis=1)
    out = np.full((366, nc), np.nan)
    cs = np.cumsum(W, axis=2)
    for c in range(nc):
        if not valid[c]:
            continue
        for d in range(366):
            cc = cs[c, d]
            n = cc[-1]
            if n <= 0:
                continue
            pos = q * n
            up = min(int(np.searchsorted(cc, pos, side="right")), nb - 1)
            lo = max(0, up - 1)
            if up == 0:
                t = mid[0]
            else:
                diff = cc[up] - cc[lo]
                t = mid[lo] + ((pos - cc[lo]) / diff if diff > 0 else 0.5) * (mid[up] - mid[lo])
            out[d, c] = max(t, e[3]) if not np.isnan(t) else t
    return out
