"""Animations: frames are tasks that draw, write and rewrite image files."""

import contextlib
import copy
import json
import os
import random
import re
import shutil
import subprocess
import tempfile

import numpy as np
import pandas as pd
import xarray as xr

from .. import gen
from ..core import SimCrash
from .base import PLAIN, Check, bad, ok, sim_conf, skip, with_
from .detection import world
from .gridded import hash_of
from .history import fault_conf
from .scratch import hurt, ragged

BITS, BLOCK = 20, 16


def stub_axes():
    os.environ["MPLBACKEND"] = "Agg"
    import matplotlib

    matplotlib.use("Agg")


def rnd(a):
    return [None if not np.isfinite(v) else float(f"{v:.6g}") for v in np.asarray(a, float).ravel()]


def describe(fig):
    """What a viewer of this figure sees, as plain data."""
    from cartopy.mpl.geoaxes import GeoAxes
    from matplotlib.collections import PathCollection
    from matplotlib.contour import ContourSet

    maps = [a for a in fig.axes if isinstance(a, GeoAxes)]
    out = dict(maps=len(maps), bars=len(fig.axes) - len(maps))
    if len(maps) != 1:
        return out
    ax = maps[0]
    out["title"] = ax.get_title()
    out["data"], out["dots"], out["lines"], out["scale"] = [], [], [], []
    for c in ax.collections:
        if isinstance(c, ContourSet):
            out["lines"] += sorted(json.dumps([rnd(x) for x in p.vertices]) for p in c.get_paths() if len(p.vertices))
        elif isinstance(c, PathCollection):
            out["dots"] += sorted(rnd(x) for x in np.asarray(c.get_offsets(), float))
        elif c.get_array() is not None:
            a = np.ma.filled(np.ma.asarray(c.get_array(), float), np.nan)
            out["data"].append(rnd(a))
            n = c.norm
            out["scale"].append(dict(lim=rnd([n.vmin, n.vmax]), bounds=rnd(getattr(n, "boundaries", [])),
                                     colours=hash_of(dict(c=rnd(c.cmap(np.linspace(0, 1, 64)))))))
    return out


class Studio:
    """Stands in for rendering and for ffmpeg: figures become small images that carry the number of their description."""

    def __init__(self, sim):
        self.sim = sim
        self.seen = {}
        self.list = []

    def number(self, d):
        s = json.dumps(d, sort_keys=True)
        if s not in self.seen:
            self.seen[s] = len(self.list)
            self.list.append(d)
        return self.seen[s]

    def savefig(self, fig, fname, *a, **k):
        from PIL import Image

        n = self.number(describe(fig)) + 1
        im = np.zeros((BLOCK + 1, BITS * BLOCK + 1), np.uint8)
        for b in range(BITS):
            if n >> b & 1:
                im[:, b * BLOCK : (b + 1) * BLOCK] = 255
        Image.fromarray(np.repeat(im[..., None], 3, 2)).save(fname, **({} if isinstance(fname, (str, os.PathLike)) else {"format": k.get("format", "png")}))

    def decode(self, path):
        from PIL import Image

        with Image.open(path) as im:
            w, h = im.size
            a = np.asarray(im.convert("L"), float)
        if w % 2 or h % 2:
            raise ValueError("odd size")
        n = sum(1 << b for b in range(BITS) if a[h // 2, int((b + 0.5) * BLOCK)] > 127)
        return self.list[n - 1]

    def encode(self, args):
        """ffmpeg -framerate R -i PATTERN ... OUT: reads consecutive frames, as ffmpeg's image2 demuxer does."""
        args = [str(x) for x in args]
        f = self.sim.fault("encoder", ["encoder_fails"])
        pat = args[args.index("-i") + 1]
        rate = args[args.index("-framerate") + 1] if "-framerate" in args else args[args.index("-r") + 1] if "-r" in args else "25"
        k = next((i for i in range(5) if os.path.exists(pat % i)), None)
        frames = []
        while k is not None and os.path.exists(pat % k):
            try:
                frames.append(self.decode(pat % k))
            except SimCrash:
                raise
            except Exception as e:
                if getattr(e, "errno", None):  # the encoder could not read the file: it stops
                    return 1
                frames.append(f"unreadable: {type(e).__name__}")
            k += 1
        if f is not None or not frames or (os.path.exists(args[-1]) and "-y" not in args) or any(isinstance(x, str) for x in frames[:1]):
            return 1
        try:
            with open(args[-1], "w") as out:
                out.write(json.dumps(dict(rate=rate, frames=frames)))
        except OSError:
            return 1
        return 0


class FakeProc:
    def __init__(self, studio, args):
        self.args, self.pid, self.stdin, self.stdout, self.stderr = args, 1, None, None, None
        self.returncode = studio.encode(args)

    def communicate(self, input=None, timeout=None):
        return None, None

    def wait(self, timeout=None):
        return self.returncode

    def poll(self):
        return self.returncode

    def kill(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


@contextlib.contextmanager
def studio(sim, root):
    stub_axes()
    import matplotlib.figure as mf
    import matplotlib.pyplot as plt

    st = Studio(sim)
    real = dict(savefig=mf.Figure.savefig, figure=plt.figure, which=shutil.which, Popen=subprocess.Popen, title=None, seq=tempfile._name_sequence)
    from matplotlib.axes import Axes

    real["title"] = Axes.set_title
    names = random.Random(sim.seed)

    def seq():
        while True:
            yield "%08x" % names.getrandbits(32)

    def point():
        if sim.cluster is not None:
            sim.cluster.io_point()

    def figure(*a, **k):
        f = real["figure"](*a, **k)
        point()
        return f

    def title(self, *a, **k):
        point()
        return real["title"](self, *a, **k)

    def which(cmd, *a, **k):
        return "/usr/bin/ffmpeg" if str(cmd) == "ffmpeg" else real["which"](cmd, *a, **k)

    def popen(args, *a, **k):
        if not isinstance(args, (list, tuple)) or os.path.basename(str(args[0])) != "ffmpeg":
            return real["Popen"](args, *a, **k)
        return FakeProc(st, list(args))

    mf.Figure.savefig = st.savefig_method = lambda self, fname, *a, **k: st.savefig(self, fname, *a, **k)
    plt.figure, Axes.set_title, shutil.which, subprocess.Popen = figure, title, which, popen
    tempfile._name_sequence = seq()
    try:
        yield st
    finally:
        mf.Figure.savefig, plt.figure, Axes.set_title = real["savefig"], real["figure"], real["title"]
        shutil.which, subprocess.Popen, tempfile._name_sequence = real["which"], real["Popen"], real["seq"]
        plt.close("all")


def draw_film(r, nt=None):
    nt = nt or r.choice([1, 2, 3, 4, 5, 6, 8, 10, 12, 14])
    kind = r.choice(["grid", "grid", "grid", "kdtree", "triangles"])
    return dict(
        kind=kind, nt=nt, ny=r.randint(2, 4), nx=r.randint(3, 6), seed=r.randrange(1 << 30), ids=r.random() < 0.5, start=r.randrange(20000), step=r.choice([1, 1, 1, 2, 30]),
        shuffle=r.random() < 0.1, clim=r.random() < 0.4, issym=r.random() < 0.3, bar=r.random() < 0.5, outlines=r.random() < 0.4, centres=r.random() < 0.4, rate=r.choice([5, 10, 24]),
        named=r.random() < 0.7, chunk=r.choice([0, 1, 2, 100]), names=kind == "grid" and r.random() < 0.3, nan=r.random() < 0.4,
    )


def film(f, grid):
    """The arguments of one animation and the description of each frame it must show."""
    rng = np.random.default_rng(f["seed"])
    nt, ny, nx = f["nt"], f["ny"], f["nx"]
    times = pd.date_range(pd.Timestamp("1950-01-01") + pd.Timedelta(days=f["start"]), periods=nt, freq=f"{f['step']}D").values
    if f["shuffle"]:
        times = times[rng.permutation(nt)]
    tn, yn, xn = ("t", "nav_y", "nav_x") if f["names"] else ("time", "lat", "lon")
    lat, lon = np.linspace(-40, 40, ny), np.linspace(5, 100, nx)
    ncell = ny * nx
    if f["ids"]:
        v = rng.integers(0, 5, (nt, ncell)) * (rng.random((nt, ncell)) < 0.6)
        v.flat[0] = 4
    else:
        v = np.round(rng.normal(size=(nt, ncell)) * 10, 3).astype(np.float32)
        if f["nan"]:
            v[:, rng.random(ncell) < 0.2] = np.nan
            v[:, 0] = rng.normal(size=nt)
    obj = rng.integers(0, 3, (nt, ncell)) * (rng.random((nt, ncell)) < 0.4)
    cen = np.round(rng.uniform(-30, 60, (2, nt, 4)), 3)
    cen[:, rng.random((nt, 4)) < 0.2] = np.nan
    if f["kind"] == "grid":
        mk = lambda a, n: xr.DataArray(a.reshape(nt, ny, nx), dims=(tn, yn, xn), coords={tn: times, yn: lat, xn: lon}, name=n)
        dims = {"time": tn, "y": yn, "x": xn}
    else:
        mk = lambda a, n: xr.DataArray(a, dims=("time", "ncells"), coords={"time": times, "lat": ("ncells", np.repeat(lat, nx)), "lon": ("ncells", np.tile(lon, ny))}, name=n)
        dims = {"time": "time", "x": "ncells"}
    co = {"time": tn, "y": yn, "x": xn}
    da, ob = mk(v, "field"), mk(obj, "ID_field")
    ce = xr.DataArray(cen, dims=("component", tn, "ID"), coords={"component": [0, 1], tn: times, "ID": [1, 2, 3, 4]}, name="centroid")
    if f["chunk"]:
        da, ob, ce = da.chunk({tn: f["chunk"]}), ob.chunk({tn: f["chunk"]}), ce.chunk({tn: f["chunk"]})
    kw = {}
    if f["outlines"]:
        kw["object_ids"] = ob
    if f["centres"]:
        kw["centroids"] = ce
    conf = dict(plot_IDs=f["ids"], issym=f["issym"], show_colorbar=f["bar"], framerate=f["rate"], dimensions=dict(dims), coordinates=dict(co))
    if f["clim"]:
        conf["clim"] = (-7.0, 9.0)
    # ---- the model
    import cartopy.crs as ccrs
    import matplotlib.pyplot as plt

    w = v.astype(float)
    if f["ids"]:
        w = np.where(w > 0, w, np.nan)
    lim = None
    if not f["ids"]:
        if f["clim"]:
            lim = [-7.0, 9.0]
        else:
            lim = np.nanpercentile(v[::10], [4, 96])
            if f["issym"]:
                lim = np.array([-np.abs(lim).max(), np.abs(lim).max()])
    want = []
    idx = grid["index"] if f["kind"] == "kdtree" else None
    for t in range(nt):
        d = w[t] if idx is None else w[t][idx]
        dots, lines = [], []
        if f["centres"]:
            for i in sorted({int(x) for x in v[t] if x > 0 and float(x).is_integer()}):
                if i in (1, 2, 3, 4) and np.isfinite(cen[:, t, i - 1]).all():
                    dots.append(rnd([cen[1, t, i - 1], cen[0, t, i - 1]]))
        if f["outlines"] and f["kind"] == "grid" and (obj[t] > 0).any():
            fig = plt.figure()
            ax = fig.add_subplot(projection=ccrs.Robinson())
            cs = ax.contour(lon, lat, (obj[t].reshape(ny, nx) > 0).astype(float), levels=[0.5], transform=ccrs.PlateCarree())
            lines = sorted(json.dumps([rnd(x) for x in p.vertices]) for p in cs.get_paths() if len(p.vertices))
            plt.close(fig)
        want.append(dict(title=str(pd.Timestamp(times[t]).strftime("%Y-%m-%d")), data=[rnd(d)], dots=sorted(dots), lines=lines, lim=None if lim is None else rnd(lim),
                         bounds=rnd(np.arange(1, int(v.max()) + 2) - 0.5) if f["ids"] else [], bars=int(f["bar"] and not f["ids"])))
    return da, dims, co, conf, kw, want


def make_grid(folder, ny, nx, rng):
    """Grid files of an unstructured mesh of ny*nx cells."""
    ncell = ny * nx
    nv = ncell + 2
    tri = np.array([[i, i + 1, i + 2] for i in range(ncell)]).T + 1
    ang = np.arange(nv) * 0.7
    xr.Dataset({"vertex_of_cell": (("nv", "cell"), tri), "clon": (("vertex",), np.cos(ang) * (5 + ang)), "clat": (("vertex",), np.sin(ang) * (5 + ang))}).to_netcdf(f"{folder}/tgrid.nc")
    os.makedirs(f"{folder}/kd", exist_ok=True)
    idx = rng.integers(0, ncell, 12)
    xr.Dataset({"ickdtree_c": (("k",), idx)}, coords={"lat": [-10.0, 0.0, 10.0], "lon": [0.0, 10.0, 20.0, 30.0]}).to_netcdf(f"{folder}/kd/res0.30.nc")
    return dict(tgrid=f"{folder}/tgrid.nc", kd=f"{folder}/kd", index=idx)


def compare(movie, want, f):
    fr = movie["frames"]
    if len(fr) != len(want):
        return f"{len(fr)} frames for {len(want)} steps"
    if str(movie["rate"]) != str(f["rate"]):
        return f"frame rate {movie['rate']} instead of {f['rate']}"
    scales = set()
    for t, (g, w) in enumerate(zip(fr, want)):
        if isinstance(g, str):
            return f"frame {t} is {g}"
        if g["maps"] != 1:
            return f"frame {t} shows {g['maps']} maps"
        if g["title"] != w["title"]:
            return f"frame {t} is labelled {g['title']}, its time is {w['title']}"
        if g["data"] != w["data"]:
            o = next((k for k, x in enumerate(want) if x["data"] == g["data"]), None)
            return f"frame {t} shows " + (f"the data of step {o}" if o is not None else f"other data than step {t}")
        if g["dots"] != w["dots"]:
            return f"frame {t} marks the centres {g['dots']} instead of {w['dots']}"
        if g["lines"] != w["lines"]:
            return f"frame {t} does not outline the objects of step {t}"
        if g["bars"] != w["bars"]:
            return f"frame {t} has {g['bars']} colour bars instead of {w['bars']}"
        s = g["scale"][0]
        if w["lim"] is not None and not np.allclose(np.array(s["lim"], float), np.array(w["lim"], float), rtol=1e-4, atol=1e-4):
            return f"frame {t} has the colour limits {s['lim']} instead of {w['lim']}"
        if w["bounds"] and s["bounds"] != w["bounds"]:
            return f"frame {t} does not give each event its own colour: {s['bounds']}"
        scales.add(json.dumps(s, sort_keys=True))
    if len(scales) > 1:
        return "frames use different colour scales"
    return None


class Movie(Check):
    """C18"""

    rule = ("1..3 animations (regular grids, triangulated or indexed meshes, events or values, outlines, centres, custom names, lazy data) in one process, one scratch and one output "
            "directory; frame tasks run as threads that switch at figure creation and every file operation, with lost and repeated tasks, failing disk, full disk, torn images, "
            "failing encoder and client crashes; a returned movie has exactly one frame per step in order with that step's data, label, outlines, centres and one common colour "
            "scale; otherwise an error was raised after an injected fault, and a repetition succeeds; frames of other movies never appear; non-trivial: at least 2 frames")

    def warmup(self, scratch):
        stub_axes()
        import cartopy.crs  # noqa: F401
        import PIL.Image  # noqa: F401

    def scenario(self, r, tier):
        films = [draw_film(r) for _ in range(r.choice([1, 1, 2, 3]))]
        if r.random() < 0.02:
            films = [draw_film(r, r.randint(201, 215))]
        for f in films:  # movies of one kind of mesh share its files
            f["ny"], f["nx"] = (3, 4) if f["kind"] != "grid" else (f["ny"], f["nx"])
        rate = r.choice([0.0, 0.0, 0.005, 0.02])
        conf = fault_conf(r, True, rate) if rate else sim_conf(r, preempt=True)
        if r.random() < 0.1:
            conf["rates"]["encoder"] = [["encoder_fails", 0.5]]
        return dict(kind="movie", films=films, sim=conf, same_name=r.random() < 0.2)

    def shrinks(self, sc):
        if sc["sim"] != PLAIN:
            yield with_(sc, sim=copy.deepcopy(PLAIN))
        for i in range(len(sc["films"])):
            if len(sc["films"]) > 1:
                yield with_(sc, films=sc["films"][:i] + sc["films"][i + 1 :])
        for i, f in enumerate(sc["films"]):
            for k, v in (("nt", 1), ("nt", 2), ("nt", max(1, f["nt"] - 1)), ("chunk", 0), ("outlines", False), ("centres", False), ("bar", False), ("names", False), ("nan", False),
                         ("shuffle", False), ("step", 1), ("start", 0)):
                if f[k] != v:
                    c = copy.deepcopy(sc)
                    c["films"][i][k] = v
                    yield c

    def shoot(self, f, grid, root, name):
        import marEx

        da, dims, co, conf, kw, want = film(f, grid)
        if f["kind"] == "triangles":
            marEx.specify_grid(grid_type="unstructured", fpath_tgrid=grid["tgrid"])
        elif f["kind"] == "kdtree":
            marEx.specify_grid(grid_type="unstructured", fpath_tgrid=grid["tgrid"], fpath_ckdtree=grid["kd"])
        else:
            marEx.specify_grid()
        pl = da.plotX(dimensions=dims, coordinates=co)
        path = pl.animate(marEx.PlotConfig(**conf), plot_dir=root + "/films", file_name=name if f["named"] else None, **kw)
        return path, want

    def run(self, sc, ctx):
        gdir, root = ctx.dir("grid"), ctx.dir("root")
        grid = make_grid(gdir, 3, 4, np.random.default_rng(7))
        import marEx.plotX.unstructured as un

        un.clear_cache()
        done = {}
        for k, conf in (("run", sc["sim"]), ("again", PLAIN)):
            sim = ctx.sim(k, conf)
            with world(sim, root), studio(sim, root):
                import matplotlib.pyplot as plt

                for i, f in enumerate(sc["films"]):
                    err = path = None
                    before = len(sim.fired)
                    old = {x for x in os.listdir(root) if "animate" in x}
                    plt.close("all")
                    try:
                        path, want = self.shoot(f, grid, root, "film" if sc["same_name"] else f"film{i}")
                    except SimCrash as e:
                        err = e
                    except Exception as e:
                        err = e
                    if sim.crashed:
                        break
                    if err is not None:
                        if not hurt(sim):
                            return bad(f"{k}: movie {i} failed without any hard fault: {type(err).__name__}: {str(err)[:300]}")
                        continue
                    sim.quiet_depth += 1
                    try:
                        if path is None or not os.path.exists(path):
                            return bad(f"{k}: movie {i}: no file at the returned path {path}")
                        with open(path) as fh:
                            movie = json.loads(fh.read())
                    finally:
                        sim.quiet_depth -= 1
                    m = compare(movie, want, f)
                    if m:
                        return bad(f"{k}: movie {i}: {m}")
                    if len(sim.fired) == before:
                        left = {x for x in os.listdir(root) if "animate" in x} - old
                        if left or plt.get_fignums():
                            return bad(f"{k}: movie {i} left {sorted(left)} and {len(plt.get_fignums())} open figures behind")
        return ok(nontrivial=max(f["nt"] for f in sc["films"]) > 1, sig=hash_of(sc))
