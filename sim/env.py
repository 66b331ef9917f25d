"""Install / remove every seam around one simulated run."""

import asyncio
import contextlib
import os
import random
import sys
import time
import uuid
import warnings

import dask
import dask.base
import distributed
import distributed.client
import numpy as np
import zarr
import zarr.core.sync as zsync

from . import cluster as _cl
from .core import Sim, SimCrash, WorkerDied
from .vfs import Disk

warnings.filterwarnings("ignore")

_orig = dict(
    persist=dask.base.persist,
    to_thread=asyncio.to_thread,
    sync=zsync.sync,
    uuid4=uuid.uuid4,
    sleep=time.sleep,
    perf=time.perf_counter,
    time=time.time,
    wait=distributed.wait,
)


async def _inline(func, /, *a, **k):
    return func(*a, **k)


def _sim_sync(coro, loop=None, timeout=None):
    """zarr's sync(): drive the coroutine on the calling thread, no I/O thread."""
    lp = asyncio.new_event_loop()
    prev = asyncio._get_running_loop()
    try:
        asyncio._set_running_loop(None)
        return lp.run_until_complete(coro)
    finally:
        asyncio._set_running_loop(prev)
        lp.close()


def _patch_everywhere(old, new):
    """Rebind every module attribute that is `old` (functions imported by name)."""
    hits = []
    for name, mod in list(sys.modules.items()):
        if mod is None or not (name.split(".")[0] in ("zarr", "marEx", "dask", "distributed", "xarray")):
            continue
        d = getattr(mod, "__dict__", None)
        if not d:
            continue
        for k in [k for k, v in d.items() if v is old]:
            d[k] = new
            hits.append((mod, k))
    return hits


def _sim_persist(*args, **kw):
    c = _cl.active()
    if c is None:
        return _orig["persist"](*args, **kw)
    c.persist_mode = True
    try:
        return _orig["persist"](*args, **kw)
    finally:
        c.persist_mode = False


_static_done = [False]


def install_static():
    """Process-wide seams that are inert outside a run."""
    if _static_done[0]:
        return
    _static_done[0] = True
    import marEx  # noqa: F401
    import marEx.detect  # noqa: F401
    import marEx.helper  # noqa: F401
    import marEx.track  # noqa: F401

    zarr.config.set({"async.concurrency": 1, "threading.max_workers": 1})
    dask.config.set({"optimization.fuse.active": None})
    dask.config.set(scheduler=_cl.sim_get)
    asyncio.to_thread = _inline
    import types

    import numba.core.dispatcher as nd

    used = {}

    def dispatcher_uuid():
        # numba numbers a function when it is first pickled, for the life of the process: name it after the function instead
        f = getattr(sys._getframe(1).f_locals.get("self"), "py_func", None)
        n = f"{getattr(f, '__module__', '')}.{getattr(f, '__qualname__', '')}"
        used[n] = used.get(n, -1) + 1
        return uuid.uuid5(uuid.NAMESPACE_OID, f"{n}/{used[n]}")

    nd.uuid = types.SimpleNamespace(uuid4=dispatcher_uuid)
    _patch_everywhere(_orig["sync"], _sim_sync)
    _patch_everywhere(_orig["persist"], _sim_persist)
    _patch_everywhere(_orig["wait"], _cl.sim_wait)
    distributed.client.wait = _cl.sim_wait
    import marEx.logging_config as lc

    quiet_logs()


def quiet_logs():
    import logging

    lg = logging.getLogger("marEx")
    for h in list(lg.handlers):
        lg.removeHandler(h)
    lg.addHandler(logging.NullHandler())
    lg.propagate = False
    for n in ("distributed", "flox", "asyncio"):
        logging.getLogger(n).setLevel(logging.CRITICAL)


@contextlib.contextmanager
def simulation(sim: Sim, root: str):
    """Run marEx code inside the simulated world."""
    install_static()
    os.makedirs(root, exist_ok=True)
    cl = _cl.Cluster(sim)
    cl._ever, cl._last = set(), {}
    _cl._REFS.clear()
    disk = Disk(sim, root, cl)
    sim.cluster, sim.disk = cl, disk
    np.random.seed(sim.seed % (1 << 32))
    random.seed(sim.seed)
    _cl._ACTIVE[0] = cl

    def uuid4():
        # one stream per calling package: compilers draw some only on first use
        return uuid.UUID(hex=sim.uuid_hex(sys._getframe(1).f_globals.get("__name__", "").split(".")[0]), version=4)

    def sleep(s):
        sim.now += float(s)
        sim.stats["virtual_sleep_s"] += float(s)

    def clock():
        # only marEx's own readings are fault sites: how often compilers and libraries ask depends on what ran before
        own = sys._getframe(1).f_globals.get("__name__", "").startswith("marEx")
        f = sim.fault("clock") if own else None
        if f is not None:
            sim.clock_skew += ((f["arg"] % 2001) - 1000) * 3.6
        sim.now += 1e-6
        return 1.0e9 + sim.now + sim.clock_skew

    uuid.uuid4 = uuid4
    time.sleep = sleep
    time.perf_counter = clock
    time.time = clock
    disk.install()
    try:
        yield cl
    finally:
        disk.uninstall()
        uuid.uuid4 = _orig["uuid4"]
        time.sleep = _orig["sleep"]
        time.perf_counter = _orig["perf"]
        time.time = _orig["time"]
        _cl._ACTIVE[0] = None


def restart(sim: Sim):
    """Client process comes back: memory is gone, files stay."""
    sim.crashed = False
    cl = _cl.Cluster(sim)
    cl._ever, cl._last = set(), {}
    _cl._REFS.clear()
    sim.cluster = cl
    sim.disk.cluster = cl
    sim.disk.full = 0
    sim.disk._pending_after.v = False
    _cl._ACTIVE[0] = cl
    sim.log("restart")
    sim.stats["restarts"] += 1
