"""Which class decides which property, and how much of it is explored."""

CHECKS = {}
BUDGET = {}
HANG_S = 420.0
MINIMISE_S = {"quick": 45, "thorough": 240}


def reg(pid, module, cls, quick, thorough):
    CHECKS[pid] = (module, cls)
    BUDGET[pid] = {"quick": quick, "thorough": thorough}


REAL = [
    "all of marEx (detect, track, helper, plotX) imported from /repo's working tree",
    "dask graph construction and optimisation, xarray, flox, numba, scipy, dask_image, zarr 3 codecs and store layout",
]
STUB = [
    "dask/distributed scheduler and workers (simulated: seeded order, worker loss, lineage recomputation, serialised transfers)",
    "zarr's event loop and thread pool (driven synchronously)",
    "file operations below the scratch root (real files behind a fault-injecting seam)",
    "time, sleep, uuid4, numpy/random global generators",
]
ASSUMPTIONS = [
    "a simulated task is atomic except at disk operations (numpy/numba kernels release no intermediate state)",
    "input fields are small (up to about 20x20 cells or 224 triangles, 12 steps); rare larger fields are included where stated",
]

reg("C01", "gridded", "Preprocess", (1500, 95), (20000, 3000))
reg("C02", "gridded", "Label3D", (1300, 95), (20000, 3000))
reg("C03", "gridded", "Merging", (750, 95), (20000, 3000))
reg("C04", "gridded", "EventTable", (650, 95), (20000, 3000))
reg("C05", "gridded", "Ledger", (700, 95), (20000, 3000))
reg("C06", "gridded", "Layout", (450, 95), (20000, 3000))
reg("C07", "mesh", "MeshPreprocess", (1000, 95), (20000, 3000))
reg("C08", "mesh", "MeshTracking", (420, 95), (20000, 3000))
reg("C09", "mesh", "MeshTable", (420, 95), (20000, 3000))
reg("C10", "detection", "Anomalies", (900, 95), (20000, 3000))
reg("C11", "detection", "Extremes", (420, 95), (20000, 3000))
reg("C12", "detection", "DetectLayout", (400, 95), (20000, 3000))
reg("C13", "history", "Checkpoints", (550, 95), (20000, 3000))
reg("C14", "scratch", "ScratchCheckpoints", (650, 95), (20000, 3000))
reg("C15", "faults", "HardFaults", (400, 95), (20000, 3000))
reg("C16", "faults", "CallHistory", (300, 95), (20000, 3000))
reg("C17", "faults", "Leftovers", (300, 95), (20000, 3000))
reg("C18", "movie", "Movie", (500, 95), (20000, 3000))
