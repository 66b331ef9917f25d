ALL = ["inputs", "configurations", "schedules", "fault_sequences"]
prop(
    "C01", "Cleaning of structured-grid extremes: fill, close gaps, drop small objects",
    "On a structured grid the cleaned binary field is exactly: spatial holes closed and specks opened with a disk of the fill radius (longitude periodic on "
    "global grids, edges continued elsewhere), gaps of at most T_fill empty steps between two occurrences of a cell filled, masked cells never set, and every "
    "8-connected object (per step, periodic in longitude on global grids) smaller than the absolute or percentile area threshold removed while every object of "
    "at least that size is kept. The returned statistics (total object area, object counts before and after, area threshold, accepted and preprocessed area "
    "fractions) describe exactly that field. This holds for every chunking of the input, every task order, and any loss of workers.",
    ALL, "all binary fields, masks, fill radii, even gap lengths, filters, chunk layouts; all task orders and worker losses",
    "The tests compare a few object counts and fractions on two fixed fields under one local cluster; edges, seams, masks, single-step chunks and recomputed "
    "tasks are reached only by chance.",
    [TR], [("fill_holes", TR), ("fill_time_gaps", TR), ("filter_small_objects", TR), ("run_preprocess", TR)],
    ["tracker.run_preprocess()", "tracker.run()"],
    "Fields up to 14x20x12. The known finding first-object-dropped is accepted only where the whole field equals the model with exactly the first object removed.")
prop(
    "C02", "Structured-grid tracking without merging finds the connected space-time events",
    "Without merging, the event field labels exactly the cells of the cleaned field, and two cells carry the same event number if and only if a chain of "
    "touching cells (including diagonals, in space and time, and across the date line on global grids only) joins them. Event numbers are 1..N and N is "
    "reported. This holds for every chunking, task order and loss of workers.",
    ALL, "all cleaned fields, global and regional, all chunk layouts, task orders and worker losses",
    "Tests check counts on one fixed dataset in one chunking; events crossing chunk boundaries and the seam at once are sampled once.",
    [TR], [("identify_objects", TR), ("track_objects", TR)], ["tracker.run()"], "Fields up to 14x20x12.")
prop(
    "C03", "Structured-grid tracking with merging equals the sequential split-and-merge rule",
    "With merging, each step's objects are linked to the previous step's when they share at least the overlap threshold of the smaller one; an object with "
    "several such parents is divided among them (nearest parent cell, or nearest parent centre, periodic in longitude on global grids) and the pieces of one "
    "parent are unified, going forward in time. Linked objects form one event, unlinked ones never do, and every division is recorded as one merger. The "
    "result is the same for every chunking, task order and loss of workers.",
    ALL, "all cleaned fields, thresholds, both partition rules, all chunk layouts, task orders and worker losses",
    "Tests assert event counts within tolerance on two fixed datasets; the division itself is never compared with anything.",
    [TR], [("split_and_merge_objects", TR), ("consolidate_object_ids", TR), ("partition_nn_grid", TR), ("enforce_overlap_threshold", TR)],
    ["tracker.run()"], "Scenarios where a centroid tie makes the division undetermined are skipped and counted.")
prop(
    "C04", "The event table of a structured grid describes the event field exactly",
    "For every event and time the returned presence, area (sum of its cells' areas), area-weighted centre (correct across the date line), first and last time, "
    "object number and event count are those of the returned event field, absent entries are empty, event numbers are 1..N, and the result keeps the caller's "
    "coordinates, time axis and attributes. This holds for supplied cell areas, a grid resolution or unit areas, degrees or radians, any dimension names or "
    "order, and every chunking, task order and loss of workers.",
    ALL, "all fields, area conventions, coordinate units, chunk layouts; all task orders and worker losses",
    "Tests check that variables exist and a few sums; centres and areas of individual events are never recomputed from the field.",
    [TR], [("calculate_object_properties", TR), ("cluster_rename_objects_and_props", TR), ("run_stats_attributes", TR), ("_remap_coordinates", TR)],
    ["Dataset returned by tracker.run()"], "Fields up to 14x20x12, rarely 4x320.")
prop(
    "C05", "Recorded mergers and the merge ledger equal what happened (structured grids)",
    "Every merger is reported exactly once with its time, its parents (objects existing one step earlier), its children, the counts of both and the area each "
    "parent shares with the merged object; and for every event and time the merge ledger lists exactly the events it merges with then, and nothing where it "
    "does not merge. This holds for every chunking, task order and loss of workers.",
    ALL, "all histories with mergers of two or more objects, also several at one time; all layouts, task orders and worker losses",
    "Tests only check the ledger's shape and a few totals.",
    [TR], [("split_and_merge_objects", TR), ("cluster_rename_objects_and_props", TR)], ["merge_ledger", "run(return_merges=True)"],
    "Mergers are matched as multisets, so the order of merge records is free.")
prop(
    "C06", "Structured-grid tracking does not depend on chunking, schedule or lost workers",
    "Two runs of the tracker on the same structured field return the same events, tables, mergers and attributes, whatever the time and space chunks of the "
    "inputs, the number of workers, the order tasks run in, which workers are lost or which tasks run twice, and whether persisted results are computed early, "
    "late or again.",
    ["inputs", "configurations", "schedules", "fault_sequences"], "all fields; all pairs of chunk layouts; all schedules and worker losses",
    "Tests run one chunking on one healthy local cluster.",
    [TR], [("_validate_spatial_chunking", TR), ("refresh_dask_graph", TR), ("consolidate_object_ids", TR), ("run", TR)], ["tracker.run()"],
    "The reference execution is marEx itself in one chunk on one worker without faults.")
prop(
    "C07", "Cleaning of unstructured-mesh extremes: fill, close gaps, drop small objects",
    "On a triangular mesh the cleaned field is exactly: closing then opening by the fill radius over cell edges (masked cells count as filled while closing), "
    "gaps of at most T_fill empty steps filled, masked cells cleared, and objects connected over cell edges removed if and only if they are smaller than the "
    "absolute or percentile area threshold; the returned statistics describe that field. This holds for every chunking, task order and loss of workers.",
    ALL, "all meshes' fields, masks, radii, gaps and filters; all chunk layouts, task orders and worker losses",
    "Tests check a few fractions on one fixed mesh dataset.",
    [TR], [("fill_holes", TR), ("sparse_bool_power", TR), ("filter_small_objects", TR), ("identify_objects", TR)], ["tracker.run_preprocess()"],
    "Meshes of 80..640 triangles, periodic in longitude.")
prop(
    "C08", "Mesh tracking with merging equals the sequential rule under any schedule",
    "On a mesh, tracking with merging produces the events and the number of mergers of the sequential split-and-merge rule (overlap threshold on cell areas, "
    "division by spreading from the parents over cell edges or by nearest parent centre), whatever the order and interleaving of the parallel tasks that share "
    "the scratch store, which workers are lost before, during or after a task, and how often tasks are repeated.",
    ALL, "all mesh fields, thresholds, partition rules; all interleavings of the tasks' disk operations; all worker losses and repeated tasks",
    "Tests run one mesh dataset on one healthy cluster; interleaved store updates and recomputation after a loss never occur.",
    [TR], [("split_and_merge_objects_parallel", TR), ("update_object_id_field_zarr", TR), ("partition_nn_unstructured", TR), ("partition_centroid_unstructured", TR)],
    ["tracker.run()"], "Known finding: with several time chunks merging at chunk boundaries follows the chunk-wise rule; accepted only if equal to that exact model.")
prop(
    "C09", "The event table and merge ledger of a mesh describe its event field exactly",
    "For every event and time on a mesh the returned presence, area, area-weighted centre on the sphere, first and last time, numbering, counts and attributes "
    "are those of the returned event field, every merger is reported once with its true time, parents, children and shared areas, and the ledger lists exactly "
    "the partners of each merging event. This holds for every task interleaving and loss of workers.",
    ALL, "all mesh fields and parameters; all interleavings, worker losses and repeated tasks",
    "Tests check shapes and existence.",
    [TR], [("calculate_object_properties", TR), ("cluster_rename_objects_and_props", TR), ("split_and_merge_objects_parallel", TR)],
    ["Dataset returned by tracker.run()"], "Ledger compared when the event field equals the model's (C08 judges it otherwise).")
prop(
    "C10", "Anomalies are the data minus the documented baseline; gaps are refused",
    "The anomalies returned by preprocess_data and compute_normalised_anomaly are the data minus exactly the documented baseline of the chosen method: polynomial "
    "trend with annual and semi-annual harmonics, day-of-year mean over all years, both in turn, or the mean of the smoothed data on the same day of the year over "
    "the preceding window of years (years without a full window are dropped, or left empty by compute_normalised_anomaly and rolling_climatology). The optional "
    "standardised anomalies divide by the 30-day-smoothed standard deviation of that day of the year. The mask is where the first step has data, coordinates and "
    "time axis are the input's, and data with a missing or infinite value at any later step of an unmasked cell are refused. This holds for every chunking in time "
    "and space, dimension order, task order and loss of workers.",
    ALL, "all daily, two-daily, half-daily and gappy series (any start day, leap years, masks), methods and their parameters, chunk layouts; all task orders and worker losses",
    "The tests look at ranges, shapes and a few means of one dataset; no anomaly is ever recomputed independently, and only one chunking is used.",
    [DE], [("preprocess_data", DE), ("compute_normalised_anomaly", DE), ("rolling_climatology", DE), ("_compute_anomaly_detrended", DE), ("_validate_data_values", DE)],
    ["preprocess_data()", "compute_normalised_anomaly()", "rolling_climatology()", "smoothed_rolling_climatology()"],
    "Series of 1.1..3.6 years, up to 30 cells; anomalies compared with float64 models up to float32 rounding.")
prop(
    "C11", "Thresholds are the stated percentiles; extremes are exactly what reaches them",
    "The thresholds of identify_extremes and preprocess_data are the stated percentile of the anomalies: over all times per cell, or per day of the year over the "
    "window of days (cyclic at the year's end for histograms) and, where asked, the window of cells (periodic in longitude) around it; exactly, or from histograms "
    "with the stated bin width and range, interpolated, and never below the smallest positive bins. A step is extreme if and only if its anomaly is at least the "
    "threshold of its cell (and day); masked cells have no threshold and no extremes. This holds for every chunking, task order and loss of workers.",
    ALL, "all anomaly fields, percentiles, windows, bin widths and ranges, chunk layouts; all task orders and worker losses",
    "The tests check that roughly the right share of values is extreme on one dataset in one chunking.",
    [DE], [("identify_extremes", DE), ("_identify_extremes_hobday", DE), ("_compute_histogram_quantile_1d", DE), ("_compute_histogram_quantile_2d", DE),
           ("_rolling_histogram_quantile", DE), ("_identify_extremes_constant", DE)],
    ["identify_extremes()", "preprocess_data()"],
    "As built, a cell with a missing anomaly (any, for global histograms; the first, for day-of-year histograms) has no threshold; values above max_anomaly are not counted.")
prop(
    "C12", "Detection does not depend on chunking, schedule or lost workers",
    "preprocess_data and identify_extremes return the same result for the same data, whatever the order tasks run in, which workers are lost and recompute, and "
    "whether persisted results are computed early, late or twice (equal to the bit for the same chunks); and whatever the chunks in time and space, the order of "
    "the dimensions and the use of scratch checkpoints, thresholds and extremes of given anomalies are the same, and anomalies are the same up to rounding.",
    ALL, "all pairs of layouts and schedules, all worker losses",
    "Tests use one layout and one healthy local cluster.",
    [DE, HE], [("preprocess_data", DE), ("identify_extremes", DE), ("checkpoint_to_zarr", HE), ("fix_dask_tuple_array", HE)],
    ["preprocess_data()", "identify_extremes()"], "Two runs compared; absolute values are judged by C10 and C11.")
prop(
    "C13", "A loaded tracking checkpoint is one complete saved state, whatever crashed",
    "Loading a preprocessing checkpoint returns exactly the cleaned field and the statistics of the last completed save into that directory, and tracking "
    "can continue from it. If a later save was interrupted by a crash, a torn write or a disk error at any point, a load fails or returns one complete "
    "state (the earlier or the newer), never data of one save with statistics of another and never a partial field; a save after the faults always succeeds.",
    ["crash_points", "histories", "fault_sequences", "schedules"], "all histories of saves and loads over several fields; all crash points, torn writes and disk errors",
    "The one checkpoint test saves and loads once, without any failure.",
    [TR], [("run_preprocess (checkpoint save/load)", TR)], ["tracker.run_preprocess(checkpoint=...)", "tracker.run(checkpoint=...)"],
    "Crash = process killed: completed writes survive, buffered and torn ones do not; power loss that reorders completed writes is not modelled.")
prop(
    "C14", "Scratch checkpoints of detection are transparent and survive faults",
    "What checkpoint_to_zarr returns equals what it was given (values, missing values, types, dimensions, coordinates, attributes), for any chunking, for several "
    "checkpoints of equal names in one directory and in whatever order they are read, and with cleanup nothing is left behind. preprocess_data with scratch "
    "checkpoints equals preprocess_data without. If writing fails (disk full, I/O error, torn write) the result is still right or an error is raised, never "
    "silently different data, and after a crash a repetition on the same directory succeeds.",
    ["inputs", "crash_points", "fault_sequences", "schedules"], "all arrays and datasets, chunk layouts and names; all disk errors, torn writes, crashes, worker losses and schedules",
    "No reliable test exercises checkpoint_to_zarr at all.",
    [HE, DE], [("checkpoint_to_zarr", HE), ("use_temp_checkpoints", DE)], ["checkpoint_to_zarr()", "preprocess_data(use_temp_checkpoints=True)"],
    "Crash = process killed: completed writes survive.")
prop(
    "C15", "Under hard faults a job fails loudly or is right, and a retry succeeds",
    "If a task fails for good, memory runs out, a worker is given up, the disk is full or failing or the client is killed during detection or tracking (structured or mesh), "
    "the call raises an error or returns exactly the fault-free result, never a partial or different one; and repeating the call without faults, in the same "
    "process and on the same scratch directory, succeeds and returns the fault-free result.",
    ["inputs", "fault_sequences", "crash_points", "schedules"], "all jobs; all points at which tasks, memory, disk operations or the client fail; up to three failed attempts in a row",
    "No test lets anything fail while a graph is running.",
    [TR, DE, HE], [("split_and_merge_objects_parallel", TR), ("update_object_id_field_zarr", TR), ("checkpoint_to_zarr", HE), ("preprocess_data", DE), ("run", TR)],
    ["tracker.run()", "preprocess_data()"], "The fault-free result is marEx's own on one worker; its values are judged by C01..C11.")
prop(
    "C16", "Repeated and mixed calls in one process agree and never change inputs",
    "Calling the tracker or detection again with the same objects returns the same result as the first call, whatever other calls were made in between and in "
    "whatever order the (lazy) results are read, singly or together; and no call changes the data, mask, areas, neighbours, attributes, chunks, option lists or "
    "dictionaries it was given.",
    ["histories", "inputs", "schedules", "fault_sequences"], "all sequences of detection and tracking calls over several data sets; all orders of reading lazy results; all schedules and worker losses",
    "Tests build fresh inputs for each call and read each result at once.",
    [TR, DE], [("__init__", TR), ("run", TR), ("preprocess_data", DE), ("compute_normalised_anomaly", DE)], ["tracker.run()", "preprocess_data()", "the caller's objects"],
    "Up to five calls of up to three jobs per history.")
prop(
    "C17", "Leftovers in the scratch directory never affect a result",
    "A detection or tracking job returns what it returns on an empty scratch directory, whatever earlier jobs on other fields, grids, sizes or kinds left there, "
    "completed, failed or killed at any point; and a job without faults of its own never fails because of what it finds.",
    ["histories", "crash_points", "fault_sequences", "inputs"], "all sequences of jobs sharing a scratch directory, each possibly killed or failing at any disk operation",
    "Tests use fresh temporary directories and never crash.",
    [TR, HE], [("split_and_merge_objects_parallel", TR), ("checkpoint_to_zarr", HE), ("run_preprocess", TR)], ["tracker.run()", "preprocess_data()"],
    "Jobs run one after another (two concurrent jobs sharing a mesh scratch store are outside the documented use).")
prop(
    "C18", "An animation shows every step once, in order, whatever the schedule or fault",
    "The movie animate() returns holds exactly one frame per time step, in time order, at the requested rate; each frame shows that step's data, date, outlines and "
    "centres with the common colours, whatever order or threads frames are drawn in, which workers are lost, and which other animations are made before, after or "
    "at the same place. If drawing, writing or encoding fails, the call raises, never returning a movie with missing, repeated, mixed or unreadable frames; "
    "repeating it succeeds, and a completed call leaves no frames behind.",
    ["inputs", "schedules", "fault_sequences", "histories", "crash_points"], "all fields and grids; all orders and interleavings of drawing frames; all worker losses, disk errors, encoder failures and crashes",
    "No reliable test makes an animation (it needs ffmpeg and cartopy data).",
    [PB], [("animate", PB), ("make_frame", PB)], ["plotX.animate()", "the movie file"],
    "Rendering of pixels and ffmpeg are stubbed: figures are described by what was drawn on them, and the stub encoder reads the frame files ffmpeg would read.")
