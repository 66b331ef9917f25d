"""Writes properties.jsonl and MANIFEST.json from one table (run by hand; both are committed)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TR, DE, HE, PB = "marEx/track.py", "marEx/detect.py", "marEx/helper.py", "marEx/plotX/base.py"
P = []
NA = []


def prop(pid, title, statement, over, text, why, files, mech, observe, note, technique=None):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, note=note,
                  technique=technique or "deterministic simulation with fault injection: seeded schedules and faults, reference model"))


BASE = ("Seeded search, not proof. Real marEx, dask graphs, xarray, numba and zarr run in one process; the dask scheduler, workers, zarr's event loop, "
        "the clock and the disk below the scratch root are simulated. Trusts the reference model in sim/ and that numeric kernels are atomic between disk operations. ")

exec(open(os.path.join(V, "tools", "props_table.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["pid"]
        f.write(json.dumps(dict(
            id=p["pid"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p["observe"], hook_needed=None),
        )) + "\n")
    for p in NA:
        f.write(json.dumps(p["prop"]) + "\n")
m = dict(
    version=1, setup_cmd="bash setup.sh",
    checks=[dict(property=p["pid"], quick_cmd=f"bash check.sh {p['pid']} --tier quick", thorough_cmd=f"bash check.sh {p['pid']} --tier thorough",
                 technique=p["technique"], level="exploration", level_note=BASE + p["note"], evidence_file=f"evidence/{p['pid']}.json") for p in P],
    not_applicable=[dict(property=p["prop"]["id"], reason=p["reason"]) for p in NA],
    notes="No hooks in /repo: every seam is an existing one (dask scheduler, zarr store, Python file operations, time, uuid). Findings: KNOWN_FINDINGS.txt.",
)
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(P), "claimed,", len(NA), "not applicable")
