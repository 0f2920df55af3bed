"""Writes MANIFEST.json and known_findings.jsonl's fixed entries."""
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from r4psim.props import PROPS      # noqa: E402

NOTE = ("Seeded search: no violation in the simulated executions of this run (counts in the evidence file); not a proof. "
        "Real: all of repast4py (Python and the C++ extensions rebuilt from /repo). Stubbed: MPI transport, process scheduling, clocks, "
        "disk faults; numba-compiled functions run as plain Python. ")
TECH = "deterministic simulation of all ranks in one process under a seeded scheduler%s; oracle: %s"
W = {
    "C01": ("", "global reference model of agents, compared after every collective"),
    "C02": ("", "reference model of agent state, compared on owners and ghosts"),
    "C03": ("", "reference model of locations with exact border arithmetic"),
    "C04": ("", "expected buffer contents computed from the global model"),
    "C05": ("", "reference model; removed agents must be absent on every rank"),
    "C06": ("", "reference model of requests and ghosts"),
    "C07": ("", "one global reference graph compared with every rank's graph"),
    "C08": ("", "one global reference graph across rank changes"),
    "C09": (" and file seam", "the generated global graph compared with every rank's part"),
    "C10": ("", "one global array with owners' values compared with every rank's cells"),
    "C11": ("", "executable model of the schedule checked over the recorded event history"),
    "C12": ("", "history check over all ranks' events in global simulation order"),
    "C13": (" and file seam", "rows and reductions computed from the logged history"),
    "C14": (" with disk faults and crashes", "prefix-explained file contents against the logged history"),
    "C15": (" with crash and restart", "refinement: the restored run's trace equals the uninterrupted one"),
    "C16": ("", "equality of complete observable output across differently scheduled executions of one seed and across hash seeds"),
    "C17": ("", "bounded progress and matching collectives, observed by the simulated transport"),
    "C18": ("", "reference occupancy model compared after every operation"),
    "C19": ("", "arithmetic tiling check over all ranks' bounds"),
    "C20": ("", "membership of every projection compared with the context after every step"),
}
FIXED = [l.split(" | ") for l in open(os.path.join(here, "tools", "fixed.txt")).read().splitlines() if l.strip()]
NA = json.load(open(os.path.join(here, "tools", "na.json")))

m = {"version": 1, "setup_cmd": "./check --build",
     "checks": [{"property": p, "quick_cmd": "./check %s" % p, "thorough_cmd": "./check %s --tier thorough" % p,
                 "technique": TECH % W[p], "level": "exploration",
                 "level_note": NOTE + PROPS[p].get("note", "")} for p in sorted(PROPS)],
     "not_applicable": NA,
     "notes": "No hooks in /repo: the seams used are the mpi4py / mpi.h interface, builtins.open and pathlib, time, and the modules' own "
              "random generators. Replay a violation with ./check --replay FILE."}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
known = []
kf = os.path.join(here, "known_findings.jsonl")
if os.path.exists(kf):
    known = [json.loads(l) for l in open(kf) if l.strip()]
    known = [k for k in known if k["status"] == "known"]
with open(kf, "w") as f:
    for k in known:
        f.write(json.dumps(k) + "\n")
    for prop, commit, what in FIXED:
        f.write(json.dumps({"status": "fixed", "properties": prop.split(","), "commit": commit,
                            "line": "fixed: property=%s %s %s" % (prop.split(",")[0], commit, what)}) + "\n")
