"""Which simulated workloads decide which property, and how much of each a tier runs."""
from .runner import hash_seeds


def S(wl, focus, q, t, qcap=45, tcap=500):
    return {"wl": wl, "focus": focus, "quick": {"count": q, "cap": qcap}, "thorough": {"count": t, "cap": tcap}}


PROPS = {
    "C01": {"specs": [S("spatial", None, 1500, 40000), S("spatial", "remove", 600, 12000), S("network", "move", 400, 9000)]},
    "C02": {"specs": [S("spatial", "ghost", 1200, 30000), S("spatial", "request", 600, 15000), S("network", None, 500, 12000)]},
    "C03": {"specs": [S("spatial", None, 1800, 45000)]},
    "C04": {"specs": [S("spatial", "ghost", 2000, 50000)]},
    "C05": {"specs": [S("spatial", "remove", 1300, 35000), S("network", "gone", 1100, 25000)]},
    "C06": {"specs": [S("spatial", "request", 1500, 35000), S("network", None, 700, 18000)]},
    "C07": {"specs": [S("network", "edit", 1300, 30000), S("network", None, 1000, 25000)]},
    "C08": {"specs": [S("network", "move", 2000, 45000)]},
    "C09": {"specs": [S("netfile", None, 2000, 60000)]},
    "C10": {"specs": [S("valuelayer", None, 700, 18000)]},
    "C11": {"specs": [S("sched", None, 1500, 40000)]},
    "C12": {"specs": [S("sched", "rank", 1500, 40000)]},
    "C13": {"specs": [S("logfile", None, 1500, 40000)]},
    "C14": {"specs": [S("logfile", "faults", 1300, 35000), S("logfile", "crash", 1000, 25000)]},
    "C15": {"specs": [S("ckpt", None, 900, 25000)]},
    "C16": {"specs": [S("repro", None, 700, 20000), S("ckpt", None, 150, 3000)], "determinism_is_property": True,
            "extra": hash_seeds(S("repro", None, 0, 0), {"quick": 40, "thorough": 400})},
    "C17": {"specs": [S("collective", None, 500, 12000), S("spatial", "request", 200, 5000), S("spatial", "remove", 200, 5000), S("network", "move", 200, 5000),
                      S("network", "edit", 200, 5000), S("sched", None, 200, 5000), S("logfile", None, 200, 5000),
                      S("netfile", None, 150, 4000), S("valuelayer", None, 100, 2500), S("ckpt", None, 60, 1500), S("repro", None, 60, 1500)]},
    "C18": {"specs": [S("spatial", "query", 1800, 45000)]},
    "C19": {"specs": [S("topology", None, 1500, 60000), S("spatial", None, 900, 25000)]},
    "C20": {"specs": [S("spatial", "remove", 800, 20000), S("spatial", None, 800, 20000), S("network", None, 400, 10000)]},
}
