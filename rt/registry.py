"""Generators and runners per property."""
import cases as A
import cases2 as C

GEN, RUN = {}, {}
for _p in A.SIM:
    GEN[_p], RUN[_p] = A.sim_gen(_p), A.sim_run(_p)
for _p in ("C09", "C10", "C11"):
    GEN[_p], RUN[_p] = A.failures_gen(_p), A.run_failures
for _p, _m in (("C06", A), ("C08", A), ("C12", C), ("C13", C), ("C14", C), ("C15", C), ("C16", C)):
    GEN[_p], RUN[_p] = getattr(_m, "gen_" + _p), getattr(_m, "run_" + _p)

RULE = ("seeded random valid models of 2-6 nodes (PerformanceModel and FlexModel, parallel links, ties, several name "
        "styles) with histories of failures and configuration changes, or attribute/file tables; a case is "
        "non-trivial when it has at least two links (or rows, or values) and is counted once by content")


def nontrivial(c):
    return len(c.get("links", c.get("rows", c.get("vals", [])))) >= 2


def is_known(pid, case, bad):
    return None
