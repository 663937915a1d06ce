"""C14: exact minimisation (the contracts of specs/c15.py that the exact method depends on)"""
from specs.c15 import *
UNITS = [Unit("actions_by_state", [AM + ":AbstractMDP.actions_by_state"], u_actions)] + [u_size(m) for m in ("min", "max")] + \
    [u_groups(m, l, a) for m, l, a in (("min", False, False), ("min", True, False), ("max", False, False), ("max", False, True), ("max", True, True), ("max", True, False), ("min", False, True), ("min", True, True))] + \
    [u_bounds(w) for w in ("one action each", "several actions")] + [u_ind(True, "binary")] + [u_milp(m, False) for m in ("min", "max")] + \
    [u_exact(m, h) for m in ("min", "max") for h in (True, False)] + [u_entry("MILPExact", MX, f, d) for f in ("solve", "solveiter") for d in ("min", "max")]
