"""DESIGN.md from DESIGN.in.md, levels.json, known_findings.jsonl, seeded/*/meta.json and the manifest"""
import json, glob, os
H = os.path.dirname(os.path.abspath(__file__))
P = [json.loads(l) for l in open(H + "/properties.jsonl")]
L = json.load(open(H + "/levels.json"))
M = json.load(open(H + "/MANIFEST.json"))
W = {
 "C01": ("`utils/invertibledict.py`: class invariant `inverse = transpose(map)` after construction, every mutation and view, for every history; aliasing between the dictionary and its inverse is modelled.",
         "random operation histories against a relation"),
 "C02": ("`AbstractMDP/AbstractMarkovModel/MDP/DTMC` constructors and checks: the constructor returns iff the matrix is well formed (entries, row sums, one row per index, rewards), raises AssertionError otherwise, and stores exactly the arguments.", "malformed and well-formed models"),
 "C03": ("`utils/graph.pyx`, through Cython's parser: constructor, `add_successor`, `successors`, `predecessors` against the matrix; the bidirectional lists mirror the non-zero entries with their values.", "all queries against the dense matrix, ≤ 40 states"),
 "C04": ("`Graph.reachable`: worklist invariant (visited ⊆ reachable; successors of processed states are visited).", "against Floyd–Warshall-style closure, all directions, block sets, modes, ≤ 30 states"),
 "C05": ("Tarjan in `graph.pyx` (iterative stack, C arrays): a proof needs the full DFS-stack invariant with ghost white-path arguments; not attempted in the time. Bounded.", "against mutual reachability, random and structured graphs ≤ 60 states"),
 "C06": ("`maximal_end_components`: iterated SCC refinement; depends on C05 and a termination/fixpoint argument. Bounded.", "against brute-force end components ≤ 9 states and a textbook algorithm ≤ 40"),
 "C07": ("`ReachabilityForm.reduce`/constructor: the reduced model satisfies `_check_consistency` (target/fail rows, initial, no unreachable or useless state), relative to contracts of `reachable` (C04) and `reachability form` ops.", "random MDPs/DTMCs"),
 "C08": ("`reduce`: every kept transition, label, reward and the state correspondences are those of the source; removed states' mass goes to fail.", "element-wise comparison through the returned correspondences"),
 "C09": ("`ReachabilityForm._check_consistency` accepts iff the definition holds (both directions).", "mutated reachability forms"),
 "C10": ("`fark_matrix, fark_{z,y}_constraints, fark_constraints`: entry-wise equality with the definition for every threshold, and independence of earlier calls (results of earlier calls are unchanged: frame condition).", "call histories with exact rationals"),
 "C11": ("`certification/certification.py` check functions accept iff the conditions hold (all four mode/sense combinations).", "perturbed certificates"),
 "C12": ("`generate_farkas_certificate`: returned vector satisfies the conditions; None only if the program is infeasible (solver contract).", "against exact optimal probabilities"),
 "C13": ("`solver/milp.py, lp.py, solver.py`: class invariant relating the PuLP program to the entered one, kept by every method (so: for every call history); `solve` solves exactly it.", "random programs against brute force/exact simplex"),
 "C14": ("`formulations.py`, `milpexact.py`, `problemform.py`: groups, upper bounds, indicators and the MILP are those of the definition; value = number of groups touched by the certificate, minimal over all certificates; infeasible only without certificate.", "brute force over subsystems"),
 "C15": ("as C14 plus `qsheur.py` with a loop invariant over all iterations: every reported certificate satisfies the Farkas conditions, every reported subsystem is that certificate's; with a system meeting the threshold only successes are reported, for every initialiser/updater satisfying the contract proved in C19.", "all initialisers/updaters/labels on random systems"),
 "C16": ("`problem/subsystem.py`: masks, `subsys`, renumbering, labels, reward and fail mass against the definition.", "element-wise comparison"),
 "C17": ("`save`/`load` in `abstractmdp.py` and subclasses.", "round trips of random models incl. labels, rewards, odd names and 17-digit probabilities"),
 "C18": ("`from_stormpy`, `from_prism_model` loaders: stormpy is absent; its interface is replaced by a stand-in recording object.", "stand-in stormpy models"),
 "C19": ("`qsheurparams.py`: weights of all initialisers and updaters equal their definitions for every group structure and result vector.", "random results and groupings"),
 "C20": ("`RewardReachabilityForm`: constructor, reduce part, Farkas constraints with rewards.", "exact expected rewards"),
 "C21": ("`pr_min, pr_max, _pr...`: the LP posed is the one whose optimum is the extremal fixed point; returned vector assembled correctly.", "exact value iteration/policy enumeration"),
 "C22": ("`digraph()`: nodes and edges drawn are exactly the model's.", "DOT source parsed back and compared"),
}
rows = ["| id | title | level | functions and contract | falsifier / bounded check |", "|---|---|---|---|---|"]
for p in P:
    if p["id"] in W:
        lv = "proof" if p["id"] in L else "exploration (bounded)"
        a, b = W[p["id"]]
        extra = "" if p["id"] in L else " *(what a proof would state; not discharged)*"
        rows.append("| %s | %s | %s | %s%s | %s |" % (p["id"], p["title"], lv, a, extra, b))
na = ["* %s: %s" % (x["property"], x["reason"]) for x in M["not_applicable"]]
K = [json.loads(l) for l in open(H + "/known_findings.jsonl")]
fx = ["* %s, %s: %s" % (k["property"], k["commit"], k["what"]) for k in K if k["kind"] == "fixed"]
kn = ["* %s (`%s`): %s" % (k["property"], k["input"], k["what"]) for k in K if k["kind"] != "fixed"]
C = json.load(open(H + "/catches.json")) if os.path.exists(H + "/catches.json") else {}
sd = ["| bug | property | breaks | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(H + "/seeded/*/meta.json")):
    i = f.split("/")[-2]
    m = json.load(open(f))
    sd.append("| %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"].replace("|", "/"), C.get(i, "check %s (falsifier)" % m["property"])))
s = open(H + "/DESIGN.in.md").read()
for k, v in (("TABLE", rows), ("NA", na), ("FIXED", fx), ("KNOWN", kn), ("SEEDS", sd)):
    s = s.replace("@@%s@@" % k, "\n".join(v))
open(H + "/DESIGN.md", "w").write(s)
