"""Runtime contracts C13-C22."""
from props import *
from props import REG, prop, raises, quiet, make_rf, rf_info, THR, key


# ------------------------------------------------------------------------------------------------ C13
@prop("C13")
class C13:
    rule = "random programs built by coefficients or by random sequences of add/bound/constraint/remove/objective operations, compared with the recorded operations through a recording stand-in for the external solver, a tenth also solved and compared with HiGHS; non-trivial = at least two constraints"

    def gen(rng, cx):
        cls = rng.choice(["MILP", "MILP", "LP"])
        c = dict(cls=cls, obj=rng.choice(["min", "max"]), real=rng.random() < 0.1, solver="cbc" if rng.random() < 0.8 else "glpk")
        coef = lambda: rng.choice([1, -1, 2, 0.5, -3, 1.25, 0, 4])
        n = rng.randint(1, 5)
        if cls == "LP":
            doms = ["real"] * n
        else:
            doms = [rng.choice(["real", "real", "integer", "binary"]) for _ in range(n)]
        if rng.random() < 0.4:
            k = rng.randint(1, 5)
            A = [[coef() if rng.random() < 0.7 else 0 for _ in range(n)] for _ in range(k)]
            for j in range(n):   # keep it bounded mostly
                if rng.random() < 0.9:
                    A.append([1 if i == j else 0 for i in range(n)])
                    A.append([-1 if i == j else 0 for i in range(n)])
            sense = rng.choice(["<=", "<=", ">="])
            b = [rng.choice([0, 1, 2, 5, -1, 3.5]) for _ in range(k)]
            while len(b) < len(A):
                b.append(rng.choice([1, 2, 5]) * (1 if sense == "<=" else -1))
            c.update(how="coef", A=A, b=b, opt=[coef() for _ in range(n)], doms=doms, sense=sense, fmt=rng.choice(["dense", "csr", "dok", "csrz"]),
                     bounds=[[rng.choice([0, None, -2, 0.5]), rng.choice([None, 3, 6.5, 0])] for _ in range(n)] if cls == "MILP" and rng.random() < 0.5 else None)
            if c["bounds"]:
                for d, bd in zip(doms, c["bounds"]):
                    if d != "real":
                        bd[0], bd[1] = (0 if bd[0] == 0.5 else bd[0]), (6 if bd[1] == 6.5 else bd[1])
                    if bd[0] is not None and bd[1] is not None and bd[1] < bd[0]:
                        bd[1] = 7
            return c
        ops, nv, nc = [], 0, 0
        groups = []
        rest = list(doms)
        while rest:
            k = rng.randint(1, len(rest))
            groups.append(rest[:k])
            rest = rest[k:]
        for g in groups:
            if cls == "MILP" and rng.random() < 0.6:
                bs = [[rng.choice([0, None, -2, 1]), rng.choice([None, 3, 6.5])] for _ in g]
                # cbc itself goes wrong on fractional bounds of integer variables
                bs = [[l, 6 if u == 6.5 and d != "real" else u] for d, (l, u) in zip(g, bs)]
                bs = [[l, 0 if u == 3 and d == "binary" and l != 1 else u] for d, (l, u) in zip(g, bs)]
                ops.append(["varsb", [[d] + b for d, b in zip(g, bs)]])
            else:
                ops.append(["vars", g])
            nv += len(g)
            for _ in range(rng.randint(0, 2)):
                vs = rng.sample(range(nv), rng.randint(1, nv))
                ops.append(["con", [[v, coef()] for v in vs], rng.choice(["<=", ">=", "="] if rng.random() < 0.4 else ["<=", ">="]), rng.choice([0, 1, 2, 5, -1, 3.5])])
                nc += 1
            if rng.random() < 0.3:
                ops.append(["obj", [[v, coef()] for v in rng.sample(range(nv), rng.randint(1, nv))]])
            if nc and rng.random() < 0.3:
                ops.append(["rem", rng.randrange(nc)])
            if rng.random() < 0.15:
                ops.append(["solve"])
        for v in range(nv):
            if rng.random() < 0.9:
                ops.append(["con", [[v, 1]], "<=", rng.choice([4, 6, 9])])
                ops.append(["con", [[v, 1]], ">=", rng.choice([0, -3, -8])])
                nc += 2
        rng.shuffle(ops) if False else None
        if nc and rng.random() < 0.4:
            ops.append(["rem", rng.randrange(nc)])
        ops.append(["obj", [[v, coef()] for v in rng.sample(range(nv), nv)]])
        if rng.random() < 0.4:
            ops.append(["solve"])
            ops.append(["obj", [[v, coef()] for v in rng.sample(range(nv), rng.randint(1, nv))]])
            if rng.random() < 0.5:
                ops.append(["con", [[rng.randrange(nv), 1]], "<=", rng.choice([0, 2])])
        c.update(how="ops", ops=ops)
        return c

    def nontrivial(c):
        return c["how"] == "coef" or sum(o[0] == "con" for o in c["ops"]) > 1

    def compare(c, res, V, K, obj, what):
        """res: real SolverResult; V: [(dom,lb,ub)]; K: {idx: (pairs, sense, rhs)}; obj: {var: coeff}"""
        from scipy.optimize import milp, LinearConstraint, Bounds
        n = len(V)
        cvec = np.zeros(n)
        for v, a in obj.items():
            cvec[v] = a
        sg = 1 if c["obj"] == "min" else -1
        lb = np.array([-np.inf if b is None else b for _, b, _ in V], dtype=float)
        ub = np.array([np.inf if b is None else b for _, _, b in V], dtype=float)
        integ = np.array([0 if d == "real" else 1 for d, _, _ in V])
        for i, (d, _, _) in enumerate(V):
            if d == "binary":
                lb[i], ub[i] = max(lb[i], 0), min(ub[i], 1)
        A, lo, hi = [], [], []
        used = set(obj)
        for pairs, s, r in K.values():
            row = np.zeros(n)
            for v, a in pairs:
                row[v] = a
                used.add(v)
            A.append(row)
            lo.append(r if s in (">=", "=") else -np.inf)
            hi.append(r if s in ("<=", "=") else np.inf)
        if (lb > ub).any():
            return None
        kw = {}
        if A:
            kw["constraints"] = LinearConstraint(np.array(A), np.array(lo), np.array(hi))
        # variables without any constraint: the external solvers do not report unboundedness reliably
        loose = any(a != 0 and not any(a2 != 0 and v2 == v for pairs, _, _ in K.values() for v2, a2 in pairs) for v, a in obj.items())
        eps = 1e-5 if c["solver"] == "cbc" else 1e-3      # glpsol prints six digits
        ref = milp(sg * cvec, integrality=integ, bounds=Bounds(lb, ub), **kw)
        if c["solver"] == "glpk" and res.status in ("undefined", "notsolved"):
            return None
        # 0 optimal 2 infeasible 3 unbounded 4 other (infeasible or unbounded)
        if ref.status == 0:
            if res.status != "optimal":
                return "%s: status %s, but the program has an optimal value %s" % (what, res.status, sg * ref.fun)
            if abs(res.value - sg * ref.fun) > eps * (1 + abs(ref.fun)):
                return "%s: value %s, optimum of the entered program is %s" % (what, res.value, sg * ref.fun)
            x = res.result_vector
            if len(x) != n:
                return "%s: %d values for %d variables" % (what, len(x), n)
            x = [xi if i in used else (0 if xi is None else xi) for i, xi in enumerate(x)]
            for i in range(n):
                if i not in used:
                    continue
                if x[i] is None or not (lb[i] - eps <= x[i] <= ub[i] + eps) or (integ[i] and abs(x[i] - round(x[i])) > eps):
                    return "%s: value %s of variable %d (%s in [%s,%s])" % (what, x[i], i, V[i][0], lb[i], ub[i])
            for k, (pairs, s, r) in K.items():
                l = sum(a * x[v] for v, a in pairs)
                if (s in ("<=", "=") and l > r + eps) or (s in (">=", "=") and l < r - eps):
                    return "%s: solution violates constraint %d: %s %s %s" % (what, k, pairs, s, r)
            o = sum(a * x[v] for v, a in obj.items())
            if abs(o - res.value) > eps * (1 + abs(o)):
                return "%s: value %s but the vector has objective %s" % (what, res.value, o)
        return None

    def canon(V, K, obj, sense):
        """the program as a set of normalised constraints (bounds included), integer variables and objective"""
        cons = {}

        def add(pairs, s, r):
            d = {}
            for v, a in pairs:
                d[v] = d.get(v, 0.0) + float(a)
            d = {v: a for v, a in d.items() if a != 0}
            r = float(r)
            if not d:
                if (s == "<=" and 0 <= r) or (s == ">=" and 0 >= r) or (s == "=" and r == 0):
                    return
                cons[()] = -1.0
                return
            for sg in ((1,) if s == "<=" else (-1,) if s == ">=" else (1, -1)):
                top = max(abs(a) for a in d.values())
                k = tuple(sorted((v, round(sg * a / top, 10)) for v, a in d.items()))
                cons[k] = min(cons.get(k, np.inf), round(sg * r / top, 10) + 0.0)
        ints = set()
        for i, x in enumerate(V):
            if x is None:
                continue
            d, l, u = x
            if d != "real":
                ints.add(i)
            if d == "binary":
                l, u = 0 if l is None else max(l, 0), 1 if u is None else min(u, 1)
            if l is not None:
                add([(i, 1)], ">=", l)
            if u is not None:
                add([(i, 1)], "<=", u)
        for pairs, s, r in K:
            add(pairs, s, r)
        sg = 1 if sense == "min" else -1
        return cons, ints, {v: sg * float(a) for v, a in obj.items() if a != 0}

    def handed(p, c, status, V, K, obj, what, solver):
        """let the wrapper solve with a recording stand-in for the external solver; compare what it is given and returned"""
        import pulp
        rec = {}

        def stand_in(self, solver=None, **kw):
            vs = self.variables()
            for i, v in enumerate(vs):
                v.varValue = 1000.0 + i
            rec["vars"] = {1000.0 + i: v for i, v in enumerate(vs)}
            rec["model"] = self
            rec["solver"] = solver or self.solver
            self.status = status
            self.sol_status = status
            return status
        orig = pulp.LpProblem.solve
        pulp.LpProblem.solve = stand_in
        try:
            res = quiet(p.solve, solver=solver)
        finally:
            pulp.LpProblem.solve = orig
        if "model" not in rec:
            return what + ": no program was handed to the solver"
        m = rec["model"]
        if {"cbc": "CBC", "glpk": "GLPK"}[solver] not in type(rec["solver"]).__name__.upper():
            return "%s: solver %s was used instead of %s" % (what, type(rec["solver"]).__name__, solver)
        want_status = {1: "optimal", 0: "notsolved", -1: "infeasible", -2: "unbounded", -3: "undefined"}[status]
        if res.status != want_status:
            return "%s: status %s for solver status %s" % (what, res.status, want_status)
        if len(res.result_vector) != len(V):
            return "%s: %d values for %d variables" % (what, len(res.result_vector), len(V))
        name = {}
        for i, x in enumerate(res.result_vector):
            if x is not None and x != 0 and not (isinstance(x, float) and x != x):
                if x not in rec["vars"] or rec["vars"][x].name in name:
                    return "%s: value %s of variable %d is not the solver's" % (what, x, i)
                name[rec["vars"][x].name] = i
        want = C13.canon(V, K.values(), obj, c["obj"])
        used = set(want[2]) | {v for k in want[0] for v, _ in k if len(k) > 1}
        if not used <= set(name.values()):
            return "%s: no value for variables %s" % (what, sorted(used - set(name.values())))
        gV = [None] * len(V)
        want = C13.canon([x if i in name.values() else None for i, x in enumerate(V)], K.values(), obj, c["obj"])
        for v in m.variables():
            if v.name not in name:
                if any(abs(cn.get(v, 0)) > 0 for cn in m.constraints.values()) or abs(m.objective.get(v, 0)) > 0:
                    return "%s: additional variable %s" % (what, v.name)
                continue
            gV[name[v.name]] = ("integer" if v.cat == pulp.LpInteger else "real", v.lowBound, v.upBound)
        gK = []
        for cn in m.constraints.values():
            gK.append(([(name[v.name], a) for v, a in cn.items() if a != 0], {-1: "<=", 0: "=", 1: ">="}[cn.sense], -cn.constant))
        gO = {name[v.name]: a for v, a in m.objective.items() if a != 0}
        if abs(m.objective.constant) > 0:
            return "%s: the objective has the constant %s" % (what, m.objective.constant)
        got = C13.canon(gV, gK, gO, "min" if m.sense == pulp.LpMinimize else "max")
        val = sum((obj.get(i, 0) or 0) * (res.result_vector[i] or 0) for i in range(len(V)))
        if res.value is None or abs(res.value - val) > 1e-9 * (1 + abs(val)):
            return "%s: value %s of the solution with objective %s" % (what, res.value, val)
        if got[0] != want[0]:
            miss = {k: v for k, v in want[0].items() if got[0].get(k) != v}
            more = {k: v for k, v in got[0].items() if want[0].get(k) != v}
            return "%s: the solver is given the constraints %s instead of %s" % (what, more, miss)
        if got[1] != want[1]:
            return "%s: integer variables %s instead of %s" % (what, sorted(got[1]), sorted(want[1]))
        if got[2] != want[2]:
            return "%s: objective %s (%s) instead of %s" % (what, gO, m.sense, obj)
        return None

    def solved(p, c, V, K, obj, what):
        """a real run on programs with real variables only (cbc itself is unreliable on some small integer programs)"""
        import pulp
        if any(d != "real" for d, _, _ in V) or not c.get("real"):
            return None
        try:
            res = quiet(p.solve, solver=c["solver"])
        except (pulp.PulpSolverError, KeyError):      # the external solver refused a degenerate program
            return None
        return C13.compare(c, res, V, K, obj, what)

    def check(c):
        from switss.solver import MILP, LP
        import scipy.sparse as sp
        rng = random.Random(json.dumps(c, sort_keys=True))

        def judge(p, V, K, obj, what):
            r = C13.handed(p, c, rng.choice([1, 1, 0, -1, -2, -3]), V, K, obj, what, c["solver"])
            return r or C13.solved(p, c, V, K, obj, what)
        if c["how"] == "coef":
            A = np.array(c["A"], dtype=float)
            b = np.array(c["b"], dtype=float)
            opt = np.array(c["opt"], dtype=float)
            if c["fmt"] == "dense":
                AA = A
            else:
                r, q = (np.nonzero(A) if c["fmt"] != "csrz" else (np.repeat(np.arange(A.shape[0]), A.shape[1]), np.tile(np.arange(A.shape[1]), A.shape[0])))
                AA = sp.coo_matrix((A[r, q], (r, q)), shape=A.shape)
                AA = sp.dok_matrix(AA) if c["fmt"] == "dok" else AA.tocsr()
            n = A.shape[1]
            if c["cls"] == "LP":
                p = LP.from_coefficients(AA, b, opt, sense=c["sense"], objective=c["obj"])
            else:
                p = MILP.from_coefficients(AA, b, opt, c["doms"], sense=c["sense"], objective=c["obj"], bounds=c["bounds"])
            V = [(c["doms"][i] if c["cls"] == "MILP" else "real",) + (tuple(c["bounds"][i]) if c["bounds"] else (None, None)) for i in range(n)]
            K = {i: ([(j, A[i, j]) for j in range(n) if A[i, j] != 0], c["sense"], b[i]) for i in range(A.shape[0])}
            return judge(p, V, K, {i: opt[i] for i in range(n)}, "from_coefficients")
        p = (LP if c["cls"] == "LP" else MILP)(objective=c["obj"])
        V, K, obj = [], {}, None
        for i, o in enumerate(c["ops"]):
            what = "after op %d %s" % (i, o)
            if o[0] in ("vars", "varsb"):
                if o[0] == "vars":
                    r = p.add_variables(len(o[1]) if c["cls"] == "LP" else o[1])
                    new = [(d, None, None) for d in o[1]]
                else:
                    r = p.add_variables_w_bounds([tuple(x) for x in o[1]])
                    new = [tuple(x) for x in o[1]]
                want = list(range(len(V), len(V) + len(new)))
                V += new
                if (r != want[0] if len(want) == 1 else list(r) != want):
                    return "%s: returned %s, want %s" % (what, r, want)
            elif o[0] == "con":
                r = p.add_constraint([tuple(x) for x in o[1]], o[2], o[3])
                if r in K:
                    return "%s: index %s is already in use" % (what, r)
                K[r] = ([tuple(x) for x in o[1]], o[2], o[3])
            elif o[0] == "rem":
                ids = sorted(K)
                if ids:
                    k = ids[o[1] % len(ids)]
                    p.remove_constraint(k)
                    del K[k]
            elif o[0] == "obj":
                p.set_objective_function([tuple(x) for x in o[1]])
                obj = dict(map(tuple, o[1]))
            elif o[0] == "solve" and obj is not None:
                r = judge(p, V, K, obj, what)
                if r:
                    return r
        for bad in ([(len(V), 1)], [(-1, 1)]):
            if raises(lambda: p.add_constraint(bad, "<=", 1)) is None:
                return "constraint on a variable that does not exist was accepted"
            if raises(lambda: p.set_objective_function(bad)) is None:
                return "objective on a variable that does not exist was accepted"
        return judge(p, V, K, obj, "at the end")


# ------------------------------------------------------------------------------------------------ C14 / C15
def sub_value(I, keep, mode):
    rows = M.sub_rows(I["rows"], I["N"], keep)
    return M.pr_opt(I["N"], rows, {I["N"] - 2}, mode)[I["init"]]


def brute_min(I, mode, t, groups):
    """least number of groups over all subsystems with value >= t; groups: list of state sets (None: single states)"""
    N = I["N"] - 2
    states = list(range(N))
    gs = [{s} for s in states] if groups is None else [set(g) for g in groups]
    best = None
    for r in range(len(gs) + 1):
        for pick in itertools.combinations(range(len(gs)), r):
            off = set()
            for i in range(len(gs)):
                if i not in pick:
                    off |= gs[i]
            keep = set(states) - off
            if sub_value(I, keep, mode) >= t:
                return r
    return None


@prop("C14")
class C14:
    rule = "small reachability forms (<= 7 states), thresholds around achievable values, with and without label groups; brute force over all subsystems; non-trivial = success with a value below the number of groups"

    def gen(rng, cx):
        m = M.reach_model(rng, nmax=7, rew=False)
        m["mode"] = rng.choice(["min", "max"])
        m["f"] = rng.choice([0.2, 0.5, 0.8, 0.95, 0.99, 1.0, 1.05, 0.3, None])
        m["t"] = rng.choice(THR + [0.05, 0.6])
        m["lab"] = rng.random() < 0.4
        if m["lab"]:
            n = m["n"]
            for i in range(rng.randint(1, 4)):
                m["ls"]["g%d" % i] = sorted(rng.sample(range(n), rng.randint(1, max(1, n - 1))))
        return m

    def nontrivial(c):
        return c["lab"] or c["mode"] == "max"

    def thresh(c, I):
        v = sub_value(I, set(range(I["N"] - 2)), c["mode"])
        t = c["t"] if c["f"] is None else v * c["f"]
        return min(1.0, t), v

    def check(c):
        from switss.problem import MILPExact
        rf = make_rf(c)
        I = rf_info(rf)
        if c["mode"] == "max" and I["ec"]:
            return None
        if I["N"] - 2 > 7:
            return None
        t, v = C14.thresh(c, I)
        labels = sorted(l for l in c["ls"] if l.startswith("g")) if c["lab"] else None
        groups = None if labels is None else [set(rf.system.states_by_label[l]) for l in labels]
        res = quiet(MILPExact("cbc").solve, rf, t, c["mode"], labels=labels)
        lo = brute_min(I, c["mode"], t - 1e-6, groups)
        hi = brute_min(I, c["mode"], t + 1e-6, groups)
        what = "%s form, threshold %s (whole system %s, labels %s)" % (c["mode"], t, v, labels)
        if res.status != "success":
            if hi is not None:
                return what + ": status %s but a subsystem with %d exists" % (res.status, hi)
            return None
        if lo is None:
            return what + ": success but no subsystem meets the threshold"
        if res.value < lo - 1e-6 or (hi is not None and res.value > hi + 1e-6):
            return what + ": value %s, minimum is %s" % (res.value, lo if lo == hi else (lo, hi))
        mask = res.subsystem.subsystem_mask
        keep = {i for i in range(I["N"] - 2) if mask[i]}
        got = sub_value(I, keep, c["mode"])
        if got < t - 1e-5:
            return what + ": returned subsystem %s only reaches %s" % (sorted(keep), got)
        cnt = len(keep) if groups is None else sum(1 for g in groups if g & keep)
        if cnt > res.value + 1e-6:
            return what + ": subsystem has %d, value is %s" % (cnt, res.value)
        if res.farkas_cert is None or not np.array_equal(np.array(res.farkas_cert), np.array(res.subsystem.certificate)):
            return what + ": certificate of the result differs from that of the subsystem"
        return None


@prop("C15")
class C15:
    rule = "reachability forms, thresholds below/at/above the value, all initialisers and updaters, iterations 1-4, label groups, both solvers; every iteration's result is checked; non-trivial = success with at least two iterations"

    def gen(rng, cx):
        m = C14.gen(rng, cx)
        if rng.random() < 0.25:      # a small probability: the target is reached only via a new, rarely taken first step
            n, i0 = m["n"], m["ls"]["init"][0]
            q = 10.0 ** -rng.uniform(3, 4.3)
            m["n"] = n + 2
            m["rows"] += [[n, 0, [[i0, q], [n + 1, 1 - q]]], [n + 1, 0, [[n + 1, 1.0]]]]
            m["ls"]["init"] = [n]
            m["small"] = True    # (the preprocessor of glpsol drops row bounds below 1e-3)
            m["f"] = rng.choice([0.5, 0.8, 0.95, 1.0])
        m["meth"] = rng.choice(["qs", "qs", "qs", "exact"])
        m["init_"] = rng.choice(["AllOnesInitializer", "InverseReachabilityInitializer", "InverseFrequencyInitializer", "InverseCombinedInitializer"])
        m["upd"] = rng.choice(["InverseResultUpdater", "InverseResultFixedZerosUpdater"])
        m["it"] = rng.randint(1, 4)
        m["solver"] = "cbc" if m.get("small") or rng.random() < 0.85 else "glpk"
        return m

    def nontrivial(c):
        return c["meth"] == "qs" and c["it"] > 1

    def check(c):
        import switss.problem as P
        rf = make_rf(c)
        I = rf_info(rf)
        if c["mode"] == "max" and I["ec"] and (c["meth"] == "exact" or c["init_"] != "AllOnesInitializer"):
            return None
        t, v = C14.thresh(c, I)
        labels = sorted(l for l in c["ls"] if l.startswith("g")) if c["lab"] else None
        if labels and any(not rf.system.states_by_label[l] for l in labels):
            labels = [l for l in labels if rf.system.states_by_label[l]] or None
        what = "%s %s form, threshold %s (whole system %s, labels %s, %s/%s)" % (c["meth"], c["mode"], t, v, labels, c["init_"], c["upd"])
        if c["meth"] == "exact":
            h = P.MILPExact("cbc")
        else:
            h = P.QSHeur(iterations=c["it"], initializertype=getattr(P, c["init_"]), updatertype=getattr(P, c["upd"]), solver=c["solver"])
        results = quiet(lambda: list(h.solveiter(rf, t, c["mode"], labels=labels)))
        if not results or len(results) > c["it"] and c["meth"] == "qs":
            return what + ": %d results" % len(results)
        C, N = I["C"] - 2, I["N"] - 2
        for k, r in enumerate(results):
            if r.status == "infeasible" and (k == 0 or c["upd"] == "InverseResultUpdater") and v > t + 1e-5:
                return what + ": iteration %d reports infeasible" % k
            if r.status != "success":
                continue
            x = np.array(r.farkas_cert, dtype=float)
            if x.shape != (N if c["mode"] == "min" else C,):
                return what + ": certificate of length %d" % len(x)
            tol = 1e-5 * max(1.0, np.abs(x).max(initial=0))
            if (x < -tol).any():
                return what + ": iteration %d: negative certificate entry" % k
            if c["mode"] == "min":
                if (I["A"] @ x > I["b"] + tol).any() or x[I["init"]] < t - tol or any(abs(x[s]) > tol for s in I["ec"]):
                    return what + ": iteration %d: certificate %s violates the state-based Farkas conditions" % (k, list(x))
            else:
                e = np.zeros(N); e[I["init"]] = 1
                if (x @ I["A"] > e + tol).any() or x @ I["b"] < t - tol:
                    return what + ": iteration %d: certificate %s violates the state-action-based Farkas conditions" % (k, list(x))
            sub = r.subsystem
            if sub.certform != c["mode"] or not np.array_equal(np.array(sub.certificate, dtype=float), x) or sub.supersys is not rf:
                return what + ": iteration %d: subsystem belongs to another certificate" % k
            keep = {i for i in range(N) if sub.subsystem_mask[i]}
            got = sub_value(I, keep, c["mode"])
            if got < t - 2e-5 * max(1.0, np.abs(x).max(initial=0)):
                return what + ": iteration %d: subsystem %s only reaches %s" % (k, sorted(keep), got)
        if v < t - 1e-4 and any(r.status == "success" for r in results) and C12.cond(I) < 60:
            return what + ": success although the whole system does not meet the threshold"
        return None


# ------------------------------------------------------------------------------------------------ C16
@prop("C16")
class C16:
    rule = "reachability forms and random certificate vectors in both forms (zeros, tiny and negative entries); derived model compared entry by entry; non-trivial = some state removed"

    def gen(rng, cx):
        m = M.reach_model(rng, nmax=8, sizes=cx.sizes, rew=False, tiny=True)
        m["form"] = rng.choice(["min", "max"])
        m["seed"] = rng.randrange(1 << 30)
        m["dens"] = rng.choice([0.3, 0.6, 0.85, 0.95, 1.0])
        m["ign"] = rng.random() < 0.8
        if rng.random() < 0.3:     # rows that sum to one only up to 9 digits
            i = rng.randrange(len(m["rows"]))
            m["rows"][i][2][0][1] *= 1 + rng.choice([1, -1]) * rng.choice([1e-10, 3e-10, 1e-14])
            if m["rows"][i][2][0][1] > 1:
                m["rows"][i][2][0][1] = 1.0
        return m

    def nontrivial(c):
        return c["dens"] < 1

    def check(c):
        from switss.problem import Subsystem
        rf = make_rf(c)
        I = rf_info(rf)
        rng = random.Random(c["seed"])
        C, N = I["C"] - 2, I["N"] - 2
        D = N if c["form"] == "min" else C
        v = np.array([rng.choice([1.0, 0.5, 1e-9, 1e-3, 7.0, 10.0 ** rng.uniform(-14, 3)]) if rng.random() < c["dens"] else rng.choice([0.0, 0.0, 0.0, -1e-9]) for _ in range(D)])
        if c["form"] == "min":
            keep = {i for i in range(N) if v[i] > 0}
        else:
            keep = {I["rows"][i][0] for i in range(C) if v[i] > 0}
        sub = Subsystem(rf, v.copy(), c["form"], ignore_consistency_checks=c["ign"])
        mask = sub.subsystem_mask
        if len(mask) != N or {i for i in range(N) if mask[i]} != keep:
            return "mask %s, support is %s" % (list(mask), sorted(keep))
        if not np.array_equal(sub.certificate, v) or sub.certform != c["form"] or sub.supersys is not rf:
            return "exposed certificate/form/supersystem"
        e = raises(lambda: Subsystem(rf, np.ones(D + 1), c["form"]))
        if not isinstance(e, AssertionError):
            return "certificate of wrong length: %r" % e
        if I["init"] not in keep:
            return None
        rows = M.sub_rows(I["rows"], I["N"], keep)
        mm = dict(n=I["N"], rows=rows)
        fw = M.forward(mm, {I["init"]})
        bw = M.forward(mm, {N}, back=True)
        consistent = all(s in fw and s in bw for s in keep) and N in fw
        if not c["ign"]:
            e = raises(lambda: sub.subsys)
            if not consistent:
                return None if isinstance(e, AssertionError) else "inconsistent restriction not rejected: %r" % e
            if e is not None:
                return "consistent restriction rejected: %r" % e
        rs = quiet(lambda: sub.subsys)
        if quiet(lambda: sub.subsys) is not rs:
            return "second access builds another model"
        S, O = rs.system, rf.system
        order = sorted(keep)
        k = len(order)
        if type(S) is not type(O):
            return "model type"
        if (S.N, S.C) != (k + 2, sum(1 for r in I["rows"] if r[0] in keep) + 2):
            return "sizes (N=%d, C=%d)" % (S.N, S.C)
        if (rs.initial_label, rs.target_label, rs.fail_label) != (rf.initial_label, rf.target_label, rf.fail_label):
            return "label names"
        # find the state correspondence: order preserving is documented by the mask; verify it by labels and rows
        new = {s: i for i, s in enumerate(order)}
        P = S.P.toarray()
        isa = dict(S.index_by_state_action.items())
        want_pairs = {(new[r[0]], r[1]) for r in I["rows"] if r[0] in keep} | {(k, 0), (k + 1, 0)}
        if set(isa) != want_pairs:
            return "state-action pairs %s, want %s" % (sorted(isa), sorted(want_pairs))
        for s, a, ds in I["rows"][:C]:
            if s not in keep:
                continue
            i = isa[(new[s], a)]
            w = np.zeros(k + 2)
            lost = 0.0
            for d, p in ds:
                if d in keep:
                    w[new[d]] += p
                elif d == N:
                    w[k] += p
                else:
                    lost += p
            if not np.array_equal(P[i, :k + 1], w[:k + 1]):
                return "row of (%d,%d): %s, want %s" % (s, a, list(P[i]), list(w))
            if abs(P[i, k + 1] - lost) > 2e-9:
                return "fail mass of (%d,%d): %s, want %s" % (s, a, P[i, k + 1], lost)
            if set(S.labels_by_action[(new[s], a)]) != set(O.labels_by_action[(s, a)]):
                return "action labels of (%d,%d): %s, want %s" % (s, a, S.labels_by_action[(new[s], a)], O.labels_by_action[(s, a)])
        if P[isa[(k, 0)], k] != 1 or P[isa[(k + 1, 0)], k + 1] != 1 or isa[(k, 0)] != S.C - 2:
            return "target/fail rows"
        for s in order:
            if set(S.labels_by_state[new[s]]) != set(O.labels_by_state[s]):
                return "labels of state %d" % s
        if set(S.labels_by_state[k]) != {rf.target_label} or set(S.labels_by_state[k + 1]) != {rf.fail_label}:
            return "labels of target/fail"
        if rs.initial != new[I["init"]]:
            return "initial state"
        return None


# ------------------------------------------------------------------------------------------------ C17
LABCH = "abcXYZ_019 .-+*/()[]{}<>=!&|:;,'#"


@prop("C17")
class C17:
    rule = "random models (arbitrary float probabilities, sparse action numbers, odd label texts, labels without states) saved and reloaded, and hand-written .tra/.lab files; non-trivial = has labels and non-dyadic probabilities"

    def gen(rng, cx):
        m = M.gen_model(rng, nmax=9, sizes=cx.sizes, labels=False, rew=False)
        for i in range(rng.randint(0, 4)):
            l = "".join(rng.choice(LABCH) for _ in range(rng.randint(1, 6))) if rng.random() < 0.5 else rng.choice(["init", "target", "a1", "deadlock", "x y"])
            if l.strip() == l and l:
                m["ls"][l] = sorted(rng.sample(range(m["n"]), rng.choice([0, 1, rng.randint(0, m["n"])])))
        if m["kind"] == "mdp" and rng.random() < 0.5:
            for l in ["act", "b"]:
                m["la"][l] = rng.sample([[r[0], r[1]] for r in m["rows"]], 1)
        if rng.random() < 0.3:     # extreme probabilities
            i = rng.randrange(len(m["rows"]))
            if len(m["rows"][i][2]) == 2:
                e = rng.choice([1e-7, 1e-9, 1e-12, 1 / 3e5])
                m["rows"][i][2][0][1], m["rows"][i][2][1][1] = e, 1 - e
        m["how"] = rng.choice(["save", "save", "file"])
        m["perm"] = rng.randrange(1 << 30)
        return m

    def nontrivial(c):
        return bool(c["ls"])

    def check(c):
        from switss.model import DTMC, MDP
        cls = DTMC if c["kind"] == "dtmc" else MDP
        with tempfile.TemporaryDirectory() as td:
            base = os.path.join(td, "m.x")
            if c["how"] == "save":
                m = quiet(M.build, c)
                tra, lab = m.save(base)
                if not (os.path.exists(tra) and os.path.exists(lab)) or sorted(os.listdir(td)) != sorted([os.path.basename(tra), os.path.basename(lab)]):
                    return "files written: %s" % os.listdir(td)
                acts = {}
            else:
                rng = random.Random(c["perm"])
                tra, lab = base + ".tra", base + ".lab"
                lines = []
                acts = {}
                for s, a, ds in c["rows"]:
                    al = None
                    if c["kind"] == "mdp" and rng.random() < 0.5:
                        al = rng.choice(["go", "stay", "x_1"])
                        acts.setdefault(al, set()).add((s, a))
                    for d, p in ds:
                        if c["kind"] == "dtmc":
                            lines.append("%d %d %r" % (s, d, p))
                        else:
                            lines.append("%d %d %d %r" % (s, a, d, p) + ("" if al is None else " " + al))
                if rng.random() < 0.5:
                    rng.shuffle(lines)
                with open(tra, "w") as f:
                    f.write(("%d %d\n" % (c["n"], len(lines))) if c["kind"] == "dtmc" else ("%d %d %d\n" % (c["n"], len(c["rows"]), len(lines))))
                    f.write("\n".join(lines) + "\n")
                ids = list(c["ls"])
                with open(lab, "w") as f:
                    f.write(" ".join('%d="%s"' % (i, l) for i, l in enumerate(ids)) + "\n")
                    for s in range(c["n"]):
                        ll = [i for i, l in enumerate(ids) if s in c["ls"][l]]
                        if ll:
                            f.write("%d: %s\n" % (s, " ".join(map(str, ll))))
            try:
                m2 = cls.from_file(lab, tra)
            except Exception as e:
                return "loading raised %r" % e
        if (m2.N, m2.C) != (c["n"], len(c["rows"])):
            return "loaded model has N=%d, C=%d" % (m2.N, m2.C)
        isa = dict(m2.index_by_state_action.items())
        if set(isa) != {(r[0], r[1]) for r in c["rows"]}:
            return "state-action pairs %s" % sorted(isa)
        P = m2.P.toarray()
        for s, a, ds in c["rows"]:
            w = np.zeros(c["n"])
            for d, p in ds:
                w[d] = p
            if not np.array_equal(P[isa[(s, a)]], w):
                return "row of (%d,%d) is %s, want %s" % (s, a, [repr(float(x)) for x in P[isa[(s, a)]]], [repr(float(x)) for x in w])
        if set(m2.states_by_label.keys()) != set(c["ls"]):
            return "labels %s, want %s" % (sorted(m2.states_by_label.keys()), sorted(c["ls"]))
        for l, v in c["ls"].items():
            if set(m2.states_by_label[l]) != set(v):
                return "states labelled %r: %s" % (l, m2.states_by_label[l])
        if c["how"] == "file" and c["kind"] == "mdp":
            if {l: set(v) for l, v in m2.actions_by_label.items() if v} != acts:
                return "action labels %s, want %s" % (dict(m2.actions_by_label.items()), acts)
        return None


# ------------------------------------------------------------------------------------------------ C18
class _T:
    def __init__(s, c, v):
        s.column, s._v = c, v

    def value(s):
        return s._v


class _A:
    def __init__(s, i, ts):
        s.id, s.transitions = i, ts


class _S:
    def __init__(s, i, acts):
        s.id, s.actions = i, acts


class _L:
    def __init__(s, d):
        s.d = d

    def get_labels_of_state(s, i):
        return set(s.d.get(i, ()))

    def get_labels_of_choice(s, i):
        return set(s.d.get(i, ()))


class _M:
    """duck-typed stormpy sparse model"""

    def __init__(s, c):
        by = {}
        for r in c["rows"]:
            by.setdefault(r[0], []).append(r)
        s.nr_states = c["n"]
        s.nr_choices = len(c["rows"])
        s.states, s._ci, lab_c, k = [], {}, {}, 0
        for i in range(c["n"]):
            acts = []
            for j, (_, a, ds) in enumerate(by[i]):
                acts.append(_A(j, [_T(d, p) for d, p in sorted(ds)]))
                s._ci[(i, j)] = k
                lab_c[k] = {l for l, v in c["la"].items() if [i, j] in v}
                k += 1
            s.states.append(_S(i, acts))
        s.labeling = _L({i: {l for l, v in c["ls"].items() if i in v} for i in range(c["n"])})
        s.choice_labeling = _L(lab_c)

    def get_choice_index(s, sid, aid):
        return s._ci[(sid, aid)]


@prop("C18")
class C18:
    rule = "random sparse models behind a duck-typed Storm interface, imported as DTMC, MDP and choice model; non-trivial = choice labels and two actions"

    def gen(rng, cx):
        m = M.gen_model(rng, nmax=8, sizes=cx.sizes, labels=False, rew=False, tiny=True)
        # storm action ids are local offsets 0..k-1
        cnt = {}
        m["rows"].sort(key=lambda r: r[0])
        for r in m["rows"]:
            r[1] = cnt.get(r[0], 0)
            cnt[r[0]] = r[1] + 1
        n = m["n"]
        for l in ["init", "goal", "p"][:rng.randint(0, 3)]:
            m["ls"][l] = sorted(rng.sample(range(n), rng.randint(1, n)))
        for l in ["go", "q"][:rng.randint(0, 2)]:
            sas = [[r[0], r[1]] for r in m["rows"]]
            m["la"][l] = rng.sample(sas, rng.randint(1, len(sas)))
        m["how"] = "dtmc" if m["kind"] == "dtmc" else rng.choice(["mdp", "choice", "choice"])
        return m

    def nontrivial(c):
        return bool(c["la"])

    def check(c):
        from switss.model import DTMC, MDP
        sm = _M(c)
        n, C = c["n"], len(c["rows"])
        if c["how"] == "dtmc":
            m = DTMC.from_stormpy(sm)
        elif c["how"] == "mdp":
            m = MDP.from_stormpy(sm)
        else:
            m = MDP.from_stormpy(sm, choice_model=True)
        P = m.P.toarray()
        isa = dict(m.index_by_state_action.items())
        labs = lambda s: set(m.labels_by_state[s])
        if c["how"] != "choice":
            if (m.N, m.C) != (n, C) or set(isa) != {(r[0], r[1]) for r in c["rows"]}:
                return "states/choices: N=%d C=%d %s" % (m.N, m.C, sorted(isa))
            for s, a, ds in c["rows"]:
                w = np.zeros(n)
                for d, p in ds:
                    w[d] = p
                if not np.array_equal(P[isa[(s, a)]], w):
                    return "row of (%d,%d)" % (s, a)
                if c["how"] == "mdp" and set(m.labels_by_action[(s, a)]) != {l for l, v in c["la"].items() if [s, a] in v}:
                    return "labels of choice (%d,%d): %s" % (s, a, m.labels_by_action[(s, a)])
            for s in range(n):
                if labs(s) != {l for l, v in c["ls"].items() if s in v}:
                    return "labels of state %d: %s" % (s, labs(s))
            return None
        if (m.N, m.C) != (n + C, 2 * C):
            return "choice model has N=%d C=%d" % (m.N, m.C)
        extra = {}
        for s, a, ds in c["rows"]:
            if (s, a) not in isa:
                return "choice (%d,%d) missing" % (s, a)
            nz = list(np.nonzero(P[isa[(s, a)]])[0])
            if len(nz) != 1 or nz[0] < n or P[isa[(s, a)], nz[0]] != 1 or nz[0] in extra.values():
                return "choice (%d,%d) does not lead to its own extra state" % (s, a)
            e = int(nz[0])
            extra[(s, a)] = e
            own = [k for k in isa if k[0] == e]
            if len(own) != 1:
                return "extra state %d has %d actions" % (e, len(own))
            w = np.zeros(n + C)
            for d, p in ds:
                w[d] = p
            if not np.array_equal(P[isa[own[0]]], w):
                return "transitions of the extra state of (%d,%d)" % (s, a)
            want = {l for l, v in c["la"].items() if [s, a] in v} | {"choice"}
            if labs(e) != want:
                return "labels of the extra state of (%d,%d): %s, want %s" % (s, a, labs(e), want)
        for s in range(n):
            if labs(s) != {l for l, v in c["ls"].items() if s in v} | {"state"}:
                return "labels of state %d: %s" % (s, labs(s))
        if len(isa) != 2 * C:
            return "number of state-action pairs"
        return None


# ------------------------------------------------------------------------------------------------ C19
@prop("C19")
class C19:
    rule = "random groupings over a reachability form's states or state-action pairs, weights, and last result vectors with zeros, tiny, huge and negative-rounding entries; non-trivial = a group with several variables and a zero"

    def gen(rng, cx):
        m = M.reach_model(rng, nmax=6, rew=False, kind=rng.choice(["dtmc", "mdp"]))
        m["mode"] = rng.choice(["min", "max"])
        m["what"] = rng.choice(["AllOnesInitializer", "InverseResultUpdater", "InverseResultUpdater", "InverseResultFixedZerosUpdater", "InverseResultFixedZerosUpdater", "InverseReachabilityInitializer", "InverseFrequencyInitializer", "InverseCombinedInitializer"])
        m["seed"] = rng.randrange(1 << 30)
        m["w"] = rng.random() < 0.4
        m["solver"] = "cbc" if rng.random() < 0.8 else "glpk"
        return m

    def nontrivial(c):
        return True

    def check(c):
        import switss.problem as P
        from switss.problem.qsheurparams import InverseCombinedInitializer
        from switss.utils import InvertibleDict
        rf = make_rf(c)
        I = rf_info(rf)
        if c["what"].startswith("Inverse") and c["what"].endswith("Initializer") and I["ec"]:
            if c["what"] != "InverseReachabilityInitializer":
                return None
        rng = random.Random(c["seed"])
        C, N = I["C"] - 2, I["N"] - 2
        D = N if c["mode"] == "min" else C
        k = rng.randint(1, D + 1)
        groups = {}
        if rng.random() < 0.4:
            groups = {D + i: {i} for i in range(D)}
        else:
            off = rng.choice([0, 0, 2])
            for g in range(k):
                groups[D + off + g] = set(rng.sample(range(D), rng.randint(1, D)))
        size = max(groups) + 1
        cls = getattr(P, c["what"])
        wts = {g: rng.choice([1, 2, 0.5, 3]) for g in groups} if c["w"] and (c["what"].startswith("AllOnes") or c["what"].endswith("Updater")) else None
        W = wts or {g: 1 for g in groups}
        kw = dict(reachability_form=rf, mode=c["mode"], indicator_to_group=InvertibleDict({g: set(v) for g, v in groups.items()}))
        if wts:
            kw["weights"] = dict(wts)
        if c["what"] in ("InverseReachabilityInitializer", "InverseFrequencyInitializer", "InverseCombinedInitializer"):
            kw["solver"] = c["solver"]
        obj = quiet(cls, **kw)

        def cmp(got, want, tol=1e-12):
            got = [tuple(x) for x in got]
            if sorted(g for g, _ in got) != sorted(groups):
                return "coefficients for %s, groups are %s" % (sorted(g for g, _ in got), sorted(groups))
            for g, a in got:
                if not np.isfinite(a) or a < 0:
                    return "coefficient of %d is %r" % (g, a)
                lo, hi = want[g]
                if not (lo - tol * (1 + abs(lo)) <= a <= hi + tol * (1 + abs(hi))):
                    return "coefficient of group %d (%s) is %r, want %r" % (g, sorted(groups[g]), a, want[g])
            return None
        if c["what"] == "AllOnesInitializer":
            return cmp(obj.initialize(), {g: (W[g], W[g]) for g in groups})
        if c["what"].endswith("Updater"):
            last = np.array([rng.choice([0.0, 0.0, 1.0, 0.5, 1e-4, 3.0, 1e-9, 1e-12, 2.5, rng.random()]) for _ in range(size)])
            keep = last.copy()
            got = obj.update(last)
            cons = obj.constraints(last)
            if not np.array_equal(last, keep):
                return "last result was changed"
            if c["what"] == "InverseResultUpdater":
                cap = min(max([1e8] + [1 / last[g] for g in groups if last[g] != 0]), 1e9)
                want = {g: ((W[g] * min(1 / last[g], cap),) * 2 if last[g] > 0 else (cap, cap)) for g in groups}
                if cons:
                    return "constraints %s" % (cons,)
            else:
                want = {g: ((W[g] / last[g],) * 2 if last[g] > 0 else (0, 0)) for g in groups}
                w2 = sorted(g for g in groups if last[g] == 0)
                g2 = []
                for lhs, s, r in cons:
                    nz = [(v, a) for v, a in lhs if a != 0]
                    if s != "=" or r != 0 or len(nz) != 1:
                        return "constraint %s" % ((lhs, s, r),)
                    g2.append(nz[0][0])
                if sorted(set(g2)) != w2:
                    return "zero constraints for %s, want %s" % (sorted(g2), w2)
            return cmp(got, want)
        # initialisers based on LPs: independent values
        full = np.append(M.pr_opt(I["N"], I["rows"], {N}, "min")[:N], [1.0, 0.0])
        prs = full[:N]
        prsa = np.array([sum(p * full[d] for d, p in r[2]) for r in I["rows"][:C]])
        inv = lambda x: 1e9 if x <= 0 else min(1e9, 1 / x)

        def band(x, f, eps=1e-6):
            return tuple(sorted((f(max(0.0, x + eps)), f(max(0.0, x - eps)))))
        if c["what"] == "InverseReachabilityInitializer":
            val = prs if c["mode"] == "min" else prsa
            return cmp(obj.initialize(), {g: band(sum(val[v] for v in vs) / len(vs), inv) for g, vs in groups.items()}, 1e-6)
        ysa = np.array(quiet(rf.max_y_state_action, solver=c["solver"]), dtype=float)
        ys = np.zeros(N)
        ys[I["init"]] = 1
        for i in range(C):
            ys[I["rows"][i][0]] += ysa[i]
        f = lambda x: 1e8 if x <= 0 else min(1e9, 1 / x)
        band2 = lambda x: (min(f(max(0, x - 1e-7)), f(x + 1e-7)) if x > 0 else 0, max(f(max(0, x - 1e-7)), f(x + 1e-7), 1e9 if x < 1e-7 else 0))
        if c["what"] == "InverseFrequencyInitializer":
            val = ys if c["mode"] == "min" else ysa
        else:
            val = ys * prs if c["mode"] == "min" else ysa * prsa
        return cmp(obj.initialize(), {g: band2(sum(val[v] for v in vs)) for g, vs in groups.items()}, 1e-5)


# ------------------------------------------------------------------------------------------------ C20
@prop("C20")
class C20:
    rule = "reward models that reach the target almost surely under every choice (built so), plus models with fail/ECs/without rewards that must be rejected; thresholds and both modes; non-trivial = MDP with two actions"

    def gen(rng, cx):
        bad = rng.choice([None, None, None, "fail", "ec", "norew"])
        n = rng.randint(2, 8)
        rows = []
        kind = rng.choice(["mdp", "mdp", "dtmc"])
        perm = list(range(n))
        rng.shuffle(perm)          # perm[-1] is the target; each action has positive prob to a later state
        pos = {s: i for i, s in enumerate(perm)}
        for s in range(n):
            for a in range(1 if kind == "dtmc" else rng.randint(1, 3)):
                if s == perm[-1]:
                    rows.append([s, a, [[s, 1.0]]])
                    break
                later = [d for d in range(n) if pos[d] > pos[s]]
                ds = {rng.choice(later)}
                if rng.random() < 0.5:
                    ds.add(rng.randrange(n))
                if pos[s] + 1 < n:
                    if a == 0:
                        ds.add(perm[pos[s] + 1])
                ds = sorted(ds)
                ps = M.split_prob(rng, len(ds))
                if min(ps) < 0.05 or sum(ps) > 1.0000000001:
                    ps = [1.0 / len(ds)] * len(ds)
                rows.append([s, a, [[d, p] for d, p in zip(ds, ps)]])
        m = dict(kind=kind, n=n, rows=rows, ls={"init": [perm[0]], "target": [perm[-1]]}, la={}, z=[], fmt="csr",
                 rew=[rng.choice([0, 1, 2, 0.5, 3.25]) for _ in rows], bad=None)
        if bad == "norew":
            m["rew"] = None
            m["bad"] = bad
        elif bad == "fail":
            cand = [i for i, r in enumerate(rows) if r[0] != perm[-1]]
            i = rng.choice(cand)
            m["n"] = n + 1
            j = max(range(len(rows[i][2])), key=lambda j: rows[i][2][j][1])
            x = rng.choice([0.5, 0.01, 1e-6])
            p = rows[i][2][j][1]
            rows[i][2][j][1] = p * (1 - x)
            rows[i][2].append([n, p * x])
            rows.append([n, 0, [[n, 1.0]]])
            m["rew"].append(1)
            m["bad"] = bad
        elif bad == "ec" and kind == "mdp" and n >= 3:
            s = rng.choice(perm[:-1])
            d = rng.choice([s] + perm[:-1])
            if d == s:
                rows.append([s, 7, [[s, 1.0]]])
                m["rew"].append(1)
            else:
                rows += [[s, 7, [[d, 1.0]]], [d, 7, [[s, 1.0]]]]
                m["rew"] += [1, 0]
            m["bad"] = bad
        m["t"] = rng.choice([0.0, 0.1, 0.5, 1.0, 3.0, 10.0])
        return m

    def nontrivial(c):
        return c["kind"] == "mdp"

    def check(c):
        from switss.model import RewardReachabilityForm
        m = quiet(M.build, c)
        keep = M.reduce_oracle(c)
        if c["bad"]:
            e = raises(lambda: RewardReachabilityForm.reduce(m, "init", "target"))
            if c["bad"] == "ec" or c["bad"] == "fail":
                # only an obstacle if it survives the reduction
                pass
            return None if isinstance(e, AssertionError) else "model with defect %r: %r instead of AssertionError" % (c["bad"], e)
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                rrf, sm, sam = RewardReachabilityForm.reduce(m, "init", "target")
            except Exception as e:
                return "valid reward model rejected: %r" % e
        rows, N = M.rf_rows(rrf)
        C = len(rows) - 2
        N -= 2
        P = np.zeros((C, N))
        E = np.zeros((C, N))
        for i, (s, a, ds) in enumerate(rows[:C]):
            E[i, s] = 1
            for d, p in ds:
                if d < N:
                    P[i, d] = p
        A = E - P
        orig = {(r[0], r[1]): c["rew"][i] for i, r in enumerate(c["rows"])}
        back = {v: k for k, v in dict(sam).items()}
        r = np.array([orig[back[(rows[i][0], rows[i][1])]] for i in range(C)], dtype=float)
        init = dict(sm)[c["ls"]["init"][0]]
        if rrf.initial != init or np.abs(rrf.A.toarray() - A).max() > 1e-15 or not np.array_equal(np.array(rrf.reward_vector, dtype=float), r):
            return "exposed initial state, system matrix or rewards (%s, want %s)" % (list(rrf.reward_vector), list(r))
        dz = np.zeros((1, N)); dz[0, init] = -1
        e_i = np.zeros(N); e_i[init] = 1
        hist = []
        for t in (c["t"], 0.25, c["t"]):
            for mode in ("min", "max"):
                g = rrf.fark_constraints(t, mode)
                w = (np.vstack([A, dz]), np.append(r, -t)) if mode == "min" else (np.vstack([A.T, -r[None, :]]), np.append(e_i, -t))
                hist.append((t, mode, g, w))
        for t, mode, g, w in hist:
            g0 = np.asarray(g[0].todense())
            if g0.shape != w[0].shape or np.abs(g0 - w[0]).max() > 1e-15 or np.asarray(g[1]).shape != w[1].shape or np.abs(np.asarray(g[1]) - w[1]).max() > 0:
                return "%s constraints for threshold %s" % (mode, t)
        full = [[s, a, ds] for s, a, ds in rows]
        rr = list(r) + [0, 0]
        xmin = M.rew_opt(N + 2, full, rr, {N, N + 1}, "min")[:N]
        xmax = M.rew_opt(N + 2, full, rr, {N, N + 1}, "max")[:N]
        sc = 1 + np.abs(xmax).max()
        got = np.array(rrf.rew_min(), dtype=float)
        if np.abs(got - xmin).max() > 1e-5 * sc:
            return "minimal expected rewards %s, want %s" % (list(got), list(xmin))
        got = np.array(rrf.rew_max(), dtype=float)
        if np.abs(got - xmax).max() > 1e-5 * sc:
            return "maximal expected rewards %s, want %s" % (list(got), list(xmax))
        zsa = np.array(rrf.max_z_state_action(), dtype=float)
        if np.abs(zsa - (P @ xmin + r)).max() > 1e-5 * sc:
            return "state-action values %s, want %s" % (list(zsa), list(P @ xmin + r))
        y = np.array(rrf.max_y_state_action(), dtype=float)
        ysc = 1 + np.abs(y).max(initial=0)
        if (y < -1e-6).any() or (y @ A > e_i + 1e-6 * ysc).any() or abs(y @ r - xmax[init]) > 1e-5 * sc:
            return "frequency vector %s has reward %s, want %s" % (list(y), y @ r, xmax[init])
        ys = np.array(rrf.max_y_state(), dtype=float)
        w = e_i.copy()
        for i in range(C):
            w[rows[i][0]] += y[i]
        if np.abs(ys - w).max() > 1e-4 * sc and abs((ys - e_i).sum() - y.sum()) > 1e-4 * sc:
            return "per-state sums"
        return None


# ------------------------------------------------------------------------------------------------ C21
@prop("C21")
class C21:
    rule = "reachability forms incl. proper end components; values compared with policy iteration after graph precomputation; non-trivial = MDP"

    def gen(rng, cx):
        m = M.reach_model(rng, nmax=9, rew=False)
        m["solver"] = "cbc" if m.get("small") or rng.random() < 0.85 else "glpk"
        return m

    def nontrivial(c):
        return c["kind"] == "mdp"

    def check(c):
        rf = make_rf(c)
        I = rf_info(rf)
        if C12.cond(I) > 1e5 and not I["ec"]:
            return None
        C, N = I["C"] - 2, I["N"] - 2
        s = c["solver"]
        mn = M.pr_opt(I["N"], I["rows"], {N}, "min")
        mx = M.pr_opt(I["N"], I["rows"], {N}, "max")
        for name, want in (("pr_min", mn), ("pr_max", mx), ("max_z_state", mn), ("pr_min", mn)):
            got = np.array(getattr(rf, name)(solver=s), dtype=float)
            if got.shape != (N,) or np.abs(got - want[:N]).max() > 1e-5:
                return "%s = %s, want %s" % (name, list(got), list(want[:N]))
        full = np.append(mn[:N], [1.0, 0.0])
        w = np.array([sum(p * full[d] for d, p in r[2]) for r in I["rows"][:C]])
        got = np.array(rf.max_z_state_action(solver=s), dtype=float)
        if got.shape != (C,) or np.abs(got - w).max() > 1e-5:
            return "max_z_state_action = %s, want %s" % (list(got), list(w))
        e = np.zeros(N); e[I["init"]] = 1
        y = np.array(rf.max_y_state_action(solver=s), dtype=float)
        sc = (1 + np.abs(y).max()) * (1 if s == "cbc" else 50)      # glpsol prints six digits
        if y.shape != (C,) or (y < -1e-6 * sc).any() or (y @ I["A"] > e + 1e-6 * sc).any() or abs(y @ I["b"] - mx[I["init"]]) > 1e-5 * sc:
            return "max_y_state_action = %s is not an optimal point (b y = %s, want %s)" % (list(y), y @ I["b"], mx[I["init"]])
        ys = np.array(rf.max_y_state(solver=s), dtype=float)
        w = e.copy()
        for i in range(C):
            w[I["rows"][i][0]] += y[i]
        if ys.shape != (N,) or np.abs(ys - w).max() > 1e-4 * sc:
            return "max_y_state = %s, want %s" % (list(ys), list(w))
        return None


# ------------------------------------------------------------------------------------------------ C22
@prop("C22")
class C22:
    rule = "random models rendered with style callbacks that encode their arguments; nodes and edges parsed back; non-trivial = labels or two actions"

    def gen(rng, cx):
        m = M.gen_model(rng, nmax=7 if rng.random() < 0.7 else 26, sizes=None, tiny=True)
        if m["kind"] == "mdp" and rng.random() < 0.3:      # large action numbers
            have = set()
            for r in m["rows"]:
                a = rng.choice([r[1], r[1] + 10, 11 * r[1] + 1, rng.randrange(130)])
                while (r[0], a) in have:
                    a = rng.randrange(130)
                have.add((r[0], a))
                old, r[1] = r[1], a
                for l in m["la"]:
                    m["la"][l] = [[s, "x%d" % a if (s == r[0] and b == old) else b] for s, b in m["la"][l]]
            for l in m["la"]:
                m["la"][l] = [[s, int(b[1:]) if isinstance(b, str) else b] for s, b in m["la"][l]]
        m["conf"] = rng.choice(["args", "args", "vis", "partial"])
        return m

    def nontrivial(c):
        return bool(c["ls"] or c["la"])

    def check(c):
        import re
        from switss.utils import VisualizationConfig, DTMCVisualizationConfig
        mdp = c["kind"] == "mdp"
        calls = {"s": [], "t": [], "a": []}

        def smap(s, labels):
            calls["s"].append(1)
            return {"label": "S|%d|%s" % (s, "/".join(sorted(labels)))}

        def tmapd(s, d, p):
            return {"label": "T|%d|%d|%r" % (s, d, float(p))}

        def tmapm(s, a, d, p):
            return {"label": "T|%d|%d|%d|%r" % (s, a, d, float(p))}

        def amap(s, a, labels):
            return {"node": {"label": "A|%d|%d|%s" % (s, a, "/".join(sorted(labels)))}, "edge": {"label": "E|%d|%d" % (s, a)}}
        kw = dict(state_map=smap, trans_map=tmapm if mdp else tmapd)
        if mdp:
            kw["action_map"] = amap
        if c["conf"] == "vis":
            m = quiet(M.build, c, vis_config=VisualizationConfig(**kw) if mdp else DTMCVisualizationConfig(**kw))
            dg = m.digraph()
        elif c["conf"] == "partial":
            m = quiet(M.build, c, vis_config=VisualizationConfig(**kw) if mdp else DTMCVisualizationConfig(**kw))
            dg = m.digraph(state_map=smap)
        else:
            m = quiet(M.build, c)
            dg = m.digraph(**kw)
        nodes, eds = {}, []
        unq = lambda x: x[1:-1] if x.startswith('"') else x
        for line in dg.body:
            line = line.strip()
            mm = re.match(r'^("[^"]*"|\S+) -> ("[^"]*"|\S+)(?: \[(.*)\])?$', line)
            if mm:
                eds.append((unq(mm.group(1)), unq(mm.group(2)), mm.group(3)))
                continue
            mm = re.match(r'^("[^"]*"|\S+)(?: \[(.*)\])?$', line)
            if not mm:
                return "unexpected line %r" % line
            nid = unq(mm.group(1))
            if nid in nodes:
                return "node %s drawn twice" % nid
            nodes[nid] = mm.group(2)
        lab = lambda x: unq(re.search(r'label=("[^"]*"|\S+)', x or "").group(1)) if re.search(r'label=', x or "") else None
        E = M.edges(c)
        st = {s for s, a, d in E} | {d for s, a, d in E}
        names = {}
        want_nodes = {}
        for s in st:
            want_nodes["S|%d|%s" % (s, "/".join(sorted(l for l, v in c["ls"].items() if s in v)))] = s
        byl = {}
        for nid, at in nodes.items():
            byl.setdefault(lab(at), []).append(nid)
        if any(len(v) > 1 for v in byl.values()):
            return "two nodes with the same content: %s" % byl
        wn = set(want_nodes)
        if mdp:
            pairs = {(s, a) for s, a, d in E}
            an = {(s, a): "A|%d|%d|%s" % (s, a, "/".join(sorted(l for l, v in c["la"].items() if [s, a] in v))) for s, a in pairs}
            wn |= set(an.values())
        if set(byl) != wn:
            return "nodes %s, want %s" % (sorted(map(str, byl)), sorted(wn))
        nid = {s: byl[l][0] for l, s in want_nodes.items()}
        want = []
        if mdp:
            aid = {k: byl[l][0] for k, l in an.items()}
            for (s, a) in pairs:
                want.append((nid[s], aid[(s, a)], "E|%d|%d" % (s, a)))
            for (s, a, d), p in E.items():
                want.append((aid[(s, a)], nid[d], "T|%d|%d|%d|%r" % (s, a, d, float(p))))
        else:
            for (s, a, d), p in E.items():
                want.append((nid[s], nid[d], "T|%d|%d|%r" % (s, d, float(p))))
        got = sorted((a, b, str(lab(x))) for a, b, x in eds)
        if got != sorted(want):
            return "edges %s, want %s" % (got, sorted(want))
        return None
