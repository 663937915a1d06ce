"""C15: every reported subsystem is a witness (contracts of problem/formulations.py, qsheur.py, milpexact.py)"""
from specs.models import *
from engine import EndPath
from specs.lp import *
from specs.c13 import symlist, seq, milp_contracts
from specs.c11 import conditions, rf_contracts, CE
FO, QH, QP, MX, PF, PR_ = ("switss.problem." + x for x in ("formulations", "qsheur", "qsheurparams", "milpexact", "problemform", "problemresult"))


# ---- U0: number of certificate variables
def u_size(mode):
    def run(E):
        rf = sym_rf(E)
        ok, n = no_exception(E, lambda: E.call(fun(E, FO, "certificate_size"), [rf, mode], {}))
        if ok:
            E.oblig("the certificate has one entry per %s besides target and fail" % ("state" if mode == "min" else "state-action pair"),
                    lift(n, "I") == (rf.g["n"] if mode == "min" else rf.g["c"]))
    return Unit("certificate_size[%s]" % mode, [FO + ":certificate_size"], run)


def actions_by_state(E, m, total=False):
    """contract of AbstractMDP.actions_by_state (checked below): the actions of a state are those it has an index for"""
    g = m.g
    r = rel_inst(E, "I", "I", "acts", False)
    s, a, i = E.fresh_flat(("I", "I", "I"), "s")
    E.fact(forall([s, a], r.rel((s, a)) == g["ix"].dom((s, a))))
    E.fact(forall([s], r.dom(s) == z3.Exists([a], g["ix"].dom((s, a)))))
    E.fact(forall([i], Implies(And(0 <= i, i < g["C"]), r.dom(g["st"](i)))))
    if total:       # every state has an action
        E.fact(forall([s], Implies(And(0 <= s, s < g["N"]), r.dom(s))))
    return lambda E, f, self: r


def u_actions(E):
    m = sym_model(E)
    ok, r = no_exception(E, lambda: E.getattr(m, "actions_by_state"))
    if not ok:
        return
    s, a = const(E, "I", "s"), const(E, "I", "a")
    d = r.attrs["_InvertibleDict__d"]
    if not isinstance(d, RelDict):
        raise Unsupported("representation")
    b = E.fresh_flat("I", "a")[0]
    E.oblig("the actions of a state are those it has an index for", d.rel((s, a)) == m.g["ix"].dom((s, a)))
    E.oblig("every state with an action is there", Implies(m.g["ix"].dom((s, a)), bexpr(d.has(s))))
    E.oblig("no state without an action is there", Implies(bexpr(d.has(s)), z3.Exists([b], m.g["ix"].dom((s, b)))))
    E.oblig("asked again, the answer is the same", BoolVal(E.getattr(m, "actions_by_state") is r))


# ---- U1: groups
def u_groups(mode, labelled, actions):
    def run(E):
        rf = sym_rf(E)
        g = rf.g
        n = g["n"] if mode == "min" else g["c"]
        kw = {"group_actions": actions}
        L = E.fresh_fun("O", "B", "requested")
        if labelled:
            kw["labels"] = BagV(E, [("dom", Domain("O", L, name="label"))])
            l, s = E.fresh_flat(("O", "I"), "l")
            E.fact(forall([l, s], Implies(And(L(l), g["ls"].rel((l, s))), And(0 <= s, s < g["n"]))))
        E.contracts = {AM + ":AbstractMDP.actions_by_state": actions_by_state(E, g["m"], True)}
        ok, r = no_exception(E, lambda: E.call(fun(E, FO, "groups_from_labels"), [rf, mode], kw))
        if not ok:
            return
        if not (isinstance(r, Inst) and r.cls.name == "InvertibleDict"):
            raise Unsupported("result is not an InvertibleDict")
        ps = E.iterate(callm(E, r, "items"))
        if labelled:
            dom = lambda l: And(L(l), BoolVal(True) if mode == "min" else z3.Exists([s0], g["ls"].rel((l, s0))))
            s0 = E.fresh_flat("I", "s")[0]
            rel = (lambda l, v: And(L(l), g["ls"].rel((l, v)))) if mode == "min" else (lambda l, v: And(L(l), 0 <= v, v < n, g["ls"].rel((l, g["st"](v)))))
            ksh = "O"
        elif mode == "max" and actions:
            s0 = E.fresh_flat("I", "i")[0]
            dom = lambda k: z3.Exists([s0], And(0 <= s0, s0 < n, g["st"](s0) == k))
            rel = lambda k, v: And(0 <= v, v < n, g["st"](v) == k)
            ksh = "I"
        else:
            dom = lambda k: And(0 <= k, k < n)
            rel = lambda k, v: And(0 <= k, k < n, k == v)
            ksh = "I"
        k, v = const(E, ksh, "key"), const(E, "I", "member")
        E.oblig("every entry of a group is a member it should have", Implies(bexpr(E.truth(callm(E, r, "__contains__", k))), BoolVal(True)))
        d = r.attrs["_InvertibleDict__d"]
        if not isinstance(d, RelDict):
            raise Unsupported("representation of the groups")
        E.oblig("the members of every group are exactly those of its definition", And(bexpr(d.has(k)), d.rel((k, v))) == rel(k, v))
        E.oblig("every group with a member is there", Implies(rel(k, v), bexpr(d.has(k))))
        if not labelled:
            E.oblig("no other group is there", Implies(bexpr(d.has(k)), dom(k)))
        q = const(E, "I", "q")
        l = const(E, "O", "l")
        E.oblig("the labels of the model are not changed", g["m"].attrs["_AbstractMDP__label_to_states_invertible"].attrs["_InvertibleDict__d"].rel((l, q)) == g["ls"].rel((l, q)))
    return Unit("groups_from_labels[%s,%s,%s]" % (mode, "labels" if labelled else "no labels", "by state" if actions else "by variable"), [FO + ":groups_from_labels"], run)


# ---- the form the programs are built from: what construction of a reachability form establishes (C07-C10)
def form(E):
    C, N = nat(E, "C", 1), nat(E, "N", 1)
    init = const(E, "I", "init")
    ix = sym_index(E, C, N)
    b, P = E.fresh_fun("I", "R", "b"), E.fresh_fun(("I", "I"), "R", "P")
    A = lambda q: If(ix.st(q[0]) == q[1], RealVal(1), RealVal(0)) - P(q)
    act = E.fresh_fun("I", "I", "action")
    i, j = E.fresh_flat(("I", "I"), "i")
    E.fact(And(0 <= init, init < N))
    E.fact(forall([i, j], P((i, j)) >= 0))
    E.fact(forall([i], b(i) >= 0))
    # every state has an action
    E.fact(forall([j], Implies(And(0 <= j, j < N), And(0 <= act(j), act(j) < C, ix.st(act(j)) == j))))
    st = dict(C=C, N=N, init=init, A=A, b=b, P=P, ix=ix, act=act, ec=E.fresh_fun("I", "B", "in_proper_ec"), free=E.fresh("B", "ec_free"))
    q = RF + ":ReachabilityForm."

    def fark(E, f, self, threshold, mode):
        z, y = rf_contracts(E, st)
        return (z if mode == "min" else y)(E, f, self, threshold)
    z, y = rf_contracts(E, st)
    E.contracts = {q + "fark_constraints": fark, q + "fark_z_constraints": z, q + "fark_y_constraints": y, q + "is_ec_free": lambda E, f, self: st["free"],
                   q + "in_proper_ec": lambda E, f, self, s: st["ec"](lift(s, "I"))}
    rf = rf_inst(E, _ReachabilityForm__index_by_state_action=ix, _ReachabilityForm__system=Opaque("system"))
    return rf, st


def never(E, r, y):
    """instance of the solver's contract: a program reported infeasible has no solution"""
    E.fact(Implies(r.st == strconst("infeasible"), neg(r.feasible(y))))


# ---- U2: upper bounds
def u_bounds(which):
    def run(E):
        rf, st = form(E)
        C, N, A, b, P, ix, act = (st[k] for k in ("C", "N", "A", "b", "P", "ix", "act"))
        progs = []
        _, yc = rf_contracts(E, st)
        t = const(E, "R", "t")
        M, rhs = yc(E, None, rf, t)
        E.contracts = dict(E.contracts, **lp_contracts(E, progs))
        E.fact(C == N if which == "one action each" else C != N)
        ok, res = no_exception(E, lambda: bounded(E, lambda: E.call(fun(E, FO, "compute_upper_bounds"), [M, rhs], {"solver": "cbc", "timeout": 600}), progs))
        if not ok:
            return
        if not (isinstance(res, tuple) and len(res) == 2 and isinstance(res[1], VecV) and progs and progs[-1].solves):
            raise Unsupported("result")
        status, ub = res
        r = progs[-1].solves[-1]
        status = lift(status, "O")
        E.oblig("there is a bound for every entry", lift(ub.n, "I") == C)
        y = E.fresh_fun("I", "R", "y")
        dj = lambda j: And(0 <= j, j < C)
        row = lambda i, v: sum_over(E, C, lambda j: real(M.at((i, j))) * v(j))
        E.fact(quant(E, "I", lambda j: Implies(dj(j), y(j) >= 0)))
        E.fact(quant(E, "I", lambda i: Implies(And(0 <= i, i < N + 1), row(i, y) <= rhs.at(i))))
        for kk, cc in cons_elems(E, r.prog):
            E.oblig("every solution of the system is a solution of the program", Implies(kk, cc(y)))
        E.fact(r.feasible(y))
        never(E, r, y)
        optimal(E, r, y)
        E.oblig("infeasible is reported only for a system without a solution", status != strconst("infeasible"))
        n0 = len(E.pc)
        E.fact(status == strconst("optimal"))
        E.oblig("optimal is reported only for a solved program", r.st == strconst("optimal"))
        E.fact(r.st == strconst("optimal"))
        tot = lambda v: sum_over(E, C, lambda j: v(j))
        x = r.x
        k = const(E, "I", "k")
        E.fact(dj(k))
        E.oblig("the program maximises the sum of the entries", And(r.obj(y) == tot(y), BoolVal(r.prog.attrs["#sense"] == "max")))
        if which != "one action each":
            sum_le(E, "an entry is at most the sum", "I", dj, lambda j: If(j == k, y(j), RealVal(0)), y)
            sum_point(E, "an entry is a sum", "I", dj, lambda j: If(j == k, y(j), RealVal(0)), k)
            E.oblig("no solution exceeds the bounds", y(k) <= ub.at(k))
            return
        # one action per state: the pointwise maximum of two solutions is a solution
        E.oblig("every state has an action", Implies(And(0 <= k, k < N), And(dj(act(k)), ix.st(act(k)) == k)))
        E.fact(quant(E, "I", lambda j: Implies(dj(j), act(ix.st(j)) == j)))     # a surjection between sets of the same size is injective
        w = E.fresh_fun("I", "R", "join")
        E.fact(quant(E, "I", lambda j: w(j) == If(x(j) >= y(j), x(j), y(j))))
        i = const(E, "I", "i")
        n1 = len(E.pc)
        E.fact(And(0 <= i, i < N))
        f = act(i)
        for v, nm in ((x, "x"), (y, "y"), (w, "join")):
            n2 = len(E.pc)
            sum_ext(E, "%s: row" % nm, "I", dj, lambda j: real(M.at((i, j))) * v(j), lambda j: A((j, i)) * v(j))
            sum_add(E, "%s: row split" % nm, "I", dj, lambda j: A((j, i)) * v(j), lambda j: If(ix.st(j) == i, v(j), RealVal(0)), lambda j: -(P((j, i)) * v(j)))
            sum_point(E, "%s: row, own entry" % nm, "I", dj, lambda j: If(ix.st(j) == i, v(j), RealVal(0)), f)
            g = row(i, v) == v(f) + lsum(E, "I", dj, lambda j: -(P((j, i)) * v(j)))
            E.oblig("%s: a row is own entry minus inflow" % nm, g)
            del E.pc[n2:]
            E.fact(g)
        for v, nm in ((x, "x"), (y, "y")):
            sum_le(E, "inflow of the join is at least that of %s" % nm, "I", dj, lambda j: -(P((j, i)) * w(j)), lambda j: -(P((j, i)) * v(j)))
        sol(E, r, x, M, rhs, N, C)
        g = row(i, w) <= rhs.at(i)
        E.oblig("the join satisfies every row", g)
        del E.pc[n1:]
        E.fact(quant(E, "I", lambda i: Implies(And(0 <= i, i < N), row(i, w) <= rhs.at(i))))
        sol(E, r, x, M, rhs, N, C)
        l = const(E, "I", "last")
        n2 = len(E.pc)
        E.fact(l == N)
        sum_le(E, "threshold row of the join", "I", dj, lambda j: real(M.at((l, j))) * w(j), lambda j: real(M.at((l, j))) * x(j))
        g = row(N, w) <= rhs.at(N)
        E.fact(And(row(N, w) == row(l, w), row(N, x) == row(l, x)))
        E.oblig("the join satisfies the threshold row", g)
        del E.pc[n2:]
        E.fact(quant(E, "I", lambda i: Implies(And(0 <= i, i <= N), row(i, w) <= rhs.at(i))))
        for kk, cc in cons_elems(E, r.prog):
            E.oblig("the join is a solution of the program", Implies(kk, cc(w)))
        fw = r.feasible(w)
        E.fact(fw)
        n2 = len(E.pc)
        E.fact(And(fw, r.st == strconst("optimal")))
        optimal(E, r, w)
        g = r.obj(w) <= r.obj(x)
        E.oblig("the join is not better than the optimum", g, hyps=E.hyps()[n2:])
        E.fact(g)
        E.oblig("sum of the join", r.obj(w) == tot(w))
        E.oblig("sum of the solution", r.obj(x) == tot(x))
        sum_le(E, "the join is at least the solution", "I", dj, lambda j: x(j) + If(j == k, w(k) - x(k), RealVal(0)), w)
        sum_add(E, "difference", "I", dj, lambda j: x(j) + If(j == k, w(k) - x(k), RealVal(0)), x, lambda j: If(j == k, w(k) - x(k), RealVal(0)))
        sum_point(E, "difference at an entry", "I", dj, lambda j: If(j == k, w(k) - x(k), RealVal(0)), k)
        a_, b_, c_ = [named(E, n, "R", v) for n, v in (("tw", tot(w)), ("tx", tot(x)), ("d", lsum(E, "I", dj, lambda j: If(j == k, w(k) - x(k), RealVal(0)))))]
        E.oblig("the join is not larger", a_ <= b_, hyps=[r.obj(w) <= r.obj(x), r.obj(w) == tot(w), r.obj(x) == tot(x), a_ == tot(w), b_ == tot(x)])
        E.fact(a_ <= b_)
        lemma(E, "the join is not smaller", a_ >= b_ + c_)
        lemma(E, "the join at the entry", w(k) <= x(k))
        lemma(E, "the join is at least the other solution", w(k) >= y(k))
        E.oblig("no solution exceeds the bounds", y(k) <= ub.at(k))
    return Unit("compute_upper_bounds[%s]" % which, [FO + ":compute_upper_bounds"], run)


def sol(E, r, x, M, rhs, N, C):
    """the optimal solution satisfies the rows of the system"""
    i = const(E, "I", "i")
    row = lambda i, v: sum_over(E, C, lambda j: real(M.at((i, j))) * v(j))
    E.oblig("the optimal solution satisfies the system", Implies(And(0 <= i, i <= N), row(i, x) <= rhs.at(i)))
    E.fact(quant(E, "I", lambda i: Implies(And(0 <= i, i <= N), row(i, x) <= rhs.at(i))))


def bounded(E, f, progs):
    """the program of a form without proper end components is bounded (expected numbers of visits are finite)"""
    solve = E.contracts[ML + ":MILP.solve"]

    def s(E, fn, p, *a, **k):
        r = solve(E, fn, p, *a, **k)
        E.fact(r.st != strconst("unbounded"))
        return r
    E.contracts = dict(E.contracts, **{ML + ":MILP.solve": s})
    return f()


# ---- U3: indicator constraints
def program_of(E, D):
    """a program with D variables, nothing known of them"""
    p = new_prog(E, cls(E, ML, "MILP"), "min", D)
    p.attrs["#vars"].counted = True
    p.attrs["#vars"].pieces = (("dom", Domain("I", lambda i: And(0 <= i, i < D), elem=lambda i: (i, "real", None, None), pos=lambda i: i, at=lambda i: i, card=D, lo=IntVal(0), hi=D, name="v")),)
    return p


def u_ind(bounds, domain):
    def run(E):
        D = nat(E, "D", 1)
        p = program_of(E, D)
        progs = []
        E.contracts = milp_contracts(E, progs)
        grp = rel_inst(E, "O", "I", "grp", False)
        k, v = E.fresh_flat(("O", "I"), "k")
        E.fact(forall([k, v], Implies(grp.rel((k, v)), And(0 <= v, v < D))))
        ub = symvec(E, D, "ub") if bounds else None
        c = ub.at if bounds else (lambda v: RealVal(1))
        old = len(p.attrs["#vars"].pieces), len(p.attrs["#cons"].pieces)
        obj = p.attrs["#obj"]
        ok, r = no_exception(E, lambda: E.call(fun(E, FO, "add_indicator_constraints"), [p, Opaque("variables"), ub, "min", grp, False], {"indicator_domain": domain}))
        if not ok:
            return
        new = p.attrs["#vars"].pieces[old[0]:]
        if len(new) != 1 or new[0][0] != "dom" or flat_shape(new[0][1].sh) != flat_shape("O"):
            raise Unsupported("shape of the indicator variables")
        d = new[0][1]
        idx = lambda k: lift(d.elem(k)[0], "I")
        n1 = lift(nvars(p), "I")
        k, k2, v, q = const(E, "O", "key"), const(E, "O", "key"), const(E, "I", "member"), const(E, "I", "q")
        E.oblig("there is an indicator for every group", d.mem(k) == grp.dom(k))
        E.oblig("indicators are new variables", Implies(grp.dom(k), And(D <= idx(k), idx(k) < n1)))
        E.oblig("no two groups share an indicator", Implies(And(grp.dom(k), grp.dom(k2), idx(k) == idx(k2)), k == k2))
        kk = E.fresh_flat("O", "k")[0]
        E.oblig("every new variable is an indicator", Implies(And(D <= q, q < n1), z3.Exists([kk], And(grp.dom(kk), idx(kk) == q))))
        _, kind, lb, u = d.elem(k)
        E.oblig("indicators have the requested domain", BoolVal(kind == domain))
        E.oblig("indicators are not negative", BoolVal(lb is not None and lb == 0))
        E.oblig("indicators are at most 1 when there are upper bounds", BoolVal((u is None) == (not bounds) and (u is None or u == 1)))
        # the returned correspondence
        if not (isinstance(r, Inst) and r.cls.name == "InvertibleDict"):
            raise Unsupported("result")
        di = r.attrs["_InvertibleDict__d"]
        if not isinstance(di, RelDict):
            raise Unsupported("representation of the indicators")
        E.oblig("the keys returned are the indicators", bexpr(di.has(q)) == And(D <= q, q < n1))
        E.oblig("an indicator belongs to its group", Implies(grp.dom(k), di.rel((idx(k), v)) == grp.rel((k, v))))
        E.oblig("nothing else is in the correspondence", Implies(di.rel((q, v)), And(D <= q, q < n1)))
        # the constraints
        x = E.fresh_fun("I", "R", "x")
        tight = lambda k, v: x(v) <= c(v) * x(idx(k))
        n0 = len(E.pc)
        cs = p.attrs["#cons"].iterate()[old[1]:]
        q2 = new_prog(E, p.cls, "min", 0)
        q2.attrs["#cons"].pieces = tuple(cs)
        E.fact(feasible(E, q2, x))
        E.oblig("a positive entry needs its indicators", Implies(grp.rel((k, v)), tight(k, v)))
        del E.pc[n0:]
        E.fact(quant(E, ("O", "I"), lambda kv: Implies(grp.rel(kv), tight(kv[0], kv[1]))))
        for cc, h in cons_elems(E, q2):
            E.oblig("no further constraint is added", Implies(cc, h(x)))
        del E.pc[n0:]
        E.oblig("the objective is not changed", BoolVal(p.attrs["#obj"] is obj))
        E.oblig("the groups are not changed", grp.attrs["_InvertibleDict__d"].rel((k, v)) == grp.rel((k, v)))
    return Unit("add_indicator_constraints[%s,%s]" % ("upper bounds" if bounds else "no bounds", domain), [FO + ":add_indicator_constraints"], run)


# ---- U4: the program
def milp_from(E, progs):
    """contract of MILP.from_coefficients (C13)"""
    def f(E, fn, c, A, b, opt, domains, sense="<=", objective="min", bounds=None):
        p = from_coefficients(E, cls(E, ML, "MILP"), A, b, opt, sense, objective)
        n = lift(A.n, "I")
        t, kind = seq(E, domains)
        E.oblig("there is a domain for every variable", lift(t, "I") == n)
        if bounds is not None:
            t, bd = seq(E, bounds)
            E.oblig("there are bounds for every variable", lift(t, "I") == n)
        else:
            bd = lambda i: (None, None)
        p.attrs["#vars"].pieces = (("dom", Domain("I", lambda i: And(0 <= i, i < n), elem=lambda i: (i, kind(i)) + tuple(E.unpack(bd(i), 2)), pos=lambda i: i, at=lambda i: i, card=n, lo=IntVal(0), hi=n, name="v")),)
        p.attrs["#vars"].counted = True
        progs.append(p)
        return p
    return {ML + ":MILP.from_coefficients": f}


def solution(E, st, mode, t, y):
    """y is a certificate: rows, not negative, and for the min form 0 in proper end components and at most 1"""
    D = st["N"] if mode == "min" else st["C"]
    c, _ = conditions(E, st, mode, ">=", t, y, RealVal(0))
    j = E.fresh_flat("I", "j")[0]
    return And(c, forall([j], Implies(And(0 <= j, j < D), And(y(j) >= 0, *([y(j) <= 1] if mode == "min" else [])))))


def size_contract(st):
    return {FO + ":certificate_size": lambda E, f, rf, mode: st["N"] if mode == "min" else st["C"]}


def groups_contract(E, st, mode, log):
    D = st["N"] if mode == "min" else st["C"]
    grp = rel_inst(E, "O", "I", "grp", False)
    k, v = E.fresh_flat(("O", "I"), "k")
    E.fact(forall([k, v], Implies(grp.rel((k, v)), And(0 <= v, v < D))))

    def f(E, fn, rf, mode, labels=None, group_actions=False):
        log.append((mode, labels, group_actions))
        return grp
    return grp, {FO + ":groups_from_labels": f}


def bounds_contract(E, st, t, y):
    """contract of compute_upper_bounds (U2) for the ghost certificate y"""
    def f(E, fn, matr, rhs, solver="cbc", timeout=600):
        C, N = st["C"], st["N"]
        _, yc = rf_contracts(E, st)
        M, r = yc(E, None, None, t)
        mat_eq(E, "upper bounds: matrix", matr, simplify(N + 1), C, lambda i, j: M.at((i, j)))
        vec_eq(E, "upper bounds: right-hand side", rhs, simplify(N + 1), r.at)
        s = E.fresh("O", "bound_status")
        ub = symvec(E, C, "ub")
        E.fact(disj([s == strconst(x) for x in STATUS if x != "unbounded"]))
        E.fact(Implies(st["free"], Or(s == strconst("optimal"), s == strconst("infeasible"))))
        E.fact(s != strconst("infeasible"))
        E.fact(Implies(s == strconst("optimal"), quant(E, "I", lambda j: Implies(And(0 <= j, j < C), y(j) <= ub.at(j)))))
        f.ub = ub
        return (s, ub)
    return f


def ind_contract(E, grp, log):
    """contract of add_indicator_constraints (U3)"""
    def f(E, fn, p, variables, upper_bounds, mode, groups, use_real_indicator_constrs=False, indicator_domain="real"):
        if groups is not grp:
            raise Unsupported("groups")
        E.oblig("indicator constraints are linear", BoolVal(use_real_indicator_constrs is False))
        D = lift(nvars(p), "I")
        M = const(E, "I", "M")
        E.fact(M >= 0)
        n1 = simplify(D + M)
        key, idx = E.fresh_fun("I", "O", "key"), E.fresh_fun("O", "I", "idx")
        k, q = E.fresh_flat("O", "k")[0], E.fresh_flat("I", "q")[0]
        E.fact(forall([k], Implies(grp.dom(k), And(D <= idx(k), idx(k) < n1, key(idx(k)) == k))))
        E.fact(forall([q], Implies(And(D <= q, q < n1), And(grp.dom(key(q)), idx(key(q)) == q))))
        ind = rel_inst(E, "I", "I", "ind", False)
        v = E.fresh_flat("I", "v")[0]
        E.fact(forall([q, v], ind.rel((q, v)) == And(D <= q, q < n1, grp.rel((key(q), v)))))
        E.fact(forall([q], ind.dom(q) == And(D <= q, q < n1)))
        if upper_bounds is not None:
            if not isinstance(upper_bounds, VecV):
                raise Unsupported("upper bounds")
            E.oblig("there is an upper bound for every variable", lift(upper_bounds.n, "I") >= D)
            c = upper_bounds.at
        else:
            c = lambda v: RealVal(1)
        ub = 1 if upper_bounds is not None else None
        p.attrs["#vars"].pieces = p.attrs["#vars"].pieces + (("dom", Domain("I", lambda q: And(D <= q, q < n1), elem=lambda q: (q, indicator_domain, 0, ub), pos=lambda q: simplify(q - D), at=lambda i: simplify(i + D), card=M, lo=D, hi=n1, name="g")),)
        p.attrs["#cons"].pieces = p.attrs["#cons"].pieces + (("dom", Domain(("I", "I"), lambda qv: ind.rel(qv), elem=lambda qv: (Expr(E, pieces=[("one", (qv[1], RealVal(1))), ("one", (qv[0], -c(qv[1])))]), "<=", RealVal(0)), name="gv")),)
        ind.g = dict(D=D, n1=n1, c=c, bounded=upper_bounds is not None, domain=indicator_domain, p=p)
        log.append(ind)
        return ind
    return f


def u_milp(mode, relaxed):
    def run(E):
        rf, st = form(E)
        C, N = st["C"], st["N"]
        D = N if mode == "min" else C
        t = const(E, "R", "t")
        E.fact(And(0 <= t, t <= 1))
        if mode == "max" and not relaxed:
            E.fact(st["free"])
        y = E.fresh_fun("I", "R", "certificate")
        E.fact(solution(E, st, mode, t, y))
        progs, glog, ilog = [], [], []
        grp, gc = groups_contract(E, st, mode, glog)
        E.contracts = dict(dict(E.contracts, **milp_contracts(E, progs)), **dict(milp_from(E, progs), **dict(gc, **size_contract(st))))
        E.contracts[FO + ":compute_upper_bounds"] = bounds_contract(E, st, t, y)
        E.contracts[FO + ":add_indicator_constraints"] = ind_contract(E, grp, ilog)
        E.contracts[ID + ":InvertibleDict.keys"] = None
        del E.contracts[ID + ":InvertibleDict.keys"]
        labels = Opaque("labels")
        ok, r = no_exception(E, lambda: E.call(fun(E, FO, "construct_MILP"), [rf, t, mode], {"labels": labels, "relaxed": relaxed}))
        if not ok:
            return
        if not (isinstance(r, tuple) and len(r) == 2):
            raise Unsupported("result")
        if r[0] is None:
            E.oblig("no program is built only when there is no certificate", BoolVal(False))
            return
        p, ind = r
        if not (isinstance(p, Inst) and "#cons" in p.attrs) or not ilog or ind is not ilog[-1]:
            raise Unsupported("result")
        g = ind.g
        n1, c = g["n1"], g["c"]
        E.oblig("groups are formed by the given labels", BoolVal(bool(glog) and glog[-1][1] is labels and glog[-1][0] == mode))
        E.oblig("the exact max form groups variables by state, otherwise each stands alone", BoolVal(glog[-1][2] == (mode == "max" and not relaxed)))
        E.oblig("indicators are added to the program", BoolVal(g["p"] is p))
        E.oblig("one variable per entry of the certificate comes before the indicators", g["D"] == D)
        E.oblig("nothing is added after the indicators", lift(nvars(p), "I") == n1)
        E.oblig("indicators are binary in the exact program", BoolVal(relaxed or (g["domain"] == "binary" and g["bounded"])))
        # feasible assignments
        x = E.fresh_fun("I", "R", "x")
        i, j, q = const(E, "I", "i"), const(E, "I", "j"), const(E, "I", "q")
        n0 = len(E.pc)
        E.fact(feasible(E, p, x))
        for nm, cc in program_conditions(E, st, mode, t, ind, x, relaxed):
            E.oblig("a solution: " + nm, cc)
        del E.pc[n0:]
        # every certificate is a solution
        z = E.fresh_fun("I", "R", "z")
        w = E.fresh_fun("I", "R", "assignment")
        v = const(E, "I", "v")
        E.fact(quant(E, "I", lambda q: w(q) == If(q < D, y(q), z(q))))
        E.fact(touched(E, ind, y, z))
        rows_agree(E, st, mode, w, y)
        for cc, h in cons_elems(E, p):
            E.oblig("a certificate with its indicators set is a solution", Implies(cc, h(w)))
        del E.pc[n0:]
        E.oblig("the number of indicators set is minimised", And(BoolVal(p.attrs["#sense"] == "min"), objective(E, p, x) == lsum(E, "I", ind.dom, x)))
    return Unit("construct_MILP[%s,%s]" % (mode, "relaxed" if relaxed else "exact"), [FO + ":construct_MILP"], run)


def rows_agree(E, st, mode, w, y):
    """w and y have the same entries for the certificate, hence the same rows"""
    C, N, A = st["C"], st["N"], st["A"]
    D = N if mode == "min" else C
    dj = lambda j: And(0 <= j, j < D)
    m = (lambda i, j: If(i < C, A((i, j)), If(j == st["init"], RealVal(-1), RealVal(0)))) if mode == "min" else (lambda i, j: If(i < N, A((j, i)), -st["b"](j)))
    sum_ext(E, "rows", "I", dj, lambda j: m(const_i, j) * w(j), lambda j: m(const_i, j) * y(j)) if False else None
    i = const(E, "I", "i")
    b = const(E, "I", "b")
    E.oblig("rows of the assignment", Implies(dj(b), m(i, b) * w(b) == m(i, b) * y(b)))
    E.fact(quant(E, "I", lambda i: lsum(E, "I", dj, lambda j: m(i, j) * w(j)) == lsum(E, "I", dj, lambda j: m(i, j) * y(j))))
    # and the rows of the program are those of the form
    n, one, rhs = (C, (lambda i, j: A((i, j))), st["b"]) if mode == "min" else (N, (lambda i, j: A((j, i))), None)
    E.oblig("rows of the program", Implies(And(dj(b), 0 <= i, i < n), m(i, b) * y(b) == one(i, b) * y(b)))
    E.fact(quant(E, "I", lambda i: Implies(And(0 <= i, i < n), lsum(E, "I", dj, lambda j: m(i, j) * y(j)) == lsum(E, "I", dj, lambda j: one(i, j) * y(j)))))
    l = const(E, "I", "last")
    E.fact(l == n)
    if mode == "min":
        sum_point(E, "threshold row", "I", dj, lambda j: m(l, j) * y(j), st["init"])
    else:
        sum_add(E, "threshold row", "I", dj, lambda j: RealVal(0), lambda j: st["b"](j) * y(j), lambda j: m(l, j) * y(j))
    E.fact(lsum(E, "I", dj, lambda j: m(n, j) * y(j)) == lsum(E, "I", dj, lambda j: m(l, j) * y(j)))


def touched(E, ind, y, z):
    """z sets the indicator of every group the certificate y touches"""
    g = ind.g
    q, v = E.fresh_flat(("I", "I"), "q")
    dom = ind.dom(q)
    if g["bounded"]:
        return And(forall([q], Implies(dom, Or(z(q) == 0, z(q) == 1))), forall([q, v], Implies(And(ind.rel((q, v)), y(v) > 0), z(q) == 1)))
    return And(forall([q], Implies(dom, z(q) >= 0)), forall([q, v], Implies(ind.rel((q, v)), z(q) >= y(v))))


def program_conditions(E, st, mode, t, ind, x, relaxed, jqv=None):
    """what a solution of the program satisfies (goals for arbitrary indices)"""
    g = ind.g
    D = g["D"]
    c, _ = conditions(E, st, mode, ">=", t, x, RealVal(0))
    j, q, v = jqv or (const(E, "I", "j"), const(E, "I", "q"), const(E, "I", "v"))
    out = [("the certificate conditions", c), ("entries are not negative", Implies(And(0 <= j, j < D), x(j) >= 0)),
           ("indicators are not negative", Implies(ind.dom(q), x(q) >= 0)), ("a positive entry needs its indicators", Implies(ind.rel((q, v)), x(v) <= g["c"](v) * x(q)))]
    if mode == "min":
        out.append(("entries are at most 1", Implies(And(0 <= j, j < D), x(j) <= 1)))
    if g["bounded"]:
        out.append(("indicators are at most 1", Implies(ind.dom(q), x(q) <= 1)))
    if not relaxed:
        out.append(("indicators are 0 or 1", Implies(ind.dom(q), Or(x(q) == 0, x(q) == 1))))
    return out


# ---- contract of construct_MILP (U4)
SS = "switss.problem.subsystem"


def program(E, st, mode, t, relaxed, bounded):
    """a program as construct_MILP builds it: an assignment is feasible only if it satisfies the conditions, and every
    certificate with its indicators set is feasible"""
    D = st["N"] if mode == "min" else st["C"]
    grp, _ = groups_contract(E, st, mode, [])
    p = new_prog(E, cls(E, ML, "MILP"), "min", D)
    p.attrs["#vars"].counted = True
    p.attrs["#vars"].pieces = (("dom", Domain("I", lambda i: And(0 <= i, i < D), elem=lambda i: (i, "real", None, None), pos=lambda i: i, at=lambda i: i, card=D, lo=IntVal(0), hi=D, name="v")),)
    ub = symvec(E, D, "ub") if bounded else None
    ind = ind_contract(E, grp, [])(E, None, p, None, ub, mode, grp, False, "real" if relaxed else "binary")
    p.attrs["#cons"].pieces = ()
    g = ind.g
    n1 = g["n1"]
    p.attrs["#vars"].pieces = (("dom", Domain("I", lambda i: And(0 <= i, i < n1), elem=lambda i: (i, "real", None, None), pos=lambda i: i, at=lambda i: i, card=n1, lo=IntVal(0), hi=n1, name="v")),)
    p.attrs["#obj"] = Expr(E, pieces=[("dom", Domain("I", ind.dom, elem=lambda q: (q, RealVal(1)), name="g"))])
    memo = {}

    def base(x):
        if x not in memo:
            f = E.fresh("B", "feasible")
            memo[x] = f
            jqv = E.fresh_flat(("I", "I", "I"), "j")
            cs = [c for _, c in program_conditions(E, st, mode, t, ind, x, relaxed, jqv)]
            E.fact(Implies(f, And(cs[0], forall(jqv, conj(cs[1:])))))
        return memo[x]

    def complete(y, z, w):
        """the certificate y with the indicators z is the assignment w"""
        E.fact(quant(E, "I", lambda q: w(q) == If(q < D, y(q), z(q))))
        E.fact(Implies(And(solution(E, st, mode, t, y), touched(E, ind, y, z)), base(w)))
    p.base, p.complete, p.ind = base, complete, ind
    return p, ind


def construct_contract(E, st, rf, mode, t, relaxed, has, log):
    def f(E, fn, reach_form, threshold, m, labels=None, relaxed_=None, **kw):
        relax = kw.pop("relaxed", relaxed_)
        E.oblig("the program is built for this form", BoolVal(reach_form is rf))
        E.oblig("the program is built for this threshold", real(threshold) == t)
        E.oblig("the program is built for this mode", BoolVal(m == mode))
        E.oblig("the program is the %s one" % ("relaxed" if relaxed else "exact"), BoolVal(bool(relax) == relaxed))
        E.oblig("the program is built by PuLP", BoolVal(kw.get("modeltype_str", "pulp") == "pulp"))
        E.oblig("no bounds are imposed", BoolVal(kw.get("known_upper_bounds") is None))
        log.append(labels)
        if not has and E.nondet():
            return (None, None)
        bounded = mode == "min" or not relaxed or E.nondet()
        p, ind = program(E, st, mode, t, relaxed, bounded)
        log.append(p)
        return (p, ind)
    # positional call of the real signature
    def g(E, fn, reach_form, threshold, mode, labels=None, relaxed=False, known_upper_bounds=None, upper_bound_solver="cbc", modeltype_str="pulp"):
        return f(E, fn, reach_form, threshold, mode, labels, relaxed=relaxed, known_upper_bounds=known_upper_bounds, modeltype_str=modeltype_str)
    return {FO + ":construct_MILP": g}


def subsystem_contract(E, subs):
    def f(E, fn, supersystem, certificate, certform, ignore_consistency_checks=False):
        if not isinstance(certificate, VecV):
            raise Unsupported("certificate is not a vector")
        s = Inst(E, fn, {"supersystem": supersystem, "certificate": certificate, "certform": certform})
        s.at = certificate.at
        subs.append(s)
        return s
    return {SS + ":Subsystem": f}


def reported(E, st, rf, mode, t, res, x, sub_at=None):
    """a reported success: its certificate satisfies the conditions, its subsystem is that of the certificate; the certificate
    equals the solution x of the program"""
    D = st["N"] if mode == "min" else st["C"]
    dj = lambda j: And(0 <= j, j < D)
    a = res.attrs
    c, s = a["farkas_cert"], a["subsystem"]
    if c is None or s is None:
        E.oblig("a success is reported with its subsystem and certificate", BoolVal(False))
        raise EndPath()
    if not isinstance(c, VecV) or not isinstance(s, Inst) or "certform" not in s.attrs:
        raise Unsupported("contents of a result")
    j = const(E, "I", "j")
    E.oblig("the certificate has the right length", lift(c.n, "I") == D)
    E.oblig("the certificate is the solution of the program", Implies(dj(j), c.at(j) == x(j)))
    E.fact(quant(E, "I", lambda j: Implies(dj(j), c.at(j) == x(j))))
    E.oblig("the subsystem is one of the given form, in the given mode", BoolVal(s.attrs["supersystem"] is rf and s.attrs["certform"] == mode))
    sc = s.attrs["certificate"]
    E.oblig("the subsystem is that of the certificate", And(lift(sc.n, "I") == D, Implies(dj(j), sc.at(j) == c.at(j))))
    y = E.fresh_fun("I", "R", "cert")
    E.fact(quant(E, "I", lambda j: y(j) == c.at(j)))
    same_rows(E, st, mode, y, x)
    cc, _ = conditions(E, st, mode, ">=", t, y, RealVal(0))
    E.oblig("the certificate satisfies the Farkas conditions", cc)
    E.fact(cc)
    return y


def same_rows(E, st, mode, y, x):
    C, N, A = st["C"], st["N"], st["A"]
    D = N if mode == "min" else C
    dj = lambda j: And(0 <= j, j < D)
    i, b = const(E, "I", "i"), const(E, "I", "b")
    E.oblig("entries of the certificate", Implies(dj(b), y(b) == x(b)))
    E.fact(quant(E, "I", lambda j: Implies(dj(j), y(j) == x(j))))
    m = (lambda i, j: A((i, j))) if mode == "min" else (lambda i, j: A((j, i)))
    E.oblig("terms of the rows of the certificate", Implies(dj(b), m(i, b) * y(b) == m(i, b) * x(b)))
    E.fact(quant(E, "I", lambda i: lsum(E, "I", dj, lambda j: m(i, j) * y(j)) == lsum(E, "I", dj, lambda j: m(i, j) * x(j))))
    if mode == "max":
        sum_ext(E, "value of the certificate", "I", dj, lambda j: st["b"](j) * y(j), lambda j: st["b"](j) * x(j))


def indicators_of(E, ind, y, name):
    """the 0/1 assignment saying which groups the certificate y touches"""
    z = E.fresh_fun("I", "R", name)
    v = E.fresh_flat("I", "v")[0]
    w = E.fresh_fun("I", "I", name + "_member")
    E.fact(quant(E, "I", lambda q: And(Or(z(q) == 0, z(q) == 1), Implies(z(q) == 1, And(ind.rel((q, w(q))), y(w(q)) > 0)))))
    E.fact(quant(E, ("I", "I"), lambda qv: Implies(And(ind.rel(qv), y(qv[1]) > 0), z(qv[0]) == 1)))
    return z


def solvable(E, r, ind, w, name):
    """a program with a solution, whose objective is bounded below by 0, is solved to optimality (solver contract)"""
    E.oblig(name + ": the program has a solution", r.feasible(w))
    n0 = len(E.pc)
    x = E.fresh_fun("I", "R", "other")
    E.fact(r.feasible(x))
    o = r.prog.attrs["#obj"]
    if o is None or not o.pieces or len(o.pieces) != 1 or o.pieces[0][0] != "dom" or r.prog.attrs["#sense"] != "min":
        raise Unsupported("objective")
    d = o.pieces[0][1]
    q = const(E, d.sh, "q")
    v, c = d.elem(q)
    E.oblig(name + ": the objective is bounded", Implies(d.mem(q), real(c) * x(lift(v, "I")) >= 0))
    del E.pc[n0:]
    E.fact(r.st == strconst("optimal"))


# ---- U5: exact minimisation
def u_exact(mode, has):
    def run(E):
        rf, st = form(E)
        C, N = st["C"], st["N"]
        D = N if mode == "min" else C
        t = const(E, "R", "t")
        E.fact(And(0 <= t, t <= 1))
        if mode == "max":
            E.fact(st["free"])
        progs, log, subs = [], [], []
        con = dict(E.contracts)
        con.update(lp_contracts(E, progs))
        con.update(size_contract(st))
        con.update(construct_contract(E, st, rf, mode, t, False, has, log))
        con.update(subsystem_contract(E, subs))
        E.contracts = con
        o = Inst(E, cls(E, MX, "MILPExact"), {"solver": "cbc"})
        labels = Opaque("labels")
        solve = con[ML + ":MILP.solve"]
        state = {}
        y = E.fresh_fun("I", "R", "certificate")
        if has:
            E.fact(solution(E, st, mode, t, y))

        def solve2(E, f, p, solver="cbc", timeout=None, print_output=False):
            r = solve(E, f, p, solver, timeout, print_output)
            E.oblig("the program is solved by the chosen solver without a time limit of its own", BoolVal(solver == "cbc" and timeout is None))
            if has:
                z = indicators_of(E, p.ind, y, "touched")
                w = E.fresh_fun("I", "R", "assignment")
                p.complete(y, z, w)
                solvable(E, r, p.ind, w, "exact")
                optimal(E, r, w)
                E.fact(quant(E, "I", lambda q: Implies(p.ind.dom(q), w(q) == z(q))))
                sum_ext(E, "objective of the certificate", "I", p.ind.dom, w, z)
                state["best"] = lsum(E, "I", p.ind.dom, z)
            state["r"] = r
            return r
        E.contracts[ML + ":MILP.solve"] = solve2
        ok, res = no_exception(E, lambda: E.call(E.getattr(o, "_solveiter"), [rf, t, mode, labels], {}))
        if not ok:
            return
        ys = E.iterate(res)
        if any(k != "one" for k, _ in ys) or not all(isinstance(v, Inst) and "status" in v.attrs for _, v in ys):
            raise Unsupported("results")
        E.oblig("there is exactly one result", BoolVal(len(ys) == 1))
        if len(ys) != 1:
            return
        E.oblig("groups are formed by the given labels", BoolVal(bool(log) and log[0] is labels))
        v = ys[0][1]
        status = v.attrs["status"]
        good = status == "success" if isinstance(status, str) else None
        if good is None:
            E.oblig("a status other than success is not success", lift(status, "O") != strconst("success"))
            good = False
        if not good:
            E.oblig("a system that meets the threshold is not reported otherwise", BoolVal(not has))
            E.oblig("nothing is reported with a failure", BoolVal(all(v.attrs[k] is None for k in ("subsystem", "value", "farkas_cert"))))
            return
        r = state.get("r")
        if r is None:
            E.oblig("success is reported only for a solved program", BoolVal(False))
            return
        E.oblig("success is reported only for an optimal solution", r.st == strconst("optimal"))
        E.fact(r.st == strconst("optimal"))
        p, ind = r.prog, r.prog.ind
        q = const(E, "I", "q")
        k = const(E, "I", "k")
        vv = E.fresh_flat("I", "v")[0]
        lemma_all(E, "an entry of a group that is not kept is 0", ("I", "I"), lambda qv: Implies(And(ind.rel(qv), r.x(qv[0]) < RealVal("0.5")), r.x(qv[1]) == 0))
        c = reported(E, st, rf, mode, t, v, r.x)
        # the value is the number of groups touched
        z = indicators_of(E, ind, c, "kept")
        w = E.fresh_fun("I", "R", "kept_assignment")
        E.oblig("entries of the certificate are in range", Implies(And(0 <= k, k < D), And(c(k) >= 0, *([c(k) <= 1] if mode == "min" else []))))
        E.fact(quant(E, "I", lambda k: Implies(And(0 <= k, k < D), And(c(k) >= 0, *([c(k) <= 1] if mode == "min" else [])))))
        lemma(E, "the certificate is one", solution(E, st, mode, t, c))
        p.complete(c, z, w)
        lemma(E, "the certificate with its groups is a solution", r.feasible(w))
        optimal(E, r, w)
        E.fact(quant(E, "I", lambda q: Implies(ind.dom(q), w(q) == z(q))))
        sum_ext(E, "objective of the groups kept", "I", ind.dom, w, z)
        sum_le(E, "a group touched is counted", "I", ind.dom, z, r.x)
        E.oblig("the value is the number of groups the certificate touches", real(v.attrs["value"]) == lsum(E, "I", ind.dom, z))
        if has:
            E.oblig("no certificate touches fewer groups", real(v.attrs["value"]) <= state["best"])
    return Unit("MILPExact[%s,%s]" % (mode, "met" if has else "not known"), [MX + ":MILPExact._solveiter", PR_ + ":ProblemResult.__init__"], run)


# ---- U6: the heuristic
def weights_list(E, ind, name):
    c = E.fresh_fun("I", "R", name)
    E.fact(quant(E, "I", lambda q: Implies(ind.dom(q), c(q) >= 0)))
    return BagV(E, [("dom", Domain("I", ind.dom, elem=lambda q: (q, c(q)), name="g"))])


def weight_contracts(E, st, rf, mode, iname, uname, state):
    """contracts of the initialisers and updaters (C19): one nonnegative coefficient per indicator; the constraints of an
    updater are satisfied by the result they are made from"""
    def ctor(E, fn, reachability_form=None, mode=None, indicator_to_group=None, **kw):
        m2 = state["mode"]
        E.oblig("weights are computed for this form, mode and correspondence", BoolVal(reachability_form is rf and mode == m2 and indicator_to_group is state["p"].ind))
        return Inst(E, fn, {})
    state["mode"] = mode

    def init(E, f, self):
        return weights_list(E, state["p"].ind, "initial_weight")

    def last(E, v):
        ind = state["p"].ind
        if not isinstance(v, VecV):
            raise Unsupported("last result")
        q = const(E, "I", "q")
        E.oblig("the last result has an entry for every indicator", lift(v.n, "I") >= ind.g["n1"])
        E.oblig("indicators of the last result are not negative", Implies(ind.dom(q), v.at(q) >= 0))
        return v.at

    def update(E, f, self, lr):
        last(E, lr)
        return weights_list(E, state["p"].ind, "weight")

    def constraints(E, f, self, lr):
        at = last(E, lr)
        if "Fixed" not in uname:
            return BagV(E)
        ind = state["p"].ind
        return BagV(E, [("dom", Domain("I", lambda q: And(ind.dom(q), at(q) == 0), elem=lambda q: (BagV(E, [("one", (q, RealVal(1)))]), "=", IntVal(0)), name="g"))])
    return {QP + ":" + iname: ctor, QP + ":" + uname: ctor, QP + ":" + iname + ".initialize": init, QP + ":" + uname + ".update": update, QP + ":" + uname + ".constraints": constraints}


class HeurInv:
    """the program is the one built plus linear constraints, its objective has nonnegative coefficients on indicators, and it
    has a solution when the system meets the threshold"""

    def __init__(self, state):
        self.state, self.names, self.frame = state, [], []

    def entries(self, E, what, pieces, n):
        for c, e in bag_elems(E, pieces):
            v, x = E.unpack(e, 2)
            v = lift(v, "I")
            E.oblig(what + ": coefficients belong to indicators and are not negative", Implies(c, And(self.ind.dom(v), real(x) >= 0)))
        k = const(E, "I", "k")
        E.oblig(what + ": every indicator occurs once", bag_count(E, pieces, lambda e: lift(E.unpack(e, 2)[0], "I") == k) == If(self.ind.dom(k), RealVal(1), RealVal(0)))

    def check(self, E, fr, when):
        s = self.state
        p = self.p = s["p"]
        self.ind = p.ind
        self.frame = [p, p.attrs["#cons"], p.attrs["#vars"]]
        if when == "before the loop":
            self.names = [n for n, v in fr.loc.items() if isinstance(v, BagV) and v.pieces]
            self.nv = p.attrs["#vars"].pieces
        if s["has"]:
            w = s["w"] if when == "before the loop" else s["r"].x
            cs = [("the program", p.base(w))] + [("a constraint", Implies(kk, cc(w))) for kk, cc in cons_elems(E, p)]
            for nm, c in cs:
                E.oblig("the program has a solution %s (%s)" % (when, nm), c)
        E.oblig("variables are not added %s" % when, BoolVal(p.attrs["#vars"].pieces is self.nv))
        o = p.attrs["#obj"]
        if o is None or o.pieces is None:
            raise Unsupported("objective")
        self.entries(E, "the objective %s" % when, o.pieces, None)
        for n in self.names:
            v = fr.loc.get(n)
            if not isinstance(v, BagV):
                raise Unsupported("variable %s" % n)
            self.entries(E, "the next objective %s" % when, E.iterate(v), None)

    def havoc(self, E, fr, names):
        p, s = self.p, self.state
        n1 = self.ind.g["n1"]
        ps = []
        for sense in ("<=", "=", ">="):
            X, M, rhs = E.fresh_fun("I", "B", "extra"), E.fresh_fun(("I", "I"), "R", "extra_matrix"), E.fresh_fun("I", "R", "extra_rhs")
            ps.append(("dom", Domain("I", X, elem=lambda i, M=M, rhs=rhs, sense=sense: (Expr(E, row=("#row", M, n1, i)), sense, rhs(i)), name="extra")))
        p.attrs["#cons"].pieces = tuple(ps)
        p.attrs["#obj"] = Expr(E, pieces=weights_list(E, self.ind, "objective").pieces)
        for n in self.names:
            if n in names:
                fr.loc[n] = weights_list(E, self.ind, "current")
        if s["has"]:
            w = E.fresh_fun("I", "R", "solution")
            E.fact(feasible(E, p, w))
            s["w"] = w
        s["r"] = None


def u_heur(mode, has, iname, uname):
    def run(E):
        rf, st = form(E)
        C, N = st["C"], st["N"]
        D = N if mode == "min" else C
        t = const(E, "R", "t")
        E.fact(And(0 <= t, t <= 1))
        progs, log, subs, results = [], [], [], []
        state = {"has": has}
        con = dict(E.contracts)
        con.update(lp_contracts(E, progs))
        con.update(size_contract(st))
        con.update(subsystem_contract(E, subs))
        con.update(weight_contracts(E, st, rf, mode, iname, uname, state))
        cc = construct_contract(E, st, rf, mode, t, True, has, log)[FO + ":construct_MILP"]
        y = E.fresh_fun("I", "R", "certificate")
        if has:
            E.fact(solution(E, st, mode, t, y))

        def construct(E, *a, **k):
            r = cc(E, *a, **k)
            if r[0] is not None:
                p = state["p"] = r[0]
                if has:
                    ind = p.ind
                    z = E.fresh_fun("I", "R", "indicators")
                    w = state["w"] = E.fresh_fun("I", "R", "assignment")
                    if ind.g["bounded"]:
                        z = indicators_of(E, ind, y, "touched")
                    else:           # large enough indicators (finitely many entries have a maximum)
                        mx = const(E, "R", "largest")
                        E.fact(And(mx >= 0, quant(E, "I", lambda v: Implies(And(0 <= v, v < D), y(v) <= mx))))
                        E.fact(quant(E, "I", lambda q: z(q) == mx))
                        k, v = E.fresh_flat(("I", "I"), "q")
                        E.fact(forall([k, v], Implies(ind.rel((k, v)), And(0 <= v, v < D))))
                    p.complete(y, z, w)
            return r
        con[FO + ":construct_MILP"] = construct
        solve = con[ML + ":MILP.solve"]

        def solve2(E, f, p, solver="cbc", timeout=None, print_output=False):
            r = solve(E, f, p, solver, timeout, print_output)
            E.oblig("the program is solved by the chosen solver without a time limit of its own", BoolVal(solver == "cbc" and timeout is None))
            state["r"] = r
            if has:
                solvable(E, r, p.ind, state["w"], "heuristic")
            return r
        con[ML + ":MILP.solve"] = solve2

        def result(E, fn, status, subsystem, value, farkas_cert):
            v = Inst(E, fn, {"status": status, "subsystem": subsystem, "value": value, "farkas_cert": farkas_cert})
            results.append(v)
            if isinstance(status, str) and status == "success":
                r = state.get("r")
                if r is None:
                    E.oblig("success is reported only for a solved program", BoolVal(False))
                else:
                    E.oblig("success is reported only for an optimal solution", r.st == strconst("optimal"))
                    E.fact(r.st == strconst("optimal"))
                    reported(E, st, rf, mode, t, v, r.x)
            else:
                E.oblig("a failure is not reported as success", lift(status, "O") != strconst("success"))
                E.oblig("a system that meets the threshold is not reported otherwise", BoolVal(not has))
                E.oblig("nothing is reported with a failure", BoolVal(all(v.attrs[k] is None for k in ("subsystem", "value", "farkas_cert"))))
            return v
        con[PR_ + ":ProblemResult"] = result
        E.contracts = con
        inv = HeurInv(state)
        E.loopinv = {QH + ":QSHeur._solveiter": lambda E, fr, s: inv if "p" in state else None}
        o = Inst(E, cls(E, QH, "QSHeur"), {"solver": "cbc", "iterations": nat(E, "iterations", 1), "initializertype": cls(E, QP, iname), "updatertype": cls(E, QP, uname)})
        labels = Opaque("labels")
        ok, res = no_exception(E, lambda: E.call(E.getattr(o, "_solveiter"), [rf, t, mode, labels], {}))
        if not ok:
            return
        E.oblig("groups are formed by the given labels", BoolVal(bool(log) and log[0] is labels))
        E.oblig("without a program exactly one result is reported", BoolVal("p" in state or (len(results) == 1 and isinstance(res, BagV) and [x for x in res.pieces] == [("one", results[0])])))
        if "p" not in state and results:
            E.oblig("without a program the system is infeasible", BoolVal(results[0].attrs["status"] == "infeasible"))
    return Unit("QSHeur[%s,%s,%s,%s]" % (mode, "met" if has else "not known", iname, uname), [QH + ":QSHeur._solveiter"], run)


# ---- U7: the entry points
def u_entry(cname, mod, meth, mode):
    """solveiter checks its arguments and yields what the method yields; solve returns the last of these results"""
    def run(E):
        rf = sym_rf(E)
        t = const(E, "R", "t")
        E.fact(And(0 <= t, t <= 1))
        n, R = nat(E, "results", 1), E.fresh_fun("I", "O", "result")
        calls = []
        labels = Opaque("labels")
        to = Opaque("timeout")

        def it(E, f, self, reach_form, threshold, mode, labels, timeout=None):
            calls.append((self, reach_form, threshold, mode, labels, timeout))
            return symlist(E, n, R)
        E.contracts[mod + ":" + cname + "._solveiter"] = it
        o = Inst(E, cls(E, mod, cname), {})
        ok, res = no_exception(E, lambda: E.call(E.getattr(o, meth), [rf, t, mode], {"labels": labels, "timeout": to}))
        if not ok:
            return
        E.oblig("the method is run exactly once", BoolVal(len(calls) == 1))
        if len(calls) != 1:
            return
        c = calls[0]
        for nm, a, b in (("form", c[1], rf), ("mode", c[3], mode), ("labels", c[4], labels), ("time limit", c[5], to)):
            E.oblig("the method is run with the given " + nm, BoolVal(a is b))
        E.oblig("the method is run with the given threshold", real(c[2]) == t)
        if meth == "solve":
            E.oblig("the last result is returned", lift(res, "O") == R(n - 1))
        else:
            num, at = seq(E, BagV(E, E.iterate(res)))
            i = const(E, "I", "i")
            E.oblig("all results are passed on", num == n)
            E.oblig("results are passed on in order", Implies(And(0 <= i, i < n), lift(at(i), "O") == R(i)))
    return Unit("%s.%s[%s]" % (cname, meth, mode), [PF + ":ProblemFormulation." + meth, PF + ":ProblemFormulation.solveiter"], run)


UNITS = [Unit("actions_by_state", [AM + ":AbstractMDP.actions_by_state"], u_actions)] + [u_size(m) for m in ("min", "max")] + [u_groups(m, l, a) for m, l, a in (("min", False, False), ("min", True, False), ("max", False, False), ("max", False, True), ("max", True, True), ("max", True, False), ("min", False, True), ("min", True, True))] + [u_bounds(w) for w in ("one action each", "several actions")] + [u_ind(b, d) for b, d in ((True, "binary"), (True, "real"), (False, "real"))] + [u_milp(m, r) for m in ("min", "max") for r in (True, False)] + [u_exact(m, h) for m in ("min", "max") for h in (True, False)] + \
    [u_heur(m, h, i, u) for m in ("min", "max") for h in (True, False) for i, u in (("AllOnesInitializer", "InverseResultUpdater"), ("InverseReachabilityInitializer", "InverseResultFixedZerosUpdater"))] + \
    [u_entry(c, m, f, d) for c, m in (("MILPExact", MX), ("QSHeur", QH)) for f in ("solve", "solveiter") for d in ("min", "max")]
