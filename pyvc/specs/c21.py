"""C21: the reported vectors are the optimal probabilities, characterised as the extremal fixed points of the Bellman operators"""
from specs.models import *
from specs.lp import *
from specs.c10 import form
Q = RF + ":ReachabilityForm."


def setup(E):
    """an arbitrary reachability form; the constraint queries are represented by their contract (C10), LPs by theirs (C13)"""
    rf, g = form(E)
    C, N = g["C"], g["N"]
    P = rf.attrs["_ReachabilityForm__P"]
    p, b = P.at, g["b"]
    ix = rf.attrs["_ReachabilityForm__index_by_state_action"]
    st = ix.st
    i, j = E.fresh_flat(("I", "I"), "i")
    rng = And(0 <= i, i < C)
    E.fact(forall([i, j], Implies(And(rng, 0 <= j, j < N), And(p((i, j)) >= 0, g["A"]((i, j)) == If(st(i) == j, RealVal(1), RealVal(0)) - p((i, j))))))
    E.fact(forall([i], Implies(rng, b(i) >= 0)))
    ec = E.fresh_fun("I", "B", "in_proper_ec")
    qs = []

    def z(E, f, self, threshold):
        t = real(threshold)
        qs.append(("z", t))
        return (MatV(E, simplify(C + 1), N, lambda q: g["zm"](*q)), VecV(E, simplify(C + 1), lambda i: g["zr"](i, t)))

    def y(E, f, self, threshold):
        t = real(threshold)
        qs.append(("y", t))
        return (MatV(E, simplify(N + 1), C, lambda q: g["ym"](*q)), VecV(E, simplify(N + 1), lambda i: g["yr"](i, t)))
    progs = []
    E.contracts = dict(lp_contracts(E, progs))
    E.contracts.update({Q + "fark_z_constraints": z, Q + "fark_y_constraints": y, Q + "in_proper_ec": lambda E, f, self, s: ec(lift(s, "I"))})
    g.update(st=st, p=p, ec=ec, progs=progs, ix=ix, P=P)
    # one step of the chosen action from row i
    g["step"] = lambda i, x: sum_over(E, N, lambda j: p((i, j)) * x(j)) + b(i)
    g["row"] = lambda i, x: sum_over(E, N, lambda j: g["A"]((i, j)) * x(j))
    return rf, g


def bellman(E, g, x, low):
    """low: x(s) <= one step of every action (lower bounds on the minimum), else x(s) >= (upper bounds on the maximum)"""
    i = E.fresh_flat("I", "i")[0]
    s = g["st"](i)
    return forall([i], Implies(And(0 <= i, i < g["C"]), x(s) <= g["step"](i, x) if low else x(s) >= g["step"](i, x)))


def unit_range(E, g, x):
    i = E.fresh_flat("I", "i")[0]
    return forall([i], Implies(And(0 <= i, i < g["N"]), And(0 <= x(i), x(i) <= 1)))


def row_facts(E, g, x, what):
    """row i of the system matrix applied to x is x(s) minus the step"""
    C, N, st = g["C"], g["N"], g["st"]
    i = const(E, "I", "row")
    rng = And(0 <= i, i < C)
    dj = lambda j: And(0 <= j, j < N)
    n0 = len(E.pc)
    E.fact(rng)
    sum_add(E, "%s: the diagonal entry" % what, "I", dj, lambda j: If(st(i) == j, x(j), RealVal(0)), lambda j: g["A"]((i, j)) * x(j), lambda j: g["p"]((i, j)) * x(j))
    sum_point(E, "%s: the diagonal" % what, "I", dj, lambda j: If(st(i) == j, x(j), RealVal(0)), st(i))
    E.oblig("%s: a row of the constraints is x(s) - sum P x" % what, g["row"](i, x) == x(st(i)) - sum_over(E, N, lambda j: g["p"]((i, j)) * x(j)))
    del E.pc[n0:]
    k = E.fresh_flat("I", "k")[0]
    E.fact(forall([k], Implies(And(0 <= k, k < C), g["row"](k, x) == x(st(k)) - sum_over(E, N, lambda j: g["p"]((k, j)) * x(j)))))


def extremal(which):
    low = which != "pr_max"

    def run(E):
        rf, g = setup(E)
        extremal_run(E, rf, g, which, low, upper=1)
    return Unit("%s" % which, [Q + which, Q + "max_z_state"], run)


def extremal_run(E, rf, g, which, low, upper):
    C, N, st, ec = g["C"], g["N"], g["st"], g.get("ec")
    ok, v = no_exception(E, lambda: callm(E, rf, which))
    if not ok:
        return
    if not g["progs"] or not g["progs"][-1].solves:
        raise Unsupported("no linear program is solved")
    r = g["progs"][-1].solves[-1]
    sense = r.prog.attrs["#sense"]
    vec_eq(E, "the result", v, N, lambda i: r.x(i))
    zero = lambda x, s: Implies(And(0 <= s, s < N, ec(s)), x(s) == 0) if low and ec is not None else BoolVal(True)
    s0 = E.fresh_flat("I", "s")[0]
    inr = lambda t: And(0 <= t, t <= 1) if upper else 0 <= t
    vrange = lambda x: quant(E, "I", lambda i: Implies(And(0 <= i, i < N), inr(x(i))))
    # v0: the true probabilities (a vector of probabilities satisfying the inequalities; exists by definition)
    v0 = E.fresh_fun("I", "R", "pr")
    x = r.x
    row_facts(E, g, v0, "probabilities")
    row_facts(E, g, x, "solution")
    E.fact(And(vrange(v0), bellman(E, g, v0, low), forall([s0], zero(v0, s0))))
    N1 = "every step row holds for the probabilities"
    k = const(E, "I", "k")
    for kk, c in cons_elems(E, r.prog):
        E.oblig("the probabilities satisfy every constraint", Implies(kk, c(v0)))
    # the program is bounded: the objective of a feasible point stays within the objective of the bounds
    z = E.fresh_fun("I", "R", "other")
    i = E.fresh_flat("I", "i")[0]
    dj = lambda j: And(0 <= j, j < N)
    j = const(E, "I", "j")
    fz = r.feasible(z)
    co = coef(E, r.prog)
    E.oblig("every variable has a positive objective coefficient", Implies(dj(j), co(j) > 0))
    E.fact(quant(E, "I", lambda j: Implies(dj(j), co(j) > 0)))
    if upper or not low:
        n0 = len(E.pc)
        E.fact(fz)
        bnd = (lambda j: co(j)) if low else (lambda j: RealVal(0))
        E.oblig("feasible points are bounded", Implies(dj(j), z(j) <= 1 if low else z(j) >= 0))
        E.fact(quant(E, "I", lambda j: Implies(dj(j), z(j) <= 1 if low else z(j) >= 0)))
        if low:
            sum_le(E, "objective of a feasible point", "I", dj, lambda j: co(j) * z(j), bnd)
        else:
            sum_le(E, "objective of a feasible point", "I", dj, bnd, lambda j: co(j) * z(j))
        E.oblig("the program is bounded", r.obj(z) <= sum_over(E, N, bnd) if low else r.obj(z) >= sum_over(E, N, bnd))
        del E.pc[n0:]
    E.oblig("the program minimises upper bounds of the maximum or maximises lower bounds of the minimum", BoolVal(sense == ("max" if low else "min")))
    E.fact(r.st == strconst("optimal"))     # solver contract: a feasible bounded program is solved
    # the solution satisfies the inequalities
    q = const(E, "I", "q")
    E.oblig("the result satisfies the inequalities", Implies(And(0 <= q, q < C), x(st(q)) <= g["step"](q, x) if low else x(st(q)) >= g["step"](q, x)))
    E.oblig("the result is in range", Implies(dj(q), inr(x(q))))
    if low and ec is not None:
        E.oblig("the result is 0 in proper end components", zero(x, q))
    E.fact(And(bellman(E, g, x, low), vrange(x), forall([s0], zero(x, s0))))
    # and is extremal among all vectors that do: the better of the two in every state is feasible too
    w = lambda j: If(v0(j) >= x(j), v0(j), x(j)) if low else If(v0(j) <= x(j), v0(j), x(j))
    wf = E.fresh_fun("I", "R", "best")
    E.fact(quant(E, "I", lambda j: wf(j) == w(j)))
    row_facts(E, g, wf, "pointwise best")
    step_mono(E, g, v0, wf, low, "probabilities")
    step_mono(E, g, x, wf, low, "solution")
    for kk, c in cons_elems(E, r.prog):
        E.oblig("the pointwise best satisfies every constraint", Implies(kk, c(wf)))
    E.fact(r.feasible(wf))
    optimal(E, r, wf)
    # strictly better somewhere would give a better objective
    b1, b2 = (x, wf) if low else (wf, x)
    bad = const(E, "I", "state")
    n0 = len(E.pc)
    E.fact(And(dj(bad), v0(bad) > x(bad) if low else v0(bad) < x(bad)))
    sum_add(E, "objective: difference", "I", dj, lambda j: co(j) * b2(j), lambda j: co(j) * b1(j), lambda j: co(j) * (b2(j) - b1(j)))
    d = lambda j: co(j) * (b2(j) - b1(j))
    sum_le(E, "objective: one state counts", "I", dj, lambda j: If(j == bad, d(j), RealVal(0)), d)
    sum_point(E, "objective: one state", "I", dj, lambda j: If(j == bad, d(j), RealVal(0)), bad)
    E.oblig("the difference at the state is positive", d(bad) > 0)
    E.fact(d(bad) > 0)
    E.oblig("no vector of probabilities satisfying the inequalities is %s than the result in any state" % ("larger" if low else "smaller"), BoolVal(False))
    del E.pc[n0:]


def coef(E, p):
    """objective coefficient function (objective given over all variables in order)"""
    o = p.attrs["#obj"]
    if o is None or o.pieces is None or len(o.pieces) != 1 or o.pieces[0][0] != "dom" or o.pieces[0][1].sh != "I":
        raise Unsupported("objective of another form")
    return lambda j: real(o.pieces[0][1].elem(j)[1])


def step_mono(E, g, a, w, low, what):
    """the step of the pointwise best is at least (most) the step of either"""
    C, N = g["C"], g["N"]
    i = const(E, "I", "row")
    dj = lambda j: And(0 <= j, j < N)
    n0 = len(E.pc)
    E.fact(And(0 <= i, i < C))
    t1, t2 = (lambda j: g["p"]((i, j)) * a(j)), (lambda j: g["p"]((i, j)) * w(j))
    if low:
        sum_le(E, "%s: a step is monotone" % what, "I", dj, t1, t2)
    else:
        sum_le(E, "%s: a step is monotone" % what, "I", dj, t2, t1)
    del E.pc[n0:]
    k = E.fresh_flat("I", "k")[0]
    s1, s2 = (lambda k: sum_over(E, N, lambda j: g["p"]((k, j)) * a(j))), (lambda k: sum_over(E, N, lambda j: g["p"]((k, j)) * w(j)))
    E.fact(forall([k], Implies(And(0 <= k, k < C), s1(k) <= s2(k) if low else s2(k) <= s1(k))))




def run_z_state_action(E):
    rf, g = setup(E)
    C, N = g["C"], g["N"]
    z = symvec(E, N, "z")
    E.contracts[Q + "max_z_state"] = lambda E, f, self, solver="cbc": z
    z0 = z.at
    ok, v = no_exception(E, lambda: callm(E, rf, "max_z_state_action"))
    if ok:
        vec_eq(E, "the state-action values: one step of the minimal vector", v, C, lambda i: g["step"](i, z0))


def yspec(E, g, y):
    """y >= 0 and y A <= delta_init"""
    C, N = g["C"], g["N"]
    j, k = E.fresh_flat(("I", "I"), "j")
    col = lambda j: sum_over(E, C, lambda i: g["A"]((i, j)) * y(i))
    return [(("every frequency is nonnegative"), lambda k: Implies(And(0 <= k, k < C), y(k) >= 0)),
            (("the flow out of a state is at most the flow into it"), lambda j: Implies(And(0 <= j, j < N), col(j) <= If(j == g["init"], RealVal(1), RealVal(0))))]


def run_y_state_action(E):
    rf, g = setup(E)
    y_state_action(E, rf, g)


def y_state_action(E, rf, g):
    C, N = g["C"], g["N"]
    ok, v = no_exception(E, lambda: callm(E, rf, "max_y_state_action"))
    if not ok:
        return
    if not g["progs"] or not g["progs"][-1].solves:
        raise Unsupported("no linear program is solved")
    r = g["progs"][-1].solves[-1]
    y = r.x
    vec_eq(E, "the result", v, C, lambda i: y(i))
    sign = RealVal(1) if r.prog.attrs["#sense"] == "max" else RealVal(-1)
    di = lambda i: And(0 <= i, i < C)
    zero = lambda i: RealVal(0)
    # the empty flow is a solution (and the program is bounded by weak duality), so the solver answers
    y1 = E.fresh_fun("I", "R", "flow")
    rew = lambda y: sum_over(E, C, lambda i: g["b"](i) * y(i))
    for what, yy in (("another flow", y1),):
        E.fact(conj([quant(E, "I", f) for _, f in yspec(E, g, yy)]))
        sum_le(E, "%s: the reward is not negative" % what, "I", di, zero, lambda i: g["b"](i) * yy(i))
        sum_le(E, "%s: negated reward" % what, "I", di, lambda i: -g["b"](i) * yy(i), zero)
        for kk, c in cons_elems(E, r.prog):
            E.oblig("%s satisfies every constraint" % what, Implies(kk, c(yy)))
        E.fact(r.feasible(yy))
    E.fact(r.st == strconst("optimal"))
    q = const(E, "I", "q")
    for n, f in yspec(E, g, y):
        E.oblig("the result: " + n, f(q))
    optimal(E, r, y1)
    co = coef(E, r.prog)
    for what, yy in (("result", y), ("another flow", y1)):
        sum_ext(E, "the objective of the %s is the reward" % what, "I", di, lambda i: sign * co(i) * yy(i), lambda i: g["b"](i) * yy(i))
        if r.prog.attrs["#sense"] != "max":
            sum_add(E, "the objective of the %s" % what, "I", di, zero, lambda i: co(i) * yy(i), lambda i: sign * co(i) * yy(i))
    E.oblig("no flow has a larger reward than the result", rew(y1) <= rew(y))


def run_y_state(E):
    rf, g = setup(E)
    y_state(E, rf, g, Q + "max_y_state_action")


def y_state(E, rf, g, q):
    C, N = g["C"], g["N"]
    y = symvec(E, C, "y")
    E.contracts[q] = lambda E, f, self, solver="cbc": y
    y0 = y.at
    ok, v = no_exception(E, lambda: callm(E, rf, "max_y_state"))
    if not ok:
        return
    if not isinstance(v, VecV):
        raise Unsupported("result is not a vector")
    i = lambda s: lsum(E, "I", lambda i: And(0 <= i, i < C, g["st"](i) == s), lambda i: y0(i))
    vec_eq(E, "the state frequencies: per-state sums plus one at the initial state", v, N, lambda s: i(s) + If(s == g["init"], RealVal(1), RealVal(0)))


UNITS = [extremal("pr_min"), extremal("max_z_state"), extremal("pr_max"), Unit("max_z_state_action", [Q + "max_z_state_action"], run_z_state_action),
         Unit("max_y_state_action", [Q + "max_y_state_action"], run_y_state_action), Unit("max_y_state", [Q + "max_y_state"], run_y_state)]
