"""C10: the Farkas constraint systems are exact, for every threshold and in every cache state"""
from specs.models import *
Q = RF + ":ReachabilityForm."


def form(E):
    """an arbitrary reachability form (class invariant established by the constructor, unit init)"""
    C, N = nat(E, "C", 0), nat(E, "N", 1)
    init = const(E, "I", "init")
    E.fact(And(0 <= init, init < N))
    A = symmat(E, C, N, "A")
    P = symmat(E, C, N, "P")
    b = VecV(E, C, E.fresh_fun("I", "R", "b"), col=True)
    ix = sym_index(E, C, N)
    rf = rf_inst(E, _ReachabilityForm__A=A, _ReachabilityForm__P=P, _ReachabilityForm__to_target=b, initial=init, _ReachabilityForm__index_by_state_action=ix,
                 _ReachabilityForm__fark_y_matr=None, _ReachabilityForm__fark_y_rhs=None, _ReachabilityForm__fark_z_matr=None, _ReachabilityForm__fark_z_rhs=None)
    g = dict(C=C, N=N, init=init, A=A.at, b=b.at)
    g["zm"] = lambda i, j: If(i < C, g["A"]((i, j)), If(j == init, RealVal(-1), RealVal(0)))
    g["ym"] = lambda i, j: If(i < N, g["A"]((j, i)), -g["b"](j))
    g["zr"] = lambda i, t: If(i < C, g["b"](i), -t)
    g["yr"] = lambda i, t: If(i < N, If(i == init, RealVal(1), RealVal(0)), -t)
    return rf, g


def cached(E, rf, g, which):
    """put the cache for `which` into an arbitrary state reachable by earlier queries"""
    C, N = g["C"], g["N"]
    old = const(E, "R", "told")
    if which == "z":
        rf.attrs["_ReachabilityForm__fark_z_matr"] = MatV(E, simplify(C + 1), N, lambda q: g["zm"](*q))
        rf.attrs["_ReachabilityForm__fark_z_rhs"] = VecV(E, simplify(C + 1), lambda i: g["zr"](i, old))
    else:
        rf.attrs["_ReachabilityForm__fark_y_matr"] = MatV(E, simplify(N + 1), C, lambda q: g["ym"](*q))
        rf.attrs["_ReachabilityForm__fark_y_rhs"] = VecV(E, simplify(N + 1), lambda i: g["yr"](i, old))


def dims(g, which):
    return (simplify(g["C"] + 1), g["N"]) if which == "z" else (simplify(g["N"] + 1), g["C"])


def check(E, g, which, res, t, what):
    if not (isinstance(res, tuple) and len(res) == 2):
        raise Unsupported("result is not a pair")
    m, n = dims(g, which)
    mat_eq(E, what + " matrix", res[0], m, n, g[which + "m"])
    vec_eq(E, what + " right-hand side", res[1], m, lambda i: g[which + "r"](i, t))


def inv(E, rf, g, which, what):
    """class invariant: the cache is empty, or it holds the matrix and a right-hand side right up to the threshold"""
    M, r = rf.attrs["_ReachabilityForm__fark_%s_matr" % which], rf.attrs["_ReachabilityForm__fark_%s_rhs" % which]
    if M is None or r is None:
        return
    m, n = dims(g, which)
    mat_eq(E, what + " cached matrix", M, m, n, g[which + "m"])
    E.oblig(what + " cached right-hand side has the right length", lift(r.n, "I") == m)
    i = const(E, "I", "i")
    E.oblig(what + " cached right-hand side is right up to the threshold", Implies(And(0 <= i, i < m - 1), r.at(i) == g[which + "r"](i, RealVal(0))))


def unit(which, zc, yc):
    name = "fark_%s_constraints" % which

    def run(E):
        rf, g = form(E)
        if zc:
            cached(E, rf, g, "z")
        if yc:
            cached(E, rf, g, "y")
        t = const(E, "R", "t")
        ok, res = no_exception(E, lambda: callm(E, rf, name, t))
        if not ok:
            return
        check(E, g, which, res, t, "returned")
        inv(E, rf, g, "z", "z:")
        inv(E, rf, g, "y", "y:")
        # results handed out are not part of the cached state, so no later query can change them
        attrs = [v for v in rf.attrs.values()]
        E.oblig("the returned right-hand side is a copy", BoolVal(not any(v is res[1] for v in attrs)))
        r1, m1 = res[1].at, res[0].at
        ok, _ = no_exception(E, lambda: callm(E, rf, name, const(E, "R", "t2")))
        i, j = const(E, "I", "i"), const(E, "I", "j")
        E.oblig("a later query leaves the right-hand side alone", res[1].at(i) == r1(i))
        E.oblig("a later query leaves the matrix alone", res[0].at((i, j)) == m1((i, j)))
        other = "fark_%s_constraints" % ("y" if which == "z" else "z")
        ok, _ = no_exception(E, lambda: callm(E, rf, other, const(E, "R", "t3")))
        E.oblig("a later query of the other system leaves the right-hand side alone", res[1].at(i) == r1(i))
        E.oblig("a later query of the other system leaves the matrix alone", res[0].at((i, j)) == m1((i, j)))
        E.oblig("the system matrix is not changed", rf.attrs["_ReachabilityForm__A"].at((i, j)) == g["A"]((i, j)))
        E.oblig("the target vector is not changed", rf.attrs["_ReachabilityForm__to_target"].at(i) == g["b"](i))
    return Unit("%s[z %s, y %s]" % (name, "cached" if zc else "fresh", "cached" if yc else "fresh"), [Q + name], run)


def run_fark(mode):
    def run(E):
        rf, g = form(E)
        log = []

        def c(which):
            def f(E, fn, self, threshold):
                log.append((which, threshold))
                return (which, threshold)
            return f
        E.contracts = {Q + "fark_z_constraints": c("z"), Q + "fark_y_constraints": c("y")}
        t = const(E, "R", "t")
        r, v = expect(E, lambda: callm(E, rf, "fark_constraints", t, mode))
        if mode not in ("min", "max"):
            E.oblig("an unknown mode is rejected", BoolVal(r == "AssertionError"))
            return
        E.oblig("no exception", BoolVal(r is None))
        w = "z" if mode == "min" else "y"
        E.oblig("%s form uses the %s system" % (mode, w), BoolVal(log[:1] == [(w, t)] and v == (w, t)))
    return Unit("fark_constraints[%s]" % mode, [Q + "fark_constraints"], run)


def run_init(E):
    m = sym_model(E, minC=2, minN=3)
    g = m.g
    C, N = g["C"], g["N"]
    E.fact(And(g["st"](C - 2) == N - 2, g["st"](C - 1) == N - 1))
    i = E.fresh_flat("I", "i")[0]
    E.fact(forall([i], Implies(And(0 <= i, i < C - 2), g["st"](i) < N - 2)))
    il, tl, fl = [const(E, "O", x) for x in ("il", "tl", "fl")]
    init = const(E, "I", "init")
    s = E.fresh_flat("I", "s")[0]
    E.fact(forall([s], g["ls"].rel((il, s)) == (s == init)))
    E.fact(And(0 <= init, init < N - 2))
    mec, proper = symvec(E, N, "mec", "I"), symvec(E, nat(E, "nm", 2), "proper", "B")
    E.contracts = {AM + ":AbstractMDP.maximal_end_components": lambda E, f, self: (mec, proper, proper.n),
                   Q + "set_target_visualization_style": lambda E, f, self, *a: None, Q + "set_fail_visualization_style": lambda E, f, self, *a: None}
    ok, rf = no_exception(E, lambda: E.call(cls(E, RF, "ReachabilityForm"), [m, il, tl, fl], {"ignore_consistency_checks": True}))
    if not ok:
        return
    a = rf.attrs
    E.oblig("the initial state is the labelled one", a["initial"] == init)
    c, n = simplify(C - 2), simplify(N - 2)
    mat_eq(E, "P", a["_ReachabilityForm__P"], c, n, lambda i, j: g["P"]((i, j)))
    mat_eq(E, "A", a["_ReachabilityForm__A"], c, n, lambda i, j: If(g["st"](i) == j, RealVal(1), RealVal(0)) - g["P"]((i, j)))
    vec_eq(E, "to_target", a["_ReachabilityForm__to_target"], c, lambda i: g["P"]((i, N - 2)))
    d = a["_ReachabilityForm__index_by_state_action"]
    k = const(E, ("I", "I"), "k")
    o = g["ix"]
    E.oblig("the index map is the model's without target and fail", bexpr(d.has(k)) == And(o.has(k), o.val(k) < c))
    E.oblig("the index map has the model's indices", Implies(bexpr(d.has(k)), d.val(k) == g["sa"](k)))
    E.oblig("the model's index map is not changed", And(bexpr(m.attrs["index_by_state_action"].has(k)) == bexpr(o.dom(k)), BoolVal(m.attrs["index_by_state_action"] is not d)))
    for nm in ("fark_y_matr", "fark_y_rhs", "fark_z_matr", "fark_z_rhs"):
        E.oblig("the caches start empty", BoolVal(a.get("_ReachabilityForm__" + nm, 0) is None))
    E.oblig("label names", And(a["target_label"] == tl, a["fail_label"] == fl, a["initial_label"] == il))
    E.oblig("the model is exposed", BoolVal(E.getattr(rf, "system") is m))
    sm = a["_ReachabilityForm__state_to_mec"]
    vec_eq(E, "state_to_mec", sm, n, lambda i: mec.at(i))
    s = const(E, "I", "s")
    E.fact(And(0 <= s, s < n, 0 <= mec.at(s), mec.at(s) < proper.n))
    r = callm(E, rf, "in_proper_ec", s)
    E.oblig("in_proper_ec is the flag of the state's component", bexpr(E.truth(r)) == proper.at(mec.at(s)))
    for nm, w in (("A", "_ReachabilityForm__A"), ("P", "_ReachabilityForm__P"), ("to_target", "_ReachabilityForm__to_target"), ("index_by_state_action", "_ReachabilityForm__index_by_state_action")):
        E.oblig("%s exposes the stored object" % nm, BoolVal(E.getattr(rf, nm) is a[w]))


UNITS = [unit(w, z, y) for w in "zy" for z in (False, True) for y in (False, True)] + [run_fark(m) for m in ("min", "max", "other")] + \
    [Unit("__init__", [Q + "__init__", Q + "_reach_form_id_matrix", Q + "in_proper_ec"], run_init)]
