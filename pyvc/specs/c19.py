"""C19: initialisers and updaters of the heuristic compute the weights of their definitions"""
from specs.common import *
QP = "switss.problem.qsheurparams"


def groups(E):
    """indicator -> set of certificate variables (InvertibleDict with int keys), nonempty groups"""
    m = rel_inst(E, "I", "I", "grp", False)
    M, D = nat(E, "M", 1), nat(E, "D", 1)
    g, v = E.fresh_flat(("I", "I"), "g")
    E.fact(forall([g, v], Implies(m.rel((g, v)), And(0 <= v, v < D))))
    E.fact(forall([g], Implies(m.dom(g), And(0 <= g, g < M))))
    w = E.fresh_fun("I", "I", "member")
    E.fact(forall([g], Implies(m.dom(g), m.rel((g, w(g))))))
    return m, M, D


def weights(E, m, given):
    if not given:
        return None, lambda g: RealVal(1)
    W = E.fresh_fun("I", "R", "W")
    g = E.fresh_flat("I", "g")[0]
    E.fact(forall([g], W(g) >= 0))
    return DictV(E, "I", "R", m.dom, W), W


def entry(e):
    if not (isinstance(e, tuple) and len(e) == 2):
        raise Unsupported("objective entry")
    return e


CAP, CAP0 = RealVal(10 ** 9), RealVal(10 ** 8)


def zmin(a, b):
    return If(a <= b, a, b)


def u_allones(given):
    def run(E):
        m, M, D = groups(E)
        w, W = weights(E, m, given)
        ok, o = no_exception(E, lambda: E.call(cls(E, QP, "AllOnesInitializer"), [], {"indicator_to_group": m, "weights": w} if given else {"reachability_form": None, "mode": "min", "indicator_to_group": m}))
        if ok:
            ok, r = no_exception(E, lambda: callm(E, o, "initialize"))
            if ok:
                one_per_key(E, "objective", r, "I", m.dom, lambda e: entry(e)[0], lambda e: real(e[1]) == W(e[0]))
    return Unit("AllOnesInitializer[%s]" % ("weights" if given else "default"), [QP + ":AllOnesInitializer.initialize", QP + ":AllOnesInitializer.__init__", QP + ":Initializer.__init__"], run)


def u_upd(name, given):
    def run(E):
        m, M, D = groups(E)
        w, W = weights(E, m, given)
        last = symvec(E, M, "last")
        i = E.fresh_flat("I", "i")[0]
        E.fact(forall([i], Implies(And(0 <= i, i < M), last.at(i) >= 0)))
        l0 = last.at
        kw = {"reachability_form": rf_inst(E), "mode": "min", "indicator_to_group": m}
        if given:
            kw["weights"] = w
        ok, o = no_exception(E, lambda: E.call(cls(E, QP, name), [], kw))
        if not ok:
            return
        ok, r = no_exception(E, lambda: callm(E, o, "update", last))
        if not ok:
            return
        key = lambda e: entry(e)[0]
        if name == "InverseResultUpdater":
            one_per_key(E, "objective", r, "I", m.dom, key, lambda e: Implies(l0(e[0]) > 0, real(e[1]) == W(e[0]) * zmin(1 / l0(e[0]), CAP)))
            h = const(E, "I", "h")
            B = const(E, "R", "B")
            for c, e in bag_elems(E, E.iterate(r)):
                z = And(c, l0(e[0]) == 0)
                v = real(e[1])
                E.oblig("the cap of a zero group lies between 1e8 and 1e9", Implies(z, And(v >= CAP0, v <= CAP)))
                E.oblig("the cap of a zero group is at least every (capped) inverse", Implies(And(z, m.dom(h), l0(h) > 0), v >= zmin(1 / l0(h), CAP)))
                g = E.fresh_flat("I", "g")[0]
                E.oblig("the cap of a zero group is no larger than needed", Implies(And(z, B >= CAP0, forall([g], Implies(And(m.dom(g), l0(g) > 0), 1 / l0(g) <= B))), v <= B))
                E.oblig("coefficients are nonnegative", Implies(c, v >= 0))
        else:
            one_per_key(E, "objective", r, "I", m.dom, key, lambda e: real(e[1]) == If(l0(e[0]) > 0, W(e[0]) / l0(e[0]), RealVal(0)))
        ok, cs = no_exception(E, lambda: callm(E, o, "constraints", last))
        if not ok:
            return
        if name == "InverseResultUpdater":
            E.oblig("no constraints", bag_count(E, E.iterate(cs), lambda e: True) == 0)
        else:
            def parts(e):
                if not (isinstance(e, tuple) and len(e) == 3 and isinstance(e[0], (list, BagV))):
                    raise Unsupported("constraint")
                xs = E.iterate(e[0])
                if len(xs) != 1 or xs[0][0] != "one":
                    raise Unsupported("constraint")
                return xs[0][1]
            one_per_key(E, "constraints", cs, "I", lambda g: And(m.dom(g), l0(g) == 0), lambda e: parts(e)[0],
                        lambda e: And(eqv(real(parts(e)[1]), RealVal(1)), BoolVal(e[1] == "="), real(e[2]) == 0))
        q = const(E, "I", "q")
        E.oblig("the last result is not changed", last.at(q) == l0(q))
    return Unit("%s[%s]" % (name, "weights" if given else "default"), [QP + ":%s.update" % name, QP + ":%s.constraints" % name, QP + ":Updater.__init__"], run)


def u_init(name, mode):
    def run(E):
        m, M, D = groups(E)
        calls = {}

        def vec(nm):
            v = E.fresh_fun("I", "R", nm)
            i = E.fresh_flat("I", "i")[0]
            E.fact(forall([i], v(i) >= 0))
            x = VecV(E, D, v)
            calls[nm] = v
            return lambda E, f, self, solver="cbc": x
        q = RF + ":ReachabilityForm."
        E.contracts = {q + n: vec(n) for n in ("max_z_state", "max_z_state_action", "max_y_state", "max_y_state_action")}
        ok, o = no_exception(E, lambda: E.call(cls(E, QP, name), [], {"reachability_form": rf_inst(E), "mode": mode, "indicator_to_group": m}))
        if not ok:
            return
        ok, r = no_exception(E, lambda: callm(E, o, "initialize"))
        if not ok:
            return
        z, y = ("max_z_state", "max_y_state") if mode == "min" else ("max_z_state_action", "max_y_state_action")
        if "Reach" in name:
            f = lambda v: calls[z](v)
        elif "Freq" in name:
            f = lambda v: calls[y](v)
        else:
            f = lambda v: calls[y](v) * calls[z](v)

        def val(g):
            b = E.fresh_flat("I", "b")[0]
            s = E.sum([b], m.rel((g, b)), f(b))
            if "Reach" in name:
                s = s / real(E.card("I", lambda v: m.rel((g, v))))
            return s

        def ok(e):
            s = val(e[0])
            v = real(e[1])
            return And(Implies(s > 0, v == zmin(1 / s, CAP)), Implies(s <= 0, And(v >= CAP0, v <= CAP)))
        one_per_key(E, "objective", r, "I", m.dom, lambda e: entry(e)[0], ok)
        for c, e in bag_elems(E, E.iterate(r)):
            E.oblig("coefficients are finite and nonnegative", Implies(c, And(real(e[1]) >= 0, real(e[1]) <= CAP)))
    return Unit("%s[%s]" % (name, mode), [QP + ":%s.initialize" % name, QP + ":%s.__init__" % name], run)


UNITS = [u_allones(g) for g in (False, True)] + [u_upd(n, g) for n in ("InverseResultUpdater", "InverseResultFixedZerosUpdater") for g in (False, True)] + \
    [u_init(n, m) for n in ("InverseReachabilityInitializer", "InverseFrequencyInitializer", "InverseCombinedInitializer") for m in ("min", "max")]
