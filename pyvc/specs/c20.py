"""C20: reward reachability forms pose the exact expected-reward problem"""
from specs.models import *
from specs.lp import *
import specs.c21 as c21
RR = "switss.model.reward_reachability_form"
Q = RR + ":RewardReachabilityForm."


def reward_form(E, kind="MDP"):
    """a reward form built by the real constructor from an arbitrary reachability form and rewards"""
    rf = sym_rf(E, kind)
    g = rf.g
    c, n, p, st = g["c"], g["n"], g["P"], g["st"]
    rf.attrs["_ReachabilityForm__A"] = MatV(E, c, n, lambda q: If(st(q[0]) == q[1], RealVal(1), RealVal(0)) - p(q))
    r = symvec(E, c, "r")
    i = E.fresh_flat("I", "i")[0]
    E.fact(forall([i], Implies(And(0 <= i, i < c), r.at(i) >= 0)))
    g["r"] = r.at
    ok, o = no_exception(E, lambda: E.call(cls(E, RR, "RewardReachabilityForm"), [rf, r], {}))
    g["A"] = lambda q: If(st(q[0]) == q[1], RealVal(1), RealVal(0)) - p(q)
    g["zm"] = lambda i, j: If(i < c, g["A"]((i, j)), If(j == g["init"], RealVal(-1), RealVal(0)))
    g["ym"] = lambda i, j: If(i < n, g["A"]((j, i)), -g["r"](j))
    g["zr"] = lambda i, t: If(i < c, g["r"](i), -t)
    g["yr"] = lambda i, t: If(i < n, If(i == g["init"], RealVal(1), RealVal(0)), -t)
    return (rf, g, r, o) if ok else (rf, g, r, None)


def run_ctor(kind):
    def run(E):
        rf, g, r, o = reward_form(E, kind)
        if o is None:
            return
        c, n = g["c"], g["n"]
        mat_eq(E, "the system matrix A", E.getattr(o, "A"), c, n, lambda i, j: g["A"]((i, j)))
        vec_eq(E, "the rewards", E.getattr(o, "reward_vector"), c, lambda i: g["r"](i))
        d = E.getattr(o, "index_by_state_action")
        k = const(E, ("I", "I"), "k")
        E.oblig("the index is the model's without target and fail", bexpr(d.has(k)) == And(g["ix"].dom(k), g["sa"](k) < c))
        E.oblig("the index keeps its values", Implies(bexpr(d.has(k)), d.value(k) == g["sa"](k)))
        md = g["m"].attrs["index_by_state_action"]
        E.oblig("the model's index is not changed", And(bexpr(md.has(k)) == bexpr(g["ix"].dom(k)), BoolVal(md is not d)))
        E.oblig("labels and initial state", And(E.getattr(o, "initial") == g["init"], E.getattr(o, "target_label") == g["tl"], E.getattr(o, "initial_label") == g["il"]))
        E.oblig("the model is exposed", BoolVal(E.getattr(o, "system") is g["m"]))
        s = const(E, "I", "s")
        E.oblig("a reward form has no proper end components", neg(bexpr(E.truth(callm(E, o, "in_proper_ec", s)))))
        E.oblig("a reward form is free of end components", bexpr(E.truth(E.getattr(o, "is_ec_free"))))
    return Unit("__init__[%s]" % kind, [Q + "__init__", Q + "in_proper_ec"], run)


def unit_fark(which):
    name = "fark_%s_constraints" % which

    def run(E):
        rf, g, r, o = reward_form(E)
        if o is None:
            return
        t = const(E, "R", "t")
        c, n = g["c"], g["n"]
        m, k = (simplify(c + 1), n) if which == "z" else (simplify(n + 1), c)
        ok, res = no_exception(E, lambda: callm(E, o, name, t))
        if not ok:
            return
        if not (isinstance(res, tuple) and len(res) == 2):
            raise Unsupported("result is not a pair")

        def chk(what):
            mat_eq(E, what + " matrix", res[0], m, k, g[which + "m"])
            vec_eq(E, what + " right-hand side", res[1], m, lambda i: g[which + "r"](i, t))
        chk("returned")
        # nothing that later queries change is shared
        for w in "zy":
            no_exception(E, lambda: callm(E, o, "fark_%s_constraints" % w, const(E, "R", "t2")))
        chk("after later queries, the returned")
        i = const(E, "I", "i")
        E.oblig("the rewards are not changed", And(r.at(i) == g["r"](i), lift(r.n, "I") == c))
        mat_eq(E, "afterwards, A", E.getattr(o, "A"), c, n, lambda i, j: g["A"]((i, j)))
    return Unit(name, [Q + name], run)


def run_fark(mode):
    def run(E):
        rf, g, r, o = reward_form(E)
        if o is None:
            return
        log = []

        def c(which):
            def f(E, fn, self, threshold):
                log.append((which, threshold))
                return (which, threshold)
            return f
        E.contracts = {Q + "fark_z_constraints": c("z"), Q + "fark_y_constraints": c("y")}
        t = const(E, "R", "t")
        r, v = expect(E, lambda: callm(E, o, "fark_constraints", t, mode))
        if mode not in ("min", "max"):
            E.oblig("an unknown mode is rejected", BoolVal(r == "AssertionError"))
            return
        E.oblig("no exception", BoolVal(r is None))
        w = "z" if mode == "min" else "y"
        E.oblig("%s form uses the %s system" % (mode, w), BoolVal(log[:1] == [(w, t)] and v == (w, t)))
    return Unit("fark_constraints[%s]" % mode, [Q + "fark_constraints"], run)


def lp_setup(E):
    rf, g, r, o = reward_form(E)
    if o is None:
        return None, g
    c, n = g["c"], g["n"]

    def z(E, f, self, threshold):
        t = real(threshold)
        return (MatV(E, simplify(c + 1), n, lambda q: g["zm"](*q)), VecV(E, simplify(c + 1), lambda i: g["zr"](i, t)))

    def y(E, f, self, threshold):
        t = real(threshold)
        return (MatV(E, simplify(n + 1), c, lambda q: g["ym"](*q)), VecV(E, simplify(n + 1), lambda i: g["yr"](i, t)))
    progs = []
    E.contracts = dict(lp_contracts(E, progs))
    E.contracts.update({Q + "fark_z_constraints": z, Q + "fark_y_constraints": y})
    p, r0 = g["P"], g["r"]
    # the names used by the specification of C21, with rewards in the place of the step into target
    g.update(progs=progs, C=c, N=n, p=p, b=r0, step=lambda i, x: sum_over(E, n, lambda j: p((i, j)) * x(j)) + r0(i),
             row=lambda i, x: sum_over(E, n, lambda j: g["A"]((i, j)) * x(j)))
    E.lp_form = o
    return o, g


def bounded_theorem(E, g, r):
    """every scheduler reaches target almost surely: the expected rewards are finite and bound every feasible point"""
    E.fact(r.st == strconst("optimal"))


def extremal(which):
    low = which != "rew_max"

    def run(E):
        o, g = lp_setup(E)
        if o is None:
            return
        c21.extremal_run(E, o, g, which, low, upper=None)
    return Unit(which, [Q + which, Q + "max_z_state"], run)


def run_z_state_action(E):
    o, g = lp_setup(E)
    if o is None:
        return
    z = symvec(E, g["N"], "z")
    E.contracts[Q + "max_z_state"] = lambda E, f, self, solver="cbc": z
    z0 = z.at
    ok, v = no_exception(E, lambda: callm(E, o, "max_z_state_action"))
    if ok:
        vec_eq(E, "the state-action values: one step of the minimal vector", v, g["C"], lambda i: g["step"](i, z0))


def run_y_state_action(E):
    o, g = lp_setup(E)
    if o is not None:
        c21.y_state_action(E, o, g)


def run_y_state(E):
    o, g = lp_setup(E)
    if o is not None:
        c21.y_state(E, o, g, Q + "max_y_state_action")


def run_consistency(rewards):
    def run(E):
        rf = sym_rf(E, "MDP")
        g = rf.g
        N, C = g["N"], g["C"]
        nm = nat(E, "components", 2)
        mec, proper = symvec(E, N, "mec", "I"), symvec(E, nm, "proper", "B")
        i, j = E.fresh_flat(("I", "I"), "i")
        E.fact(forall([i], Implies(And(0 <= i, i < N), And(0 <= mec.at(i), mec.at(i) < nm))))
        mt, mf = mec.at(N - 2), mec.at(N - 1)
        # target and fail are absorbing: proper components of their own
        E.fact(And(0 <= mt, mt < nm, 0 <= mf, mf < nm, proper.at(mt), proper.at(mf), mt != mf))
        if rewards:
            g["m"].attrs["reward_vector"] = symvec(E, C, "rew")
        reach = []
        E.contracts = {AM + ":AbstractMDP.reachable_mask": reach_contract(g, reach), AM + ":AbstractMDP.maximal_end_components": lambda E, f, self: (mec, proper, nm)}
        r, v = expect(E, lambda: E.call(E.getattr(cls(E, RR, "RewardReachabilityForm"), "assert_reachform_consistency"), [rf], {}))
        other = lambda q: And(0 <= q, q < nm, proper.at(q), q != mt, q != mf)
        one = lambda q: If(proper.at(q), IntVal(1), IntVal(0))
        dom = lambda q: And(0 <= q, q < nm)
        pt = lambda *ps: (lambda q: z3.Sum([If(q == p, IntVal(1), IntVal(0)) for p in ps]))
        back = Reach(E, g, lambda x: x == N - 1, False, lambda x: BoolVal(False))
        if r is None:
            E.oblig("rewards are present", BoolVal(rewards))
            E.oblig("a backward query is made", BoolVal(len(reach) >= 1))
            s = const(E, "I", "s")
            for x in reach[:1]:
                E.oblig("the query is about reaching fail", And(bexpr(x.start(s)) == (s == N - 1), neg(bexpr(x.blocked(s))), BoolVal(not x.forward)))
                E.oblig("fail is reachable from nowhere else", Implies(And(0 <= s, s < N, s != N - 1), neg(x.R(s))))
            q = const(E, "I", "component")
            n0 = len(E.pc)
            E.fact(other(q))
            sum_le(E, "three components", "I", dom, pt(mt, mf, q), one)
            E.oblig("target and fail are the only proper end components", BoolVal(False))
            del E.pc[n0:]
            return
        E.oblig("rejection is an AssertionError", BoolVal(r == "AssertionError"))
        if not rewards:
            return
        # suppose the form were fine
        n0 = len(E.pc)
        E.fact(forall([i], neg(other(i))))
        sum_ext(E, "exactly two components", "I", dom, one, pt(mt, mf))
        for x in reach:
            s = const(E, "I", "s")
            E.oblig("the query is about reaching fail", And(bexpr(x.start(s)) == (s == N - 1), neg(bexpr(x.blocked(s))), BoolVal(not x.forward)))
            E.fact(forall([j], Implies(And(0 <= j, j < N, j != N - 1), neg(x.R(j)))))
        E.oblig("a form in order is not rejected", BoolVal(False))
        del E.pc[n0:]
    return Unit("assert_reachform_consistency[%s]" % ("rewards" if rewards else "no rewards"), [Q + "assert_reachform_consistency"], run)


def run_reduce(good):
    def run(E):
        rf = sym_rf(E, "MDP")
        g = rf.g
        rw = symvec(E, g["C"], "rew")
        g["m"].attrs["reward_vector"] = rw
        rf.attrs["_ReachabilityForm__A"] = MatV(E, g["c"], g["n"], lambda q: If(g["st"](q[0]) == q[1], RealVal(1), RealVal(0)) - g["P"](q))
        cols, rows = Opaque("state map"), Opaque("row map")
        sysm, il, tl = Opaque("system"), Opaque("initial label"), Opaque("target label")
        calls = []

        def red(E, f, *a, **k):
            calls.append((a, k))
            return (rf, cols, rows)

        def chk(E, f, x):
            calls.append(("check", x))
            if not good:
                raise SymRaise("AssertionError", "not a reward reachability form")
        E.contracts = {RF + ":ReachabilityForm.reduce": red, Q + "assert_reachform_consistency": chk}
        r, v = expect(E, lambda: E.call(E.getattr(cls(E, RR, "RewardReachabilityForm"), "reduce"), [sysm, il, tl], {}))
        E.oblig("the model is reduced", BoolVal(len(calls) >= 1 and sysm in calls[0][0] and il in calls[0][0] and tl in calls[0][0]))
        if not good:
            E.oblig("a form that is not in order is rejected with an AssertionError", BoolVal(r == "AssertionError"))
            return
        E.oblig("the reduced form is checked", BoolVal(("check", rf) in calls))
        E.oblig("no exception", BoolVal(r is None))
        if r is not None:
            return
        o, c2, r2 = E.unpack(v, 3)
        E.oblig("the state and row maps are those of the reduction", BoolVal(c2 is cols and r2 is rows))
        vec_eq(E, "the rewards are those of the reduced model without target and fail", E.getattr(o, "reward_vector"), g["c"], lambda i: rw.at(i))
        E.oblig("the system is the reduced one", BoolVal(E.getattr(o, "system") is g["m"]))
    return Unit("reduce[%s]" % ("in order" if good else "not in order"), [Q + "reduce"], run)


UNITS = [run_ctor("MDP"), run_ctor("DTMC"), unit_fark("z"), unit_fark("y")] + [run_fark(m) for m in ("min", "max", "other")] + \
    [extremal(w) for w in ("rew_min", "max_z_state", "rew_max")] + \
    [Unit("max_z_state_action", [Q + "max_z_state_action"], run_z_state_action), Unit("max_y_state_action", [Q + "max_y_state_action"], run_y_state_action),
     Unit("max_y_state", [Q + "max_y_state"], run_y_state), run_consistency(True), run_consistency(False), run_reduce(True), run_reduce(False)]
