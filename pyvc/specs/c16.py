"""C16: the subsystem is exactly the system restricted to the certificate's support"""
from specs.models import *
SB = "switss.problem.subsystem"
Q = SB + ":Subsystem."


def subsystem(E, form, kind):
    rf = sym_rf(E, kind)
    g = rf.g
    x = symvec(E, g["n"] if form == "min" else g["c"], "x")
    i = E.fresh_flat("I", "i")[0]
    ok, s = no_exception(E, lambda: E.call(cls(E, SB, "Subsystem"), [rf, x, form], {}))
    return rf, g, x, s if ok else None


def mask_spec(E, g, form, x):
    def f(s):
        if form == "min":
            return x.at(s) > 0
        k = E.fresh_flat("I", "k")[0]
        return z3.Exists([k], And(0 <= k, k < g["c"], g["st"](k) == s, x.at(k) > 0))
    return f


def run_mask(form, kind):
    def run(E):
        rf, g, x, s = subsystem(E, form, kind)
        if s is None:
            return
        x0 = x.at
        ok, m = no_exception(E, lambda: E.getattr(s, "subsystem_mask"))
        if not ok:
            return
        if not isinstance(m, VecV):
            raise Unsupported("mask is not a vector")
        E.oblig("the mask has one entry per state", lift(m.n, "I") == g["n"])
        i = const(E, "I", "s")
        sp = mask_spec(E, g, form, x)
        v = m.at(i)
        t = v if is_bool(v) else v == 1
        fl = neg(v) if is_bool(v) else v == 0
        E.fact(And(0 <= i, i < g["n"]))
        E.oblig("a state with positive certificate is marked", Implies(sp(i), t))
        E.oblig("a state without positive certificate is not marked", Implies(neg(sp(i)), fl))
        E.oblig("the certificate is not changed", x.at(i) == x0(i))
        m2 = E.getattr(s, "subsystem_mask")
        v2 = m2.at(i)
        E.oblig("the mask does not change", (v2 if is_bool(v2) else v2 == 1) == t)
    return Unit("subsystem_mask[%s, %s]" % (form, kind), [Q + "subsystem_mask", Q + "__init__"], run)


def run_shape(E):
    rf = sym_rf(E, "MDP")
    g = rf.g
    n = nat(E, "D", 0)
    x = symvec(E, n, "x")
    for form, d in (("min", g["n"]), ("max", g["c"])):
        pass
    r, s = expect(E, lambda: E.call(cls(E, SB, "Subsystem"), [rf, x, "min"], {}))
    E.oblig("a certificate of the wrong length is rejected", If(n == g["n"], BoolVal(r is None), BoolVal(r == "AssertionError")))


def run_shape2(E):
    rf = sym_rf(E, "MDP")
    g = rf.g
    n = nat(E, "D", 0)
    r, s = expect(E, lambda: E.call(cls(E, SB, "Subsystem"), [rf, symvec(E, n, "x"), "max"], {}))
    E.oblig("a certificate of the wrong length is rejected", If(n == g["c"], BoolVal(r is None), BoolVal(r == "AssertionError")))


def run_subsys(form, kind):
    def run(E):
        rf = sym_rf(E, kind)
        g = rf.g
        C, N, c, n, P, st, ac = g["C"], g["N"], g["c"], g["n"], g["P"], g["st"], g["ac"]
        i, j = E.fresh_flat(("I", "I"), "i")
        E.assumed.add("row sums")
        rowsum = lambda i: sum_over(E, N, lambda j: P((i, j)))
        half = RealVal("0.0000000005")
        E.fact(forall([i], Implies(And(0 <= i, i < C), And(rowsum(i) >= 1 - half, rowsum(i) <= 1 + half))))
        x = symvec(E, n if form == "min" else c, "x")
        mv = symvec(E, n, "mask", "B" if form == "min" else "R")
        if form == "max":
            E.fact(forall([i], Or(mv.at(i) == 0, mv.at(i) == 1)))
        m0 = mv.at
        kept = (lambda i: m0(i)) if form == "min" else (lambda i: m0(i) == 1)
        krow = lambda i: kept(st(i))
        models, forms = [], []
        fl = const(E, "B", "ignore")

        def rfc(E, f, system, il, tl, fl, **kw):
            o = Inst(E, f, {})
            o.args = (system, il, tl, fl, kw)
            forms.append(o)
            return o
        E.contracts = {Q + "subsystem_mask": lambda E, f, self: mv, MDPM + ":MDP": model_ctor(E, "MDP", models), DTMCM + ":DTMC": model_ctor(E, "DTMC", models), RF + ":ReachabilityForm": rfc}
        ok, s = no_exception(E, lambda: E.call(cls(E, SB, "Subsystem"), [rf, x, form], {"ignore_consistency_checks": fl}))
        if not ok:
            return
        ok, r = no_exception(E, lambda: E.getattr(s, "subsys"))
        if not ok:
            return
        E.oblig("one form over one model of the same kind", BoolVal(len(models) == 1 and len(forms) == 1 and r is forms[0] and forms[0].args[0] is models[0] and models[0].cls.name == kind))
        if len(models) != 1 or len(forms) != 1:
            return
        _, il, tl, f_l, kw = forms[0].args
        E.oblig("the same label scheme", And(il == g["il"], tl == g["tl"], f_l == g["fl"]))
        E.oblig("a second access returns the same form", BoolVal(E.getattr(s, "subsys") is r))
        a = models[0].args
        M, ix = a["P"], a["index_by_state_action"]
        n1, c1 = E.rank(IntVal(0), kept, n), E.rank(IntVal(0), krow, c)
        rS, rR = (lambda s: E.rank(IntVal(0), kept, s)), (lambda i: E.rank(IntVal(0), krow, i))
        E.oblig("states", lift(M.n, "I") == n1 + 2)
        E.oblig("state-action pairs", lift(M.m, "I") == c1 + 2)
        i, j = const(E, "I", "row"), const(E, "I", "col")
        I = And(0 <= i, i < c, krow(i))
        J = And(0 <= j, j < n, kept(j))
        E.oblig("a kept pair has an index below the number of kept pairs", Implies(I, And(0 <= rR(i), rR(i) < c1)))
        E.oblig("a kept state has a number below the number of kept states", Implies(J, And(0 <= rS(j), rS(j) < n1)))
        i2, j2 = const(E, "I", "row2"), const(E, "I", "col2")
        E.oblig("distinct kept pairs have distinct indices", Implies(And(I, 0 <= i2, i2 < c, krow(i2), rR(i) == rR(i2)), i == i2))
        E.oblig("distinct kept states have distinct numbers", Implies(And(J, 0 <= j2, j2 < n, kept(j2), rS(j) == rS(j2)), j == j2))
        pt = P((i, N - 2))
        keptmass = sum_over(E, n, lambda j: If(kept(j), P((i, j)), RealVal(0)))
        pf = 1 - (pt + keptmass)
        unchanged = lambda j: Implies(And(I, 0 <= j, j < n, kept(j)), M.at((rR(i), rS(j))) == P((i, j)))
        E.oblig("probabilities among kept states are unchanged", unchanged(j))
        E.oblig("the probability of reaching the target is unchanged", Implies(I, M.at((rR(i), n1)) == pt))
        E.oblig("the rest goes to fail", Implies(I, M.at((rR(i), n1 + 1)) == If(pf > half, pf, RealVal(0))))
        q = const(E, "I", "q")
        E.oblig("target is absorbing", Implies(And(0 <= q, q < n1 + 2), M.at((c1, q)) == If(q == n1, RealVal(1), RealVal(0))))
        E.oblig("fail is absorbing", Implies(And(0 <= q, q < n1 + 2), M.at((c1 + 1, q)) == If(q == n1 + 1, RealVal(1), RealVal(0))))
        ky = const(E, ("I", "I"), "ky")
        E.oblig("kept pairs keep their action", Implies(I, And(bexpr(ix.has((rS(st(i)), ac(i)))), ix.val((rS(st(i)), ac(i))) == rR(i))))
        E.oblig("target and fail have one pair each, in the last positions", And(bexpr(ix.has((n1, IntVal(0)))), ix.val((n1, IntVal(0))) == c1, bexpr(ix.has((n1 + 1, IntVal(0)))), ix.val((n1 + 1, IntVal(0))) == c1 + 1))
        ii = E.fresh_flat("I", "i")[0]
        E.oblig("no other pair", Implies(bexpr(ix.has(ky)), Or(And(ky[0] == n1, ky[1] == 0), And(ky[0] == n1 + 1, ky[1] == 0),
                                         z3.Exists([ii], And(0 <= ii, ii < c, krow(ii), ky[0] == rS(st(ii)), ky[1] == ac(ii))))))
        ls, la = a["label_to_states"], a["label_to_actions"]
        l = const(E, "O", "label")
        rel = lambda d, k, v: d.rel((k, v)) if isinstance(d, RelDict) else BoolVal(False)
        E.oblig("state labels are unchanged", Implies(J, rel(ls, l, rS(j)) == g["ls"].rel((l, j))))
        E.oblig("target is labelled", rel(ls, l, n1) == (l == g["tl"]))
        E.oblig("fail is labelled", rel(ls, l, n1 + 1) == (l == g["fl"]))
        E.oblig("no other state is labelled", Implies(rel(ls, l, q), And(0 <= q, q < n1 + 2)))
        if kind == "MDP":
            E.oblig("action labels are unchanged", Implies(I, rel(la, l, (rS(st(i)), ac(i))) == g["la"].rel((l, (st(i), ac(i))))))
        # again a probability model: the constructor's precondition
        r = const(E, "I", "r")
        E.oblig("every entry is a probability", Implies(And(0 <= r, r < c1 + 2, 0 <= q, q < n1 + 2), And(M.at((r, q)) >= 0, M.at((r, q)) <= 1)))
        # proved above
        E.fact(I)
        E.fact(M.at((rR(i), n1)) == pt)
        E.fact(M.at((rR(i), n1 + 1)) == If(pf > half, pf, RealVal(0)))
        E.fact(quant(E, "I", unchanged))
        m = lambda q: M.at((rR(i), q))
        rng = lambda q: And(0 <= q, q < n1 + 2)
        z = RealVal(0)
        low = lambda q: And(0 <= q, q < n1)
        T = lambda q: If(q == n1, m(n1), If(q == n1 + 1, m(n1 + 1), If(q < n1, m(q), z)))
        sum_ext(E, "row split", "I", rng, m, T)
        sum_split(E, "row split, kept part", "I", rng, lambda q: If(q < n1, m(q), z), low, m)
        un = rank_facts(E, kept, n)[2]
        keptc = lambda j: And(0 <= j, j < n, kept(j))
        reindex(E, "kept mass", "I", keptc, lambda j: P((i, j)), "I", low, m, rS, un)
        allj = lambda j: And(0 <= j, j < N)
        U = lambda j: If(j == N - 2, P((i, j)), If(And(j < n, kept(j)), P((i, j)), z))
        sum_le(E, "kept and target mass", "I", allj, U, lambda j: P((i, j)))
        A, B = (lambda j: If(j == N - 2, P((i, j)), z)), (lambda j: If(And(j < n, kept(j)), P((i, j)), z))
        sum_add(E, "kept and target part of the old row", "I", allj, U, A, B)
        sum_point(E, "target part of the old row", "I", allj, A, N - 2)
        sum_split(E, "kept part of the old row", "I", allj, B, keptc, lambda j: P((i, j)))
        K = lsum(E, "I", keptc, lambda j: P((i, j)))
        E.fact(K == keptmass)
        tot = lsum(E, "I", rng, m)
        lemma(E, "a new row sums to the kept mass plus target plus fail", tot == K + m(n1) + m(n1 + 1))
        lemma(E, "kept mass and target mass are at most the row sum", K + P((i, N - 2)) <= 1 + half)
        E.oblig("every row sums to one after rounding", And(tot >= 1 - half, tot <= 1 + half))
    return Unit("subsys[%s, %s]" % (form, kind), [Q + "subsys"], run, budget=30)


UNITS = [run_subsys(f, k) for f in ("min", "max") for k in ("MDP", "DTMC")] + [run_mask(f, k) for f in ("min", "max") for k in ("MDP", "DTMC")] + [Unit("shape[min]", [Q + "__init__"], run_shape), Unit("shape[max]", [Q + "__init__"], run_shape2)]
