"""C07: reduction always produces a valid reachability form"""
from specs.models import *
from specs.c08 import init_pre, reduced, reduce_pre, reduce_contract, run_reduce, Q, HALF


def run_init(kind):
    """__initialize_system: what it hands to the model constructor meets the constructor's precondition (C02), and target and
    fail are where a reachability form has them"""
    def run(E):
        m, g, P, ix, tt, M = init_pre(E, kind, True)
        c, n, p, st, ac, inv = g["c"], g["n"], g["p"], g["nst"], g["nac"], g["inv"]
        t0 = tt.at
        i, j = E.fresh_flat(("I", "I"), "i")
        ps = lambda i: sum_over(E, n, lambda j: p((i, j)))
        E.fact(forall([i], Implies(And(0 <= i, i < c), ps(i) + t0(i) <= 1 + HALF)))
        E.fact(forall([i, j], Implies(neg(And(0 <= i, i < c, 0 <= j, j < n)), p((i, j)) == 0)))
        if kind == "DTMC":
            E.fact(And(c == n, forall([i], Implies(And(0 <= i, i < c), ac(i) == 0))))
        models = []
        tl, fl = const(E, "O", "tl"), const(E, "O", "fl")
        E.fact(tl != fl)
        s = E.fresh_flat("I", "s")[0]
        for l in (tl, fl):
            E.fact(forall([s], neg(g["ls"].rel((l, s)))))
        E.contracts = {MDPM + ":MDP": model_ctor(E, "MDP", models), DTMCM + ":DTMC": model_ctor(E, "DTMC", models)}
        f = E.getattr(cls(E, RF, "ReachabilityForm"), "_ReachabilityForm__initialize_system")
        ok, r = no_exception(E, lambda: E.call(f, [P, ix, tt, M, m, tl, fl], {}))
        if not ok:
            return
        E.oblig("one model of the same kind is built and returned", BoolVal(len(models) == 1 and r is models[0] and r.cls.name == kind))
        if len(models) != 1:
            return
        a = models[0].args
        MP, nx = a["P"], a["index_by_state_action"]
        E.oblig("shape", And(lift(MP.n, "I") == n + 2, lift(MP.m, "I") == c + 2))
        i, q = const(E, "I", "row"), const(E, "I", "col")
        I = And(0 <= i, i < c)
        R = And(0 <= q, q < n + 2)
        z = RealVal(0)
        E.oblig("terms are probabilities", Implies(And(0 <= i, i < c + 2, R), And(MP.at((i, q)) >= 0, MP.at((i, q)) <= 1)))
        k = const(E, ("I", "I"), "k")
        nd = lambda k: lift(nx.value(k), "I")
        k2 = const(E, ("I", "I"), "k")
        E.oblig("pairs are pairs of the new states with a row", Implies(bexpr(nx.has(k)), And(0 <= k[0], k[0] < n + 2, 0 <= nd(k), nd(k) < c + 2)))
        E.oblig("no two pairs share a row", Implies(And(bexpr(nx.has(k)), bexpr(nx.has(k2)), nd(k) == nd(k2)), eqv(k, k2)))
        v = E.getattr(nx, "inv")
        r = const(E, "I", "r")
        E.oblig("every row has a pair", Implies(And(0 <= r, r < c + 2), And(bexpr(v.has(r)), bexpr(nx.has(v.value(r))), nd(v.value(r)) == r)))
        E.oblig("target and fail have the last rows and states", And(eqv(v.value(c), (n, IntVal(0))), eqv(v.value(c + 1), (n + 1, IntVal(0)))))
        E.oblig("no other row belongs to target or fail", Implies(I, And(0 <= lift(v.value(i)[0], "I"), lift(v.value(i)[0], "I") < n)))
        E.oblig("target and fail are absorbing", Implies(R, And(MP.at((c, q)) == If(q == n, RealVal(1), z), MP.at((c + 1, q)) == If(q == n + 1, RealVal(1), z))))
        ls = a["label_to_states"]
        l = const(E, "O", "label")
        rel = lambda k, v: ls.rel((k, v)) if isinstance(ls, RelDict) else BoolVal(False)
        E.oblig("labelled states exist", Implies(rel(l, q), R))
        E.oblig("target is the only target state", rel(tl, q) == (q == n))
        E.oblig("fail is the only fail state", rel(fl, q) == (q == n + 1))
        if kind == "DTMC":
            E.oblig("a DTMC is square and has only action 0", And(lift(MP.n, "I") == lift(MP.m, "I"), Implies(bexpr(nx.has(k)), k[1] == 0)))
        rw = a["reward_vector"]
        E.oblig("one nonnegative reward per row", And(lift(rw.n, "I") == c + 2, Implies(And(0 <= r, r < c + 2), rw.at(r) >= 0)))
        # row sums
        t = t0(i)
        pf = 1 - (t + ps(i))
        E.fact(I)
        rest = If(pf > HALF, pf, z)
        rng = lambda q: And(0 <= q, q < n + 2)
        sum_ext(E, "a row is what was given and the rest", "I", rng, lambda q: MP.at((i, q)), lambda q: If(q < n, p((i, q)), z) + If(q == n, t, z) + If(q == n + 1, rest, z))
        sum_split(E, "the given part of a row", "I", rng, lambda q: If(q < n, p((i, q)), z), lambda q: And(0 <= q, q < n), lambda q: p((i, q)))
        full = lambda i: sum_over(E, n + 2, lambda q: MP.at((i, q)))
        E.oblig("every row sums to one", And(full(i) >= 1 - HALF, full(i) <= 1 + HALF))
        sum_point(E, "row of target", "I", rng, lambda q: MP.at((c, q)), n)
        sum_point(E, "row of fail", "I", rng, lambda q: MP.at((c + 1, q)), n + 1)
        E.oblig("the rows of target and fail sum to one", And(full(c) == 1, full(c + 1) == 1))
    return Unit("__initialize_system[%s]" % kind, [Q + "__initialize_system"], run, budget=30)


def valid(kind):
    """from what is proved of reduce: what it hands on makes a reachability form"""
    def run(E):
        m, g = reduced(E, kind)
        reduce_pre(E, g)
        C, N, P, st, ls, init = g["C"], g["N"], g["P"], g["st"], g["ls"], g["init"]
        i = E.fresh_flat("I", "i")[0]
        ps = lambda i: sum_over(E, N, lambda j: P((i, j)))
        E.fact(forall([i], Implies(And(0 <= i, i < C), ps(i) <= 1 + HALF)))
        if kind == "DTMC":
            E.fact(forall([i], Implies(And(0 <= i, i < C), g["ac"](i) == 0)))
        h = reduce_contract(E, g)
        b, f, c, n, cs, cinv = [h[x] for x in ("b", "f", "c", "n", "cs", "cinv")]
        T = lambda s: ls.rel((g["tl"], s))
        mask = lambda s: And(b.R(s), f.R(s))
        keep = lambda k: And(bexpr(g["ix"].has(k)), mask(k[0]))
        i1 = lambda k: h["ix1"](h["rw"](k))
        P1, tt = h["P1"], h["tt"]
        # some target is reachable from the initial state
        F = Reach(E, g, lambda x: x == init, True, lambda x: BoolVal(False))
        t = const(E, "I", "t")
        E.fact(And(T(t), F.R(t)))
        w = least(E, "the first state of the way to a target", "I", lambda s: And(F.R(s), b.R(s)), F.D, t)
        lemma(E, "the first state is the initial one or has a predecessor", Or(w == init, And(F.R(F.pre(w)), F.D(F.pre(w)) < F.D(w), b.edge(w, F.pre(w), F.row(w)))))
        lemma(E, "its predecessor reaches a target too", Implies(w != init, b.R(F.pre(w))))
        lemma(E, "the initial state reaches a target", b.R(init))
        lemma(E, "the initial state is kept", And(0 <= init, init < N, mask(init)))
        w = least(E, "the kept state closest to a target", "I", lambda s: And(0 <= s, s < N, mask(s)), b.D, init)
        lemma(E, "some target is kept", T(w))
        E.oblig("the labels are distinct", And(g["il"] != g["ntl"], g["il"] != g["nfl"], g["ntl"] != g["nfl"]))
        # rows
        q, j = const(E, "I", "q"), const(E, "I", "j")
        E.fact(And(0 <= q, q < c, 0 <= j, j < n))
        k = named(E, "kept", ("I", "I"), h["rinv"](h["iinv"](q)))
        lemma(E, "a row belongs to a kept pair", And(keep(k), i1(k) == q))
        E.oblig("a row belongs to a kept state", And(0 <= lift(h["iinv"](q)[0], "I"), lift(h["iinv"](q)[0], "I") < n, lift(h["iinv"](q)[0], "I") == cs(k[0])))
        E.oblig("exactly the rows of the new initial state carry the initial label", ls.rel((g["il"], k[0])) == (lift(h["iinv"](q)[0], "I") == cs(init)))
        E.oblig("entries are probabilities", And(P1((q, j)) >= 0, P1((q, j)) <= 1))
        E.oblig("probabilities of moving to target", Or(tt(q) == 0, tt(q) == 1))
        lemma(E, "the row of a target is empty", Implies(T(k[0]), P1((q, j)) == 0))
        sub = lambda y: And(0 <= y, y < N, mask(y), neg(T(k[0])))
        z = RealVal(0)
        tot = sum_over(E, n, lambda j: P1((q, j)))
        sk = named(E, "oldrow", "I", g["sa"](k))
        reindex(E, "a row of the new matrix", "I", sub, lambda y: P((sk, y)), "I", lambda j: And(0 <= j, j < n, neg(T(k[0]))), lambda j: P1((q, j)), cs, cinv)
        sum_le(E, "a part of the old row", "I", lambda y: And(0 <= y, y < N), lambda y: If(sub(y), P((sk, y)), z), lambda y: P((sk, y)))
        sum_split(E, "the row of a target has no entries", "I", lambda j: And(0 <= j, j < n), lambda j: P1((q, j)), lambda j: And(0 <= j, j < n, neg(T(k[0]))), lambda j: P1((q, j)))
        lemma(E, "the old row exists", And(0 <= sk, sk < C, tt(q) == If(T(k[0]), RealVal(1), z)))
        E.oblig("a row has at most total probability one", tot + tt(q) <= 1 + HALF)
        # reachability in the new system: a way back to the initial state with decreasing distances ...
        s = named(E, "old", "I", cinv(j))
        pre, row = f.pre(s), f.row(s)
        kp = (pre, g["ac"](row))
        lemma(E, "a kept state other than the initial one has a reachable predecessor", Implies(j != cs(init), And(s != init, f.R(pre), neg(T(pre)), b.edge(s, pre, row), f.D(pre) < f.D(s))))
        lemma(E, "which reaches a target too", Implies(j != cs(init), b.R(pre)))
        E.oblig("every new state but the initial one has a kept predecessor closer to the initial state",
                Implies(j != cs(init), And(0 <= pre, pre < N, mask(pre), neg(T(pre)), keep(kp), f.D(pre) < f.D(s), f.D(pre) >= 0, P1((i1(kp), cs(pre))) >= 0, P1((i1(kp), j)) > 0)))
        # ... and a way to target
        nx, row = b.pre(s), b.row(s)
        kn = (s, g["ac"](row))
        lemma(E, "a kept state other than a target has a successor closer to a target", Implies(neg(T(s)), And(b.R(nx), b.edge(nx, s, row), b.D(nx) < b.D(s), b.D(nx) >= 0)))
        lemma(E, "which is reachable too", Implies(neg(T(s)), f.R(nx)))
        E.oblig("every new state moves to target or closer to it",
                If(T(s), And(0 <= g["act"](s), keep((s, g["ac"](g["act"](s)))), tt(i1((s, g["ac"](g["act"](s))))) == 1),
                   And(0 <= nx, nx < N, mask(nx), keep(kn), b.D(nx) < b.D(s), b.D(nx) >= 0, P1((i1(kn), cs(nx))) > 0)))
        if kind == "DTMC":
            card_bij(E, "one pair per state", "I", h["keptc"], ("I", "I"), h["keptr"], lambda s: (s, IntVal(0)), lambda k: k[0])
            E.oblig("a DTMC stays square", c == n)
            E.oblig("a DTMC keeps action 0", lift(h["iinv"](q)[1], "I") == 0)
    return Unit("reduction[%s]" % kind, [Q + "reduce"], run, budget=30)


UNITS = [Unit("reduce", [Q + "reduce"], run_reduce, budget=30), valid("MDP"), valid("DTMC"), run_init("MDP"), run_init("DTMC")]
