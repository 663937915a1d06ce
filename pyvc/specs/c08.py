"""C08: reduction preserves transitions, labels, rewards and their correspondence"""
from specs.models import *
Q = RF + ":ReachabilityForm."
HALF = RealVal("0.0000000005")


def init_pre(E, kind, reward):
    """an arbitrary call of __initialize_system: a model, a bijection between some of its pairs and the pairs of a new
    numbering, the transition probabilities among the new states and those of moving to target"""
    C, N = nat(E, "Cs", 1), nat(E, "Ns", 1)
    m = sym_model(E, kind, C, N, reward=reward)
    c, n = nat(E, "c", 1), nat(E, "n", 1)
    ix = sym_index(E, c, n)                       # new pair <-> new row
    P = symmat(E, c, n, "Pn", exact=True)
    p = P.at
    i, j, s, a = E.fresh_flat(("I", "I", "I", "I"), "i")
    E.fact(forall([i, j], Implies(And(0 <= i, i < c, 0 <= j, j < n), And(p((i, j)) >= 0, p((i, j)) <= 1))))
    tt = symvec(E, c, "tt")
    E.fact(forall([i], Implies(And(0 <= i, i < c), Or(tt.at(i) == 0, tt.at(i) == 1))))
    # old pair -> new pair
    mp = E.fresh_fun(("I", "I"), ("I", "I"), "map")
    inv = E.fresh_fun(("I", "I"), ("I", "I"), "mapinv")
    dom = E.fresh_fun(("I", "I"), "B", "mapdom")
    sa = m.g["ix"].dom
    idom = lambda q: ix.dom(q)
    E.fact(forall([s, a], Implies(dom((s, a)), And(sa((s, a)), idom(mp((s, a))), eqv(inv(mp((s, a))), (s, a))))))
    E.fact(forall([s, a], Implies(idom((s, a)), And(dom(inv((s, a))), eqv(mp(inv((s, a))), (s, a))))))
    M = DictV(E, ("I", "I"), ("I", "I"), dom, mp, bi=True, idom=idom, ival=inv)
    return m, dict(m.g, c=c, n=n, nix=ix, p=p, tt=tt, map=M, inv=inv, nst=ix.st, nac=ix.ac, C=C, N=N), P, ix, tt, M


def run_init(kind, reward):
    def run(E):
        m, g, P, ix, tt, M = init_pre(E, kind, reward)
        c, n, p, st, ac, inv = g["c"], g["n"], g["p"], g["nst"], g["nac"], g["inv"]
        t0 = tt.at
        if kind == "DTMC":
            i = E.fresh_flat("I", "i")[0]
            E.fact(forall([i], Implies(And(0 <= i, i < c), ac(i) == 0)))
        models = []
        tl, fl = const(E, "O", "tl"), const(E, "O", "fl")
        E.fact(tl != fl)
        s = E.fresh_flat("I", "s")[0]
        for l in (tl, fl):
            E.fact(forall([s], neg(m.g["ls"].rel((l, s)))))
        E.contracts = {MDPM + ":MDP": model_ctor(E, "MDP", models), DTMCM + ":DTMC": model_ctor(E, "DTMC", models)}
        f = E.getattr(cls(E, RF, "ReachabilityForm"), "_ReachabilityForm__initialize_system")
        ok, r = no_exception(E, lambda: E.call(f, [P, ix, tt, M, m, tl, fl], {}))
        if not ok:
            return
        E.oblig("one model of the same kind is built and returned", BoolVal(len(models) == 1 and r is models[0] and r.cls.name == kind))
        if len(models) != 1:
            return
        a = models[0].args
        MP, nx = a["P"], a["index_by_state_action"]
        E.oblig("two more states", lift(MP.n, "I") == n + 2)
        E.oblig("two more pairs", lift(MP.m, "I") == c + 2)
        i, j = const(E, "I", "row"), const(E, "I", "col")
        I, J = And(0 <= i, i < c), And(0 <= j, j < n)
        ps = sum_over(E, n, lambda j: p((i, j)))
        pf = 1 - (t0(i) + ps)
        E.oblig("probabilities are unchanged", Implies(And(I, J), MP.at((i, j)) == p((i, j))))
        E.oblig("probability of moving to target", Implies(I, MP.at((i, n)) == t0(i)))
        E.oblig("the rest goes to fail", Implies(I, MP.at((i, n + 1)) == If(pf > HALF, pf, RealVal(0))))
        q = const(E, "I", "q")
        E.oblig("target is absorbing", Implies(And(0 <= q, q < n + 2), MP.at((c, q)) == If(q == n, RealVal(1), RealVal(0))))
        E.oblig("fail is absorbing", Implies(And(0 <= q, q < n + 2), MP.at((c + 1, q)) == If(q == n + 1, RealVal(1), RealVal(0))))
        k = const(E, ("I", "I"), "k")
        E.oblig("the pairs are the given ones and one for target and fail", bexpr(nx.has(k)) == Or(bexpr(ix.has(k)), And(k[0] == n, k[1] == 0), And(k[0] == n + 1, k[1] == 0)))
        E.oblig("given pairs keep their row", Implies(bexpr(ix.has(k)), lift(nx.value(k), "I") == ix.ix(k)))
        E.oblig("target and fail have the last rows", And(lift(nx.value((n, IntVal(0))), "I") == c, lift(nx.value((n + 1, IntVal(0))), "I") == c + 1))
        E.oblig("the given indexing is not changed", BoolVal(nx is not ix))
        E.oblig("the given indexing keeps its pairs", bexpr(ix.has(k)) == bexpr(ix.dom(k)))
        ls, la = a["label_to_states"], a["label_to_actions"]
        l = const(E, "O", "label")
        rel = lambda d, k, v: d.rel((k, v)) if isinstance(d, RelDict) else BoolVal(False)
        o = lambda i: inv((st(i), ac(i)))
        E.oblig("states keep their labels", Implies(And(I, g["ls"].rel((l, o(i)[0]))), rel(ls, l, st(i))))
        ii = E.fresh_flat("I", "i")[0]
        E.oblig("no other state labels", Implies(And(rel(ls, l, q), q != n, q != n + 1), z3.Exists([ii], And(0 <= ii, ii < c, st(ii) == q, g["ls"].rel((l, o(ii)[0]))))))
        E.oblig("target is labelled and nothing else", rel(ls, tl, q) == (q == n))
        E.oblig("fail is labelled and nothing else", rel(ls, fl, q) == (q == n + 1))
        E.oblig("target and fail have no other label", And(Implies(rel(ls, l, n), l == tl), Implies(rel(ls, l, n + 1), l == fl)))
        if kind == "MDP":
            E.oblig("action labels are unchanged", Implies(I, rel(la, l, (st(i), ac(i))) == g["la"].rel((l, o(i)))))
            E.oblig("no other action labels", Implies(rel(la, l, k), bexpr(ix.has(k))))
        rw = a.get("reward_vector")
        if reward:
            vec_eq(E, "rewards", rw, c + 2, lambda i: If(i < c, g["rew"].at(g["sa"](o(i))), RealVal(0)))
        else:
            E.oblig("no rewards are invented", BoolVal(rw is None))
    return Unit("__initialize_system[%s, %s]" % (kind, "rewards" if reward else "no rewards"), [Q + "__initialize_system"], run, budget=30)


def reduced(E, kind="MDP", reward=False):
    """run reduce on an arbitrary model; returns what is needed to state its properties"""
    m = sym_model(E, kind, reward=reward)
    g = m.g
    C, N, P, st, ac, sa, ls = g["C"], g["N"], g["P"], g["st"], g["ac"], g["sa"], g["ls"]
    s, l, j = E.fresh_flat(("I", "O", "I"), "s")
    i = E.fresh_flat("I", "i")[0]
    E.fact(forall([l, j], Implies(ls.rel((l, j)), And(0 <= j, j < N))))
    E.assumed.add("every state has an action")
    act = E.fresh_fun("I", "I", "somerow")
    E.fact(forall([s], Implies(And(0 <= s, s < N), And(0 <= act(s), act(s) < C, st(act(s)) == s))))
    il, tl, ntl, nfl = [const(E, "O", x) for x in ("il", "tl", "ntl", "nfl")]
    init = const(E, "I", "init")
    reach, inits, forms, styles = [], [], [], []

    def initialize(E, f, *args):
        o = Opaque("reduced system")
        o.args = args
        inits.append(o)
        return o

    def rfc(E, f, system, *a, **kw):
        o = Inst(E, f, {})
        o.args = (system, a, kw)
        forms.append(o)
        return o
    E.contracts = {AM + ":AbstractMDP.successors": succ_contract(E, g), AM + ":AbstractMDP.reachable_mask": reach_contract(g, reach),
                   Q + "__initialize_system": initialize, RF + ":ReachabilityForm": rfc,
                   Q + "__adapt_style": lambda E, f, self, *a: styles.append(a)}
    return m, dict(g, il=il, tl=tl, ntl=ntl, nfl=nfl, init=init, reach=reach, inits=inits, forms=forms, styles=styles, act=act)


def reduce_pre(E, g):
    """one initial state, some target, new labels"""
    ls, il, tl, ntl, nfl, init = [g[x] for x in ("ls", "il", "tl", "ntl", "nfl", "init")]
    j = E.fresh_flat("I", "j")[0]
    E.fact(forall([j], ls.rel((il, j)) == (j == init)))
    T = lambda s: ls.rel((tl, s))
    t1 = const(E, "I", "t1")
    E.fact(T(t1))
    E.fact(And(neg(ls.dom(ntl)), neg(ls.dom(nfl)), ntl != nfl))
    return T


def reduce_post(E, m, g):
    """call reduce, state its properties; returns the names used in them"""
    C, N, P, st, ac, sa, ls = g["C"], g["N"], g["P"], g["st"], g["ac"], g["sa"], g["ls"]
    il, tl, ntl, nfl, init = g["il"], g["tl"], g["ntl"], g["nfl"], g["init"]
    T = reduce_pre(E, g)
    ok, r = no_exception(E, lambda: E.call(E.getattr(cls(E, RF, "ReachabilityForm"), "reduce"), [m, il, tl, ntl, nfl], {}))
    if not ok:
        return None
    reach, inits, forms, styles = g["reach"], g["inits"], g["forms"], g["styles"]
    b, f = [x for x in reach if not x.forward], [x for x in reach if x.forward]
    E.oblig("one forward and one backward query, one system, one form", BoolVal(len(b) == 1 and len(f) == 1 and len(inits) == 1 and len(forms) == 1))
    if not (len(b) == 1 and len(f) == 1 and len(inits) == 1 and len(forms) == 1):
        return None
    x = const(E, "I", "x")
    X = And(0 <= x, x < N)
    E.oblig("backwards from the targets", Implies(X, And(bexpr(b[0].start(x)) == T(x), neg(bexpr(b[0].blocked(x))))))
    E.oblig("forwards from the initial state, not through targets", Implies(X, And(bexpr(f[0].start(x)) == (x == init), bexpr(f[0].blocked(x)) == T(x))))
    mask = lambda s: And(b[0].R(s), f[0].R(s))
    a = inits[0].args
    E.oblig("arguments of the construction", BoolVal(len(a) == 7 and a[4] is m))
    if len(a) != 7:
        return None
    P1, ix1, tt, rows, _, l1, l2 = a
    E.oblig("new label names", And(l1 == ntl, l2 == nfl))
    rf, cols, rows2 = r
    E.oblig("the form and the maps are returned", BoolVal(rf is forms[0] and rows2 is rows))
    s1, aa, kw = forms[0].args
    names = dict(zip(["initial_label", "target_label", "fail_label"], aa), **kw)
    E.oblig("the form is built from the new system with the requested labels", And(BoolVal(s1 is inits[0]), names["initial_label"] == il, names["target_label"] == ntl, names["fail_label"] == nfl))
    cinv, rinv, iinv = [E.getattr(x, "inv") for x in (cols, rows, ix1)]
    I_ = lambda x: lift(x, "I")
    h = dict(g=g, b=b[0], f=f[0], n=I_(P1.n), c=I_(P1.m), P1=P1.at, keptc=lambda s: bexpr(cols.has(s)), cs=lambda s: I_(cols.value(s)), usedc=lambda q: bexpr(cinv.has(q)), cinv=lambda q: I_(cinv.value(q)),
             keptr=lambda k: bexpr(rows.has(k)), rw=lambda k: lift(rows.value(k), ("I", "I")), rinv=lambda k: lift(rinv.value(k), ("I", "I")), usedr=lambda k: bexpr(rinv.has(k)),
             hasix=lambda k: bexpr(ix1.has(k)), ix1=lambda k: I_(ix1.value(k)), usedix=lambda q: bexpr(iinv.has(q)), iinv=lambda q: lift(iinv.value(q), ("I", "I")), tt=lambda q: lift(tt.at(q), "R"))
    E.oblig("one entry per row", lift(tt.n, "I") == h["c"])
    E.oblig("as many columns as kept states", h["n"] == E.card("I", h["keptc"]))
    E.oblig("as many rows as kept pairs", h["c"] == E.card(("I", "I"), h["keptr"]))
    for name, sh, stmt, use in reduce_facts(h):
        q = const(E, sh, "e")
        for x in flat(q, sh) if use else []:
            a = g["act"](x)
            E.fact(Implies(And(0 <= x, x < N), And(0 <= a, a < C, st(a) == x)))
        E.oblig(name, stmt(q))
        if name.startswith(("exactly the states", "distinct")):
            E.fact(quant(E, sh, stmt))
    return h


def reduce_facts(h):
    """what is proved of reduce: the kept states and pairs, their new numbers and rows, and the matrix handed on, in terms of
    the two reachability queries.  (name, sort, statement)"""
    g = h["g"]
    N, P, tl, ls, has = g["N"], g["P"], g["tl"], g["ls"], g["ix"].has
    T = lambda s: ls.rel((tl, s))
    M = lambda s: And(0 <= s, s < N, h["b"].R(s), h["f"].R(s))
    keep = lambda k: And(bexpr(has(k)), M(k[0]))
    n, c, cs, i1 = h["n"], h["c"], h["cs"], lambda k: h["ix1"](h["rw"](k))
    II = ("I", "I")
    return [
        ("exactly the states on a way from the initial state to a target are kept", "I", lambda s: h["keptc"](s) == M(s), True),
        ("exactly their pairs are kept", II, lambda k: h["keptr"](k) == keep(k), False),
        ("kept states get numbers below the number of kept states", "I", lambda s: Implies(M(s), And(0 <= cs(s), cs(s) < n, h["cinv"](cs(s)) == s)), True),
        ("distinct states get distinct numbers", II, lambda s: Implies(And(M(s[0]), M(s[1]), cs(s[0]) == cs(s[1])), s[0] == s[1]), True),
        ("every number is used", "I", lambda q: Implies(And(0 <= q, q < n), And(h["usedc"](q), M(h["cinv"](q)), cs(h["cinv"](q)) == q)), False),
        ("pairs keep their action", II, lambda k: Implies(keep(k), eqv(h["rw"](k), (cs(k[0]), k[1]))), False),
        ("every kept pair has a row", II, lambda k: Implies(keep(k), And(h["hasix"](h["rw"](k)), 0 <= i1(k), i1(k) < c)), False),
        ("distinct pairs have distinct rows", (II, II), lambda k: Implies(And(keep(k[0]), keep(k[1]), i1(k[0]) == i1(k[1])), eqv(k[0], k[1])), False),
        ("every row belongs to a kept pair", "I", lambda q: Implies(And(0 <= q, q < c), And(h["usedix"](q), h["usedr"](h["iinv"](q)), keep(h["rinv"](h["iinv"](q))), eqv(h["rw"](h["rinv"](h["iinv"](q))), h["iinv"](q)), i1(h["rinv"](h["iinv"](q))) == q)), False),
        ("a target has no transition to kept states", (II, "I"), lambda k: Implies(And(keep(k[0]), T(k[0][0]), M(k[1])), h["P1"]((i1(k[0]), cs(k[1]))) == 0), False),
        ("exactly targets move to the new target", II, lambda k: Implies(keep(k), h["tt"](i1(k)) == If(T(k[0]), RealVal(1), RealVal(0))), False),
        ("transitions between kept states are unchanged", (II, "I"), lambda k: Implies(And(keep(k[0]), neg(T(k[0][0])), M(k[1])), h["P1"]((i1(k[0]), cs(k[1]))) == P((g["sa"](k[0]), k[1]))), False),
    ]


def reduce_contract(E, g):
    """arbitrary results of reduce as proved above"""
    tl, ls, init = g["tl"], g["ls"], g["init"]
    b = Reach(E, g, lambda x: ls.rel((tl, x)), False, lambda x: BoolVal(False))
    f = Reach(E, g, lambda x: x == init, True, lambda x: ls.rel((tl, x)))
    F, II = E.fresh_fun, ("I", "I")
    h = dict(g=g, b=b, f=f, n=nat(E, "n"), c=nat(E, "c"), P1=F(II, "R", "P1"), keptc=F("I", "B", "keptc"), cs=F("I", "I", "cs"), usedc=F("I", "B", "usedc"), cinv=F("I", "I", "cinv"),
             keptr=F(II, "B", "keptr"), rw=F(II, II, "rw"), rinv=F(II, II, "rinv"), usedr=F(II, "B", "usedr"), hasix=F(II, "B", "hasix"), ix1=F(II, "I", "ix1"), usedix=F("I", "B", "usedix"),
             iinv=F("I", II, "iinv"), tt=F("I", "R", "tt"))
    for _, sh, stmt, _ in reduce_facts(h):
        E.fact(quant(E, sh, stmt))
    E.fact(h["n"] == E.card("I", h["keptc"]))
    E.fact(h["c"] == E.card(("I", "I"), h["keptr"]))
    return h


def run_reduce(E):
    reduce_post(E, *reduced(E))


UNITS = [Unit("reduce", [Q + "reduce"], run_reduce, budget=30)] + [run_init(k, r) for k in ("MDP", "DTMC") for r in (False, True)]
