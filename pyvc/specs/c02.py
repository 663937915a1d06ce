"""C02: exactly the well-formed models can be constructed, and they expose what they were given"""
from specs.models import *
GR = "switss.utils.graph.Graph"


def graph_ctor(out):
    """contract of the Graph constructor (C03)"""
    def ctor(E, P, ix):
        o = Opaque("graph")
        o.args = (P, ix)
        out.append(o)
        return o
    return ctor


def rowsum(E, P, N, i):
    return sum_over(E, N, lambda j: P((i, j)))


HALF = RealVal("0.0000000005")


def good_row(E, P, N, i):
    """rounding to nine digits gives one"""
    s = rowsum(E, P, N, i)
    return And(s >= 1 - HALF, s <= 1 + HALF)


def labels(E, ksh, vsh, name, inv):
    if inv:
        m = rel_inst(E, ksh, vsh, name)
        return m, m.rel
    dom, rel = E.fresh_fun(ksh, "B", name + "_dom"), E.fresh_fun((ksh, vsh), "B", name)
    k, v = E.fresh_flat(ksh, "k"), E.fresh_flat(vsh, "v")
    kk, vv = unflat(k, ksh), unflat(v, vsh)
    E.fact(forall(k + v, Implies(rel((kk, vv)), dom(kk))))
    return RelDict(E, ksh, vsh, dom, rel), rel


def exposes_rel(E, what, m, inv, ksh, vsh, rel):
    k, v = const(E, ksh, "k"), const(E, vsh, "v")
    for d, a, b in ((m, k, v), (inv, v, k)):
        r, s = expect(E, lambda: E.getitem(d, a))
        E.oblig(what + ": any look-up works", BoolVal(r is None))
        if r is None:
            E.oblig(what + ": look-ups give exactly the given labels", bexpr(E.contains(s, b)) == rel((k, v)))


def run_ctor(kind, dense, rew, inv, index=True):
    def run(E):
        graphs = []
        E.lib.externals[GR] = graph_ctor(graphs)
        C, N = nat(E, "C", 1), nat(E, "N", 1)
        if not index:
            E.fact(C == N)
        P = symmat(E, C, N, "P")
        if dense:
            P = MatV(E, C, N, P.at, dense=True)
        p = P.at
        ix = sym_index(E, C, N)
        rw = symvec(E, C, "rew") if rew else None
        r0 = rw.at if rew else None
        ls, rls = labels(E, "O", "I", "lab", inv)
        la, rla = labels(E, "O", ("I", "I"), "alab", inv)
        kw = dict(label_to_states=ls, reward_vector=rw)
        if index:
            kw["index_by_state_action"] = ix
        if kind == "MDP":
            kw["label_to_actions"] = la
        r, m = expect(E, lambda: E.call(cls(E, MDPM if kind == "MDP" else DTMCM, kind), [P], kw))
        i, j = const(E, ("I", "I"), "i")
        qi, qj = E.fresh_flat(("I", "I"), "i")
        ri, rj = And(0 <= qi, qi < C), And(0 <= qj, qj < N)
        bad = [z3.Exists([qi], And(ri, neg(good_row(E, p, N, qi)))),
               z3.Exists([qi, qj], And(ri, rj, Or(p((qi, qj)) < 0, p((qi, qj)) > 1)))]
        if rew:
            bad.append(z3.Exists([qi], And(ri, rw.at(qi) < 0)))
        if kind == "DTMC":
            bad.append(C != N)
            if index:
                bad.append(z3.Exists([qi], And(ri, ix.ac(qi) != 0)))
        if r is not None:
            E.oblig("only an ill-formed model is rejected, and with an AssertionError", And(BoolVal(r == "AssertionError"), Or(*bad)))
            return
        I, J = And(0 <= i, i < C), And(0 <= j, j < N)
        E.oblig("every row sums to one", Implies(I, good_row(E, p, N, i)))
        E.oblig("every entry is a probability", Implies(And(I, J), And(p((i, j)) >= 0, p((i, j)) <= 1)))
        if rew:
            E.oblig("rewards are nonnegative", Implies(I, r0(i) >= 0))
        if kind == "DTMC":
            E.oblig("a DTMC is square", C == N)
            if index:
                E.oblig("a DTMC has only action 0", Implies(I, ix.ac(i) == 0))
        at = lambda n: E.getattr(m, n)
        E.oblig("N and C", And(lift(at("N"), "I") == N, lift(at("C"), "I") == C))
        PP = at("P")
        mat_eq(E, "P", PP, C, N, lambda i, j: p((i, j)))
        nz = PP.nz
        E.oblig("stored entries of P are the nonzero ones", Implies(And(I, J), neg(p((i, j)) == 0) if nz is None else bexpr(nz((i, j))) == neg(p((i, j)) == 0)) if nz is not None else BoolVal(True))
        d = at("index_by_state_action")
        s, a = const(E, "I", "s"), const(E, "I", "a")
        if index:
            E.oblig("the indexing has the given pairs", bexpr(d.has((s, a))) == bexpr(ix.has((s, a))))
            E.oblig("the indexing maps pairs to their given index", Implies(bexpr(ix.has((s, a))), lift(d.value((s, a)), "I") == ix.ix((s, a))))
            di = E.getattr(d, "inv")
            E.oblig("the inverse indexing has the given indices", bexpr(di.has(i)) == I)
            E.oblig("the inverse indexing maps indices to their given pair", Implies(I, eqv(di.value(i), (ix.st(i), ix.ac(i)))))
        else:
            E.oblig("by default there is one pair (s,0) per state with index s", And(bexpr(d.has((s, a))) == And(0 <= s, s < N, a == 0), Implies(And(0 <= s, s < N), lift(d.value((s, IntVal(0))), "I") == s)))
            di = E.getattr(d, "inv")
            E.oblig("the inverse of the default indexing", And(bexpr(di.has(i)) == I, Implies(I, eqv(di.value(i), (i, IntVal(0))))))
        exposes_rel(E, "state labels", at("states_by_label"), at("labels_by_state"), "O", "I", rls)
        exposes_rel(E, "action labels", at("actions_by_label"), at("labels_by_action"), "O", ("I", "I"), rla if kind == "MDP" else lambda q: BoolVal(False))
        rv = at("reward_vector")
        if not rew:
            E.oblig("no rewards", BoolVal(rv is None))
        else:
            vec_eq(E, "reward vector", rv, C, r0)
        ab = at("actions_by_state")
        E.fact(z3.Exists([qi], And(ri, d.value is not None, eqv(di.value(qi)[0], s))))
        r, acts = expect(E, lambda: E.getitem(ab, s))
        E.oblig("available actions of a state with a pair can be looked up", BoolVal(r is None))
        if r is None:
            E.oblig("available actions", bexpr(E.contains(acts, a)) == bexpr(d.has((s, a))))
        E.oblig("the graph is built from this matrix and indexing", BoolVal(len(graphs) == 1 and graphs[0].args[0] is PP and graphs[0].args[1] is d))
    n = "%s, %s matrix, %s, %s" % (kind, "dense" if dense else "sparse", "rewards" if rew else "no rewards", "label maps" if inv else "label dicts") + ("" if index else ", default indexing")
    return Unit("init[%s]" % n, [AM + ":AbstractMDP.__init__", AM + ":AbstractMDP._AbstractMDP__check_correctness", MDPM + ":MDP.__init__" if kind == "MDP" else DTMCM + ":DTMC.__init__", "switss.utils.casting:cast_dok_matrix",
                              AM + ":AbstractMDP.actions_by_state"], run)


UNITS = [run_ctor("MDP", False, True, False), run_ctor("MDP", True, False, True), run_ctor("DTMC", False, True, True), run_ctor("DTMC", True, True, False), run_ctor("DTMC", False, False, False, index=False)]
