"""C09: the consistency check accepts exactly the reachability forms"""
from specs.models import *
Q = RF + ":ReachabilityForm."


def run(E):
    m = sym_model(E, "MDP")
    g = m.g
    C, N, P, st, ls = g["C"], g["N"], g["P"], g["st"], g["ls"]
    i, j = E.fresh_flat(("I", "I"), "i")
    half = RealVal("0.0000000005")
    rs = lambda i: sum_over(E, N, lambda j: P((i, j)))
    E.fact(forall([i], Implies(And(0 <= i, i < C), rs(i) >= 1 - half)))
    l = E.fresh_flat("O", "l")[0]
    E.fact(forall([l, j], Implies(ls.rel((l, j)), And(0 <= j, j < N))))
    reach = []
    E.contracts = {AM + ":AbstractMDP.successors": succ_contract(E, g), AM + ":AbstractMDP.reachable_mask": reach_contract(g, reach)}
    il, tl, fl = [const(E, "O", x) for x in ("il", "tl", "fl")]
    r, v = expect(E, lambda: E.call(E.getattr(cls(E, RF, "ReachabilityForm"), "assert_consistency"), [m, il, tl, fl], {}))
    # the conditions, one by one
    s0, f0, t0 = [E.fresh_flat("I", n)[0] for n in ("s", "f", "t")]
    one = lambda l: z3.Exists([s0], forall([j], ls.rel((l, j)) == (j == s0)))
    distinct = And(il != tl, il != fl, tl != fl)

    def absorbing(l, row, col):
        return And(ls.rel((l, col)), 0 <= row, 0 <= col, st(row) == col, forall([i], Implies(And(0 <= i, i < C, st(i) == col), i == row)),
                   P((row, col)) != 0, forall([j], Implies(And(0 <= j, j < N, j != col), P((row, j)) == 0)))
    if r is None:
        a = const(E, "I", "a")
        E.oblig("the labels are distinct", distinct)
        for n, l in (("initial", il), ("target", tl), ("fail", fl)):
            a, b = const(E, ("I", "I"), "s")
            E.oblig("there is at least one %s state" % n, z3.Exists([s0], ls.rel((l, s0))))
            E.oblig("there is at most one %s state" % n, Implies(And(ls.rel((l, a)), ls.rel((l, b))), a == b))
        E.oblig("there are two reachability queries", BoolVal(len(reach) >= 2))
        k, q = const(E, "I", "k"), const(E, "I", "q")
        w = nonzero_term(E, "I", "I", lambda i, j: And(0 <= j, j < N), lambda i, j: P((i, j)))
        E.oblig("a row has an entry", Implies(And(0 <= k, k < C), And(0 <= w(k), w(k) < N, P((k, w(k))) != 0)))
        for n, l, row, col in (("target", tl, C - 2, N - 2), ("fail", fl, C - 1, N - 1)):
            E.oblig("%s is the right state" % n, And(0 <= row, 0 <= col, ls.rel((l, col))))
            E.oblig("%s has its row at the right place" % n, st(row) == col)
            E.oblig("%s moves to itself" % n, P((row, col)) != 0)
            E.oblig("%s moves nowhere else" % n, Implies(And(0 <= q, q < N, q != col), P((row, q)) == 0))
            E.oblig("%s has a single action" % n, Implies(And(0 <= k, k < C, st(k) == col), k == row))
        # against the least sets, described independently
        fwd = Reach(E, g, lambda x: ls.rel((il, x)), True, lambda x: BoolVal(False))
        bwd = Reach(E, g, lambda x: ls.rel((tl, x)), False, lambda x: BoolVal(False))
        same_query(E, "forward", [x for x in reach if x.forward], fwd)
        same_query(E, "backward", [x for x in reach if not x.forward], bwd)
        f = [x for x in reach if x.forward]
        b = [x for x in reach if not x.forward]
        if f and b:
            s = const(E, "I", "s")
            E.oblig("every state but fail is reachable", Implies(And(0 <= s, s < N, s != N - 1), f[0].R(s)))
            E.oblig("every state but fail reaches target", Implies(And(0 <= s, s < N, s != N - 1), b[0].R(s)))
        return
    E.oblig("rejection is an AssertionError", BoolVal(r == "AssertionError"))
    # rejected: not a reachability form.  Suppose it were one
    E.fact(distinct)
    for l in (il, tl, fl):
        E.fact(one(l))
    init = const(E, "I", "init")
    E.fact(ls.rel((il, init)))
    E.fact(absorbing(tl, C - 2, N - 2))
    E.fact(absorbing(fl, C - 1, N - 1))
    for x in reach:
        s = const(E, "I", "s")
        E.oblig("queries start at the %s state and block nothing" % ("initial" if x.forward else "target"),
                And(bexpr(x.start(s)) == ls.rel((il if x.forward else tl, s)), neg(bexpr(x.blocked(s)))))
    for x in reach:
        s = E.fresh_flat("I", "s")[0]
        E.fact(forall([s], Implies(And(0 <= s, s < N, s != N - 1), x.R(s))))
    E.oblig("a reachability form is not rejected", BoolVal(False))


def same_query(E, n, qs, spec):
    """the query made asks for the set the property speaks of"""
    s = const(E, "I", "s")
    E.oblig("a %s query is made" % n, BoolVal(len(qs) >= 1))
    for x in qs[:1]:
        E.oblig("the %s query starts at the right state" % n, bexpr(x.start(s)) == bexpr(spec.start(s)))
        E.oblig("the %s query blocks nothing" % n, neg(bexpr(x.blocked(s))))


UNITS = [Unit("assert_consistency", [Q + "assert_consistency"], run)]
