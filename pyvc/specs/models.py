"""arbitrary models and reachability forms (instances of the real classes in every state their invariants allow)"""
from specs.common import *

MDPM, DTMCM = "switss.model.mdp", "switss.model.dtmc"


def sym_model(E, kind="MDP", C=None, N=None, labels=True, reward=False, minC=1, minN=1):
    """an arbitrary constructed model (class invariant of C02): index bijection, stored entries are the nonzero ones and
    lie in [0,1], rows sum to one; labels as arbitrary relations"""
    C = C if C is not None else nat(E, "C", minC)
    N = N if N is not None else nat(E, "N", minN)
    ix = sym_index(E, C, N)
    P = symmat(E, C, N, "P", exact=True)
    p = P.at
    i, j = E.fresh_flat(("I", "I"), "i")
    rng = And(0 <= i, i < C, 0 <= j, j < N)
    E.fact(forall([i, j], Implies(rng, And(p((i, j)) >= 0, p((i, j)) <= 1))))
    E.fact(forall([i, j], Implies(neg(rng), p((i, j)) == 0)))
    at = {"N": N, "C": C, "P": P, "index_by_state_action": ix}
    ls = rel_inst(E, "O", "I", "lab") if labels else Opaque("labels")
    la = rel_inst(E, "O", ("I", "I"), "alab") if labels else Opaque("labels")
    at["_AbstractMDP__label_to_states_invertible"] = ls
    at["_AbstractMDP__label_to_actions_invertible"] = la
    at["_AbstractMDP__available_actions"] = None
    rw = None
    if reward:
        rw = symvec(E, C, "rew")
        E.fact(forall([i], Implies(And(0 <= i, i < C), rw.at(i) >= 0)))
    at["reward_vector"] = rw
    at["visualization"] = Opaque("visualization")
    m = Inst(E, cls(E, MDPM if kind == "MDP" else DTMCM, kind), at)
    m.g = dict(C=C, N=N, P=p, ix=ix, st=ix.st, ac=ix.ac, sa=ix.ix, ls=ls, la=la, rew=rw)
    return m


def sym_rf(E, kind="MDP", ctor_facts=True):
    """an arbitrary reachability form over an arbitrary model (class invariant: what the constructor and the consistency
    check establish)"""
    C, N = nat(E, "C", 2), nat(E, "N", 3)
    m = sym_model(E, kind, C, N)
    g = m.g
    i, j = E.fresh_flat(("I", "I"), "i")
    E.fact(And(g["st"](C - 2) == N - 2, g["ac"](C - 2) == 0, g["st"](C - 1) == N - 1, g["ac"](C - 1) == 0))
    E.fact(forall([i], Implies(And(0 <= i, i < C - 2), And(0 <= g["st"](i), g["st"](i) < N - 2))))
    p = g["P"]
    E.fact(forall([j], Implies(And(0 <= j, j < N), And(p((C - 2, j)) == If(j == N - 2, RealVal(1), RealVal(0)), p((C - 1, j)) == If(j == N - 1, RealVal(1), RealVal(0))))))
    il, tl, fl, init = const(E, "O", "il"), const(E, "O", "tl"), const(E, "O", "fl"), const(E, "I", "init")
    E.fact(And(il != tl, il != fl, tl != fl, 0 <= init, init < N - 2))
    for l, s in ((il, init), (tl, N - 2), (fl, N - 1)):
        E.fact(forall([i], g["ls"].rel((l, i)) == (i == s)))
    ix = g["ix"]
    c, n = simplify(C - 2), simplify(N - 2)
    ix2 = DictV(E, ("I", "I"), "I", lambda k: And(ix.dom(k), ix.val(k) < c), ix.val, bi=True, idom=lambda q: And(0 <= q, q < c), ival=ix.ival)
    rf = rf_inst(E, _ReachabilityForm__system=m, initial=init, target_label=tl, fail_label=fl, initial_label=il,
                 _ReachabilityForm__P=MatV(E, c, n, p), _ReachabilityForm__index_by_state_action=ix2,
                 _ReachabilityForm__to_target=VecV(E, c, lambda i: p((i, N - 2)), col=True))
    rf.g = dict(g, il=il, tl=tl, fl=fl, init=init, c=c, n=n, m=m)
    return rf


def model_ctor(E, kind, out):
    """contract of the model constructors (C02): its precondition becomes an obligation of the caller, what it stores is kept"""
    def ctor(E, f, P, *args, **kw):
        names = ["index_by_state_action", "label_to_actions", "label_to_states", "vis_config", "reward_vector"] if kind == "MDP" else \
            ["label_to_states", "index_by_state_action", "vis_config", "reward_vector"]
        kw = dict(kw, **dict(zip(names, args)))
        o = Inst(E, f, {"P": P, "N": P.n, "C": P.m})
        o.args = dict(kw, P=P)
        out.append(o)
        return o
    return ctor


def succ_contract(E, g, calls=None):
    """contract of successors (C03): every transition leaving the state exactly once, in an unspecified order"""
    def f(E, fn, self, s):
        if calls is not None:
            calls.append(s)
        s = lift(s, "I")
        dom = Domain(("I", "I"), lambda q: And(0 <= q[0], q[0] < g["C"], 0 <= q[1], q[1] < g["N"], g["st"](q[0]) == s, g["P"]((q[0], q[1])) != 0),
                     elem=lambda q: (q[1], g["ac"](q[0]), g["P"]((q[0], q[1]))), name="succ")
        return BagV(E, [("dom", dom)])
    return f


class Reach:
    """the answer of a reachability query (C04): the least set containing the start states and closed under steps from
    unblocked states, described by closure and a distance that decreases along a way back to the start states"""

    def __init__(self, E, g, start, forward, blocked):
        N = g["N"]
        self.start, self.forward, self.blocked = start, forward, blocked
        R = self.R = E.fresh_fun("I", "B", "reach")
        D = self.D = E.fresh_fun("I", "I", "dist")
        pre = self.pre = E.fresh_fun("I", "I", "pre")
        row = self.row = E.fresh_fun("I", "I", "prerow")
        x, y, i = E.fresh_flat(("I", "I", "I"), "x")
        S = lambda x: And(0 <= x, x < N, bexpr(start(x)))
        edge = lambda x, y, i: And(0 <= i, i < g["C"], 0 <= x, x < N, 0 <= y, y < N, g["st"](i) == (x if forward else y), g["P"]((i, y if forward else x)) != 0)
        self.edge = edge
        E.fact(forall([x], Implies(S(x), R(x))))
        E.fact(forall([x], Implies(R(x), And(0 <= x, x < N, D(x) >= 0))))
        E.fact(forall([x, y, i], Implies(And(R(x), neg(bexpr(blocked(x))), edge(x, y, i)), R(y))))
        E.fact(forall([y], Implies(And(R(y), neg(S(y))), And(R(pre(y)), neg(bexpr(blocked(pre(y)))), edge(pre(y), y, row(y)), D(pre(y)) < D(y)))))
        self.mask = VecV(E, N, lambda q: If(R(q), IntVal(1), IntVal(0)), "I")


def reach_contract(g, calls):
    def f(E, fn, self, start, mode, blocklist=None):
        E.oblig("reachability is asked from a nonempty set", bexpr(E.truth(E.lib.b_len(start))))
        if mode not in ("forward", "backward"):
            E.oblig("reachability is asked forward or backward", BoolVal(False))
        b = (lambda x: BoolVal(False)) if blocklist is None else (lambda x: bexpr(E.contains(blocklist, x)))
        r = Reach(E, g, lambda x: bexpr(E.contains(start, x)), mode == "forward", b)
        calls.append(r)
        return r.mask
    return f
