"""arbitrary inputs and the contracts shared by the specifications"""
import sys, os
from values import *
from objs import *
from engine import *
from lib import Lib, Builtin, NoneVec
from main import Unit
import z3

RF = "switss.model.reachability_form"
AM = "switss.model.amdp"
ID = "switss.utils.invertible_dict"


def cls(E, mod, name):
    return E.module(mod).defs[name]


def const(E, sh, name):
    return unflat([Const(E.uid(name), SORTS[s]) for s in flat_shape(sh)], sh)


def nat(E, name, lo=0):
    n = const(E, "I", name)
    E.fact(n >= lo)
    return n


def symvec(E, n, name, kind="R"):
    f = E.fresh_fun("I", kind, name)
    return VecV(E, n, f, kind)


def symmat(E, m, n, name, exact=False):
    """arbitrary sparse matrix; exact: the stored entries are the nonzero ones"""
    f = E.fresh_fun(("I", "I"), "R", name)
    if exact:
        return MatV(E, m, n, f)
    p = E.fresh_fun(("I", "I"), "B", name + "_nz")
    i, j = E.fresh_flat(("I", "I"), "i")
    E.fact(forall([i, j], Implies(neg(p((i, j))), f((i, j)) == 0)))
    return MatV(E, m, n, f, p)


def sym_index(E, C, N, bounds=True):
    """arbitrary state-action indexing: a bijection (s,a) <-> 0..C-1 with states below N"""
    st, ac = E.fresh_fun("I", "I", "st"), E.fresh_fun("I", "I", "ac")
    ix = E.fresh_fun(("I", "I"), "I", "ix")
    dom = E.fresh_fun(("I", "I"), "B", "sa")
    i, s, a = E.fresh_flat(("I", "I", "I"), "i")
    inv = lambda i: And(0 <= i, i < C)
    E.fact(forall([i], Implies(inv(i), And(dom((st(i), ac(i))), ix((st(i), ac(i))) == i, *([0 <= st(i), st(i) < N] if bounds else [])))))
    E.fact(forall([s, a], Implies(dom((s, a)), And(inv(ix((s, a))), st(ix((s, a))) == s, ac(ix((s, a))) == a))))
    d = DictV(E, ("I", "I"), "I", dom, ix, bi=True, idom=inv, ival=lambda i: (st(i), ac(i)))
    E.inverses[ix.decls[0].name()] = ("bij", [ix.decls[0].name()], lambda q: (st(q), ac(q)), inv, lambda s, a: dom((s, a)))
    E.inverses[st.decls[0].name()] = ("bij", [st.decls[0].name(), ac.decls[0].name()], lambda s, a: ix((s, a)), lambda s, a: dom((s, a)), inv)
    E.inverses[ac.decls[0].name()] = E.inverses[st.decls[0].name()]
    d.st, d.ac, d.ix = st, ac, ix
    return d


def rel_inst(E, ksh, vsh, name, default=True):
    """arbitrary InvertibleDict with its inverse already built and consistent (class invariant of C01)"""
    c = cls(E, ID, "InvertibleDict")
    rel = E.fresh_fun((ksh, vsh), "B", name)
    dom = E.fresh_fun(ksh, "B", name + "_dom")
    idom = E.fresh_fun(vsh, "B", name + "_idom")
    k, v = E.fresh_flat(ksh, "k"), E.fresh_flat(vsh, "v")
    kk, vv = unflat(k, ksh), unflat(v, vsh)
    E.fact(forall(k + v, Implies(rel((kk, vv)), And(dom(kk), idom(vv)))))
    d = RelDict(E, ksh, vsh, dom, rel)
    i = RelDict(E, vsh, ksh, idom, lambda q: rel((q[1], q[0])))
    a = Inst(E, c, {"_InvertibleDict__d": d, "_InvertibleDict__is_default": default})
    b = Inst(E, c, {"_InvertibleDict__d": i, "_InvertibleDict__is_default": default})
    a.attrs["_InvertibleDict__i"] = b
    b.attrs["_InvertibleDict__i"] = a
    a.rel, a.dom, a.idom = rel, dom, idom
    return a


def expect(E, f, *exc):
    """run f; returns (raised exception name or None, value)"""
    try:
        return None, f()
    except SymRaise as r:
        return r.exc, r


def noraise(E, f, what="no exception"):
    r, v = expect(E, f)
    if r is not None:
        E.oblig("%s" % what, BoolVal(False))
        E.raised = v
        return None
    return v


def no_exception(E, f):
    """run f; an exception is a failed obligation (returns ok, value)"""
    try:
        return True, f()
    except SymRaise as r:
        E.oblig("no exception is raised (%s %s)" % (r.exc, str(r.info)[:60]), BoolVal(False))
        return False, None


def method(E, o, name):
    return E.getattr(o, name)


def callm(E, o, name, *a, **k):
    return E.call(E.getattr(o, name), list(a), k)


def fun(E, mod, name):
    return E.module(mod).defs[name]


def quant(E, sh, f, name="q"):
    q = E.fresh_flat(sh, name)
    return forall(q, f(unflat(q, sh)))


def vec_eq(E, name, v, n, f):
    """v is a vector of length n with entries f"""
    if not isinstance(v, VecV):
        raise Unsupported("%s is not a vector" % name)
    E.oblig(name + " has the right length", lift(v.n, "I") == lift(n, "I"))
    i = const(E, "I", "i")
    E.oblig(name + " has the right entries", Implies(And(0 <= i, i < lift(n, "I")), eqv(v.at(i), f(i))))


def mat_eq(E, name, M, m, n, f):
    if not isinstance(M, MatV):
        raise Unsupported("%s is not a matrix" % name)
    E.oblig(name + " has the right shape", And(lift(M.m, "I") == lift(m, "I"), lift(M.n, "I") == lift(n, "I")))
    i, j = const(E, ("I", "I"), "i")
    E.oblig(name + " has the right entries", Implies(And(0 <= i, i < lift(m, "I"), 0 <= j, j < lift(n, "I")), eqv(M.at((i, j)), f(i, j))))


def set_eq(E, name, s, sh, f):
    q = const(E, sh, "e")
    E.oblig(name, bexpr(s.has(q)) == bexpr(f(q)))


def rf_inst(E, **attrs):
    return Inst(E, cls(E, RF, "ReachabilityForm"), attrs)


def sum_over(E, n, f):
    j = E.fresh_flat("I", "b")[0]
    return E.sum([j], And(0 <= j, j < lift(n, "I")), f(j))


def bag_count(E, pieces, pred):
    """number of elements of a list satisfying pred(elem) (Real term)"""
    tot = RealVal(0)
    for k, p in pieces:
        if k == "one":
            tot = tot + If(bexpr(pred(p)), RealVal(1), RealVal(0))
        elif k == "dom":
            b = E.fresh_flat(p.sh, "b")
            kk = unflat(b, p.sh)
            tot = tot + E.sum(b, And(p.mem(kk), bexpr(pred(p.elem(kk)))), RealVal(1))
        else:
            raise Unsupported("list under construction")
    return tot


def bag_elems(E, pieces):
    """an arbitrary element of each piece, with its condition"""
    out = []
    for k, p in pieces:
        if k == "one":
            out.append((BoolVal(True), p))
        else:
            q = const(E, p.sh, "q")
            out.append((p.mem(q), p.elem(q)))
    return out


def one_per_key(E, name, bag, ksh, dom, keyf, ok):
    """the list has exactly one element per key of dom, none for other keys, and every element satisfies ok(elem)"""
    ps = E.iterate(bag)
    k = const(E, ksh, "key")
    E.oblig(name + ": exactly one entry per key and none for anything else", bag_count(E, ps, lambda e: eqv(keyf(e), k)) == If(bexpr(dom(k)), RealVal(1), RealVal(0)))
    for c, e in bag_elems(E, ps):
        E.oblig(name + ": every entry is right", Implies(c, ok(e)))


# ---- lemmas about finite sums (meta-theorems of pyvc, proved in lean/): the side conditions are obligations
def lemma(E, name, goal):
    """prove goal, then use it"""
    E.oblig(name, goal)
    E.fact(goal)


def choose(E, name, ksh, dom, vsh, rel):
    """prove forall k in dom exists v rel(k,v), then introduce a choice function"""
    k = const(E, ksh, "k")
    vs = E.fresh_flat(vsh, "v")
    E.oblig(name, Implies(dom(k), z3.Exists(vs, rel(k, unflat(vs, vsh)))))
    f = E.fresh_fun(ksh, vsh, "pick")
    ks = E.fresh_flat(ksh, "k")
    kk = unflat(ks, ksh)
    E.fact(forall(ks, Implies(dom(kk), rel(kk, f(kk)))))
    return f


def lsum(E, sh, cond, term):
    b = E.fresh_flat(sh, "b")
    bb = unflat(b, sh)
    return E.sum(b, cond(bb), term(bb))


def sum_ext(E, name, sh, cond, t1, t2):
    b = const(E, sh, "b")
    E.oblig(name, Implies(cond(b), t1(b) == t2(b)))
    E.fact(lsum(E, sh, cond, t1) == lsum(E, sh, cond, t2))


def sum_le(E, name, sh, cond, t1, t2):
    b = const(E, sh, "b")
    E.oblig(name, Implies(cond(b), t1(b) <= t2(b)))
    E.fact(lsum(E, sh, cond, t1) <= lsum(E, sh, cond, t2))


def reindex(E, name, sh1, c1, t1, sh2, c2, t2, f, g):
    """sum over c1 of t1 = sum over c2 of t2 along the bijection f with inverse g"""
    x, y = const(E, sh1, "x"), const(E, sh2, "y")
    E.oblig(name + ": maps into the second index set", Implies(c1(x), And(c2(f(x)), eqv(g(f(x)), x))))
    E.oblig(name + ": maps back into the first index set", Implies(c2(y), And(c1(g(y)), eqv(f(g(y)), y))))
    E.oblig(name + ": terms agree", Implies(c1(x), t1(x) == t2(f(x))))
    E.fact(lsum(E, sh1, c1, t1) == lsum(E, sh2, c2, t2))


def rank_facts(E, cond, hi):
    """the rank function i -> #{j < i : cond j} numbers the elements below hi satisfying cond: it is increasing on them and
    takes every value below the total exactly once.  Returns (rank, total, inverse)."""
    rk = lambda i: E.rank(IntVal(0), cond, i)
    n = rk(hi)
    un = E.fresh_fun("I", "I", "nth")
    i, j, q = E.fresh_flat(("I", "I", "I"), "i")
    K = lambda i: And(0 <= i, i < hi, bexpr(cond(i)))
    E.fact(n >= 0)
    E.fact(forall([i], Implies(K(i), And(0 <= rk(i), rk(i) < n, un(rk(i)) == i))))
    E.fact(forall([i, j], Implies(And(K(i), K(j), i < j), rk(i) < rk(j))))
    E.fact(forall([q], Implies(And(0 <= q, q < n), And(K(un(q)), rk(un(q)) == q))))
    return rk, n, un


def sum_split(E, name, sh, c1, t1, c2, t2):
    """two sums over different index sets whose terms agree where either is nonzero"""
    b = const(E, sh, "b")
    z = RealVal(0)
    E.oblig(name, If(c1(b), t1(b), z) == If(c2(b), t2(b), z))
    E.fact(lsum(E, sh, c1, t1) == lsum(E, sh, c2, t2))


def sum_add(E, name, sh, cond, t, t1, t2):
    """sum of t = sum of t1 + sum of t2 when t = t1 + t2 termwise"""
    b = const(E, sh, "b")
    E.oblig(name, Implies(cond(b), t(b) == t1(b) + t2(b)))
    E.fact(lsum(E, sh, cond, t) == lsum(E, sh, cond, t1) + lsum(E, sh, cond, t2))


def sum_point(E, name, sh, cond, t, a):
    """a sum all of whose terms vanish except at a"""
    b = const(E, sh, "b")
    E.oblig(name, And(cond(a), Implies(And(cond(b), neg(eqv(a, b))), t(b) == 0)))
    E.fact(lsum(E, sh, cond, t) == t(a))


def lemma_all(E, name, sh, f):
    """prove f for an arbitrary element, then use it for all"""
    E.oblig(name, f(const(E, sh, "e")))
    E.fact(quant(E, sh, f))


def nonzero_term(E, ksh, sh, cond, term):
    """a sum (for every k) that is not zero has a term that is not zero; returns the function picking it"""
    w = E.fresh_fun(ksh, sh, "term")
    ks = E.fresh_flat(ksh, "k")
    k = unflat(ks, ksh)
    E.fact(forall(ks, Implies(lsum(E, sh, lambda b: cond(k, b), lambda b: term(k, b)) != 0, And(cond(k, w(k)), term(k, w(k)) != 0))))
    return w


def least(E, name, sh, pred, measure, example):
    """an element satisfying pred with the least measure (well-ordering of the natural numbers)"""
    x = const(E, sh, "x")
    E.oblig(name + ": some element qualifies", pred(example))
    E.oblig(name + ": the measure is not negative", Implies(pred(x), measure(x) >= 0))
    w = const(E, sh, "least")
    E.fact(And(pred(w), quant(E, sh, lambda y: Implies(pred(y), measure(w) <= measure(y)))))
    return w


def card_bij(E, name, sh1, c1, sh2, c2, f, g):
    """two finite sets in bijection have the same number of elements"""
    x, y = const(E, sh1, "x"), const(E, sh2, "y")
    E.oblig(name + ": maps into the second set", Implies(c1(x), And(c2(f(x)), eqv(g(f(x)), x))))
    E.oblig(name + ": maps back into the first set", Implies(c2(y), And(c1(g(y)), eqv(f(g(y)), y))))
    E.fact(E.card(sh1, c1) == E.card(sh2, c2))


def named(E, name, sh, v):
    """a constant standing for a (large) term"""
    c = const(E, sh, name)
    E.fact(eqv(c, lift(v, sh)))
    return c
