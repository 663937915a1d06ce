"""C03: successor and predecessor lists of utils/graph.pyx (through its Cython parse tree)"""
from specs.models import *
import cmem
GM = "switss.utils.graph"
AM_ = "switss.model.amdp"
KINDS = ("succ", "pred")


def sym_graph(E, linked=True):
    """an arbitrary graph object satisfying the representation invariant: every node has a block as long as its count"""
    N = nat(E, "N", 1)
    g = Inst(E, cls(E, GM, "Graph"), {})
    nd = cmem.Nodes(E, N)
    g.attrs["nodes"], g.attrs["nodecount"] = nd, N
    for k in KINDS:
        nd.len[k].at = nd.cnt[k].at
        at, ct = nd.cnt[k].at, nd.cont[k]
        E.fact(quant(E, "I", lambda v: Implies(And(0 <= v, v < N), at(v) >= 0)))
        v, i = E.fresh_flat(("I", "I"), "v")
        E.fact(forall([v, i], Implies(And(0 <= v, v < N, 0 <= i, i < at(v)), And(0 <= ct((v, i))[0], ct((v, i))[0] < N))))
    return g, nd, N


def u_add(E):
    g, nd, N = sym_graph(E)
    s, a, d, p = const(E, "I", "s"), const(E, "I", "a"), const(E, "I", "d"), const(E, "R", "p")
    E.fact(And(0 <= s, s < N, 0 <= d, d < N))
    old = {k: (nd.cnt[k].at, nd.cont[k]) for k in KINDS}
    ok, _ = no_exception(E, lambda: callm(E, g, "add_successor", s, a, p, d))
    if not ok:
        return
    v, i = const(E, ("I", "I"), "v")
    inr = And(0 <= v, v < N)
    E.oblig("the nodes stay", BoolVal(g.attrs["nodes"] is nd and g.attrs["nodecount"] is N))
    for k, me, new, nm in (("succ", s, (d, a, p), "successor"), ("pred", d, (s, a, p), "predecessor")):
        c0, t0 = old[k]
        c1, t1, l1 = nd.cnt[k].at, nd.cont[k], nd.len[k].at
        E.oblig("exactly one %s more" % nm, Implies(inr, c1(v) == c0(v) + If(v == me, IntVal(1), IntVal(0))))
        E.oblig("every %s is inside its block" % nm, Implies(inr, l1(v) == c1(v)))
        E.oblig("every other %s stays" % nm, Implies(And(inr, 0 <= i, i < c0(v)), And(*[x == y for x, y in zip(t1((v, i)), t0((v, i)))])))
        E.oblig("the new %s is the transition" % nm, And(*[x == y for x, y in zip(t1((me, c0(me))), new)]))


def add_contract(E):
    def add(E, f, self, s, a, p, d):
        s, a, d = cmem.to_int(s), cmem.to_int(a), cmem.to_int(d)
        nd, N = self.attrs.get("nodes"), self.attrs.get("nodecount")
        if not isinstance(nd, cmem.Nodes):
            raise Unsupported("nodes")
        E.oblig("transitions lead between nodes", And(0 <= s, s < lift(nd.n, "I"), 0 <= d, d < lift(nd.n, "I")))
        v = const(E, "I", "v")
        for k in KINDS:
            E.oblig("the lists are empty before transitions are added", Implies(And(0 <= v, v < lift(nd.n, "I")), And(nd.cnt[k].at(v) == 0, nd.len[k].at(v) == 0)))
        self.attrs["#edges"].append((s, a, real(p), d))
    return add


def u_ctor(E):
    C, N = nat(E, "C", 1), nat(E, "N", 1)
    P = symmat(E, C, N, "P", exact=True)
    ix = sym_index(E, C, N)
    E.contracts[GM + ":Graph.add_successor"] = add_contract(E)
    edges = BagV(E)
    c = cls(E, GM, "Graph")
    g = Inst(E, c, {"#edges": edges})
    p0, st, ac = P.at, ix.st, ix.ac
    ok, _ = no_exception(E, lambda: E.call(c.find(E, "__init__")[0], [g, P, ix], {}))
    if not ok:
        return
    n = g.attrs.get("nodecount")
    E.oblig("there is a node for every state", BoolVal(False) if n is None else lift(n, "I") == N)
    E.oblig("the nodes are allocated", lift(g.attrs["nodes"].n, "I") == N if isinstance(g.attrs.get("nodes"), cmem.Nodes) else BoolVal(False))
    s, a, d = const(E, ("I", "I", "I"), "s")
    p = const(E, "R", "p")
    here = And(ix.has((s, a)), 0 <= d, d < N)
    match = lambda e: And(e[0] == s, e[1] == a, e[3] == d)
    cnt = bag_count(E, E.iterate(edges), match)
    for kk, D in E.iterate(edges):
        if kk == "dom" and D.sh in (("I", "I"), ["I", "I"]):
            key = (ix.ix((s, a)), d)
            cond = lambda q: And(D.mem(q), match(D.elem(q)))
            lemma_all(E, "a transition belongs to one entry", ("I", "I"), lambda q: Implies(cond(q), And(here, q[0] == key[0], q[1] == key[1], p0(key) != 0)))
            lemma(E, "an entry is a transition", Implies(And(here, p0(key) != 0), cond(key)))
            one = lambda q: RealVal(1)
            if E.decide(And(here, p0(key) != 0)):
                sum_point(E, "entries of a transition", ("I", "I"), cond, one, key)
            else:
                sum_ext(E, "no entries without a transition", ("I", "I"), cond, one, lambda q: RealVal(0))
    E.oblig("every transition is added exactly once", cnt == If(And(here, p0((ix.ix((s, a)), d)) != 0), RealVal(1), RealVal(0)))
    for cnd, e in bag_elems(E, E.iterate(edges)):
        E.oblig("transitions are added with their probability", Implies(cnd, And(ix.has((e[0], e[1])), p0((ix.ix((e[0], e[1])), e[3])) == e[2])))


def u_list(k, name, act):
    def run(E):
        g, nd, N = sym_graph(E)
        v = const(E, "I", "v")
        E.fact(And(0 <= v, v < N))
        cnt, cont, ln = nd.cnt[k].at, nd.cont[k], nd.len[k].at
        a0 = const(E, "I", "act")
        for rep in ("", " again"):
            ok, res = no_exception(E, lambda: callm(E, g, name, v, a0) if act else callm(E, g, name, v))
            if not ok:
                return
            t = const(E, ("I", "I", "R"), "t")
            is_t = lambda e: And(*[x == y for x, y in zip(e, t)])
            want = [("dom", Domain("I", lambda i: And(0 <= i, i < cnt(v), *([cont((v, i))[1] == a0] if act else [])), elem=lambda i: cont((v, i)), name="i"))]
            E.oblig("every entry of the %s list%s is given as often as it is stored%s" % (k, " for the action" if act else "", rep), bag_count(E, E.iterate(res), lambda e: is_t(E.unpack(e, 3))) == bag_count(E, want, is_t))
        E.oblig("the graph stays", And(BoolVal(g.attrs["nodes"] is nd and nd.cnt[k].at is cnt and nd.cont[k] is cont and nd.len[k].at is ln)))
    return Unit("%s[%s]" % (name, "action" if act else "all"), [GM + ":Graph." + name], run)


def u_model(name):
    def run(E):
        G = Inst(E, cls(E, GM, "Graph"), {})
        m = Inst(E, cls(E, "switss.model.mdp", "MDP"), {"_AbstractMDP__graph": G})
        v = const(E, "I", "v")
        out = Opaque("list")
        seen = []

        def q(E, f, self, n, actionidx=None):
            seen.append((self, n, actionidx))
            return out
        E.contracts[GM + ":Graph." + name] = q
        ok, r = no_exception(E, lambda: callm(E, m, name, v))
        if ok:
            E.oblig("the graph of the model is asked", BoolVal(len(seen) == 1 and seen[0][0] is G and seen[0][2] is None and r is out))
            if seen:
                E.oblig("the graph is asked for the state", lift(seen[0][1], "I") == v)
    return Unit("AbstractMDP." + name, [AM_ + ":AbstractMDP." + name], run)


UNITS = [Unit("add_successor", [GM + ":Graph.add_successor"], u_add), Unit("Graph", [GM + ":Graph.__init__"], u_ctor)] + \
    [u_list(k, n, a) for k, n in (("succ", "successors"), ("pred", "predecessors")) for a in (False, True)] + [u_model(n) for n in ("successors", "predecessors")]
