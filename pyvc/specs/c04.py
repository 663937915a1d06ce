"""C04: reachability search of utils/graph.pyx: worklist invariants"""
from specs.c03 import *
import ast as _ast
ST = "switss.utils.stack"


def is_stack(v):
    return v is cmem.NULL or isinstance(v, cmem.AbsStack) or isinstance(v, cmem.CStruct) and "btm" in v.f


class Search:
    """what the invariants speak about: F start set, B blocked, nb(v,k) the k-th of c(v) neighbours, S any closed superset of F"""
    def __init__(self, N, F, B, c, nb, S):
        self.N, self.F, self.B, self.c, self.nb, self.S = N, F, B, c, nb, S
        self.outer = None


class Inv:
    def __init__(self, kind, s, E, fr, node):
        self.kind, self.s, self.frame = kind, s, []
        names = {n.id for b in node.body for n in _ast.walk(b) if isinstance(n, _ast.Name) and isinstance(n.ctx, _ast.Store)}
        st = [n for n in names if n in fr.loc and is_stack(fr.loc[n])]
        arrs = [fr.loc.get("reachablemask"), fr.loc.get("instack")]
        if len(st) != 1 or not all(isinstance(a, cmem.CArr) for a in arrs):
            raise Unsupported("search structures")
        self.st, self.R, self.I = st[0], arrs[0], arrs[1]
        self.ctr = None
        if kind == "neighbours" and isinstance(node, _ast.While):
            t = node.test
            if not (isinstance(t, _ast.Compare) and isinstance(t.ops[0], _ast.Lt) and isinstance(t.left, _ast.Name)):
                raise Unsupported("loop over neighbours")
            self.ctr = t.left.id
        self.old = None

    def processed(self, E, fr):
        if self.ctr is not None:
            j = lift(fr.loc[self.ctr], "I")
            return lambda k: k < j
        if self.done is None:
            raise Unsupported("loop over neighbours")
        return self.done

    def clauses(self, E, fr):
        s, N = self.s, self.s.N
        R, I = self.R.at, self.I.at
        cnt = cmem.occurrences(E, fr.loc[self.st])
        inr = lambda v: And(0 <= v, v < N)
        seen = lambda v: Or(R(v) != 0, I(v) != 0)
        one, two = lambda f: ("I", f), lambda f: (("I", "I"), f)
        cs = [("occurrences are counted", one(lambda v: cnt(v) >= 0)),
              ("the stack contains nodes", one(lambda v: Implies(cnt(v) >= 1, inr(v)))),
              ("marked nodes are on the stack", one(lambda v: Implies(And(inr(v), I(v) != 0), cnt(v) >= 1))),
              ("nodes on the stack are marked or done", one(lambda v: Implies(cnt(v) >= 1, seen(v)))),
              ("the mask is 0 or 1", one(lambda v: Implies(inr(v), Or(R(v) == 0, R(v) == 1))))]
        if self.kind == "start":
            D = self.done
            if D is None:
                raise Unsupported("start set")
            cs += [("no node is done", one(lambda v: Implies(inr(v), R(v) == 0))), ("the start nodes are marked", one(lambda v: Implies(inr(v), (I(v) != 0) == D(v))))]
            return cs
        cs.append(("every closed set contains the nodes found", one(lambda v: Implies(And(inr(v), seen(v)), s.S(v)))))
        if self.kind == "search":
            cs += [("start nodes are found", one(lambda v: Implies(And(inr(v), s.F(v)), seen(v)))),
                   ("neighbours of done nodes are found", two(lambda q: Implies(And(inr(q[0]), R(q[0]) != 0, Not(s.B(q[0])), 0 <= q[1], q[1] < s.c(q[0])), seen(s.nb(q)))))]
        else:
            x, pr = s.outer.x, self.processed(E, fr)
            I0 = self.old
            cs += [("marked nodes stay marked", one(lambda v: Implies(And(inr(v), I0(v) != 0), I(v) != 0))),
                   ("neighbours looked at are found", one(lambda k: Implies(And(0 <= k, k < s.c(x), pr(k)), seen(s.nb((x, k))))))]
            if self.ctr is not None:
                j = lift(fr.loc[self.ctr], "I")
                cs.append(("the position is not negative", ("I", lambda v: j >= 0)))
        return cs

    def check(self, E, fr, when):
        if when == "before the loop":
            self.old = self.I.at
            if self.kind == "search":
                self.s.outer = self
        for nm, (sh, f) in self.clauses(E, fr):
            E.oblig("%s: %s %s" % ({"start": "start nodes", "search": "search", "neighbours": "neighbours"}[self.kind], nm, when), f(const(E, sh, "v")))

    def havoc(self, E, fr, names):
        self.frame = [self.I] + ([self.R] if self.kind == "search" else [])
        for a in self.frame:
            a.at = E.fresh_fun("I", "I", "mask")
        c = E.fresh_fun("I", "I", "occurrences")
        fr.loc[self.st] = cmem.AbsStack(E, c)
        if self.kind == "search":
            self.x = fr.loc[self.st].top
        if self.ctr is not None:
            fr.loc[self.ctr] = E.fresh("I", "position")
        for nm, (sh, f) in self.clauses(E, fr):
            E.fact(quant(E, sh, f))


def u_reach(direction, blocked):
    def run(E):
        g, nd, N = sym_graph(E)
        k = "succ" if direction == "forward" else "pred"
        c, ct, ln = nd.cnt[k].at, nd.cont[k], nd.len[k].at
        nb = lambda q: ct(q)[0]
        F, S = E.fresh_fun("I", "B", "start"), E.fresh_fun("I", "B", "closed")
        B = E.fresh_fun("I", "B", "blocked") if blocked else (lambda v: BoolVal(False))
        inr = lambda v: And(0 <= v, v < N)
        f0 = const(E, "I", "f0")
        E.fact(F(f0))
        E.fact(quant(E, "I", lambda v: Implies(F(v), And(inr(v), S(v)))))
        if blocked:
            E.fact(quant(E, "I", lambda v: Implies(B(v), inr(v))))
        E.fact(quant(E, ("I", "I"), lambda q: Implies(And(inr(q[0]), S(q[0]), Not(B(q[0])), 0 <= q[1], q[1] < c(q[0])), S(nb(q)))))
        s = Search(N, F, B, c, nb, S)
        fs = SetV(E, "I", F)
        bs = SetV(E, "I", B)
        F0, B0 = fs.mem, bs.mem
        invs = {}

        def hook(E, fr, node):
            stored = {n.id for b in node.body for n in _ast.walk(b) if isinstance(n, _ast.Name) and isinstance(n.ctx, _ast.Store)}
            if not any(n in fr.loc and is_stack(fr.loc[n]) for n in stored):
                return None
            if id(node) not in invs:
                kind = "neighbours" if E.ininv else "start" if isinstance(node, _ast.For) else "search"
                invs[id(node)] = Inv(kind, s, E, fr, node)
            return invs[id(node)]
        E.loopinv = {GM + ":Graph.reachable": hook}
        E.contracts[ST + ":freestack"] = lambda E, f, st: None
        ok, r = no_exception(E, lambda: callm(E, g, "reachable", fs, direction, bs) if blocked else callm(E, g, "reachable", fs, direction))
        if not ok:
            return
        if not isinstance(r, VecV):
            raise Unsupported("result")
        v, i = const(E, ("I", "I"), "v")
        at = lambda v: real(r.at(v))
        E.oblig("there is an entry for every state", lift(r.n, "I") == N)
        E.oblig("entries are 0 or 1", Implies(inr(v), Or(at(v) == 0, at(v) == 1)))
        E.oblig("the start states are reachable", Implies(F(v), at(v) == 1))
        E.oblig("neighbours of reachable states that are not blocked are reachable", Implies(And(inr(v), at(v) == 1, Not(B(v)), 0 <= i, i < c(v)), at(nb((v, i))) == 1))
        E.oblig("only reachable states are reported", Implies(And(inr(v), at(v) != 0), S(v)))
        E.oblig("graph and arguments stay", BoolVal(g.attrs["nodes"] is nd and nd.cnt[k].at is c and nd.cont[k] is ct and nd.len[k].at is ln and fs.mem is F0 and bs.mem is B0))
    return Unit("reachable[%s,%s]" % (direction, "blocked states" if blocked else "none blocked"), [GM + ":Graph.reachable", ST + ":push", ST + ":pop"], run)


def u_mask(blocked):
    def run(E):
        G = Inst(E, cls(E, GM, "Graph"), {})
        m = Inst(E, cls(E, "switss.model.mdp", "MDP"), {"_AbstractMDP__graph": G})
        fs, bs, out = SetV(E, "I", E.fresh_fun("I", "B", "start")), SetV(E, "I", E.fresh_fun("I", "B", "blocked")), Opaque("mask")
        seen = []

        def q(E, f, self, fromset, direction, blocklist=None):
            seen.append((self, fromset, direction, blocklist))
            return out
        E.contracts[GM + ":Graph.reachable"] = q
        for d in ("forward", "backward"):
            seen.clear()
            ok, r = no_exception(E, lambda: callm(E, m, "reachable_mask", fs, d, *([bs] if blocked else [])))
            if ok:
                E.oblig("the graph of the model is asked", BoolVal(len(seen) == 1 and seen[0][0] is G and seen[0][1] is fs and seen[0][2] == d and r is out))
                if seen:
                    b = seen[0][3]
                    v = const(E, "I", "v")
                    E.oblig("exactly the given states are blocked", BoolVal(b is bs) if blocked else (BoolVal(True) if b is None else Not(bexpr(E.contains(b, v)))))
    return Unit("reachable_mask[%s]" % ("blocked states" if blocked else "none blocked"), [AM_ + ":AbstractMDP.reachable_mask"], run)


UNITS = [u_reach(d, b) for d in ("forward", "backward") for b in (True, False)] + [u_mask(b) for b in (True, False)]
