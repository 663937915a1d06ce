"""C13: the MILP class hands exactly the entered program to PuLP.

The state of a MILP object is described by an invariant over its own representation (which attribute holds the PuLP problem,
the list of variables and the list of constraints is found out by running the methods on an empty object): variable number k
is a PuLP variable named N(k), constraint number k a PuLP constraint named CN(k), names are different, and the PuLP problem
holds exactly the constraints that were entered and not removed.  Every method is checked against its effect on an arbitrary
such state, so the claim holds for every history of calls."""
from specs.common import *
from specs.lp import *

P = Function("pvar", Obj, Obj, BoolSort(), RealSort(), BoolSort(), RealSort(), Obj)
PR = {n: Function("pvar_" + n, Obj, s) for n, s in (("name", Obj), ("cat", Obj), ("lbn", BoolSort()), ("lb", RealSort()), ("ubn", BoolSort()), ("ub", RealSort()))}
CNAME = Function("pcon_name", Obj, Obj)
VALUE = Function("pvar_value", Obj, RealSort())
CATS = {"pulp.LpContinuous": "Continuous", "pulp.LpInteger": "Integer", "pulp.LpBinary": "Binary"}
SENSES = {"pulp.LpConstraintLE": "<=", "pulp.LpConstraintEQ": "=", "pulp.LpConstraintGE": ">=", -1: "<=", 0: "=", 1: ">="}


def axioms(E):
    x = [Const(E.uid("r"), s) for s in (Obj, Obj, BoolSort(), RealSort(), BoolSort(), RealSort())]
    for f, v in zip(PR.values(), x):
        E.fact(ForAll(x, f(P(*x)) == v))


def optnum(E, v):
    if v is None:
        return BoolVal(True), RealVal(0)
    if isinstance(v, Opt):
        return bexpr(v.none), If(bexpr(v.none), RealVal(0), v.val)
    return BoolVal(False), real(v)


class PExpr:
    """pulp.LpAffineExpression: an ordered dictionary variable -> coefficient"""

    def __init__(self, E, d):
        self.E, self.d = E, d

    def getitem(self, k):
        return self.d.getitem(k)

    def setitem(self, k, v):
        return self.d.setitem(k, v)

    def iterate(self):
        return self.d.iterate()

    def contains(self, k):
        return self.d.contains(k) if hasattr(self.d, "contains") else self.d.has(k)

    def length(self):
        return self.d.length()

    def coef(self, q):
        if isinstance(self.d, AnyDict):
            return RealVal(0)
        return If(bexpr(self.d.has(q)), real(self.d.value(q)), RealVal(0))

    def attr(self, name):
        if name == "value":
            def value():
                E = self.E
                v = E.fresh("R", "objective_value")
                self.reported = v
                return v
            return value
        return self.d.attr(name)


class PCon:
    def __init__(self, E, name, e, sense, rhs):
        self.E, self.name, self.e, self.sense, self.rhs = E, name, e, sense, rhs

    def attr(self, n):
        if n in ("name", "sense"):
            return getattr(self, n)
        raise Unsupported("attribute %s of a constraint" % n)


class PConRef:
    def __init__(self, E, t):
        self.E, self.t = E, t

    def subst(self, pairs):
        return PConRef(self.E, sub(self.t, pairs))

    def attr(self, n):
        if n == "name":
            return CNAME(self.t)
        raise Unsupported("attribute %s of a constraint" % n)


class PCons:
    """the dictionary of constraints of a problem"""

    def __init__(self, E, has):
        self.E, self.old, self.added, self.removed = E, has, [], []

    def has(self, q):
        c = self.old(q)
        for kind, n in self.log():
            c = Or(c, q == n) if kind == "+" else And(c, q != n)
        return c

    def log(self):
        return [(k, n) for k, n, *_ in self.added]

    def guard(self):
        if self.E.loops:
            raise Unsupported("constraints change in a loop")

    def contains(self, q):
        return self.has(lift(q, "O"))

    def add(self, name, c):
        self.guard()
        self.added.append(("+", name, c))

    def remove(self, name):
        self.guard()
        if not self.E.decide(self.has(name)):
            raise SymRaise("KeyError", "no such constraint")
        self.added.append(("-", name))

    def attr(self, n):
        if n == "pop":
            def pop(q, *dflt):
                if dflt and not self.E.decide(self.has(lift(q, "O"))):
                    return dflt[0]
                self.remove(lift(q, "O"))
                return Opaque("constraint")
            return pop
        raise Unsupported("constraints.%s" % n)

    def delitem(self, q):
        self.remove(lift(q, "O"))

    def setitem(self, q, c):
        self.add(lift(q, "O"), c)


class PProb:
    def __init__(self, E, sense):
        self.E, self.sense, self.objective, self.cons, self.solver, self.solved = E, sense, None, PCons(E, lambda q: BoolVal(False)), None, []
        self.obj_log = []

    def iadd(self, op, v):
        E = self.E
        if not isinstance(op, ast.Add):
            raise Unsupported("operator on a problem")
        if isinstance(v, PExpr):
            if E.loops:
                raise Unsupported("objective set in a loop")
            self.objective = v
        elif isinstance(v, PCon):
            if E.decide(self.cons.has(v.name)):
                raise SymRaise("PulpError", "overlapping constraint names")
            self.cons.add(v.name, v)
        else:
            raise Unsupported("adding %s to a problem" % type(v).__name__)
        return self

    def attr(self, n):
        E = self.E
        if n == "constraints":
            return self.cons
        if n == "objective":
            return self.objective
        if n == "sense":
            return self.sense
        if n == "setSolver":
            def ss(s):
                self.solver = s
            return ss
        if n in ("addConstraint",):
            return lambda c, name=None: (self.iadd(ast.Add(), c), None)[1]
        if n in ("setObjective",):
            return lambda e: (self.iadd(ast.Add(), e), None)[1]
        if n == "solve":
            def solve(solver=None):
                if E.loops:
                    raise Unsupported("solving in a loop")
                st = E.fresh("I", "status")
                E.fact(disj([st == k for k in PSTATUS]))
                self.solved.append((solver or self.solver, st, len(self.cons.added), self.objective))
                return st
            return solve
        if n == "status":
            if not self.solved:
                return 0
            return self.solved[-1][1]
        if n == "sol_status":
            if not self.solved:
                return 0
            st = self.solved[-1][1]
            s = E.fresh("I", "sol_status")
            E.fact(And(Implies(st == 1, Or(s == 1, s == 2)), Implies(st == 0, s == 0), Implies(st == -1, s == -1), Implies(st == -2, s == -2), Implies(st == -3, s == 0)))
            # without a time limit a status of 1 means that the solution is optimal
            if not self.solved[-1][0].limited:
                E.fact(Implies(st == 1, s == 1))
            return s
        raise Unsupported("attribute %s of a problem" % n)

    def setattr_(self, n, v):
        if n == "objective" and isinstance(v, PExpr) and not self.E.loops:
            self.objective = v
            return
        raise Unsupported("assignment to attribute %s of a problem" % n)


PSTATUS = {1: "optimal", 0: "notsolved", -1: "infeasible", -2: "unbounded", -3: "undefined"}
SRC = """
def LpAffineExpression(pairs):
    d = {}
    for v, c in pairs:
        d[v] = c
    return d
"""


class PSolver:
    def __init__(self, kind, kw):
        self.kind, self.kw = kind, kw
        lim = kw.get("timeLimit")
        opts = kw.get("options")
        self.limited = lim is not None or kind == "glpk" and not (opts is None or isinstance(opts, BagV) and opts.concrete() == [])


def externals(E0=None):
    def expr(E, e=None, constant=0, name=None):
        if isinstance(e, PExpr):
            return PExpr(E, e.d.copy())
        if e is None:
            return PExpr(E, AnyDict(E))
        if isinstance(e, (DictV, AnyDict, RelDict)):
            return PExpr(E, e.copy())
        f = FuncV(ast.parse(SRC).body[0], E.module(ML))
        return PExpr(E, E.call(f, [e]))

    def var(E, name, lowBound=None, upBound=None, cat="Continuous", e=None):
        c = CATS.get(cat.name) if isinstance(cat, Named) else cat
        if isinstance(c, str) and c == "Binary":
            c, lowBound, upBound = "Integer", 0, 1
        if is_expr(c):
            raise Unsupported("category of a variable")
        (ln, lv), (un, uv) = optnum(E, lowBound), optnum(E, upBound)
        return P(lift(name, "O"), strconst(c), ln, lv, un, uv)

    def con(E, e=None, sense=None, name=None, rhs=None):
        s = SENSES.get(sense.name if isinstance(sense, Named) else sense)
        if s is None or not isinstance(e, PExpr) or name is None:
            raise Unsupported("constraint")
        return PCon(E, lift(name, "O"), e, s, real(rhs if rhs is not None else 0))

    def attr(E, o, name):
        if name == "name":
            return PR["name"](o)
        if name in ("value", "varValue"):
            return VALUE(o) if name == "varValue" else (lambda: VALUE(o))
        raise Unsupported("attribute %s of a variable" % name)
    ex = {"pulp.LpProblem": lambda E, name="NoName", sense=1: PProb(E, sense), "pulp.LpAffineExpression": expr, "pulp.LpVariable": var, "pulp.LpConstraint": con, "#attr": attr}
    for k, n in (("gurobi", "GUROBI_CMD"), ("cbc", "PULP_CBC_CMD"), ("glpk", "GLPK_CMD"), ("cplex", "CPLEX_PY")):
        ex["pulp." + n] = lambda E, k=k, **kw: PSolver(k, kw)
    return ex


class State:
    pass


def seq(E, l):
    """length of a list and its element at a position"""
    ps = l.iterate()
    parts, tot = [], IntVal(0)
    for k, p in ps:
        if k == "one":
            parts.append((tot, IntVal(1), lambda i, p=p: p))
            tot = simplify(tot + 1)
        else:
            card = lift(p.card if p.card is not None else E.card(p.sh, p.mem), "I")
            at = p.at or E.enumeration(p)[1]
            parts.append((tot, card, lambda i, p=p, at=at: p.elem(at(i))))
            tot = simplify(tot + card)

    def at(i):
        if not parts:
            return None
        r = parts[-1][2](i - parts[-1][0])
        for lo, c, f in reversed(parts[:-1]):
            r = merge(i < lo + c, f(i - lo), r)
        return r
    return tot, at


def symlist(E, n, f):
    l = BagV(E, [("dom", Domain("I", lambda i: And(0 <= i, i < n), elem=f, pos=lambda i: i, at=lambda i: i, card=n, lo=IntVal(0), hi=n, name="v"))])
    l.counted = True
    return l


def name_of(E, nm):
    nm = nm if is_expr(nm) else lift(nm, "O")
    return simplify(nm)


def state(E, cname, objset):
    """an arbitrary object satisfying the invariant"""
    axioms(E)
    S = State()
    C = cls(E, ML, cname)
    nob = len(E.obls)
    n, m = nat(E, "n"), nat(E, "m")
    V, K = E.fresh_fun("I", "O", "variable"), E.fresh_fun("I", "O", "constraint")
    # how the class represents its state, seen from an empty program
    o = E.call(C, [])
    a0 = dict(o.attrs)
    probs = [k for k, v in a0.items() if isinstance(v, PProb)]
    lists = [k for k, v in a0.items() if isinstance(v, BagV)]
    if len(probs) != 1 or len(lists) != 2:
        raise Unsupported("representation of a program")
    pk = probs[0]
    callm(E, o, "add_variables_w_bounds", BagV(E, [("one", ("real", None, None))]))
    vk = [k for k in lists if o.attrs[k].concrete() and len(o.attrs[k].concrete()) == 1]
    if len(vk) != 1:
        raise Unsupported("representation of the variables")
    vk = vk[0]
    ck = [k for k in lists if k != vk][0]
    callm(E, o, "add_constraint", BagV(E, []), "<=", 0)
    if not o.attrs[ck].concrete() or len(o.attrs[ck].concrete()) != 1:
        raise Unsupported("representation of the constraints")
    rest = lambda o: {k: v for k, v in o.attrs.items() if k not in (pk, vk, ck)}
    before = rest(o)
    callm(E, o, "set_objective_function", BagV(E, []))
    after = rest(o)
    S.rest = (before, after)
    if any(not isinstance(v, (bool, int, str, Named, type(None))) for r in S.rest for v in r.values()):
        raise Unsupported("further state of a program")
    if any(a0[k] != before[k] for k in before):
        raise Unsupported("further state of a program")
    # names
    o2 = Inst(E, C, dict(a0))
    o2.attrs[vk] = symlist(E, n, V)
    o2.attrs[ck] = symlist(E, m, lambda i: PConRef(E, K(i)))
    o2.attrs[pk] = PProb(E, Named("pulp.LpMinimize"))
    callm(E, o2, "add_variables_w_bounds", BagV(E, [("one", ("real", None, None))]))
    tot, at = seq(E, o2.attrs[vk])
    t = simplify(PR["name"](o2.attrs[vk].pieces[-1][1]))
    x = o2.attrs[vk].pieces[-1][1]
    nt = x.arg(0)
    pr = o2.attrs[pk]
    callm(E, o2, "add_constraint", BagV(E, []), "<=", 0)
    ct = pr.cons.added[-1][1]
    del E.obls[nob:]
    S.N = lambda i: substitute(nt, (n, lift(i, "I")))
    S.CN = lambda i: substitute(ct, (m, lift(i, "I")))
    for t in (nt, ct):
        d = decls_in(t)
        if any(c.decl().name() not in (n.decl().name(), m.decl().name()) and c.num_args() == 0 and z3.is_const(c) and c.decl().kind() == z3.Z3_OP_UNINTERPRETED and c.sort() != Obj for c in consts_of(t)):
            raise Unsupported("names of variables and constraints")
    i, j = const(E, "I", "i"), const(E, "I", "j")
    E.oblig("different variables have different names", Implies(And(i >= 0, j >= 0, i != j), S.N(i) != S.N(j)))
    E.oblig("different constraints have different names", Implies(And(i >= 0, j >= 0, i != j), S.CN(i) != S.CN(j)))
    NW, CW = E.fresh_fun("O", "I", "index_of_variable"), E.fresh_fun("O", "I", "index_of_constraint")
    E.fact(quant(E, "I", lambda i: Implies(i >= 0, And(NW(S.N(i)) == i, CW(S.CN(i)) == i))))
    E.fact(quant(E, "I", lambda i: Implies(And(0 <= i, i < n), And(PR["name"](V(i)) == S.N(i), NW(PR["name"](V(i))) == i))))
    E.fact(quant(E, "I", lambda i: Implies(And(0 <= i, i < m), CNAME(K(i)) == S.CN(i))))
    live = E.fresh_fun("I", "B", "live")
    # the object
    o = Inst(E, C, dict(a0))
    o.attrs.update(after if objset else before)
    S.o, S.n, S.m, S.V, S.K, S.live, S.NW, S.CW = o, n, m, V, K, live, NW, CW
    S.vk, S.ck, S.pk = vk, ck, pk
    o.attrs[vk] = symlist(E, n, V)
    o.attrs[ck] = symlist(E, m, lambda i: PConRef(E, K(i)))
    S.p = o.attrs[pk] = PProb(E, Named("pulp.LpMinimize"))
    S.has = lambda q: And(0 <= CW(q), CW(q) < m, live(CW(q)), S.CN(CW(q)) == q)
    S.p.cons = PCons(E, S.has)
    if objset:
        dom, val = E.fresh_fun("O", "B", "in_objective"), E.fresh_fun("O", "R", "objective")
        # the objective is about variables of the program
        IX = lambda q: S.ix(q)
        w = E.fresh_fun("O", "I", "variable_index")
        S.ix = w
        E.fact(quant(E, "I", lambda i: Implies(And(0 <= i, i < n), w(V(i)) == i)))
        E.fact(quant(E, "O", lambda q: Implies(dom(q), And(0 <= w(q), w(q) < n, V(w(q)) == q))))
        S.obj0 = S.p.objective = PExpr(E, DictV(E, "O", "R", dom, val))
    else:
        w = S.ix = E.fresh_fun("O", "I", "variable_index")
        E.fact(quant(E, "I", lambda i: Implies(And(0 <= i, i < n), w(V(i)) == i)))
    S.objset = objset
    return S


def expression(E, S):
    """an arbitrary expression over existing variables, none twice"""
    L = nat(E, "length")
    v, c = E.fresh_fun("I", "I", "v"), E.fresh_fun("I", "R", "c")
    w = E.fresh_fun("I", "I", "place")
    mem = lambda k: And(0 <= k, k < L)
    E.fact(quant(E, "I", lambda k: Implies(mem(k), And(0 <= v(k), v(k) < S.n, w(v(k)) == k))))
    l = BagV(E, [("dom", Domain("I", mem, elem=lambda k: (v(k), c(k)), pos=lambda k: k, at=lambda k: k, card=L, lo=IntVal(0), hi=L, name="k"))])
    S.L, S.v, S.c, S.w = L, v, c, w
    return l


def same_expression(E, S, name, e):
    """e maps exactly the variables of the entered expression to their coefficients"""
    if not isinstance(e, PExpr):
        raise Unsupported("not an expression")
    k = const(E, "I", "k")
    q = const(E, "O", "q")
    E.oblig(name + ": every coefficient is the one entered", Implies(And(0 <= k, k < S.L), e.coef(S.V(S.v(k))) == S.c(k)))
    # E.fact: k0 is the place of q
    k0 = S.w(S.ix(q))
    E.oblig(name + ": nothing else has a coefficient", Implies(e.coef(q) != 0, And(0 <= k0, k0 < S.L, S.V(S.v(k0)) == q)))


def frame(E, S, objset=None, variables=True, constraints=True, problem=True, objective=True):
    """what is not affected"""
    o = S.o
    if o.attrs.get(S.pk) is not S.p:
        raise Unsupported("the problem is replaced")
    i = const(E, "I", "i")
    want = S.rest[1 if (S.objset if objset is None else objset) else 0]
    for k, v in want.items():
        x = o.attrs.get(k)
        E.oblig("the rest of the state is right", eqv(x, v) if is_expr(x) else BoolVal(x == v))
    if set(o.attrs) != set(want) | {S.pk, S.vk, S.ck}:
        raise Unsupported("further state of a program")
    if variables:
        t, at = seq(E, o.attrs[S.vk])
        E.oblig("the variables stay", And(t == S.n, Implies(And(0 <= i, i < S.n), at(i) == S.V(i))))
    if constraints:
        t, at = seq(E, o.attrs[S.ck])
        E.oblig("the numbering of constraints stays", t == S.m)
    if problem:
        q = const(E, "O", "q")
        E.oblig("the constraints of the problem stay", S.p.cons.has(q) == S.has(q))
        E.oblig("no constraint is replaced", BoolVal(not S.p.cons.added))
    if objective:
        E.oblig("the objective stays", BoolVal(S.p.objective is (S.obj0 if S.objset else None)))
        if S.objset and S.p.objective is S.obj0:
            q = const(E, "O", "q")
            E.oblig("the objective's coefficients stay", S.p.objective.coef(q) == If(S.obj0.d.has(q), S.obj0.d.value(q), RealVal(0)))


def q(n, c="MILP"):
    return ML + ":%s.%s" % (c, n)


def u_init(obj):
    def run(E):
        axioms(E)
        ok, o = no_exception(E, lambda: E.call(cls(E, ML, "MILP"), [obj]))
        if not ok:
            return
        ps = [v for v in o.attrs.values() if isinstance(v, PProb)]
        if len(ps) != 1:
            raise Unsupported("representation")
        s = ps[0].sense
        s = {"pulp.LpMinimize": 1, "pulp.LpMaximize": -1}.get(s.name) if isinstance(s, Named) else s
        E.oblig("the direction of optimisation is the one asked for", BoolVal(s == (1 if obj == "min" else -1)))
        E.oblig("a new program is empty", BoolVal(ps[0].objective is None and not ps[0].cons.added and all(v.concrete() == [] for v in o.attrs.values() if isinstance(v, BagV))))
    return Unit("MILP(%s)" % obj, [q("__init__")], run, externals=externals())


def descr(E, one):
    kd = E.fresh_fun("I", "O", "kind")
    ln, lv, un, uv = E.fresh_fun("I", "B", "lb_none"), E.fresh_fun("I", "R", "lb"), E.fresh_fun("I", "B", "ub_none"), E.fresh_fun("I", "R", "ub")
    E.fact(quant(E, "I", lambda k: disj([kd(k) == strconst(s) for s in ("real", "integer", "binary")])))
    el = lambda k: (kd(k), Opt(E, ln(k), lv(k)), Opt(E, un(k), uv(k)))
    return kd, (ln, lv, un, uv), el


def var_ok(kd, ln, lv, un, uv, x, name):
    """the PuLP variable x has this domain and these bounds"""
    is_ = lambda s: kd == strconst(s)
    lo = Implies(neg(is_("binary")), And(PR["lbn"](x) == ln, Implies(neg(ln), PR["lb"](x) == lv)))
    up = Implies(neg(is_("binary")), And(PR["ubn"](x) == un, Implies(neg(un), PR["ub"](x) == uv)))
    l1, u1 = If(And(neg(ln), lv > 0), lv, RealVal(0)), If(And(neg(un), uv < 1), uv, RealVal(1))
    b = Implies(is_("binary"), And(neg(PR["lbn"](x)), PR["lb"](x) == l1, neg(PR["ubn"](x)), PR["ub"](x) == u1))
    return And(PR["name"](x) == name, (PR["cat"](x) == strconst("Continuous")) == is_("real"), (PR["cat"](x) == strconst("Integer")) == neg(is_("real")), lo, up, b)


def u_vars(how, one, objset):
    def run(E):
        S = state(E, "LP" if how == "LP" else "MILP", objset)
        n = S.n
        if how == "bounds":
            kd, (ln, lv, un, uv), el = descr(E, one)
        elif how == "domains":
            kd, _, _ = descr(E, one)
            el = lambda k: kd(k)
        none = how != "bounds"
        if one:
            cnt = IntVal(1)
            arg = BagV(E, [("one", el(IntVal(0)))]) if how != "LP" else 1
        else:
            cnt = nat(E, "count")
            E.fact(cnt != 1)
            arg = BagV(E, [("dom", Domain("I", lambda k: And(0 <= k, k < cnt), elem=el, pos=lambda k: k, at=lambda k: k, card=cnt, lo=IntVal(0), hi=cnt, name="k"))]) if how != "LP" else cnt
        f = {"bounds": "MILP.add_variables_w_bounds", "domains": "MILP.add_variables", "LP": "LP.add_variables"}[how]
        ok, r = no_exception(E, lambda: callm(E, S.o, f.split(".")[1], arg))
        if not ok:
            return
        k = const(E, "I", "k")
        kk = And(0 <= k, k < cnt)
        tot, at = seq(E, S.o.attrs[S.vk])
        E.oblig("the right number of variables is added", tot == n + cnt)
        E.oblig("the variables there were stay", Implies(And(0 <= k, k < n), at(k) == S.V(k)))
        x = at(n + k)
        ok = var_ok(kd(k) if how != "LP" else strconst("real"), BoolVal(True) if none else ln(k), RealVal(0) if none else lv(k),
                    BoolVal(True) if none else un(k), RealVal(0) if none else uv(k), x, S.N(n + k))
        E.oblig("every new variable has the domain and the bounds asked for", Implies(kk, ok))
        if one:
            if isinstance(r, BagV):
                t, ra = seq(E, r)
                E.oblig("the index of the new variable is returned", BoolVal(False))
            else:
                E.oblig("the index of the new variable is returned", lift(r, "I") == n)
        else:
            if not isinstance(r, BagV):
                raise Unsupported("result")
            t, ra = seq(E, r)
            E.oblig("an index is returned for every new variable", t == cnt)
            E.oblig("the indices of the new variables are returned in order", Implies(kk, lift(ra(k), "I") == n + k))
        frame(E, S, variables=False)
    nm = {"bounds": "MILP.add_variables_w_bounds", "domains": "MILP.add_variables", "LP": "LP.add_variables"}[how]
    fs = [ML + ":" + nm] + ([q("add_variables_w_bounds")] if how != "bounds" else []) + ([q("add_variables")] if how == "LP" else [])
    return Unit("%s[%s,%s]" % (nm, "one" if one else "many", "objective" if objset else "no objective"), fs, run, externals=externals())


def u_con(sense, objset):
    def run(E):
        S = state(E, "MILP", objset)
        e = expression(E, S)
        rhs = const(E, "R", "rhs")
        ok, r = no_exception(E, lambda: callm(E, S.o, "add_constraint", e, sense, rhs))
        if not ok:
            return
        E.oblig("the index of the new constraint is returned", lift(r, "I") == S.m)
        ad = S.p.cons.added
        if len(ad) != 1 or ad[0][0] != "+" or not isinstance(ad[0][2], PCon):
            E.oblig("exactly one constraint is added to the problem", BoolVal(False))
            return
        nm, c = ad[0][1], ad[0][2]
        E.oblig("the new constraint has the name that goes with its index", nm == S.CN(S.m))
        E.oblig("no other constraint is replaced", neg(S.has(nm)))
        E.oblig("the sense is the one entered", BoolVal(c.sense == sense))
        E.oblig("the right-hand side is the one entered", c.rhs == rhs)
        same_expression(E, S, "left-hand side", c.e)
        t, at = seq(E, S.o.attrs[S.ck])
        E.oblig("constraints are numbered in order", t == S.m + 1)
        last = S.o.attrs[S.ck].pieces[-1]
        if last[0] == "one" and isinstance(last[1], PCon):
            E.oblig("the constraint is recorded under its index", BoolVal(last[1] is c))
        frame(E, S, constraints=False, problem=False)
    return Unit("MILP.add_constraint[%s,%s]" % (sense, "objective" if objset else "no objective"), [q("add_constraint"), q("_assert_expression"), q("_expr_to_pulp")], run, externals=externals())


def u_rem(objset):
    def run(E):
        S = state(E, "MILP", objset)
        i = const(E, "I", "removed")
        E.fact(And(0 <= i, i < S.m, S.live(i)))
        ok, r = no_exception(E, lambda: callm(E, S.o, "remove_constraint", i))
        if not ok:
            return
        x = const(E, "O", "q")
        E.oblig("exactly that constraint is removed", S.p.cons.has(x) == And(S.has(x), S.CW(x) != i))
        E.oblig("nothing is added", BoolVal(all(a[0] == "-" for a in S.p.cons.added)))
        frame(E, S, problem=False)
    return Unit("MILP.remove_constraint[%s]" % ("objective" if objset else "no objective"), [q("remove_constraint")], run, externals=externals())


def u_obj(objset):
    def run(E):
        S = state(E, "MILP", objset)
        e = expression(E, S)
        ok, r = no_exception(E, lambda: callm(E, S.o, "set_objective_function", e))
        if not ok:
            return
        if S.p.objective is None:
            E.oblig("the problem has an objective", BoolVal(False))
            return
        same_expression(E, S, "objective", S.p.objective)
        frame(E, S, objset=True, objective=False)
    return Unit("MILP.set_objective_function[%s]" % ("replaced" if objset else "first"), [q("set_objective_function"), q("_assert_expression"), q("_expr_to_pulp")], run, externals=externals())


def u_solve(solver, limit):
    def run(E):
        S = state(E, "MILP", True)
        kw = {"solver": solver}
        if limit:
            kw["timeout"] = nat(E, "timeout", 1)
        ok, r = no_exception(E, lambda: E.call(E.getattr(S.o, "solve"), [], kw))
        if not ok:
            return
        if len(S.p.solved) != 1:
            raise Unsupported("the problem is not solved exactly once")
        s, st, nadd, ob = S.p.solved[0]
        if not isinstance(s, PSolver):
            E.oblig("a solver is chosen", BoolVal(False))
            return
        E.oblig("the solver is the one asked for", BoolVal(s.kind == solver))
        for k in ("gapRel", "gapAbs"):
            g = s.kw.get(k)
            if g is not None:
                E.oblig("the solver is asked for an optimal solution", And(real(g) >= 0, real(g) <= RealVal("0.000001")))
        if not limit:
            E.oblig("no time limit is set", BoolVal(s.kw.get("timeLimit") is None))
        for k, nm in PSTATUS.items():
            if k == 1 and limit:
                continue
            E.oblig("status %s is reported as such" % nm, Implies(st == k, E.lib.compare(ast.Eq(), r.attrs["status"], nm)))
        if limit:
            E.oblig("optimality is reported only for a solution", Implies(E.lib.compare(ast.Eq(), r.attrs["status"], "optimal"), st == 1))
        v = r.attrs["result_vector"]
        if not isinstance(v, VecV):
            raise Unsupported("result vector")
        i = const(E, "I", "i")
        E.oblig("there is a value for every variable", lift(v.n, "I") == S.n)
        E.oblig("the values are those of the variables in order of creation", Implies(And(0 <= i, i < S.n), v.at(i) == VALUE(S.V(i))))
        if getattr(S.p.objective, "reported", None) is None:
            raise Unsupported("value of the objective")
        E.oblig("the value is that of the objective", real(r.attrs["value"]) == S.p.objective.reported)
        frame(E, S)
    return Unit("MILP.solve[%s,%s]" % (solver, "time limit" if limit else "no limit"), [q("solve"), SV + ":SolverResult.__init__"], run, externals=externals())


def u_coef(cn, sense, obj, bounds):
    def run(E):
        m, n = nat(E, "m"), nat(E, "n")
        A, b, opt = symmat(E, m, n, "A"), symmat(E, m, 1, "b"), symmat(E, n, 1, "opt")
        A0, b0, o0 = A.at, b.at, opt.at
        progs = []
        con = milp_contracts(E, progs)
        kd, (ln, lv, un, uv), el = descr(E, False)
        args = [A, b, opt]
        kw = {"sense": sense, "objective": obj}
        if cn == "MILP":
            args.append(symlist(E, n, kd))
            if bounds:
                kw["bounds"] = symlist(E, n, lambda k: (Opt(E, ln(k), lv(k)), Opt(E, un(k), uv(k))))
        E.contracts = dict(E.contracts, **con)
        f = E.getattr(cls(E, ML, cn), "from_coefficients")
        ok, p = no_exception(E, lambda: E.call(f, args, kw))
        if not ok:
            return
        if not isinstance(p, Inst) or "#n" not in p.attrs:
            raise Unsupported("result")
        E.oblig("there is a variable for every column", lift(p.attrs["#n"], "I") == n)
        E.oblig("the direction of optimisation is the one asked for", BoolVal(p.attrs["#sense"] == obj))
        k = const(E, "I", "k")
        for c, (i, kind, l, u) in bag_elems(E, p.attrs["#vars"].iterate()):
            if is_expr(kind):
                E.oblig("the domains are those entered", Implies(c, kind == kd(lift(i, "I"))))
            else:
                E.oblig("the domains are those entered", BoolVal(cn == "LP" and kind == "real"))
            for x, xn, xv in ((l, ln, lv), (u, un, uv)):
                N, X = optnum(E, x)
                if bounds:
                    ii = lift(i, "I")
                    E.oblig("the bounds are those entered", Implies(c, And(N == xn(ii), Implies(neg(N), X == xv(ii)))))
                else:
                    E.oblig("there are no bounds", Implies(c, N))
        E.oblig("every variable is there once", bag_count(E, p.attrs["#vars"].iterate(), lambda e: lift(e[0], "I") == k) == If(And(0 <= k, k < n), RealVal(1), RealVal(0)))
        # constraints: the one for row k
        y = E.fresh_fun("I", "R", "x")
        row = lambda i: lsum(E, "I", lambda j: And(0 <= j, j < n), lambda j: A0((i, j)) * y(j))
        ps = p.attrs["#cons"].iterate()
        if len(ps) != 1 or ps[0][0] != "dom" or ps[0][1].sh != "I":
            raise Unsupported("shape of the constraints")
        d = ps[0][1]
        E.oblig("there is one constraint per row", d.mem(k) == And(0 <= k, k < m))
        E.fact(And(0 <= k, k < m))
        e, s, r = d.elem(k)
        E.oblig("the sense is the one entered", BoolVal(s == sense))
        E.oblig("the right-hand side is that of the row", real(r) == b0((k, IntVal(0))))
        value(E, e, y, n, lambda j: A0((k, j)), "row", nz=lambda j: A.nz((k, j)) if A.nz is not None else A0((k, j)) != 0)
        if p.attrs["#obj"] is None:
            E.oblig("the program has an objective", BoolVal(False))
            return
        value(E, p.attrs["#obj"], y, n, lambda j: o0((j, IntVal(0))), "objective")
    return Unit("%s.from_coefficients[%s,%s%s]" % (cn, sense, obj, ",bounds" if bounds else ""),
                [q("from_coefficients", cn)] + ([q("from_coefficients")] if cn == "LP" else []), run)


def value(E, e, y, n, coef, name, nz=None):
    """the expression has the value sum_j coef(j) y(j), because every column occurs once with its coefficient"""
    ps = e.pieces
    if ps is None or len(ps) != 1 or ps[0][0] != "dom":
        raise Unsupported("shape of an expression")
    d = ps[0][1]
    b = const(E, d.sh, "b")
    v, c = d.elem(b)
    v = lift(v, "I")
    E.oblig(name + ": the coefficients are those entered", Implies(d.mem(b), And(0 <= v, v < n, real(c) == coef(v))))
    # every column with a coefficient occurs
    j = const(E, "I", "j")
    bb = E.fresh_flat(d.sh, "b")
    kk = unflat(bb, d.sh)
    E.oblig(name + ": every coefficient occurs", Implies(And(0 <= j, j < n, coef(j) != 0), z3.Exists(bb, And(d.mem(kk), lift(d.elem(kk)[0], "I") == j))))


def milp_contracts(E, progs):
    con = lp_contracts(E, progs)

    def new(E, f, objective="min"):
        E.oblig("the objective is minimised or maximised", BoolVal(objective in ("min", "max")))
        p = new_prog(E, cls(E, ML, "MILP"), objective, 0)
        progs.append(p)
        return p

    def w_bounds(E, f, p, descr):
        ps = descr.iterate()
        if p.attrs["#vars"].counted and len(ps) == 1 and ps[0][0] == "one":
            n0 = lift(p.attrs["#vars"].length(), "I")
            kind, lb, ub = E.unpack(ps[0][1], 3)
            if not is_expr(kind):
                E.oblig("the domain is real, integer or binary", BoolVal(kind in ("real", "integer", "binary")))
            p.attrs["#vars"].append((n0, kind, lb, ub))
            return n0
        if E.loops:
            raise Unsupported("variables added in a loop")
        n0 = lift(nvars(p), "I")
        t, at = seq(E, descr)
        k = const(E, "I", "k")
        x = E.unpack(at(k), 3) if at(k) is not None else None
        if x is not None and is_expr(x[0]):
            E.oblig("the domains are real, integer or binary", Implies(And(0 <= k, k < t), disj([x[0] == strconst(s) for s in ("real", "integer", "binary")])))
        p.attrs["#vars"].pieces = p.attrs["#vars"].pieces + (("dom", Domain("I", lambda i: And(n0 <= i, i < n0 + t), elem=lambda i: (i,) + tuple(E.unpack(at(i - n0), 3)), name="v")),)
        p.attrs["#n"] = simplify(n0 + t)
        return Opaque("indices of new variables")

    def add_vars(E, f, p, domains):
        t, at = seq(E, domains)
        return w_bounds(E, f, p, BagV(E, [("dom", Domain("I", lambda i: And(0 <= i, i < t), elem=lambda i: (at(i), None, None), pos=lambda i: i, at=lambda i: i, card=t, lo=IntVal(0), hi=t))]))
    con[ML + ":MILP"] = new
    con[q("add_variables_w_bounds")] = w_bounds
    con[q("add_variables")] = add_vars
    del con[ML + ":LP.from_coefficients"]
    return con


UNITS = [u_init(o) for o in ("min", "max")] + [u_vars(h, one, ob) for h in ("bounds", "domains", "LP") for one in (True, False) for ob in (False, True)] + \
    [u_con(s, ob) for s in ("<=", "=", ">=") for ob in (False, True)] + [u_rem(ob) for ob in (False, True)] + [u_obj(ob) for ob in (False, True)] + \
    [u_solve(s, l) for s in ("cbc", "glpk", "gurobi", "cplex") for l in (False, True)] + \
    [u_coef("MILP", s, o, b) for s, o in (("<=", "min"), (">=", "max"), ("=", "min")) for b in (False, True)] + [u_coef("LP", s, o, False) for s, o in (("<=", "max"), (">=", "min"))]
