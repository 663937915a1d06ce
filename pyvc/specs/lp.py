"""contract of the LP/MILP classes (C13): a program is a list of variables and constraints; solving it yields one of the
five statuses, and an optimal solution when the status says so"""
from specs.common import *

ML = "switss.solver.milp"
SV = "switss.solver.solverresult"
STATUS = ("optimal", "notsolved", "infeasible", "unbounded", "undefined")


def nvars(p):
    v = p.attrs["#vars"]
    return simplify(lift(v.length(), "I")) if v.counted else p.attrs["#n"]


def expr_val(E, lhs, x):
    """value of a linear expression (pieces of (variable, coefficient) pairs, or a matrix row) at the assignment x"""
    if isinstance(lhs, tuple) and len(lhs) == 4 and lhs[0] == "#row":
        _, at, n, i = lhs
        return sum_over(E, n, lambda j: real(at((i, j))) * x(j))
    tot = RealVal(0)
    for k, p in lhs:
        if k == "one":
            v, c = p
            tot = tot + real(c) * x(lift(v, "I"))
        else:
            b = E.fresh_flat(p.sh, "b")
            kk = unflat(b, p.sh)
            v, c = p.elem(kk)
            tot = tot + E.sum(b, p.mem(kk), real(c) * x(lift(v, "I")))
    return tot


class Expr:
    """a linear expression or a matrix row"""

    def __init__(self, E, pieces=None, row=None):
        self.E, self.pieces, self.row = E, pieces, row

    def val(self, x):
        return expr_val(self.E, self.row if self.row is not None else self.pieces, x)

    def subst(self, pairs):
        if self.row is not None:
            t, at, n, i = self.row
            return Expr(self.E, row=(t, at, n, sub(i, pairs)))
        return Expr(self.E, pieces=[(k, sub(p, pairs) if k == "one" else dsub(p, pairs)) for k, p in self.pieces])


def dsub(d, pairs):
    return Domain(d.sh, lambda k: substitute(bexpr(d.mem(k)), *pairs), elem=lambda k: sub(d.elem(k), pairs), name=d.name)


def to_expr(E, p, lhs, what):
    """expression handed in by the caller; its variables must exist and be different"""
    ps = E.iterate(lhs)
    n = lift(nvars(p), "I")
    norm = []
    for k, q in ps:
        if k == "one":
            v, c = E.unpack(q, 2)
            E.oblig("%s: the variable exists" % what, And(0 <= lift(v, "I"), lift(v, "I") < n))
            norm.append(("one", (lift(v, "I"), real(c))))
        else:
            b = const(E, q.sh, "b")
            v, c = E.unpack(q.elem(b), 2)
            E.oblig("%s: the variables exist" % what, Implies(q.mem(b), And(0 <= lift(v, "I"), lift(v, "I") < n)))
            b2 = const(E, q.sh, "b")
            v2, _ = E.unpack(q.elem(b2), 2)
            E.oblig("%s: no variable occurs twice" % what, Implies(And(q.mem(b), q.mem(b2), lift(v, "I") == lift(v2, "I")), eqv(b, b2)))
            norm.append(("dom", q.mapped(lambda t: tuple(E.unpack(t, 2)))))
    for a in range(len(norm)):
        for c in range(a):
            ca, va = (BoolVal(True), norm[a][1]) if norm[a][0] == "one" else (lambda q: (norm[a][1].mem(q), norm[a][1].elem(q)))(const(E, norm[a][1].sh, "b"))
            cc, vc = (BoolVal(True), norm[c][1]) if norm[c][0] == "one" else (lambda q: (norm[c][1].mem(q), norm[c][1].elem(q)))(const(E, norm[c][1].sh, "b"))
            E.oblig("%s: no variable occurs twice" % what, neg(And(ca, cc, lift(va[0], "I") == lift(vc[0], "I"))))
    return Expr(E, pieces=norm)


def holds(c, x):
    e, sense, rhs = c
    v = e.val(x)
    return v <= rhs if sense == "<=" else v >= rhs if sense == ">=" else v == rhs


def feasible(E, p, x):
    """every constraint holds at x, every bound and domain is respected"""
    cs = [p.base(x)] if getattr(p, "base", None) else []
    for k, q in p.attrs["#cons"].iterate():
        if k == "one":
            cs.append(holds(q, x))
        else:
            b = E.fresh_flat(q.sh, "b")
            kk = unflat(b, q.sh)
            cs.append(forall(b, Implies(q.mem(kk), holds(q.elem(kk), x))))
    for k, q in p.attrs["#vars"].iterate():
        if k == "one":
            cs.append(in_dom(q, x))
        else:
            b = E.fresh_flat(q.sh, "b")
            kk = unflat(b, q.sh)
            cs.append(forall(b, Implies(q.mem(kk), in_dom(q.elem(kk), x))))
    return conj(cs)


def cons_elems(E, p):
    """every constraint and every bound: condition under which it is there, and what it demands of an assignment"""
    out = []
    for bag, f in (("#cons", holds), ("#vars", in_dom)):
        for k, q in p.attrs[bag].iterate():
            if k == "one":
                out.append((BoolVal(True), lambda x, q=q, f=f: f(q, x)))
            else:
                e = const(E, q.sh, "c")
                out.append((q.mem(e), lambda x, e=e, q=q, f=f: f(q.elem(e), x)))
    return out


def in_dom(v, x):
    i, kind, lb, ub = v
    t = x(lift(i, "I"))
    cs = [BoolVal(True)]
    for bd, f in ((lb, lambda b: t >= b), (ub, lambda b: t <= b)):
        if bd is not None:
            cs.append(bound_term(bd, f))
    if kind != "real":
        cs.append(z3.IsInt(t))
    if kind == "binary":
        cs += [t >= 0, t <= 1]
    return conj(cs)


def bound_term(b, f):
    return b(f) if callable(b) else f(real(b))


def objective(E, p, x):
    o = p.attrs["#obj"]
    return o.val(x) if o is not None else RealVal(0)


def new_prog(E, cl, sense, n=0):
    p = Inst(E, cl, {})
    p.attrs.update({"#n": n, "#cons": BagV(E), "#vars": BagV(E), "#obj": None, "#sense": sense})
    p.solves = []
    return p


def entry(v, i):
    return real(v.at((i, IntVal(0))) if isinstance(v, MatV) else v.at(i))


def rows_of(v):
    return lift(v.m if isinstance(v, MatV) else v.n, "I")


def from_coefficients(E, cl, A, b, opt, sense, obj):
    E.oblig("the objective is minimised or maximised", BoolVal(obj in ("min", "max")))
    E.oblig("the sense is one of <=, =, >=", BoolVal(sense in ("<=", "=", ">=")))
    if not isinstance(A, MatV):
        raise Unsupported("coefficients of type %s" % type(A).__name__)
    m, n = lift(A.m, "I"), lift(A.n, "I")
    E.oblig("there is a right-hand side for every row", rows_of(b) >= m)
    E.oblig("there is an objective coefficient for every variable", rows_of(opt) >= n)
    p = new_prog(E, cl, obj, n)
    at, bt, ot = A.at, (lambda i: entry(b, i)), (lambda i: entry(opt, i))
    b0, o0 = b.copy(), opt.copy()
    bt, ot = (lambda i: entry(b0, i)), (lambda i: entry(o0, i))
    p.attrs["#cons"].pieces = (("dom", Domain("I", lambda i: And(0 <= i, i < m), elem=lambda i: (Expr(E, row=("#row", at, n, i)), sense, bt(i)), name="row")),)
    p.attrs["#obj"] = Expr(E, pieces=[("dom", Domain("I", lambda i: And(0 <= i, i < n), elem=lambda i: (i, ot(i)), name="v"))])
    return p


def lp_contracts(E, progs):
    """contracts of the LP/MILP methods; every program built is recorded in progs"""
    def lp_fc(E, f, c, A, b, opt, sense="<=", objective="min"):
        p = from_coefficients(E, cls(E, ML, "LP"), A, b, opt, sense, objective)
        n = lift(A.n, "I")
        p.attrs["#vars"].pieces = (("dom", Domain("I", lambda i: And(0 <= i, i < n), elem=lambda i: (i, "real", None, None), name="v")),)
        progs.append(p)
        return p

    def add_constraint(E, f, p, lhs, sense, rhs):
        E.oblig("the sense is one of <=, =, >=", BoolVal(sense in ("<=", "=", ">=")))
        e = to_expr(E, p, lhs, "constraint")
        p.attrs["#cons"].append((e, sense, real(rhs)))
        return Opaque("constraint index")

    def set_objective(E, f, p, expression):
        e = to_expr(E, p, expression, "objective")
        E.setattr(p, "#obj", e)

    def solve(E, f, p, solver="cbc", timeout=None, print_output=False):
        E.oblig("the program has an objective", BoolVal(p.attrs["#obj"] is not None))
        st = E.fresh("O", "status")
        xf = E.fresh_fun("I", "R", "sol")
        x = VecV(E, nvars(p), xf)
        fixed = p.attrs["#cons"].iterate(), p.attrs["#obj"], p.attrs["#vars"].iterate()
        val = objective(E, p, xf)
        E.fact(disj([st == strconst(s) for s in STATUS]))
        E.fact(Implies(st == strconst("optimal"), feasible(E, p, xf)))
        r = Inst(E, cls(E, SV, "SolverResult"), {"status": st, "result_vector": x, "value": val})
        r.prog, r.x, r.st = p, xf, st
        r.feasible = lambda y: feasible(E, p, y)
        r.obj = lambda y: objective(E, p, y)
        p.solves.append(r)
        return r

    return {ML + ":LP.from_coefficients": lp_fc, ML + ":MILP.add_constraint": add_constraint, ML + ":MILP.set_objective_function": set_objective,
            ML + ":MILP.solve": solve}


def optimal(E, r, y):
    """instance of the solver's contract: no solution is better"""
    a, b = r.obj(r.x), r.obj(y)
    E.fact(Implies(And(r.st == strconst("optimal"), r.feasible(y)), a <= b if r.prog.attrs["#sense"] == "min" else a >= b))


def must_be_optimal(E, r, name, y, bound):
    """a feasible and bounded linear program is solved to optimality"""
    E.oblig(name + ": the program has a solution", r.feasible(y))
    z = E.fresh_fun("I", "R", "other")
    o = r.obj(z)
    E.oblig(name + ": the program is bounded", Implies(r.feasible(z), o >= bound if r.prog.attrs["#sense"] == "min" else o <= bound))
    E.fact(r.st == strconst("optimal"))
