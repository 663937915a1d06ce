"""C12: generated certificates are accepted by the check, and found when one exists"""
from specs.common import *
from specs.lp import *
from specs.c11 import arbitrary_rf, conditions, CE


def unit(mode, sense):
    def run(E):
        rf, st = arbitrary_rf(E)
        C, N, A, b, init = st["C"], st["N"], st["A"], st["b"], st["init"]
        progs, checks = [], []
        con = E.contracts
        E.contracts = dict(con, **lp_contracts(E, progs))
        zform = (mode == "max") == (sense in ("<=", "<"))
        low = sense in ("<=", "<")
        D = N if zform else C
        t, tol = const(E, "R", "t"), const(E, "R", "tol")
        E.fact(And(0 <= t, t <= 1, tol > 0))

        def check(E, f, reach_form, m, s, threshold, vec, tol=None):
            if not isinstance(vec, VecV):
                raise Unsupported("certificate is not a vector")
            E.oblig("the vector checked has the right dimension", lift(vec.n, "I") == D)
            E.oblig("the check is about the same form and kind of bound", BoolVal(reach_form is rf and m == mode and s == sense))
            E.oblig("the check uses the same threshold", real(threshold) == t)
            tl = real(tol) if tol is not None else RealVal("0.00000001")
            c, _ = conditions(E, st, mode, sense, t, vec.at, tl)
            acc = E.fresh("B", "accepted")
            E.fact(acc == c)
            checks.append((acc, vec, vec.at, tl))
            return acc
        E.contracts[CE + ":check_farkas_certificate"] = check
        ok, v = no_exception(E, lambda: E.call(fun(E, CE, "generate_farkas_certificate"), [rf, mode, sense, t], {"tol": tol}))
        if not ok:
            return
        if not checks:
            raise Unsupported("the result is not checked")
        acc, vec, at, tl = checks[-1]
        i = const(E, "I", "i")
        E.oblig("the check uses the same tolerance", tl == tol)
        if v is not None:
            if not isinstance(v, VecV):
                raise Unsupported("result is not a vector")
            E.oblig("a returned vector is accepted by the check", acc)
            E.oblig("the returned vector has the right dimension", lift(v.n, "I") == D)
            E.oblig("the returned vector is the one checked", Implies(And(0 <= i, i < D), v.at(i) == at(i)))
            return
        # nothing is returned: then no exact certificate exists.  Suppose x is one
        if not progs or not progs[-1].solves:
            raise Unsupported("no linear program is solved")
        r = progs[-1].solves[-1]
        n0 = len(E.pc)
        x = E.fresh_fun("I", "R", "certificate")
        e = E.fresh_fun("I", "R", "extended")
        # a nonnegative exact certificate: what the Farkas lemma yields when the bound holds
        c, _ = conditions(E, st, mode, "<=" if low else ">=", t, x, RealVal(0))
        E.fact(c)
        dj = lambda j: And(0 <= j, j < D)
        E.fact(quant(E, "I", lambda j: Implies(dj(j), x(j) >= 0)))
        E.fact(quant(E, "I", lambda j: e(j) == If(dj(j), x(j), RealVal(0))))
        ext(E, st, zform, D, x, e, "certificate")
        program_rows(E, st, r.prog, zform, low, D, e, "certificate")
        for kk, cc in cons_elems(E, r.prog):
            E.oblig("a certificate gives a solution of the program", Implies(kk, cc(e)))
        E.fact(r.feasible(e))
        E.fact(r.st == strconst("optimal"))         # solver contract: feasible and bounded
        optimal(E, r, e)
        s = r.x(D)
        E.oblig("the program minimises the violation", And(r.obj(e) == (0 if r.prog.attrs["#sense"] == "min" else 0), BoolVal(r.prog.attrs["#sense"] == "min")))
        lemma(E, "the optimal violation is not positive", s <= 0)
        program_rows(E, st, r.prog, zform, low, D, r.x, "solution")
        # then the solution is a certificate
        c2, _ = conditions(E, st, mode, sense, t, r.x, tol)
        E.oblig("the vector checked is the solution of the program", Implies(dj(i), at(i) == r.x(i)))
        sums(E, st, zform, D, at, r.x)
        k = const(E, "I", "k")
        E.oblig("the solution is not negative", Implies(dj(k), r.x(k) >= 0))
        E.fact(quant(E, "I", lambda j: Implies(dj(j), r.x(j) >= 0)))
        row, rhs, nr = rows(E, st, zform)
        E.oblig("the solution satisfies every row", Implies(And(0 <= k, k < nr), row(k, r.x) >= rhs(k) if low else row(k, r.x) <= rhs(k)))
        E.fact(quant(E, "I", lambda k: Implies(And(0 <= k, k < nr), row(k, r.x) >= rhs(k) if low else row(k, r.x) <= rhs(k))))
        v1 = value(E, st, zform, r.x)
        lemma(E, "the solution meets the threshold", v1 <= t if low else v1 >= t)
        if mode == "min":
            sidx = (lambda i: i) if zform else st["ix"].st
            E.oblig("the solution is 0 in proper end components", Implies(And(dj(k), st["ec"](sidx(k))), r.x(k) == 0))
            E.fact(quant(E, "I", lambda k: Implies(And(dj(k), st["ec"](sidx(k))), r.x(k) == 0)))
        E.oblig("when a certificate exists, one is returned", acc)
        del E.pc[n0:]
    return Unit("generate[%s %s]" % (mode, sense), [CE + ":generate_farkas_certificate", CE + ":find_interior_point", CE + ":__get_right_constraint_set"], run)


def rows(E, st, zform):
    C, N, A, b, init = st["C"], st["N"], st["A"], st["b"], st["init"]
    if zform:
        return (lambda i, x: sum_over(E, N, lambda j: A((i, j)) * x(j))), b, C
    return (lambda i, x: sum_over(E, C, lambda j: A((j, i)) * x(j))), (lambda i: If(i == init, RealVal(1), RealVal(0))), N


def value(E, st, zform, x):
    return x(st["init"]) if zform else sum_over(E, st["C"], lambda j: st["b"](j) * x(j))


def program_rows(E, st, prog, zform, low, D, x, what):
    """the rows of the program at x: the rows of the constraint system minus the violation"""
    ps = [p for k, p in prog.attrs["#cons"].iterate() if k == "dom" and p.elem(const(E, p.sh, "p"))[0].row is not None]
    if len(ps) != 1 or ps[0].sh != "I":
        raise Unsupported("program of another form")
    C, N, A, b, init = st["C"], st["N"], st["A"], st["b"], st["init"]
    sg = RealVal(-1) if low else RealVal(1)
    n = C if zform else N
    d0, d1 = (lambda j: And(0 <= j, j < D)), (lambda j: And(0 <= j, j < D + 1))
    m = (lambda k, j: A((k, j))) if zform else (lambda k, j: A((j, k)))
    last = (lambda j: If(j == init, RealVal(-1), RealVal(0))) if zform else (lambda j: -b(j))
    row, _, _ = rows(E, st, zform)

    def one(name, k, F, hyp, total):
        M = ps[0].elem(k)[0].row[1]
        n0 = len(E.pc)
        E.fact(hyp)
        t = lambda j: real(M((k, j))) * x(j)
        t1, t2 = (lambda j: If(j < D, sg * F(j) * x(j), RealVal(0))), (lambda j: If(j == D, -x(D), RealVal(0)))
        sum_add(E, "%s, %s: coefficients" % (what, name), "I", d1, t, t1, t2)
        sum_split(E, "%s, %s: variables of the certificate" % (what, name), "I", d1, t1, d0, lambda j: sg * F(j) * x(j))
        sum_point(E, "%s, %s: the violation" % (what, name), "I", d1, t2, D)
        g = ps[0].elem(k)[0].val(x) == sg * total - x(D)
        E.oblig("%s: a row of the program (%s) is that of the constraint system minus the violation" % (what, name), g)
        del E.pc[n0:]
        return g
    k = const(E, "I", "k")
    one("row", k, lambda j: m(k, j), And(0 <= k, k < n), row(k, x))
    kk = E.fresh_flat("I", "k")[0]
    E.fact(forall([kk], Implies(And(0 <= kk, kk < n), ps[0].elem(kk)[0].val(x) == sg * row(kk, x) - x(D))))
    tot = sum_over(E, D, lambda j: last(j) * x(j))
    kn = const(E, "I", "last")
    E.fact(kn == n)
    g = one("threshold row", kn, last, BoolVal(True), tot)
    E.fact(g)
    if zform:
        sum_point(E, "%s: the initial state" % what, "I", d0, lambda j: last(j) * x(j), init)
    else:
        sum_add(E, "%s: the value" % what, "I", d0, lambda j: RealVal(0), lambda j: b(j) * x(j), lambda j: last(j) * x(j))


def ext(E, st, zform, D, x, e, what):
    """the extended assignment agrees with the certificate in every row"""
    row, rhs, n = rows(E, st, zform)
    k = const(E, "I", "k")
    dj = lambda j: And(0 <= j, j < D)
    m = (lambda k, j: st["A"]((k, j))) if zform else (lambda k, j: st["A"]((j, k)))
    sum_ext(E, "%s: rows of the program" % what, "I", dj, lambda j: m(k, j) * e(j), lambda j: m(k, j) * x(j))
    E.fact(quant(E, "I", lambda k: row(k, e) == row(k, x)))
    if not zform:
        sum_ext(E, "%s: value" % what, "I", dj, lambda j: st["b"](j) * e(j), lambda j: st["b"](j) * x(j))


def sums(E, st, zform, D, a, x):
    """the checked vector has the sums of the solution"""
    row, rhs, n = rows(E, st, zform)
    dj = lambda j: And(0 <= j, j < D)
    m = (lambda k, j: st["A"]((k, j))) if zform else (lambda k, j: st["A"]((j, k)))
    k = const(E, "I", "k")
    E.fact(quant(E, "I", lambda j: Implies(dj(j), a(j) == x(j))))
    sum_ext(E, "rows of the checked vector", "I", dj, lambda j: m(k, j) * a(j), lambda j: m(k, j) * x(j))
    E.fact(quant(E, "I", lambda k: row(k, a) == row(k, x)))
    if not zform:
        sum_ext(E, "value of the checked vector", "I", dj, lambda j: st["b"](j) * a(j), lambda j: st["b"](j) * x(j))


UNITS = [unit(m, s) for m in ("min", "max") for s in ("<=", "<", ">=", ">")]
