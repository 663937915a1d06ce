"""C11: check_farkas_certificate accepts exactly the vectors satisfying the certificate conditions"""
from specs.common import *
CE = "switss.certification.certificates"


def rf_contracts(E, st):
    """contract of the two constraint queries (C10)"""
    C, N = st["C"], st["N"]

    def z(E, f, self, threshold):
        t = real(threshold)
        M = MatV(E, simplify(C + 1), N, lambda q: If(q[0] < C, st["A"](q), If(q[1] == st["init"], RealVal(-1), RealVal(0))))
        return (M, VecV(E, simplify(C + 1), lambda i: If(i < C, st["b"](i), -t)))

    def y(E, f, self, threshold):
        t = real(threshold)
        M = MatV(E, simplify(N + 1), C, lambda q: If(q[0] < N, st["A"]((q[1], q[0])), -st["b"](q[1])))
        return (M, VecV(E, simplify(N + 1), lambda i: If(i < N, If(i == st["init"], RealVal(1), RealVal(0)), -t)))
    return z, y


def arbitrary_rf(E):
    C, N = nat(E, "C", 1), nat(E, "N", 1)
    init = const(E, "I", "init")
    E.fact(And(0 <= init, init < N))
    st = dict(C=C, N=N, init=init, A=E.fresh_fun(("I", "I"), "R", "A"), b=E.fresh_fun("I", "R", "b"))
    st["ec"] = E.fresh_fun("I", "B", "in_proper_ec")
    st["ix"] = sym_index(E, C, N)
    z, y = rf_contracts(E, st)
    E.contracts = {RF + ":ReachabilityForm.fark_z_constraints": z, RF + ":ReachabilityForm.fark_y_constraints": y,
                   RF + ":ReachabilityForm.in_proper_ec": lambda E, f, self, s: st["ec"](lift(s, "I"))}
    rf = rf_inst(E, _ReachabilityForm__index_by_state_action=st["ix"])
    return rf, st


def conditions(E, st, mode, sense, t, x, tol):
    """the certificate conditions, as the property states them"""
    C, N, A, b, init = st["C"], st["N"], st["A"], st["b"], st["init"]
    zform = (mode == "max") == (sense in ("<=", "<"))
    low = sense in ("<=", "<")      # upper bound on the probability
    i = E.fresh_flat("I", "i")[0]
    D = N if zform else C
    cs = []
    if zform:
        row = lambda i: sum_over(E, N, lambda j: A((i, j)) * x(j))
        rhs = b
        n = C
        val = x(init)
    else:
        row = lambda i: sum_over(E, C, lambda j: A((j, i)) * x(j))
        rhs = lambda i: If(i == init, RealVal(1), RealVal(0))
        n = N
        val = sum_over(E, C, lambda j: b(j) * x(j))
        cs.append(forall([i], Implies(And(0 <= i, i < C), x(i) >= -tol)))
    if low:
        cs.append(forall([i], Implies(And(0 <= i, i < n), row(i) >= rhs(i) - tol)))
        cs.append(val < t + tol if sense == "<" else val <= t + tol)
    else:
        cs.append(forall([i], Implies(And(0 <= i, i < n), row(i) <= rhs(i) + tol)))
        cs.append(val > t - tol if sense == ">" else val >= t - tol)
    if mode == "min":
        s = (lambda i: i) if zform else st["ix"].st
        cs.append(forall([i], Implies(And(0 <= i, i < D, st["ec"](s(i))), x(i) == 0)))
    return conj(cs), D


def unit(mode, sense):
    def run(E):
        rf, st = arbitrary_rf(E)
        zform = (mode == "max") == (sense in ("<=", "<"))
        D = st["N"] if zform else st["C"]
        x = symvec(E, D, "x")
        x0 = x.at
        t, tol = const(E, "R", "t"), const(E, "R", "tol")
        E.fact(And(0 <= t, t <= 1, tol >= 0))
        # the tolerance is additive on both sides: exactly the perturbation the statement allows
        ok, r = no_exception(E, lambda: E.call(fun(E, CE, "check_farkas_certificate"), [rf, mode, sense, t, x], {"tol": tol}))
        if not ok:
            return
        c, _ = conditions(E, st, mode, sense, t, x0, tol)
        r = bexpr(E.truth(r))
        E.oblig("an accepted vector satisfies the %s/%s certificate conditions" % (mode, sense), Implies(r, c))
        E.oblig("a vector satisfying the %s/%s certificate conditions is accepted" % (mode, sense), Implies(c, r))
        i = const(E, "I", "i")
        E.oblig("the vector is not changed", x.at(i) == x0(i))
    return Unit("check[%s %s]" % (mode, sense), [CE + ":check_farkas_certificate", CE + ":__get_right_constraint_set"], run)


def run_threshold(E):
    rf, st = arbitrary_rf(E)
    mode, sense = "min", "<="
    x = symvec(E, st["C"], "x")
    t = const(E, "R", "t")
    E.fact(Or(t < 0, t > 1))
    r, _ = expect(E, lambda: E.call(fun(E, CE, "check_farkas_certificate"), [rf, mode, sense, t, x], {}))
    E.oblig("a threshold outside [0,1] is rejected", BoolVal(r == "AssertionError"))


UNITS = [unit(m, s) for m in ("min", "max") for s in ("<=", "<", ">=", ">")] + [Unit("check[threshold]", [CE + ":check_farkas_certificate"], run_threshold)]
