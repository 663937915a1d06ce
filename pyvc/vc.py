"""pyvc: verification conditions -- axioms of sums and cardinalities, SMT-LIB dumps, discharge by z3 / cvc5."""
import os, subprocess, tempfile, time
from values import *
import z3

CVC5 = "/opt/veriftools/bin/cvc5"


def closure(E, exprs):
    """registered sums / cardinalities whose symbol occurs (transitively through bodies) in exprs"""
    names = set()
    for e in exprs:
        decls_in(e, names)
    tab = {}
    for kind, t in (("S", E.sums), ("C", E.cards)):
        for key, (d, pc, canon, body) in t.items():
            dn = d.name() if hasattr(d, "arity") else d.decl().name()
            tab[dn] = (kind, d, pc, canon, body)
    out, todo = {}, [n for n in names if n in tab]
    while todo:
        n = todo.pop()
        if n in out:
            continue
        out[n] = tab[n]
        for m in decls_in(tab[n][4]):
            if m in tab and m not in out:
                todo.append(m)
    return out


def ren(entry, tag):
    kind, d, pc, canon, body = entry
    p2 = [Const("%s%d!%s" % (tag, i, p.sort()), p.sort()) for i, p in enumerate(pc)]
    app = d(*p2) if p2 else d
    return app, p2, (lambda bs: substitute(body, *(list(zip(pc, p2)) + list(zip(canon, bs)))))


def bvars(canon, tag):
    return [Const("%s%d:%s" % (tag, i, b.sort()), b.sort()) for i, b in enumerate(canon)]


def wit(name, ps, canon):
    out = []
    for i, b in enumerate(canon):
        if ps:
            out.append(Function("%s.%d" % (name, i), *[p.sort() for p in ps], b.sort())(*ps))
        else:
            out.append(Const("%s.%d" % (name, i), b.sort()))
    return out


def fa(vs, body, pats=None):
    if not vs:
        return body
    try:
        return ForAll(vs, body, patterns=pats) if pats else ForAll(vs, body)
    except z3.Z3Exception:
        return ForAll(vs, body)


def pat(*apps):
    apps = [a for a in apps if a.num_args() > 0]
    if not apps:
        return None
    return [z3.MultiPattern(*apps) if len(apps) > 1 else apps[0]]


def zero(e):
    return RealVal(0) if is_real(e) else IntVal(0)


def measure_axioms(E, exprs):
    cl = closure(E, exprs)
    out = []
    names = sorted(cl)
    for n in names:
        en = cl[n]
        kind, d, pc, canon, body = en
        app, p, bod = ren(en, "p")
        bs = bvars(canon, "b")
        if kind == "S":
            w = wit("wz." + n, p, canon)
            out.append(fa(p, Or(app == zero(app), bod(w) != 0), pat(app)))
            w = wit("wn." + n, p, canon)
            out.append(fa(p, Or(app >= 0, bod(w) < 0), pat(app)))
            # nonnegative terms: the sum is at least every term
            out.append(fa(p + bs, Or(bod(w) < 0, app >= bod(bs))))
        else:
            w1, w2 = wit("w1." + n, p, canon), wit("w2." + n, p, canon)
            out.append(fa(p, app >= 0, pat(app)))
            out.append(fa(p, Implies(app >= 1, bod(w1)), pat(app)))
            out.append(fa(p + bs, Implies(bod(bs), app >= 1)))
            b2 = bvars(canon, "c")
            out.append(fa(p, Implies(app >= 2, And(bod(w1), bod(w2), Or(*[x != y for x, y in zip(w1, w2)]))), pat(app)))
            out.append(fa(p + bs + b2, Implies(And(app <= 1, bod(bs), bod(b2)), And(*[x == y for x, y in zip(bs, b2)]))))
    for i, n in enumerate(names):
        for m in names[i:]:
            a, b = cl[n], cl[m]
            if a[0] != b[0] or [str(x.sort()) for x in a[3]] != [str(x.sort()) for x in b[3]]:
                continue
            if n == m and not a[2]:
                continue
            app, p, bod = ren(a, "p")
            app2, p2, bod2 = ren(b, "r")
            w = wit("wd.%s.%s" % (n, m), p + p2, a[3])
            d1, d2 = bod(w), bod2(w)
            if is_real(app) != is_real(app2):
                continue
            out.append(fa(p + p2, Or(app == app2, d1 != d2), pat(app, app2)))
            if n != m:
                for (x, y, fx, fy, k) in ((app, app2, bod, bod2, "l"), (app2, app, bod2, bod, "g")):
                    w = wit("w%s.%s.%s" % (k, n, m), p + p2, a[3])
                    bad = fx(w) > fy(w) if a[0] == "S" else And(fx(w), Not(fy(w)))
                    out.append(fa(p + p2, Or(x <= y, bad), pat(app, app2)))
    for f in getattr(E, "measure_hooks", []):
        out += f(E, cl)
    return out


def filter_hyps(hyps, goal, rounds):
    names = decls_in(goal)
    hn = [(h, decls_in(h)) for h in hyps]
    used = [False] * len(hn)
    for _ in range(rounds):
        new = set()
        for i, (h, ns) in enumerate(hn):
            if not used[i] and (ns & names or not ns):
                used[i] = True
                new |= ns
        names |= new
    return [h for (h, _), u in zip(hn, used) if u]


def ground_terms(goal, limit=14):
    """ground terms of the goal to instantiate quantified hypotheses with: constants first, then applications"""
    out, seen, todo = [], set(), [goal]
    while todo:
        e = todo.pop(0)
        if e.get_id() in seen or z3.is_quantifier(e) or not z3.is_app(e):
            continue
        seen.add(e.get_id())
        if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and not z3.is_bool(e) and not has_var(e):
            out.append(e)
        todo += e.children()
    out.sort(key=lambda e: e.num_args() > 0)
    return out[:limit]


def has_var(e):
    return z3.is_var(e) or any(has_var(c) for c in e.children())


def instances(hyps, goal):
    """ground instances of the hypotheses quantified over one or two variables, at the terms of the goal"""
    ts = ground_terms(goal)
    cs = [t for t in ts if t.num_args() == 0][:6]
    out = []
    for h in hyps:
        if not (z3.is_quantifier(h) and h.is_forall()):
            continue
        n = h.num_vars()
        if n == 1:
            out += [z3.substitute_vars(h.body(), t) for t in ts if t.sort() == h.var_sort(0)]
        elif n == 2:
            out += [z3.substitute_vars(h.body(), u, t) for t in cs for u in cs if t.sort() == h.var_sort(0) and u.sort() == h.var_sort(1)]
    return out


def dump(hyps, goal):
    s = z3.Solver()
    s.add(*hyps)
    s.add(neg(goal))
    return s.to_smt2()


def solve_z3(smt, timeout, opts):
    ctx = z3.Context()
    s = z3.Solver(ctx=ctx)
    s.set("timeout", int(timeout * 1000))
    for k, v in opts.items():
        s.set(k, v)
    s.from_string(smt)
    r = s.check()
    return str(r), s


def solve_cvc5(smt, timeout):
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write("(set-logic ALL)\n" + smt)
    try:
        exe = CVC5 if os.path.exists(CVC5) else "cvc5"
        r = subprocess.run([exe, "--tlimit=%d" % int(timeout * 1000), "--full-saturate-quant", f.name], capture_output=True, text=True, timeout=timeout + 5)
        return r.stdout.strip().split("\n")[0] if r.stdout.strip() else "unknown"
    except subprocess.TimeoutExpired:
        return "unknown"
    finally:
        os.unlink(f.name)


CONFIGS = [("z3", {}, 1), ("z3:noMBQI", {"smt.mbqi": False}, 1), ("z3:seed", {"smt.random_seed": 7}, 1), ("z3:arith2", {"smt.arith.solver": 2}, 1),
           ("z3:relevancy0", {"smt.relevancy": 0}, 1)]


def discharge(task):
    """task: (name, [smt variants], budget seconds, round) -> (name, status, backend, time, model)"""
    name, smts, budget, rnd = task
    t0 = time.time()
    err = None
    for k, smt in enumerate(smts):
        for cname, opts, w in CONFIGS[:2] if rnd == 0 else CONFIGS[:3]:
            if rnd and time.time() - t0 > 2.5 * budget:
                break
            try:
                r, s = solve_z3(smt, max(1.0, budget * (0.1 if rnd == 0 else 0.5)), opts)
            except z3.Z3Exception as ex:
                r = err = "error %s" % str(ex)[:80]
            if r == "unsat":
                return name, "proved", cname, time.time() - t0, None
            if r == "sat" and k:
                break       # hypotheses were left out
            if r == "sat":
                return name, "refuted", cname, time.time() - t0, str(s.model())[:3000]
    if rnd:
        for smt in smts[:1]:
            r = solve_cvc5(smt, budget)
            if r == "unsat":
                return name, "proved", "cvc5", time.time() - t0, None
    if err and "quoted symbol" in err:
        return name, "undecided", err, time.time() - t0, None
    return name, "unknown", "z3+cvc5", time.time() - t0, None


def canary(task):
    name, smt, budget = task
    try:
        r, _ = solve_z3(smt, budget, {})
    except z3.Z3Exception:
        r = "unknown"
    return name, r
