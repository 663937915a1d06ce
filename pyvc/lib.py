"""pyvc library model: contracts (assumed) of Python builtins, numpy, scipy.sparse and bidict, over the values of pyvc.

Everything here is trusted and listed in the evidence: the functions below say what the external functions return.
Code of /repo is never described here; it is loaded from the source files on every run."""
import ast, os, re, zlib
from values import *
from objs import *
import objs
from engine import (FuncV, ClassV, BoundM, Module, Frame, CDict, Super, disj_py)

EXTERNAL = {"numpy", "scipy", "bidict", "pulp", "collections", "abc", "graphviz", "os", "tempfile", "re", "copy", "gurobipy",
            "subprocess", "shutil", "time", "itertools", "math", "cvxopt", "termcolor", "random", "functools", "typing", "warnings",
            "libc", "libcpp", "json", "sys", "operator", "contextlib"}
PYX = {"switss.utils.graph", "switss.utils.treaps", "switss.utils.stack", "switss.utils.tree_decomp"}


class Lib:
    def __init__(self, E):
        self.E = E
        self.externals = {}      # name -> function(E, *args, **kw)
        self.trusted = set()

    def T(self, what):
        self.trusted.add(what)

    # ------------------------------------------------------------------------------------------ modules
    def path_of(self, name):
        p = os.path.join(self.E.repo, *name.split("."))
        for c in (p + ".py", os.path.join(p, "__init__.py")):
            if os.path.exists(c):
                return c
        return None

    def load_module(self, name):
        if name in PYX:
            import cyfront
            tree = cyfront.load(self.E.repo, name)
            return Module(name, "", tree)
        p = self.path_of(name)
        if p is None:
            raise Unsupported("module %s" % name)
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tree = ast.parse(open(p).read())
        return Module(name, p, tree)

    def import_from(self, mod, modname, level, name):
        if level:
            base = mod.name.split(".")
            if not mod.path.endswith("__init__.py"):
                base = base[:-1]
            base = base[:len(base) - (level - 1)]
            full = ".".join(base + ([modname] if modname else []))
        else:
            full = modname
        root = full.split(".")[0]
        if root in EXTERNAL:
            return Named(full + "." + name)
        if full in PYX and name in ("Graph",):
            return Named(full + "." + name)
        if full == "switss.utils.treaps":
            return Named(full + "." + name)
        if full == mod.name:
            return self.E.global_lookup(mod, name)
        m = self.E.module(full)
        if name in m.defs or any(True for s in ast.walk(m.tree) if isinstance(s, ast.ImportFrom) and any((a.asname or a.name) == name for a in s.names)):
            return self.E.global_lookup(m, name)
        if self.path_of(full + "." + name):
            return ModV(self.E.module(full + "." + name))
        raise Unsupported("import %s from %s" % (name, full))

    def import_mod(self, name):
        if name.split(".")[0] in EXTERNAL:
            return Named(name)
        return ModV(self.E.module(name))

    # ------------------------------------------------------------------------------------------ builtins
    def builtin(self, name):
        f = getattr(self, "b_" + name, None)
        if f is not None:
            return Builtin(name, f)
        if name in ("ABC", "object", "Exception", "AssertionError", "KeyError", "ValueError", "RuntimeError", "StopIteration", "NotImplementedError"):
            return Named(name)
        if name.startswith("cy_"):
            import cmem
            f = cmem.get(self.E, name)
            return Builtin(name, f) if callable(f) else f
        return None

    def b_len(self, x):
        if isinstance(x, (tuple, str)):
            return len(x)
        if isinstance(x, Inst):
            m = x.cls.find(self.E, "__len__")
            if m:
                return self.E.call(m[0], [x])
        if hasattr(x, "length"):
            return x.length()
        raise Unsupported("len of %s" % type(x).__name__)

    def b_range(self, *a):
        lo, hi = (0, a[0]) if len(a) == 1 else a[:2]
        if len(a) > 2:
            raise Unsupported("range step")
        if isinstance(lo, int) and isinstance(hi, int) and hi - lo <= 6:
            return BagV(self.E, [("one", i) for i in range(lo, hi)])
        lo, hi = lift(lo, "I"), lift(hi, "I")
        return View(self.E, [("dom", range_dom(lo, hi))], lambda k: And(lo <= lift(k, "I"), lift(k, "I") < hi) if shape_ok(k, "I") else BoolVal(False),
                    lambda: simplify(If(hi > lo, hi - lo, IntVal(0))))

    def b_enumerate(self, x, start=0):
        ps = self.E.iterate(x)
        out = []
        n = start
        for k, p in ps:
            if k == "one":
                out.append(("one", (n, p)))
                n = n + 1
            else:
                pos, at, card = self.E.enumeration(p)
                n0 = n
                d = Domain(p.sh, p.mem, (lambda p, pos, n0: lambda q: (simplify(lift(n0, "I") + pos(q)), p.elem(q)))(p, pos, n0), pos, at, card, p.name, p.lo, p.hi, p.owner)
                out.append(("dom", d))
                n = n + card
        return View(self.E, out)

    def b_zip(self, *xs):
        E = self.E
        ls = [E.iterate(x) for x in xs]
        if all(all(k == "one" for k, _ in l) for l in ls):
            return BagV(E, [("one", tuple(p for _, p in t)) for t in zip(*ls)])
        if any(len(l) != 1 or l[0][0] != "dom" for l in ls):
            raise Unsupported("zip")
        ds = [l[0][1] for l in ls]
        pos, at, card = E.enumeration(ds[0])
        others = [E.enumeration(d) for d in ds[1:]]
        same_len = all(E.implied(o[2] == card) for o in others)
        d0 = ds[0]
        mem = d0.mem if same_len else (lambda q: And(d0.mem(q), *[pos(q) < o[2] for o in others]))
        elem = lambda q: (d0.elem(q),) + tuple(d.elem(o[1](pos(q))) for d, o in zip(ds[1:], others))
        if same_len:
            return View(E, [("dom", Domain(d0.sh, mem, elem, pos, at, card, d0.name, d0.lo, d0.hi))])
        return View(E, [("dom", Domain(d0.sh, mem, elem, pos, at, None, d0.name))])

    def b_list(self, x=None):
        if x is None:
            return BagV(self.E)
        return BagV(self.E, self.E.iterate(x))

    def b_tuple(self, x=()):
        ps = self.E.iterate(x)
        if all(k == "one" for k, _ in ps):
            return tuple(p for _, p in ps)
        return BagV(self.E, ps)

    def b_set(self, x=None):
        E = self.E
        if x is None:
            return SetV(E)
        if isinstance(x, (SetV, SetView)):
            return x.copy()
        if isinstance(x, View) and x.card_of is not None and x.card_of[0] == "values":
            o = x.card_of[1]
            if isinstance(o, DictV):
                if o.bi:
                    r = SetV(E, o.vsh, o.idom)
                    r.size = (r.mem, o.length())
                    return r
        s = SetV(E)
        for k, p in E.iterate(x):
            if k == "one":
                s.add(p)
            else:
                v = p.elem(E.generic(p.sh))
                if s.sh is None:
                    s.sh = shape_of(v)
                b = E.fresh_flat(p.sh, "b")
                kk = unflat(b, p.sh)
                e = Entry(s, "add", lift(p.elem(kk), s.sh), None, bound=b, mems=[p.mem(kk)])
                s.mem, _ = E.resolve_pred(s.sh, s.mem, [e], lambda e: flat(e.key, s.sh), [])
        return s

    b_frozenset = b_set

    def b_dict(self, x=None, **kw):
        if kw:
            return CDict(kw)
        if x is None:
            return AnyDict(self.E)
        if isinstance(x, (AnyDict, RelDict, DictV)):
            c = x.copy()
            c.default = None
            return c
        if isinstance(x, CDict):
            return CDict(x.d)
        raise Unsupported("dict(...)")

    def b_sum(self, x, start=0):
        E = self.E
        r = start
        for k, p in E.iterate(x):
            if k == "one":
                r = self.binop(ast.Add(), r, p)
            else:
                b = E.fresh_flat(p.sh, "b")
                kk = unflat(b, p.sh)
                t = p.elem(kk)
                if is_expr(t) and is_bool(t):
                    t = lift(t, "I")
                if not is_expr(t):
                    t = lift(t, shape_of(t))
                s = E.sum(b, p.mem(kk), t)
                r = s if isinstance(r, int) and r == 0 else self.binop(ast.Add(), r, s)
        return r

    def extremum(self, x, big):
        E = self.E
        ones, doms = [], []
        for k, p in E.iterate(x):
            (ones if k == "one" else doms).append(p)
        if not doms:
            if not ones:
                raise SymRaise("ValueError", "empty min/max")
            r = ones[0]
            ones = [y.get() if isinstance(y, Opt) else y for y in ones]
            r = ones[0]
            for y in ones[1:]:
                if not is_expr(r) and not is_expr(y):
                    r = max(r, y) if big else min(r, y)
                    continue
                c = real(r) >= real(y) if big else real(r) <= real(y)
                r = merge(c, r, y)
            return r
        sh = "R"
        cmp = (lambda a, b: a >= b) if big else (lambda a, b: a <= b)
        m = E.fresh(sh, "max" if big else "min")
        alts = [m == real(o) for o in ones]
        for o in ones:
            E.fact(cmp(m, real(o)))
        for d in doms:
            b = E.fresh_flat(d.sh, "b")
            k = unflat(b, d.sh)
            E.fact(forall(b, Implies(d.mem(k), cmp(m, real(d.elem(k))))))
            w = E.fresh(d.sh, "w")
            alts.append(And(d.mem(w), m == real(d.elem(w))))
        if not ones:
            b = E.fresh_flat(doms[0].sh, "b")
            if not E.decide(z3.Exists(b, doms[0].mem(unflat(b, doms[0].sh)))):
                raise SymRaise("ValueError", "empty min/max")
        E.fact(disj(alts))
        return m

    def b_min(self, *a):
        return self.extremum(a[0] if len(a) == 1 else tuple(a), False)

    def b_max(self, *a):
        return self.extremum(a[0] if len(a) == 1 else tuple(a), True)

    def b_abs(self, x):
        if isinstance(x, VecV):
            return self.vmap1(x, lambda t: If(t >= 0, t, -t))
        if not is_expr(x):
            return abs(x)
        return If(x >= 0, x, -x)

    def b_isinstance(self, x, t):
        ts = t if isinstance(t, tuple) else (t,)
        for y in ts:
            if isinstance(y, ClassV):
                if isinstance(x, Inst) and x.cls.issub(self.E, y.name):
                    return True
                continue
            n = y.name.split(".")[-1]
            if isinstance(x, bool) or (is_expr(x) and is_bool(x)):
                if n in ("bool", "int"):
                    return True
            elif isinstance(x, int) or (is_expr(x) and is_int(x)):
                if n == "int":
                    return True
            elif isinstance(x, float) or (is_expr(x) and is_real(x)):
                if n == "float":
                    return True
            elif isinstance(x, str) or (is_expr(x) and x.sort() == Obj):
                if n == "str":
                    return True
            elif isinstance(x, tuple):
                if n == "tuple":
                    return True
            elif hasattr(x, "isinst"):
                if x.isinst([n]):
                    return True
            elif isinstance(x, (Inst, ClassV)) or x is None:
                pass
            else:
                raise Unsupported("isinstance of %s" % type(x).__name__)
        return False

    def b_type(self, x):
        if isinstance(x, Inst):
            return x.cls
        if isinstance(x, (SetV, SetView)):
            return Builtin("set", self.b_set)
        if hasattr(x, "PYTYPES") and x.PYTYPES:
            return Named(x.PYTYPES[0])
        return Opaque("type")

    def b_hasattr(self, x, n):
        try:
            self.E.getattr(x, n)
            return True
        except SymRaise:
            return False

    def b_int(self, x=0):
        if isinstance(x, (int, float)):
            return int(x)
        if is_expr(x):
            if is_real(x):
                return If(x >= 0, ToInt(x), -ToInt(-x))
            if x.sort() == Obj:
                return self.unop_str("int", x, "I")
            return lift(x, "I")
        if hasattr(x, "as_int"):
            return x.as_int()
        if isinstance(x, str):
            return int(x)
        raise Unsupported("int()")

    def b_float(self, x=0.0):
        if isinstance(x, (int, float)):
            return float(x)
        if is_expr(x):
            if x.sort() == Obj:
                return self.unop_str("float", x, "R")
            return real(x)
        if hasattr(x, "as_float"):
            return x.as_float()
        raise Unsupported("float()")

    def unop_str(self, fn, x, sh):
        raise Unsupported("%s of a symbolic string" % fn)

    def b_bool(self, x=False):
        return self.E.truth(x)

    def b_str(self, x=""):
        if isinstance(x, (str, int)):
            return str(x)
        if is_expr(x) and x.sort() == Obj:
            return x
        if is_expr(x) and is_int(x):
            return self.fmt("%s", [x])
        return Opaque("str")

    def b_repr(self, x):
        return Opaque("repr")

    def b_print(self, *a, **k):
        return None

    def b_iter(self, x):
        return IterV(self.E, x)

    def b_next(self, it, *dflt):
        E = self.E
        if isinstance(it, BagV):
            it = IterV(E, it)
        if not isinstance(it, IterV) or it.used:
            raise Unsupported("next")
        it.used = True
        ps = E.iterate(it.x)
        if len(ps) == 1 and ps[0][0] == "dom":
            d = ps[0][1]
            b = E.fresh_flat(d.sh, "b")
            if not E.decide(z3.Exists(b, d.mem(unflat(b, d.sh)))):
                if dflt:
                    return dflt[0]
                raise SymRaise("StopIteration")
            pos, at, card = E.enumeration(d)
            E.fact(card >= 1)
            return d.elem(at(IntVal(0)))
        if ps and ps[0][0] == "one":
            return ps[0][1]
        if not ps:
            if dflt:
                return dflt[0]
            raise SymRaise("StopIteration")
        raise Unsupported("next")

    def b_any(self, x):
        return self.anyall(x, False)

    def b_all(self, x):
        return self.anyall(x, True)

    def anyall(self, x, isall):
        E = self.E
        out = []
        for k, p in E.iterate(x):
            if k == "one":
                out.append(bexpr(E.truth(p)))
            else:
                b = E.fresh_flat(p.sh, "b")
                kk = unflat(b, p.sh)
                t = bexpr(E.truth(p.elem(kk)))
                out.append(ForAll(b, Implies(p.mem(kk), t)) if isall else z3.Exists(b, And(p.mem(kk), t)))
        return conj(out) if isall else disj(out)

    def b_map(self, f, x):
        E = self.E
        out = BagV(E)
        for k, p in E.iterate(x):
            if k == "one":
                out.append(E.call(f, [p]))
            else:
                fr = Frame(None, {}, None)
                st = {}
                E.domloop(fr, p, lambda v: st.__setitem__("v", v), lambda: out.append(E.call(f, [st["v"]])), [], None)
        return out

    def b_reversed(self, x):
        if isinstance(x, tuple):
            return tuple(reversed(x))
        return BagV(self.E, list(reversed([p if p[0] == "one" else ("dom", strip_order(p[1])) for p in self.E.iterate(x)])))

    def b_sorted(self, x, **kw):
        # the same elements in some order
        return BagV(self.E, [p if p[0] == "one" else ("dom", strip_order(p[1])) for p in self.E.iterate(x)])

    def b_filter(self, f, x):
        raise Unsupported("filter")

    def b_open(self, path, mode="r"):
        if "open" in self.externals:
            return self.externals["open"](self.E, path, mode)
        raise Unsupported("open")

    # ------------------------------------------------------------------------------------------ external names
    def named_attr(self, o, name):
        full = o.name + "." + name
        if full in ("numpy.inf",):
            return float("inf")
        if full in self.externals or self.known(full):
            return Named(full)
        if name == "__name__":
            return o.name.split(".")[-1]
        return Named(full)

    def known(self, full):
        return False

    def call_named(self, f, args, kw):
        n = f.name
        if n in self.externals:
            return self.externals[n](self.E, *args, **kw)
        short = n
        for pre, rep in (("numpy.", "np_"), ("scipy.sparse.", "sp_"), ("collections.", "col_"), ("bidict.", "bi_")):
            if n.startswith(pre):
                m = getattr(self, rep + n[len(pre):].replace(".", "_"), None)
                if m is not None:
                    self.T(n)
                    return m(*args, **kw)
        if n.split(".")[-1] in ("VisualizationConfig", "DTMCVisualizationConfig"):
            return Opaque(n)
        raise Unsupported("external %s" % n)

    def col_defaultdict(self, f=None, *a):
        if isinstance(f, Builtin) and f.name == "set":
            return AnyDict(self.E, default="set")
        raise Unsupported("defaultdict")

    def col_deque(self, x=(), maxlen=None):
        return DequeV(self.E, x, maxlen)

    def bi_bidict(self, d=None):
        if d is None:
            return AnyDict(self.E, bi=True)
        if isinstance(d, DictV):
            if d.bi:
                return d.copy()
            raise Unsupported("bidict of a dict")
        if isinstance(d, InvView):
            return d.copy()
        if isinstance(d, AnyDict):
            return AnyDict(self.E, bi=True)
        raise Unsupported("bidict(...)")

    # ------------------------------------------------------------------------------------------ numpy
    def shape1(self, shape):
        if isinstance(shape, tuple):
            if len(shape) == 1:
                return shape[0]
            raise Unsupported("matrix shape")
        return shape

    def dtype(self, dtype):
        if dtype is None:
            return "R"
        n = dtype.name.split(".")[-1] if isinstance(dtype, (Named, Builtin)) else str(dtype)
        if n in ("bool", "bool_"):
            return "B"
        if n in ("int", "int32", "int64", "i", "intc"):
            return "I"
        return "R"

    def np_dtype(self, x):
        return Named("numpy.dtype." + (x if isinstance(x, str) else x.name))

    def np_zeros(self, shape, dtype=None):
        return self.np_full(shape, 0, dtype)

    def np_ones(self, shape, dtype=None):
        return self.np_full(shape, 1, dtype)

    def np_full(self, shape, fill_value, dtype=None):
        k = self.dtype(dtype)
        if fill_value is None:
            return NoneVec(self.shape1(shape))
        v = lift(fill_value, k)
        if isinstance(shape, tuple) and len(shape) == 2:
            return MatV(self.E, shape[0], shape[1], lambda q: v, dense=True)
        n = self.shape1(shape)
        if not (isinstance(n, int) and n >= 0) and not self.E.decide(lift(n, "I") >= 0):
            raise SymRaise("ValueError", "negative dimensions")
        return VecV(self.E, n, lambda q: v, k)

    def np_zeros_like(self, v, dtype=None):
        if isinstance(v, VecV):
            z = lift(0, v.kind)
            return VecV(self.E, v.n, lambda q: z, v.kind)
        raise Unsupported("zeros_like")

    def np_arange(self, *a):
        lo, hi = (0, a[0]) if len(a) == 1 else a[:2]
        lo, hi = lift(lo, "I"), lift(hi, "I")
        return VecV(self.E, simplify(hi - lo), lambda q: q + lo, "I")

    def np_array(self, x, dtype=None, copy=True):
        E = self.E
        if isinstance(x, VecV):
            return x.copy()
        if isinstance(x, MatV):
            r = x.copy()
            r.dense = True
            return r
        if isinstance(x, tuple):
            x = BagV(E, [("one", y) for y in x])
        if isinstance(x, BagV):
            c = x.concrete()
            if c is not None:
                if len(c) == 1 and isinstance(c[0], VecV):
                    v = c[0]
                    return MatV(E, 1, v.n, lambda q: real(v.at(q[1])), dense=True)
                if all(is_scalar(y) and not isinstance(y, tuple) for y in c):
                    k = "R" if any(shape_of(y) == "R" for y in c) else ("B" if c and all(shape_of(y) == "B" for y in c) else "I")

                    def at(q):
                        r = lift(c[-1], k) if c else lift(0, k)
                        for i, y in reversed(list(enumerate(c[:-1]))):
                            r = If(q == i, lift(y, k), r)
                        return r
                    return VecV(E, len(c), at, k)
                raise Unsupported("np.array of objects")
            ps = x.iterate()
            if len(ps) == 1 and ps[0][0] == "dom":
                d = ps[0][1]
                pos, at, card = E.enumeration(d)
                k = shape_of(d.elem(E.generic(d.sh)))
                if isinstance(k, tuple):
                    raise Unsupported("np.array of tuples")
                return VecV(E, card, lambda q: lift(d.elem(at(q)), k), k)
        raise Unsupported("np.array of %s" % type(x).__name__)

    np_asarray = np_array

    def np_copy(self, x):
        return x.copy()

    def round9(self, x, d):
        f = Function("round:%s" % d, RealSort(), RealSort())
        E = self.E
        if isinstance(x, (int, float)):
            return round(x, d)
        self.T("numpy.round: within half a unit of the last kept digit, monotone, exact on multiples of it")
        if ("round", d) not in E.memo:
            E.memo[("round", d)] = 1
        half = RealVal("0." + "0" * d + "5")

        def ax(x):
            y = f(x)
            return And(y - x <= half, x - y <= half, Implies(x == 0, y == 0), Implies(x == 1, y == 1), Implies(x > half, y > 0), Implies(x <= half, y <= 0),
                       Implies(And(x >= 1 - half, x <= 1 + half), y == 1), Implies(Or(x > 1 + half, x < 1 - half), y != 1))
        if isinstance(x, VecV):
            at = x.at
            q = E.fresh_flat("I", "q")[0]
            E.fact(forall([q], Implies(And(0 <= q, q < lift(x.n, "I")), ax(real(at(q))))))
            return VecV(E, x.n, lambda q: f(real(at(q))), "R", x.col)
        x = real(x)
        E.fact(ax(x))
        return f(x)

    def np_round(self, x, decimals=0):
        return self.round9(x, decimals)

    np_around = np_round

    def np_min(self, x):
        return self.extremum(x, False)

    def np_max(self, x):
        return self.extremum(x, True)

    np_amin, np_amax = np_min, np_max

    def np_minimum(self, a, b):
        return self.extremum((a, b), False)

    def np_maximum(self, a, b):
        return self.extremum((a, b), True)

    def np_isfinite(self, x):
        return True

    def np_sum(self, x, **kw):
        if isinstance(x, (VecV, BagV)):
            return self.b_sum(x)
        raise Unsupported("np.sum")

    def np_count_nonzero(self, v):
        if not isinstance(v, VecV):
            raise Unsupported("count_nonzero")
        n, at = lift(v.n, "I"), v.at
        z = lift(0, v.kind) if v.kind != "B" else None
        return self.E.card("I", lambda i: And(0 <= i, i < n, at(i) if v.kind == "B" else at(i) != z))

    def np_any(self, v):
        return self.vec_any(v)

    def np_all(self, v):
        return self.vec_all(v)

    def np_logical_and(self, a, b):
        return self.vzip(self.tobool(a), self.tobool(b), lambda x, y: And(x, y), "B")

    def np_logical_or(self, a, b):
        return self.vzip(self.tobool(a), self.tobool(b), lambda x, y: Or(x, y), "B")

    def np_logical_not(self, a):
        return self.vmap1(self.tobool(a), lambda x: Not(x))

    def np_dot(self, a, b):
        return a.attr("dot")(b)

    def np_append(self, a, b):
        raise Unsupported("np.append")

    def np_concatenate(self, xs, **kw):
        raise Unsupported("np.concatenate")

    def np_where(self, *a):
        if len(a) == 3 and isinstance(a[0], VecV):
            c, x, y = a
            g = lambda v: (lambda q: real(v.at(q))) if isinstance(v, VecV) else (lambda q: real(v))
            gx, gy = g(x), g(y)
            return VecV(self.E, c.n, lambda q: If(lift(c.at(q), "B"), gx(q), gy(q)), "R")
        raise Unsupported("np.where")

    def tobool(self, v):
        if v.kind == "B":
            return v
        at, k = v.at, v.kind
        return VecV(self.E, v.n, lambda q: lift(at(q), "B"), "B")

    def vmap1(self, v, f, kind=None):
        at = v.at
        return VecV(self.E, v.n, lambda q: f(at(q)), kind or v.kind, v.col)

    def vzip(self, a, b, f, kind):
        if isinstance(a, VecV) and isinstance(b, VecV):
            if a.col != b.col:
                raise Unsupported("column/vector arithmetic")
            if not self.E.decide(lift(a.n, "I") == lift(b.n, "I")):
                raise SymRaise("ValueError", "shapes")
            fa, fb = a.at, b.at
            return VecV(self.E, a.n, lambda q: f(fa(q), fb(q)), kind, a.col)
        if isinstance(a, VecV):
            fa = a.at
            return VecV(self.E, a.n, lambda q: f(fa(q), b), kind, a.col)
        fb = b.at
        return VecV(self.E, b.n, lambda q: f(a, fb(q)), kind, b.col)

    # ------------------------------------------------------------------------------------------ vectors
    def vec_any(self, v):
        k = self.E.fresh_flat("I", "j")[0]
        return z3.Exists([k], And(0 <= k, k < lift(v.n, "I"), lift(v.at(k), "B")))

    def vec_all(self, v):
        k = self.E.fresh_flat("I", "j")[0]
        return ForAll([k], Implies(And(0 <= k, k < lift(v.n, "I")), lift(v.at(k), "B")))

    def vec_attr(self, v, name):
        E = self.E
        if name == "copy":
            return lambda: v.copy()
        if name == "shape":
            return (v.n, 1) if v.col else (v.n,)
        if name == "size":
            return v.n
        if name == "resize":
            def rs(n):
                n = self.shape1(n)
                oa, on = v.at, lift(v.n, "I")
                z = lift(0, v.kind)
                v.log("resize")
                v.at = lambda q: If(q < on, oa(q), z)
                v.n = n
            return rs
        if name in ("A1",):
            return VecV(E, v.n, v.at, v.kind)
        if name in ("flatten", "ravel"):
            return lambda *a: VecV(E, v.n, v.at, v.kind)
        if name == "A":
            return v
        if name == "all":
            return lambda: self.vec_all(v)
        if name == "any":
            return lambda: self.vec_any(v)
        if name == "sum":
            return lambda: self.b_sum(v)
        if name == "min":
            return lambda: self.extremum(v, False)
        if name == "max":
            return lambda: self.extremum(v, True)
        if name == "dot":
            def dot(o):
                if isinstance(o, VecV):
                    i = E.fresh_flat("I", "b")[0]
                    return E.sum([i], And(0 <= i, i < lift(v.n, "I")), real(v.at(i)) * real(o.at(i)))
                if isinstance(o, MatV):
                    return self.matvec(o, v, True)
                raise Unsupported("dot")
            return dot
        if name == "astype":
            def ast_(t):
                k = self.dtype(t)
                at = v.at
                return VecV(E, v.n, lambda q: lift(at(q), k), k)
            return ast_
        if name == "tolist":
            return lambda: BagV(E, v.iterate())
        if name == "nonzero":
            raise Unsupported("nonzero")
        if name == "todense" or name == "toarray":
            return lambda: v.copy()
        if name == "T":
            if not v.col:
                return v
            at = v.at
            return MatV(E, 1, v.n, lambda q: real(at(q[1])), dense=True)
        if name == "dtype":
            return Opaque("dtype")
        raise Unsupported("vector.%s" % name)

    # ------------------------------------------------------------------------------------------ matrices
    def matvec(self, m, v, left=False):
        E = self.E
        at, va = m.at, v.at
        M, N = lift(m.m, "I"), lift(m.n, "I")
        inner, outer = (M, m.n) if left else (N, m.m)
        if not E.decide(inner == lift(v.n, "I")):
            raise SymRaise("ValueError", "dimension mismatch")

        def f(q):
            j = E.fresh_flat("I", "b")[0]
            return E.sum([j], And(0 <= j, j < inner), (at((j, q)) if left else at((q, j))) * real(va(j)))
        return VecV(E, outer, f, "R")

    def mat_attr(self, m, name):
        E = self.E
        if name == "shape":
            return (m.m, m.n)
        if name == "items":
            return lambda: View(E, [("dom", m.items())], None, lambda: self.nnz(m))
        if name == "keys":
            return lambda: View(E, [("dom", Domain(("I", "I"), m.items().mem, name="ij"))], m.contains, lambda: self.nnz(m))
        if name == "values":
            d = m.items()
            return lambda: View(E, [("dom", Domain(("I", "I"), d.mem, lambda k: d.elem(k)[1], name="ij"))])
        if name == "copy":
            return lambda: m.copy()
        if name in ("todok", "tocsr", "tocsc", "tocoo", "tolil"):
            def conv():
                if name == "todok":
                    r = m.copy()
                    return r
                return m.copy()
            return conv
        if name in ("todense", "toarray", "A"):
            def dense():
                r = MatV(E, m.m, m.n, m.at, dense=True)
                if is_one(m.n):
                    return VecV(E, m.m, lambda q: m_at(m, q, 0), "R", col=True)
                return r
            return dense() if name == "A" else dense
        if name == "A1" and is_one(m.n):
            return VecV(E, m.m, (lambda at: lambda q: at((q, IntVal(0))))(m.at), "R")
        if name == "flatten" and is_one(m.n):
            return lambda: VecV(E, m.m, (lambda at: lambda q: at((q, IntVal(0))))(m.at), "R")
        if name == "T":
            at, nz = m.at, m.nz
            return MatV(E, m.n, m.m, lambda q: at((q[1], q[0])), lambda q: nz((q[1], q[0])), m.dense)
        if name == "transpose":
            return lambda: self.mat_attr(m, "T")
        if name == "resize":
            def rs(*a):
                sh = a[0] if len(a) == 1 else a
                om, on, oa, oz = lift(m.m, "I"), lift(m.n, "I"), m.at, m.nz
                m.log("resize")
                inb = lambda q: And(q[0] < om, q[1] < on)
                m.at = lambda q: If(inb(q), oa(q), RealVal(0))
                m.nz = lambda q: And(inb(q), oz(q))
                m.m, m.n = sh
            return rs
        if name == "dot":
            def dot(o):
                if isinstance(o, VecV):
                    r = self.matvec(m, o)
                    r.col = o.col
                    return r
                raise Unsupported("matrix product")
            return dot
        if name == "getcol":
            def getcol(j):
                j = lift(j, "I") if not (isinstance(j, int) and j < 0) else lift(m.n, "I") + j
                at, nz = m.at, m.nz
                return MatV(E, m.m, 1, lambda q: at((q[0], j)), lambda q: nz((q[0], j)))
            return getcol
        if name == "getrow":
            def getrow(i):
                i = lift(i, "I")
                at, nz = m.at, m.nz
                return RowV(E, 1, m.n, lambda q: at((i, q[1])), lambda q: nz((i, q[1])))
            return getrow
        if name == "sum":
            def s(axis=None):
                at = m.at
                M, N = lift(m.m, "I"), lift(m.n, "I")
                if axis == 1:
                    def f(q):
                        j = E.fresh_flat("I", "b")[0]
                        return E.sum([j], And(0 <= j, j < N), at((q, j)))
                    return VecV(E, m.m, f, "R", col=True)
                if axis == 0:
                    def f(q):
                        j = E.fresh_flat("I", "b")[0]
                        return E.sum([j], And(0 <= j, j < M), at((j, q)))
                    return VecV(E, m.n, f, "R")
                raise Unsupported("matrix sum")
            return s
        if name == "nnz":
            return self.nnz(m)
        if name == "pop":
            def pop(k):
                if not E.decide(m.nz(lift(k, ("I", "I")))):
                    raise SymRaise("KeyError")
                v = m.at(lift(k, ("I", "I")))
                m.delentry(k)
                return v
            return pop
        if name == "get":
            return lambda k, d=0: m.at(lift(k, ("I", "I")))
        if name == "min" or name == "max":
            raise Unsupported("matrix extremum")
        if name == "nonzero":
            def nonzero():
                raise Unsupported("nonzero")
            return nonzero
        if name == "dtype":
            return Opaque("dtype")
        raise Unsupported("matrix.%s" % name)

    def nnz(self, m):
        d = m.items()
        return self.E.card(("I", "I"), d.mem)

    def mat_slice(self, m, i, j):
        E = self.E
        M, N = lift(m.m, "I"), lift(m.n, "I")
        at, nz = m.at, m.nz

        def rng(x, n):
            if isinstance(x, SliceV):
                lo, hi = E.slice_bounds(x, n)
                return lo, simplify(hi - lo), False
            y = n + x if isinstance(x, int) and x < 0 else lift(x, "I")
            if not E.decide(And(0 <= y, y < n)):
                raise SymRaise("IndexError")
            return y, 1, True
        li, mi, si = rng(i, M)
        lj, nj, sj = rng(j, N)
        return MatV(E, mi, nj, lambda q: at((simplify(q[0] + li), simplify(q[1] + lj))), lambda q: nz((simplify(q[0] + li), simplify(q[1] + lj))), m.dense)

    def mat_setslice(self, m, i, j, v):
        E = self.E
        if m.carried():
            raise Unsupported("matrix slice assignment in a loop")
        M, N = lift(m.m, "I"), lift(m.n, "I")

        def rng(x, n):
            if isinstance(x, SliceV):
                return E.slice_bounds(x, n)
            y = n + x if isinstance(x, int) and x < 0 else lift(x, "I")
            if not E.decide(And(0 <= y, y < n)):
                raise SymRaise("IndexError")
            return y, simplify(y + 1)
        li, hi = rng(i, M)
        lj, hj = rng(j, N)
        oa, oz = m.at, m.nz
        if is_scalar(v):
            vf = lambda q: real(v)
        elif isinstance(v, VecV) and not isinstance(j, SliceV):
            vf = lambda q: real(v.at(q[0] - li))
        elif isinstance(v, VecV) and not isinstance(i, SliceV):
            vf = lambda q: real(v.at(q[1] - lj))
        else:
            raise Unsupported("matrix slice assignment")
        inr = lambda q: And(li <= q[0], q[0] < hi, lj <= q[1], q[1] < hj)
        m.at = lambda q: If(inr(q), vf(q), oa(q))
        m.nz = lambda q: If(inr(q), vf(q) != 0, oz(q))

    def asmat(self, x, row):
        """a block of vstack/hstack"""
        E = self.E
        if isinstance(x, MatV):
            return x
        if isinstance(x, VecV):
            at = x.at
            if x.col:
                return MatV(E, x.n, 1, lambda q: real(at(q[0])))
            return MatV(E, 1, x.n, lambda q: real(at(q[1])))     # a 1-d array is a row
        raise Unsupported("stack of %s" % type(x).__name__)

    def blocks(self, bs):
        if isinstance(bs, BagV):
            bs = bs.concrete()
            if bs is None:
                raise Unsupported("stack of a list")
        return [self.asmat(b, True) for b in bs]

    def sp_vstack(self, bs, format=None, dtype=None):
        E = self.E
        r, *rest = self.blocks(bs)
        for b in rest:
            if not E.decide(lift(r.n, "I") == lift(b.n, "I")):
                raise SymRaise("ValueError", "incompatible dimensions")
            off, ra, rz, ba, bz = lift(r.m, "I"), r.at, r.nz, b.at, b.nz
            r = MatV(E, simplify(off + lift(b.m, "I")), r.n,
                     (lambda off, ra, ba: lambda q: If(q[0] < off, ra(q), ba((simplify(q[0] - off), q[1]))))(off, ra, ba),
                     (lambda off, rz, bz: lambda q: If(q[0] < off, rz(q), bz((simplify(q[0] - off), q[1]))))(off, rz, bz))
        return r

    def sp_hstack(self, bs, format=None, dtype=None):
        E = self.E
        r, *rest = self.blocks(bs)
        for b in rest:
            if not E.decide(lift(r.m, "I") == lift(b.m, "I")):
                raise SymRaise("ValueError", "incompatible dimensions")
            off, ra, rz, ba, bz = lift(r.n, "I"), r.at, r.nz, b.at, b.nz
            r = MatV(E, r.m, simplify(off + lift(b.n, "I")),
                     (lambda off, ra, ba: lambda q: If(q[1] < off, ra(q), ba((q[0], simplify(q[1] - off)))))(off, ra, ba),
                     (lambda off, rz, bz: lambda q: If(q[1] < off, rz(q), bz((q[0], simplify(q[1] - off)))))(off, rz, bz))
        return r

    def sp_dok_matrix(self, x, dtype=None, **kw):
        E = self.E
        if isinstance(x, tuple):
            return MatV(E, x[0], x[1], lambda q: RealVal(0), lambda q: BoolVal(False))
        if isinstance(x, MatV):
            r = x.copy()
            if x.dense:
                at = x.at
                r = MatV(E, x.m, x.n, at, lambda q: at(q) != 0)
            return r
        if isinstance(x, VecV):
            r = self.asmat(x, True)
            return r
        raise Unsupported("dok_matrix(...)")

    sp_csr_matrix = sp_csc_matrix = sp_coo_matrix = sp_lil_matrix = sp_dok_matrix

    def sp_identity(self, n, **kw):
        return MatV(self.E, n, n, lambda q: If(q[0] == q[1], RealVal(1), RealVal(0)))

    sp_eye = sp_identity

    # ------------------------------------------------------------------------------------------ operators
    def is_none(self, x):
        return False

    def neg(self, v):
        if isinstance(v, VecV):
            return self.vmap1(v, lambda t: -t)
        if isinstance(v, MatV):
            at, nz = v.at, v.nz
            return MatV(self.E, v.m, v.n, lambda q: -at(q), nz, v.dense)
        raise Unsupported("negation")

    def invert(self, v):
        if isinstance(v, VecV) and v.kind == "B":
            return self.vmap1(v, lambda t: Not(t))
        raise Unsupported("~")

    def binop(self, op, a, b):
        E = self.E
        a, b = (x.get() if isinstance(x, Opt) else x for x in (a, b))
        if hasattr(a, "binop_"):
            return a.binop_(op, b, False)
        if hasattr(b, "binop_"):
            return b.binop_(op, a, True)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque("op")
        if isinstance(op, ast.Mod) and isinstance(a, str):
            return self.fmt(a, list(b) if isinstance(b, tuple) else [b])
        if isinstance(a, str) and isinstance(b, str) and isinstance(op, ast.Add):
            return a + b
        if isinstance(op, ast.Add) and (isinstance(a, str) or isinstance(b, str)):
            if is_scalar(a) and is_scalar(b):
                return self.fmt("%s%s", [a, b])
        if isinstance(a, (SetV, SetView)) or isinstance(b, (SetV, SetView)):
            o = {ast.BitOr: "|", ast.BitAnd: "&", ast.Sub: "-"}.get(type(op))
            if o:
                return E.setop(o, a, b)
        if isinstance(a, BagV) and isinstance(op, ast.Add) and isinstance(b, BagV):
            return BagV(E, list(a.iterate()) + list(b.iterate()))
        if isinstance(op, ast.Mult) and isinstance(a, BagV) and (isinstance(b, int) or is_expr(b)):
            c = a.concrete()
            if c is not None and len(c) == 1 and not isinstance(b, int):
                n = lift(b, "I")
                return RepList(E, [("dom", Domain("I", lambda i: And(0 <= i, i < n), elem=lambda i: c[0], pos=lambda i: i, at=lambda i: i,
                                               card=simplify(If(n > 0, n, IntVal(0))), name="i", lo=IntVal(0), hi=n))])
            if c is not None and isinstance(b, int):
                return BagV(E, [("one", y) for y in c * b])
        if isinstance(a, tuple) and isinstance(b, tuple) and isinstance(op, ast.Add):
            return a + b
        if isinstance(a, MatV) or isinstance(b, MatV):
            return self.matop(op, a, b)
        if isinstance(a, VecV) or isinstance(b, VecV):
            return self.vecop(op, a, b)
        if is_scalar(a) and is_scalar(b) and not isinstance(a, tuple) and not isinstance(b, tuple):
            return self.scalarop(op, a, b)
        raise Unsupported("%s %s %s" % (type(a).__name__, type(op).__name__, type(b).__name__))

    def scalarop(self, op, a, b):
        E = self.E
        if not is_expr(a) and not is_expr(b):
            f = {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Div: lambda: a / b, ast.FloorDiv: lambda: a // b,
                 ast.Mod: lambda: a % b, ast.Pow: lambda: a ** b, ast.BitAnd: lambda: a & b, ast.BitOr: lambda: a | b, ast.BitXor: lambda: a ^ b}.get(type(op))
            if f is None:
                raise Unsupported("operator")
            try:
                return f()
            except ZeroDivisionError:
                raise SymRaise("ZeroDivisionError")
        sa, sb = shape_of(a), shape_of(b)
        if "O" in (sa, sb):
            raise Unsupported("operator on objects")
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
            if sa == sb == "B" or {sa, sb} <= {"B"}:
                x, y = lift(a, "B"), lift(b, "B")
                return And(x, y) if isinstance(op, ast.BitAnd) else Or(x, y) if isinstance(op, ast.BitOr) else z3.Xor(x, y)
            x, y = lift(a, "B"), lift(b, "B")
            # 0/1 integers only
            if E.implied(And(*[Or(t == 0, t == 1) for t in (lift(a, "I"), lift(b, "I")) if is_expr(t)])):
                r = And(x, y) if isinstance(op, ast.BitAnd) else Or(x, y) if isinstance(op, ast.BitOr) else z3.Xor(x, y)
                return If(r, IntVal(1), IntVal(0))
            raise Unsupported("bit operation")
        if isinstance(op, ast.Div):
            x, y = real(a), real(b)
            if E.decide(y == 0):
                raise SymRaise("ZeroDivisionError")
            return x / y
        if "R" in (sa, sb):
            x, y = real(a), real(b)
        else:
            x, y = lift(a, "I"), lift(b, "I")
        if isinstance(op, ast.Add):
            return x + y
        if isinstance(op, ast.Sub):
            return x - y
        if isinstance(op, ast.Mult):
            return x * y
        if isinstance(op, (ast.FloorDiv, ast.Mod)) and is_int(x):
            if E.decide(y == 0):
                raise SymRaise("ZeroDivisionError")
            if not E.decide(y > 0):
                raise Unsupported("division by a negative number")
            return x / y if isinstance(op, ast.FloorDiv) else x % y
        raise Unsupported("operator %s" % type(op).__name__)

    def vecop(self, op, a, b):
        for x in (a, b):
            if not isinstance(x, VecV) and not (is_scalar(x) and not isinstance(x, tuple)):
                raise Unsupported("vector operator on %s" % type(x).__name__)
        ka = a.kind if isinstance(a, VecV) else shape_of(a)
        kb = b.kind if isinstance(b, VecV) else shape_of(b)
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
            isb = ka == kb == "B"
            f = {ast.BitAnd: And, ast.BitOr: Or, ast.BitXor: z3.Xor}[type(op)]
            if isb:
                return self.vzip(a, b, lambda x, y: f(x, y), "B")
            # integer masks: require entries 0/1
            for x in (a, b):
                if isinstance(x, VecV) and x.kind == "I":
                    i = self.E.fresh_flat("I", "i")[0]
                    if not self.E.implied(Implies(And(0 <= i, i < lift(x.n, "I")), Or(x.at(i) == 0, x.at(i) == 1))):
                        raise Unsupported("bit operation on integers")
                elif isinstance(x, VecV) and x.kind == "R":
                    raise Unsupported("bit operation on floats")
            return self.vzip(a, b, lambda x, y: If(f(lift(x, "B"), lift(y, "B")), IntVal(1), IntVal(0)), "I")
        k = "R" if "R" in (ka, kb) or isinstance(op, ast.Div) else "I"
        fs = {ast.Add: lambda x, y: x + y, ast.Sub: lambda x, y: x - y, ast.Mult: lambda x, y: x * y}
        f = fs.get(type(op))
        if isinstance(op, ast.Div):
            if isinstance(b, VecV):
                raise Unsupported("vector division")
            if self.E.decide(real(b) == 0):
                raise SymRaise("ZeroDivisionError")
            f = lambda x, y: x / y
        if f is None:
            raise Unsupported("vector operator")
        return self.vzip(a, b, lambda x, y: f(lift(x, k), lift(y, k)), k)

    def matop(self, op, a, b):
        E = self.E
        if isinstance(a, MatV) and isinstance(b, MatV) and isinstance(op, (ast.Add, ast.Sub)):
            if not E.decide(And(lift(a.m, "I") == lift(b.m, "I"), lift(a.n, "I") == lift(b.n, "I"))):
                raise SymRaise("ValueError", "inconsistent shapes")
            fa, fb = a.at, b.at
            at = (lambda q: fa(q) + fb(q)) if isinstance(op, ast.Add) else (lambda q: fa(q) - fb(q))
            return MatV(E, a.m, a.n, at, dense=a.dense and b.dense)
        if isinstance(op, ast.Mult) and is_scalar(b) and isinstance(a, MatV):
            fa = a.at
            return MatV(E, a.m, a.n, lambda q: fa(q) * real(b), dense=a.dense)
        if isinstance(op, ast.Mult) and is_scalar(a):
            return self.matop(op, b, a)
        if isinstance(op, (ast.Mult, ast.MatMult)) and isinstance(a, MatV) and isinstance(b, VecV):
            return self.mat_attr(a, "dot")(b)
        raise Unsupported("matrix operator")

    def compare(self, op, a, b):
        E = self.E
        if isinstance(a, Opt) or isinstance(b, Opt):
            if isinstance(op, (ast.Eq, ast.NotEq)):
                na, nb = ((x.none if isinstance(x, Opt) else BoolVal(x is None)) for x in (a, b))
                va, vb = (x.val if isinstance(x, Opt) else RealVal(0) if x is None else real(x) for x in (a, b))
                r = Or(And(na, nb), And(neg(na), neg(nb), va == vb))
                return r if isinstance(op, ast.Eq) else neg(r)
            a, b = (x.get() if isinstance(x, Opt) else x for x in (a, b))
        if hasattr(a, "compare_"):
            return a.compare_(op, b)
        if hasattr(b, "compare_") and isinstance(op, (ast.Eq, ast.NotEq)):
            return b.compare_(op, a)
        if isinstance(a, VecV) or isinstance(b, VecV):
            if isinstance(op, (ast.Eq, ast.NotEq)) and (a is None or b is None):
                raise Unsupported("vector == None")
            f = {ast.Lt: lambda x, y: x < y, ast.LtE: lambda x, y: x <= y, ast.Gt: lambda x, y: x > y, ast.GtE: lambda x, y: x >= y,
                 ast.Eq: lambda x, y: x == y, ast.NotEq: lambda x, y: x != y}[type(op)]
            ka = a.kind if isinstance(a, VecV) else shape_of(a)
            kb = b.kind if isinstance(b, VecV) else shape_of(b)
            if ka == kb == "B":
                return self.vzip(a, b, lambda x, y: f(lift(x, "B"), lift(y, "B")), "B")
            k = "R" if "R" in (ka, kb) else "I"
            return self.vzip(a, b, lambda x, y: f(lift(x, k), lift(y, k)), "B")
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.equal(a, b)
            if isinstance(r, bool):
                return r if isinstance(op, ast.Eq) else not r
            return r if isinstance(op, ast.Eq) else neg(r)
        if isinstance(a, tuple) or isinstance(b, tuple):
            raise Unsupported("tuple order")
        if not is_expr(a) and not is_expr(b):
            if not isinstance(a, (int, float, str)) or not isinstance(b, (int, float, str)):
                raise SymRaise("TypeError")
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
        if not is_scalar(a) or not is_scalar(b) or "O" in (shape_of(a), shape_of(b)):
            raise Unsupported("ordering")
        for x, y, sgn in ((a, b, 1), (b, a, -1)):
            if isinstance(y, float) and y in (float("inf"), float("-inf")):
                lt = (y > 0) == (sgn > 0)
                return lt if isinstance(op, (ast.Lt, ast.LtE)) else not lt
        sa, sb = shape_of(a), shape_of(b)
        x, y = (real(a), real(b)) if "R" in (sa, sb) else (lift(a, "I"), lift(b, "I"))
        return {ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y}[type(op)]()

    def equal(self, a, b):
        E = self.E
        if a is b:
            return True
        if isinstance(a, (ClassV, FuncV, Named, Builtin)) or isinstance(b, (ClassV, FuncV, Named, Builtin)):
            return a == b
        if a is None or b is None:
            return a is None and b is None
        if isinstance(a, (SetV, SetView)) and isinstance(b, (SetV, SetView)):
            sh = a.sh or b.sh
            if sh is None:
                return True
            q = E.fresh_flat(sh, "q")
            k = unflat(q, sh)
            return ForAll(q, a.has(k) == b.has(k))
        if is_scalar(a) and is_scalar(b):
            if isinstance(a, tuple) != isinstance(b, tuple):
                return False
            sa, sb = shape_of(a), shape_of(b)
            if isinstance(sa, str) and isinstance(sb, str) and sa != sb and "O" in (sa, sb):
                return False
            r = eqv(a, b)
            r = simplify(r)
            return is_true(r) if is_true(r) or is_false(r) else r
        if isinstance(a, Inst) and isinstance(b, Inst):
            return a is b
        if isinstance(a, BagV) and isinstance(b, BagV):
            ca, cb = a.concrete(), b.concrete()
            if ca is not None and cb is not None:
                if len(ca) != len(cb):
                    return False
                return conj([bexpr(self.equal(x, y)) for x, y in zip(ca, cb)])
        if isinstance(a, Inst) or isinstance(b, Inst):
            return False
        raise Unsupported("== on %s / %s" % (type(a).__name__, type(b).__name__))

    # ------------------------------------------------------------------------------------------ strings
    def str_attr(self, s, name):
        if name == "join":
            def join(x):
                c = x.concrete() if isinstance(x, BagV) else list(x) if isinstance(x, tuple) else None
                if c is not None and all(isinstance(y, str) for y in c):
                    return s.join(c)
                if "join" in self.externals:
                    return self.externals["join"](self.E, s, x)
                return Opaque("str.join")
            return join
        if name == "format":
            return lambda *a, **k: Opaque("formatted string")
        if name in ("startswith", "endswith"):
            return lambda t: getattr(s, name)(t)
        if name in ("split", "strip", "lower", "upper"):
            f = getattr(s, name)
            return lambda *a: f(*a)
        raise Unsupported("str.%s" % name)

    def scalar_attr(self, o, name):
        if is_expr(o) and o.sort() == Obj and "#attr" in self.externals:
            return self.externals["#attr"](self.E, o, name)
        if is_expr(o):
            if name == "is_integer" and is_real(o):
                return lambda: o == ToReal(ToInt(o))
            if name == "item":
                return lambda: o
        raise Unsupported("attribute %s of a scalar" % name)

    FMT = re.compile(r"%(?:%|[-+ 0#]*\d*(?:\.\d+)?[sdrfgeGi])")

    def fmt(self, s, args):
        """string formatting: constant, or an uninterpreted injective constructor of its scalar arguments"""
        if all(isinstance(a, (int, float, str)) for a in args):
            try:
                return s % tuple(args)
            except Exception:
                return Opaque("formatted string")
        for a in args:
            if not is_scalar(a) or isinstance(a, tuple) or isinstance(a, Named):
                return Opaque("formatted string")
        if "fmt" in self.externals:
            r = self.externals["fmt"](self.E, s, args)
            if r is not None:
                return r
        pieces, specs, last = [], [], 0
        for m in self.FMT.finditer(s):
            if m.group() == "%%":
                continue
            pieces.append(s[last:m.start()].replace("%%", "%"))
            specs.append(m.group()[-1])
            last = m.end()
        pieces.append(s[last:].replace("%%", "%"))
        if len(specs) != len(args):
            raise SymRaise("TypeError", "format arguments")
        # constants are folded into the pieces
        np_, na = [pieces[0]], []
        for sp, a, nxt in zip(specs, args, pieces[1:]):
            if isinstance(a, (str, int)) and not isinstance(a, bool):
                np_[-1] += str(a) + nxt
            else:
                na.append(a)
                np_.append(nxt)
        shs = tuple(shape_of(a) for a in na)
        if not na:
            return np_[0]
        key = (tuple(np_), shs)
        E = self.E
        name = "FMT:" + "^".join(np_).replace("|", "!").replace("\\", "!") + "%x" % (zlib.crc32(repr(np_).encode())) + ":" + "".join(shs)
        f = Function(name, *[SORTS[x] for x in shs], Obj)
        inj = all(x == "I" for x in shs) and all(p and not p[0].isdigit() for p in np_[1:-1]) and not np_[0][-1:].isdigit() and not np_[-1][:1].isdigit() \
            and not np_[0].endswith("-")
        if key not in E.fmts:
            self.T("string formatting of integers is injective when the placeholders are separated by non-digits")
            E.fmts[key] = f
            if inj:
                a = E.fresh_flat(shs, "a")
                for i, x in enumerate(a):
                    g = Function("unFMT%d:" % i + name, Obj, SORTS[shs[i]])
                    E.fact(ForAll(a, g(f(*a)) == x))
        return f(*na)

    def while_rule(self, E, s, fr):
        return False

    def on_yield(self, fr, v):
        pass


def m_at(m, i, j):
    return m.at((i, IntVal(j) if isinstance(j, int) else j))


def is_one(n):
    return (isinstance(n, int) and n == 1) or (is_expr(n) and z3.is_int_value(n) and n.as_long() == 1)


def range_dom(lo, hi, name="i"):
    zero = z3.is_int_value(lo) and lo.as_long() == 0
    return Domain("I", lambda i: And(lo <= i, i < hi), pos=(lambda i: i) if zero else (lambda i: i - lo), at=(lambda m: m) if zero else (lambda m: m + lo),
                  card=simplify(If(hi > lo, hi - lo, IntVal(0))), name=name, lo=lo, hi=hi)


def strip_order(d):
    return Domain(d.sh, d.mem, d.elem, None, None, d.card, d.name)


class Builtin:
    def __init__(self, name, f):
        self.name, self.f = name, f

    def __call__(self, *a, **k):
        return self.f(*a, **k)

    def __eq__(self, o):
        return isinstance(o, Builtin) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def attr(self, n):
        if n == "__name__":
            return self.name
        raise Unsupported("%s.%s" % (self.name, n))


class ModV:
    def __init__(self, m):
        self.m = m

    def attr(self, name):
        raise Unsupported("module attribute")


class IterV:
    def __init__(self, E, x):
        self.E, self.x, self.used = E, x, False

    def iterate(self):
        return self.E.iterate(self.x)


class NoneVec:
    def __init__(self, n):
        self.n = n


class DequeV:
    def __init__(self, E, x, maxlen):
        self.E, self.x, self.maxlen = E, x, maxlen

    def attr(self, name):
        if name in ("pop", "popleft"):
            def pop():
                E = self.E
                ps = E.iterate(self.x)
                if not ps:
                    raise SymRaise("IndexError")
                last = name == "pop" or self.maxlen == 1
                if not last and self.maxlen is not None:
                    raise Unsupported("deque.popleft")
                k, p = ps[-1 if last else 0]
                if k == "one":
                    return p
                if p.at is not None and p.card is not None and E.implied(lift(p.card, "I") >= 1):
                    return p.elem(p.at(simplify(lift(p.card, "I") - 1) if last else IntVal(0)))
                raise Unsupported("deque.pop")
            return pop
        raise Unsupported("deque.%s" % name)


class RowV(MatV):
    """csr row: .indices / .data enumerate the stored entries"""

    def attr(self, name):
        if name in ("indices", "data"):
            E = self.E
            n, nz, at = lift(self.n, "I"), self.nz, self.at
            z = IntVal(0)
            d = Domain("I", lambda j: And(0 <= j, j < n, nz((z, j))), name="j")
            pos, nth, card = E.enumeration(d)
            if name == "indices":
                return RowArr(E, card, lambda q: nth(q), "I", d)
            return RowArr(E, card, lambda q: at((z, nth(q))), "R", d)
        return super().attr(name)


class RowArr(VecV):
    def __init__(self, E, n, at, kind, d):
        super().__init__(E, n, at, kind)
        self.d = d


class RepList(BagV):
    """[c] * n : a list of n equal elements that can be overwritten by position"""

    def setitem(self, i, v):
        E = self.E
        self.log("setidx", lift(i, "I"), v)
        if not self.carried():
            raise Unsupported("list item assignment")
        self.pieces = self.pieces + (("havoc", E.uid("bag")),)

    def copy(self):
        return RepList(self.E, self.pieces)

    def resolve(self, es, s0):
        E = self.E
        if any(e.op != "setidx" for e in es):
            raise Unsupported("list operation in loop")
        d = s0["pieces"][0][1]
        if len(es) != 1 or len(s0["pieces"]) != 1:
            raise Unsupported("list assignment in loop")
        e = es[0]
        Q = Const(E.uid("q"), IntSort())
        form, wit = E.elim(e.bound, e.cond, [lift(e.key, "I")], "I")
        # every position is written exactly once and read afterwards only
        n = d.hi
        E.oblig("every list position is assigned", forall([Q], Implies(And(0 <= Q, Q < n), form(Q))))
        val = lambda q: sub(e.val, list(zip(e.bound, wit(q))))
        self.__class__ = RepList
        self.pieces = (("dom", Domain("I", d.mem, val, d.pos, d.at, d.card, "i", d.lo, d.hi)),)
