"""pyvc engine: symbolic interpreter for the real functions of /repo, with automatic loop summaries.

explore(f) runs f on arbitrary inputs once per control-flow path.  A for-loop over an arbitrary domain is summarised: its
body is run for an arbitrary element x in an arbitrary intermediate state (every object and variable the body changes is
replaced by uninterpreted functions of x), and the logged effects of all body paths are turned into a closed form of the
state after the loop plus axioms that tie the intermediate states to it.  Nothing bounds the number of iterations."""
import ast, itertools, sys, time, builtins
from values import *
from values import NeedSplit, Entry, Domain
from objs import *
import objs


class Infeasible(Exception):
    pass


class EndPath(Exception):
    """the path ends here (an arbitrary iteration of a loop with an invariant); its obligations count"""


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


class _Cont(Exception):
    pass


class _Brk(Exception):
    pass


class Frame:
    def __init__(self, fn, loc, mod, cls=None, up=None):
        self.fn, self.loc, self.mod, self.cls, self.up = fn, loc, mod, cls, up
        self.gen = None


class FuncV:
    def __init__(self, node, mod, cls=None, up=None, kind="method"):
        self.node, self.mod, self.cls, self.up, self.kind = node, mod, cls, up, kind
        self.name = getattr(node, "name", "<lambda>")

    @property
    def qual(self):
        return self.mod.name + ":" + (self.cls.name + "." if self.cls else "") + self.name


class BoundM:
    def __init__(self, f, self_):
        self.f, self.self_ = f, self_


class ClassV:
    def __init__(self, node, mod):
        self.node, self.mod, self.name = node, mod, node.name
        self.members = {}
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                kind = "method"
                for d in s.decorator_list:
                    dn = ast.unparse(d)
                    kind = {"property": "property", "staticmethod": "static", "classmethod": "class"}.get(dn, kind)
                    if dn.endswith(".setter"):
                        kind = "setter"
                if kind != "setter":
                    self.members[s.name] = FuncV(s, mod, self, kind=kind)
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                self.members[s.targets[0].id] = s.value

    def bases(self, E):
        out = []
        for b in self.node.bases:
            try:
                v = E.global_lookup(self.mod, b.id) if isinstance(b, ast.Name) else None
            except Unsupported:
                v = None
            if isinstance(v, ClassV):
                out.append(v)
        return out

    def mro(self, E):
        out = [self]
        for b in self.bases(E):
            out += b.mro(E)
        return out

    def find(self, E, name):
        for c in self.mro(E):
            if name in c.members:
                return c.members[name], c
        return None

    def issub(self, E, name):
        return any(c.name == name for c in self.mro(E))


class Super:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class Module:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.globals = {}
        self.defs = {}
        for s in tree.body:
            self.scan(s)

    def scan(self, s):
        if isinstance(s, ast.ClassDef):
            self.defs[s.name] = ClassV(s, self)
        elif isinstance(s, ast.FunctionDef):
            self.defs[s.name] = FuncV(s, self, kind="function")
        elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            self.defs[s.targets[0].id] = s.value
        elif isinstance(s, (ast.Try, ast.If)):
            for t in s.body:
                self.scan(t)


class LoopCtx:
    def __init__(self, dom, lvs, mem):
        self.dom, self.leaves, self.mem = dom, lvs, mem
        self.log = []
        self.cellinc = {}
        self.elims, self.counters, self.firsts, self.finals = {}, [], [], []


class Trace:
    def __init__(self, prefix=()):
        self.prefix, self.pos, self.alts = list(prefix), 0, []


class PathR:
    pass


FEAS_MS = 250
FEAS_RL = 150000      # deterministic resource limit, about 80 ms
FEAS_LOG = None


class Engine:
    def __init__(self, repo, lib=None, contracts=None):
        self.repo = repo
        self.modules = {}
        self.contracts = contracts or {}
        self.lib = lib(self) if lib else None
        self.feascache = {}
        self.stats = {"feas": 0, "paths": 0}
        self.inlined = set()
        self.reset()

    # ---------------------------------------------------------------------------------------- path state
    def reset(self):
        self.n = 0
        self.loops, self.objs, self.pc, self.bound = [], [], [], []
        self.trace = Trace()
        self.nosplit = 0
        self.obls = []
        self.tainted = {}
        self.loopinv = {}
        self.ininv = []
        self.havreg = []
        self.sums, self.cards, self.inverses = {}, {}, {}
        self.cur_ctx = None
        self.frames = []
        self.assumed = set()
        self.axioms = []
        self.fmts = {}
        self.enums = {}
        self.maxes = {}
        self.natives = {}
        self.memo = {}

    def uid(self, p="v"):
        self.n += 1
        return "%s!%d" % (p, self.n)

    def fresh_flat(self, sh, name="c"):
        """plain constants (to be bound by the caller)"""
        return [Const(self.uid(name), SORTS[s]) for s in flat_shape(sh)]

    def fresh(self, sh, name="c"):
        """arbitrary value; inside a loop body a function of the loop variables"""
        out = []
        for s in flat_shape(sh):
            if self.bound:
                f = Function(self.uid(name), *[b.sort() for b in self.bound], SORTS[s])
                out.append(f(*self.bound))
            else:
                out.append(Const(self.uid(name), SORTS[s]))
        return unflat(out, sh)

    def generic(self, sh):
        return unflat(self.fresh_flat(sh, "g"), sh)

    def fresh_fun(self, ksh, vsh, name="f"):
        params = list(self.bound)
        ks = [p.sort() for p in params] + [SORTS[x] for x in flat_shape(ksh)]
        fs = [Function(self.uid(name), *ks, SORTS[x]) for x in flat_shape(vsh)]

        def f(k):
            a = params + flat(k, ksh)
            return unflat([g(*a) for g in fs], vsh)
        f.decls, f.params = fs, params
        return f

    def fact(self, e):
        e = bexpr(e)
        if not is_true(e):
            self.pc.append(("F", e))

    assume = fact

    def literal(self, e):
        for c in (e.children() if z3.is_and(e) else [e]):
            if z3.is_and(c):
                self.literal(c)
            else:
                self.pc.append(("L", c))

    def taint(self, f):
        for d in (f.decls if hasattr(f, "decls") else [f.decl()]):
            self.tainted[d.name()] = True

    def hyps(self):
        return [e for _, e in self.pc]

    def oblig(self, name, goal, hyps=None):
        hyps = list(hyps if hyps is not None else self.hyps())
        for h, g in split_goal(bexpr(goal)):
            self.obls.append((name, hyps + h, g))

    # ---------------------------------------------------------------------------------------- feasibility
    def feasible(self, extra):
        self.stats["feas"] += 1
        es = self.hyps() + [bexpr(x) for x in extra]
        qf = [e for e in es if not has_quant(e)]
        key = "|".join(sorted({e.sexpr() for e in es}))
        if key in self.feascache:
            return self.feascache[key]
        s = z3.Solver()
        s.set("timeout", 20 * FEAS_MS)
        s.set("rlimit", FEAS_RL)
        s.add(*qf)
        s.add(*str_axioms())
        r = s.check() != z3.unsat
        if r and len(qf) < len(es):
            s = z3.Solver()
            s.set("timeout", 20 * FEAS_MS)
            s.set("rlimit", FEAS_RL)
            s.set("smt.mbqi", False)
            s.add(*es)
            s.add(*str_axioms())
            t0 = time.time()
            r = s.check() != z3.unsat
            if FEAS_LOG is not None:
                st = s.statistics()
                FEAS_LOG.append((time.time() - t0, [st.get_key_value(k) for k in st.keys() if k == "rlimit count"], r))
        self.feascache[key] = r
        return r

    def implied(self, c):
        c = simplify(bexpr(c))
        if is_true(c):
            return True
        if is_false(c) or any(h.eq(c) for k, h in self.pc if k == "L"):
            return not is_false(c)
        return not self.feasible([neg(c)])

    def implied_under(self, hs, c):
        c = simplify(bexpr(c))
        if is_true(c):
            return True
        return not self.feasible(list(hs) + [neg(c)])

    def decide(self, c):
        if isinstance(c, bool):
            return c
        c = simplify(c)
        if is_true(c):
            return True
        if is_false(c):
            return False
        nc = neg(c)
        for _, e in self.pc:
            if e.eq(c):
                return True
            if e.eq(nc):
                return False
        tr = self.trace
        if tr.pos < len(tr.prefix):
            v = tr.prefix[tr.pos]
            tr.pos += 1
            if v == "T":
                self.fact(c)
                return True
            if v == "F":
                self.fact(nc)
                return False
        else:
            t = self.feasible([c])
            f = self.feasible([nc])
            if t and not f:
                v = "T"
            elif f and not t:
                v = "F"
            elif not t and not f:
                raise Infeasible()
            elif self.nosplit:
                raise NeedSplit()
            else:
                v = True
                tr.alts.append(tr.prefix[:tr.pos] + [False])
            tr.prefix.append(v)
            tr.pos += 1
            if v in ("T", "F") and not isinstance(v, bool):
                self.fact(c if v == "T" else nc)
                return v == "T"
        self.literal(c if v else nc)
        return v

    def nondet(self):
        if self.nosplit:
            raise NeedSplit()
        tr = self.trace
        if tr.pos < len(tr.prefix):
            v = tr.prefix[tr.pos]
        else:
            v = True
            tr.alts.append(tr.prefix[:tr.pos] + [False])
            tr.prefix.append(v)
        tr.pos += 1
        return v

    def truth(self, v):
        """Python truth value as bool or z3 Bool"""
        if isinstance(v, (bool, int, float, str)) or v is None:
            return bool(v)
        if is_expr(v):
            if is_bool(v):
                return v
            if v.sort() == Obj:
                raise Unsupported("truth of object")
            return v != 0
        if isinstance(v, tuple):
            return len(v) > 0
        if hasattr(v, "length"):
            n = v.length()
            return n > 0
        if isinstance(v, (Inst, FuncV, BoundM, ClassV)):
            return True
        raise Unsupported("truth of %s" % type(v).__name__)

    def branch(self, v):
        return self.decide(self.truth(v))

    def prune(self, v, depth=4):
        """drop the branches of a value that the current path excludes"""
        if isinstance(v, tuple):
            return tuple(self.prune(x, depth) for x in v)
        while depth > 0 and is_expr(v) and z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
            depth -= 1
            c = v.arg(0)
            if self.implied(c):
                v = v.arg(1)
            elif self.implied(neg(c)):
                v = v.arg(2)
            else:
                break
        return self.cancel(v) if is_expr(v) else v

    def cancel(self, e):
        """rewrite inverse(f(t)) to t where the path implies that t is in f's domain"""
        memo = {}

        def go(x):
            i = x.get_id()
            if i in memo:
                return memo[i]
            r = x
            if z3.is_app(x) and x.num_args():
                ch = [go(c) for c in x.children()]
                if any(not a.eq(b) for a, b in zip(ch, x.children())):
                    r = x.decl()(*ch) if x.decl().kind() == z3.Z3_OP_UNINTERPRETED else substitute(x, *[(a, b) for a, b in zip(x.children(), ch) if not a.eq(b)])
                if r.decl().kind() == z3.Z3_OP_UNINTERPRETED and r.num_args():
                    r = self._cancel1(r)
            memo[i] = r
            return r
        return go(e)

    def _cancel1(self, x):
        args = x.children()
        a0 = args[0]
        if not (z3.is_app(a0) and a0.num_args() and a0.decl().name() in self.inverses):
            return x
        inv = self.inverses[a0.decl().name()]
        t = a0.children()
        if inv[0] == "counter":
            _, b, W, lo, hi, c0, pre = inv
            if len(args) != 1 or not all(u.eq(v) for u, v in zip(pre.children(), b)) or len(b) != len(t):
                return x
            back, cond = leaves(W(a0)), substitute(c0, *zip(b, t))
        else:
            _, decls, inverse, valid, argvalid = inv
            if [a.decl().name() if z3.is_app(a) else None for a in args] != list(decls) or not all(len(a.children()) == len(t) and all(u.eq(v) for u, v in zip(a.children(), t)) for a in args):
                return x
            back, cond = leaves(inverse(*args)), argvalid(*t)
        for i, w in enumerate(back):
            if w.eq(x) and self.implied(cond):
                return t[i]
        return x

    # ---------------------------------------------------------------------------------------- exploration
    def explore(self, f, maxpaths=400):
        """f() on every path; returns list of per-path results of f"""
        out = []
        todo = [[]]
        while todo:
            prefix = todo.pop()
            self.reset()
            self.trace = Trace(prefix)
            try:
                out.append(f())
                self.stats["paths"] += 1
            except (Infeasible, EndPath):
                pass
            todo.extend(self.trace.alts)
            if len(out) > maxpaths:
                raise Unsupported("too many paths")
        return out

    # ---------------------------------------------------------------------------------------- modules
    def module(self, name):
        if name not in self.modules:
            self.modules[name] = self.lib.load_module(name)
        return self.modules[name]

    def global_lookup(self, mod, name):
        if name in mod.globals:
            return mod.globals[name]
        v = self._global(mod, name)
        mod.globals[name] = v
        return v

    def _global(self, mod, name):
        if name in mod.defs:
            v = mod.defs[name]
            if isinstance(v, ast.AST):
                return self.eval(v, Frame(None, {}, mod))
            return v
        for s in ast.walk(mod.tree):
            if isinstance(s, ast.ImportFrom):
                for a in s.names:
                    if (a.asname or a.name) == name:
                        return self.lib.import_from(mod, s.module, s.level, a.name)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if (a.asname or a.name.split(".")[0]) == name:
                        return self.lib.import_mod(a.name if a.asname else a.name.split(".")[0])
        v = self.lib.builtin(name)
        if v is None:
            raise Unsupported("unknown name %s" % name)
        return v

    # ---------------------------------------------------------------------------------------- calls
    def call(self, f, args=(), kw=None):
        kw = kw or {}
        if isinstance(f, BoundM):
            return self.call(f.f, [f.self_] + list(args), kw)
        if isinstance(f, FuncV):
            c = self.contracts.get(f.qual)
            if c is not None:
                return c(self, f, *args, **kw)
            return self.inline(f, args, kw)
        if isinstance(f, ClassV):
            c = self.contracts.get(f.mod.name + ":" + f.name)
            if c is not None:
                return c(self, f, *args, **kw)
            o = Inst(self, f)
            init = f.find(self, "__init__")
            if init:
                self.call(init[0], [o] + list(args), kw)
            return o
        if isinstance(f, Opaque):
            return Opaque("result of " + f.what)
        if isinstance(f, Named):
            return self.lib.call_named(f, args, kw)
        if isinstance(f, Inst):
            m = f.cls.find(self, "__call__")
            if m:
                return self.call(m[0], [f] + list(args), kw)
        if callable(f):
            return f(*args, **kw)
        raise Unsupported("call of %s" % type(f).__name__)

    def inline(self, f, args, kw):
        if len(self.frames) > 25:
            raise Unsupported("recursion")
        self.inlined.add(f.qual)
        node = f.node
        a = node.args
        loc = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        if len(args) > len(names) and not a.vararg:
            raise SymRaise("TypeError", "too many arguments for " + f.name)
        for n, v in zip(names, args):
            loc[n] = v
        if a.vararg:
            loc[a.vararg.arg] = tuple(args[len(names):])
        extra = {}
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in loc:
                    raise SymRaise("TypeError", "duplicate argument")
                loc[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                raise SymRaise("TypeError", "unexpected argument %s" % k)
        if a.kwarg:
            loc[a.kwarg.arg] = extra
        dfr = f.up or Frame(None, {}, f.mod)
        for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            if n not in loc:
                loc[n] = self.eval(d, dfr)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in loc and d is not None:
                loc[x.arg] = self.eval(d, dfr)
        for n in names:
            if n not in loc:
                raise SymRaise("TypeError", "missing argument %s of %s" % (n, f.name))
        fr = Frame(f, loc, f.mod, f.cls, f.up)
        self.frames.append(fr)
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, fr)
            if is_generator(node):
                fr.gen = BagV(self)
                try:
                    self.exec(node.body, fr)
                except _Ret:
                    pass
                return fr.gen
            try:
                self.exec(node.body, fr)
            except _Ret as r:
                return r.v
            return None
        finally:
            self.frames.pop()

    # ---------------------------------------------------------------------------------------- attributes
    def mangle(self, name, fr):
        if name.startswith("__") and not name.endswith("__") and fr.cls is not None:
            return "_%s%s" % (fr.cls.name.lstrip("_"), name)
        return name

    def getattr(self, o, name):
        if isinstance(o, Inst):
            if name in o.attrs:
                v = o.attrs[name]
                if callable(v) and hasattr(v, "lazy"):
                    v = v()
                    o.attrs[name] = v
                return v
            m = o.cls.find(self, unmangle(name, o.cls, self))
            if m:
                v, c = m
                if isinstance(v, ast.AST):
                    return self.eval(v, Frame(None, {}, c.mod))
                if v.kind == "property":
                    return self.call(v, [o])
                if v.kind == "static":
                    return v
                if v.kind == "class":
                    return BoundM(v, o.cls)
                return BoundM(v, o)
            if name == "__class__":
                return o.cls
            if o.given:
                raise Unsupported("attribute %s is not part of the stated invariant of %s" % (name, o.cls.name))
            raise SymRaise("AttributeError", name)
        if isinstance(o, ClassV):
            m = o.find(self, unmangle(name, o, self))
            if m:
                v, c = m
                if isinstance(v, ast.AST):
                    return self.eval(v, Frame(None, {}, c.mod))
                return BoundM(v, o) if v.kind == "class" else v
            if name == "__name__":
                return o.name
            raise SymRaise("AttributeError", name)
        if isinstance(o, Super):
            for c in o.cls.mro(self)[1:]:
                if name in c.members:
                    return BoundM(c.members[name], o.self_)
            if name == "__init__":
                return lambda *a, **k: None
            raise Unsupported("super().%s" % name)
        if isinstance(o, (HeapObj, SetView, View, InvView)):
            return o.attr(name)
        if isinstance(o, Named):
            return self.lib.named_attr(o, name)
        if isinstance(o, Opaque):
            return Opaque(o.what + "." + name)
        if isinstance(o, str):
            return self.lib.str_attr(o, name)
        if isinstance(o, Poison):
            raise Unsupported(o.why)
        if hasattr(o, "attr"):
            return o.attr(name)
        if isinstance(o, tuple) or is_scalar(o):
            return self.lib.scalar_attr(o, name)
        if isinstance(o, dict):
            if name == "items":
                return lambda: tuple(o.items())
        raise Unsupported("attribute %s of %s" % (name, type(o).__name__))

    def setattr(self, o, name, v):
        if isinstance(o, Inst):
            if o.carried():
                self.loops[-1].log.append(Entry(o, "attr", name, v))
            o.attrs[name] = v
            return
        if hasattr(o, "setattr_"):
            return o.setattr_(name, v)
        raise Unsupported("attribute assignment on %s" % type(o).__name__)

    # ---------------------------------------------------------------------------------------- statements
    def exec(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(s).__name__)
        m(s, fr)

    def s_Pass(self, s, fr):
        pass

    s_Import = s_Pass
    s_Global = s_Pass

    def s_ImportFrom(self, s, fr):
        for a in s.names:
            fr.loc[a.asname or a.name] = self.lib.import_from(fr.mod, s.module, s.level, a.name)

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, fr)

    def s_Return(self, s, fr):
        raise _Ret(self.eval(s.value, fr) if s.value is not None else None)

    def s_Continue(self, s, fr):
        raise _Cont()

    def s_Break(self, s, fr):
        raise _Brk()

    def s_Assert(self, s, fr):
        v = self.eval(s.test, fr)
        if not self.branch(v):
            raise SymRaise("AssertionError", ast.unparse(s.test))

    def s_Raise(self, s, fr):
        n = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
        raise SymRaise(ast.unparse(n) if n is not None else "Exception")

    def s_If(self, s, fr):
        if self.branch(self.eval(s.test, fr)):
            self.exec(s.body, fr)
        else:
            self.exec(s.orelse, fr)

    def s_FunctionDef(self, s, fr):
        f = FuncV(s, fr.mod, None, up=fr, kind="function")
        f.cls_ctx = fr.cls
        fr.loc[s.name] = f

    def s_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        if isinstance(s.target, ast.Name):
            cur = self.name(s.target.id, fr)
            v = self.eval(s.value, fr)
            r = self.augment(s.op, cur, v)
            fr.loc[s.target.id] = r
        elif isinstance(s.target, ast.Subscript):
            o = self.eval(s.target.value, fr)
            k = self.index(s.target.slice, fr)
            cur = self.getitem(o, k)
            v = self.eval(s.value, fr)
            self.setitem(o, k, self.augment(s.op, cur, v))
        elif isinstance(s.target, ast.Attribute):
            o = self.eval(s.target.value, fr)
            n = self.mangle(s.target.attr, fr)
            v = self.eval(s.value, fr)
            r = self.augment(s.op, self.getattr(o, n), v)
            if r is not None:
                self.setattr(o, n, r)
        else:
            raise Unsupported("augmented assignment")

    def augment(self, op, cur, v):
        if isinstance(cur, BagV) and isinstance(op, ast.Add):
            cur.attr("extend")(v)
            return cur
        if hasattr(cur, "iadd"):
            return cur.iadd(op, v)
        if isinstance(cur, (SetV,)) and isinstance(op, ast.BitOr):
            if cur.carried():
                raise Unsupported("set update in loop")
            r = self.setop("|", cur, v)
            cur.sh, cur.mem, cur.elems = r.sh, r.mem, None
            return cur
        return self.binop(op, cur, v)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            fr.loc[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, len(t.elts))
            for a, b in zip(t.elts, vs):
                self.assign(a, b, fr)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, fr), self.index(t.slice, fr), v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), self.mangle(t.attr, fr), v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n):
        if isinstance(v, tuple):
            if len(v) != n:
                raise SymRaise("ValueError")
            return v
        if isinstance(v, BagV):
            c = v.concrete()
            if c is not None:
                if len(c) != n:
                    raise SymRaise("ValueError")
                return c
        if hasattr(v, "unpack"):
            return v.unpack(n)
        raise Unsupported("unpacking")

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.eval(t.value, fr)
                k = self.index(t.slice, fr)
                o.delitem(k)
            elif isinstance(t, ast.Name):
                fr.loc.pop(t.id, None)
            else:
                raise Unsupported("del")

    def s_With(self, s, fr):
        for it in s.items:
            v = self.eval(it.context_expr, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        self.exec(s.body, fr)

    def s_Try(self, s, fr):
        try:
            self.exec(s.body, fr)
        except SymRaise as r:
            for h in s.handlers:
                names = [] if h.type is None else [ast.unparse(x) for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
                if not names or r.exc in names or "Exception" in names:
                    self.exec(h.body, fr)
                    break
            else:
                raise
        else:
            self.exec(s.orelse, fr)
        self.exec(s.finalbody, fr)

    # ---------------------------------------------------------------------------------------- loops
    def iterate(self, v):
        if isinstance(v, tuple):
            return [("one", x) for x in v]
        if isinstance(v, (HeapObj, SetView, View, InvView)) or hasattr(v, "iterate"):
            return v.iterate()
        if isinstance(v, str):
            return [("one", c) for c in v]
        if isinstance(v, dict):
            return [("one", c) for c in v]
        if isinstance(v, range):
            return [("one", x) for x in v]
        raise Unsupported("iteration over %s" % type(v).__name__)

    def s_For(self, s, fr):
        it = self.eval(s.iter, fr)
        pieces = self.iterate(it)
        if s.orelse:
            raise Unsupported("for-else")
        inv = self.invariant_for(s, fr)
        if inv is not None:
            return self.inv_loop(inv, s, fr, pieces)
        try:
            for kind, p in pieces:
                if kind == "one":
                    self.assign(s.target, p, fr)
                    try:
                        self.exec(s.body, fr)
                    except _Cont:
                        pass
                else:
                    tn = target_names(s.target)
                    self.domloop(fr, p, lambda v: self.assign(s.target, v, fr), lambda: self.exec(s.body, fr), tn, s)
        except _Brk:
            pass

    def invariant_for(self, s, fr):
        f = fr
        while f is not None and f.fn is None:
            f = f.up
        h = self.loopinv.get(f.fn.qual) if f is not None else None
        inv = h(self, f, s) if h is not None and not self.loops else None
        return inv if inv is not None and all(inv is not i for i in self.ininv) else None

    def inv_loop(self, inv, s, fr, pieces=None):
        """loop with an invariant: it holds before the loop, an arbitrary iteration keeps it, and only it is known afterwards.
        inv.frame: objects the invariant speaks about; inv.check(E, fr, when); inv.havoc(E, fr, names)"""
        names = {n.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}
        tn = set(target_names(s.target)) if pieces is not None else set()
        dom = pieces[0][1] if pieces is not None and len(pieces) == 1 and pieces[0][0] == "dom" else None
        inv.done = None if dom is None else (lambda x: BoolVal(False))      # elements the loop has processed
        inv.check(self, fr, "before the loop")
        one = self.nondet()
        if dom is not None:
            D = self.fresh_fun(dom.sh, "B", "done")
            q = self.fresh_flat(dom.sh, "q")
            self.fact(forall(q, Implies(D(unflat(q, dom.sh)), dom.mem(unflat(q, dom.sh)))))
            inv.done = D
        for n in names | tn:
            if n in fr.loc:
                fr.loc[n] = Poison("variable %s carried by a loop" % n)
        carried = set(self.objs)
        inv.havoc(self, fr, names)
        before = self.snapshot()
        if not one:
            if dom is not None:
                self.fact(forall(q, Implies(dom.mem(unflat(q, dom.sh)), D(unflat(q, dom.sh)))))
            for n in names | tn:
                fr.loc.setdefault(n, Poison("variable %s set in a loop" % n))
            if pieces is None:
                self.literal(neg(bexpr(self.truth(self.eval(s.test, fr)))))
                if not self.feasible([]):
                    raise Infeasible()
            return
        if pieces is not None:
            alts = [i for i in range(len(pieces))]
            while len(alts) > 1 and not self.nondet():
                alts.pop(0)
            if not alts:
                raise Infeasible()
            k, p = pieces[alts[0]]
            if k == "one":
                v = p
            else:
                x = unflat(self.fresh_flat(p.sh, p.name), p.sh)
                self.fact(p.mem(x))
                if dom is not None:
                    self.fact(Not(D(x)))
                    inv.done = lambda y: Or(D(y), eqv(y, x))
                v = p.elem(x)
            self.assign(s.target, v, fr)
        else:
            self.literal(bexpr(self.truth(self.eval(s.test, fr))))
        if not self.feasible([]):
            raise Infeasible()

        def frame():
            for o, (c, st) in before.items():
                if o in carried and o not in inv.frame and o is not fr.gen:
                    c2, s2 = o.snap()
                    a, b = (st["attrs"], s2["attrs"]) if "attrs" in st and isinstance(st["attrs"], dict) else (st, s2)
                    if c is not c2 or set(a) != set(b) or any(a[k] is not b[k] and k != "hav" for k in a):
                        raise Unsupported("the loop changes a %s the invariant does not speak about" % type(o).__name__)
        self.ininv.append(inv)
        try:
            self.exec(s.body, fr)
        except _Cont:
            pass
        except _Brk:
            frame()
            return
        finally:
            self.ininv.pop()
        frame()
        inv.check(self, fr, "after an iteration")
        raise EndPath()

    def s_While(self, s, fr):
        if s.orelse:
            raise Unsupported("while-else")
        inv = self.invariant_for(s, fr)
        if inv is not None:
            return self.inv_loop(inv, s, fr)
        t = s.test
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.NotEq)) and isinstance(t.left, ast.Name):
            nm = t.left.id
            i0 = self.name(nm, fr)
            hi = self.eval(t.comparators[0], fr)
            if is_scalar(i0) and is_scalar(hi) and shape_of(i0) == "I" and shape_of(hi) == "I":
                i0, hi = lift(i0, "I"), lift(hi, "I")
                if isinstance(t.ops[0], ast.NotEq):
                    if not self.implied(i0 <= hi):
                        raise Unsupported("while i != n")
                dom = Domain("I", lambda i: And(i0 <= i, i < hi), lo=i0, hi=hi, name=nm,
                             pos=lambda i: simplify(i - i0), at=lambda m: simplify(m + i0), card=simplify(If(hi > i0, hi - i0, IntVal(0))))

                def bind(v):
                    fr.loc[nm] = v
                    bind.x = v

                def body():
                    h2 = self.eval(t.comparators[0], fr)
                    if not simplify(lift(h2, "I")).eq(simplify(hi)):
                        raise Unsupported("while bound changes in the loop")
                    try:
                        self.exec(s.body, fr)
                    except _Cont:
                        pass
                    if not simplify(lift(fr.loc[nm], "I") - bind.x).eq(IntVal(1)):
                        raise Unsupported("while loop that does not count up by one")
                    fr.loc[nm] = bind.x
                try:
                    self.domloop(fr, dom, bind, body, [nm], s)
                    fr.loc[nm] = simplify(If(hi > i0, hi, i0))
                except _Brk:
                    pass
                return
        h = self.lib.while_rule(self, s, fr)
        if h:
            return
        raise Unsupported("while loop")

    def snapshot(self):
        return {o: o.snap() for o in self.objs}

    def domloop(self, fr, dom, bind, body, tnames, node=None):
        """for <elements of dom>: body"""
        counted = [(o, o.cell) for o in self.objs if isinstance(o, BagV) and o.counted]
        for o, old in counted:
            nm = "#len%d" % id(o)
            fr.loc[nm] = lift(o.length(), "I")
            o.cell = (fr, nm)
        try:
            return self.domloop1(fr, dom, bind, body, tnames, node)
        finally:
            for o, old in counted:
                v = fr.loc.pop("#len%d" % id(o), None)
                o.cell = old
                o.known = (o.pieces, v)
                if old is not None:
                    old[0].loc[old[1]] = v

    def domloop1(self, fr, dom, bind, body, tnames, node=None):
        mut, mutloc = [], {}
        S0 = self.snapshot()
        loc0 = dict(fr.loc)
        npc = len(self.pc)
        nob, nhav = len(self.obls), len(self.havreg)
        reps = 0
        while True:
            reps += 1
            if reps > 8:
                raise Unsupported("loop fixpoint")
            del self.obls[nob:]
            del self.havreg[nhav:]
            paths, ctx, hints, start = self.explore_body(fr, dom, bind, body, S0, loc0, mut, mutloc, tnames)
            changed = False
            for o, h in hints.items():
                cls, st = S0[o]
                if cls is not h[0] or any(st.get(k) is None and h[1].get(k) is not None for k in ("sh", "ksh", "vsh")):
                    o.__class__ = cls
                    o.restore(S0[o])
                    typed_empty(self, o, h)
                    S0[o] = o.snap()
                    changed = True
            for p in paths:
                for e in p.log:
                    if e.o not in mut:
                        mut.append(e.o)
                        changed = True
                for n, v in p.loc.items():
                    if n in tnames or n not in loc0:
                        continue
                    st = start[n] if n in start else loc0[n]
                    if not same(v, st):
                        k = kind_of(v, loc0[n])
                        if n not in mutloc:
                            mutloc[n] = k
                            changed = True
                        elif mutloc[n] != k and mutloc[n] != "poison":
                            nk = "R" if {k, mutloc[n]} == {"I", "R"} else "poison"
                            if nk != mutloc[n]:
                                mutloc[n] = nk
                                changed = True
            if not changed:
                break
        # ---- state after the loop
        end_hav = self.havreg[nhav:]
        for o in list(S0):
            o.restore(S0[o])
        fr.loc.clear()
        fr.loc.update(loc0)
        del self.pc[npc:]
        facts = set()
        lv = ctx.leaves
        for p in paths:
            for k, f in p.facts:
                g = forall(p.bound_all, Implies(conj([ctx.mem] + p.lits[:k]), f)) if True else None
                if g.get_id() not in facts:
                    facts.add(g.get_id())
                    p.keep = getattr(p, "keep", []) + [g]
                    self.fact(g)
        exits = [p for p in paths if p.exit is not None]
        normal = [p for p in paths if p.exit is None]
        for p in exits:
            if not self.nondet():
                continue_with = None
            else:
                continue_with = p
            if continue_with is not None:
                # this exit is taken for the (arbitrary) element x
                known = self.prefix_facts(fr, ctx, dom, normal, start, loc0, mutloc, tnames, mut, S0, end_hav)
                self.objs = list(dict.fromkeys(self.objs + list(p.end)))
                for o, sn in p.end.items():
                    o.restore(sn)
                fr.loc.clear()
                fr.loc.update(p.loc)
                if not known:
                    for _, _, f, _ in end_hav:
                        self.taint(f)
                self.fact(ctx.mem)
                for l in p.lits:
                    self.literal(l)
                for _, f in p.facts:
                    self.fact(f)
                if not self.feasible([]):
                    raise Infeasible()
                if p.exit[0] == "raise":
                    raise p.exit[1]
                if p.exit[0] == "ret":
                    raise _Ret(p.exit[1])
                raise _Brk()
        if exits:
            for p in exits:
                self.literal(forall(p.bound_all, Implies(ctx.mem, neg(conj(p.lits)))))
        # entries
        self.cur_ctx = ctx
        entries = self.entries(ctx, normal)
        # scalar variables
        self.cells(fr, ctx, dom, normal, start, loc0, mutloc, entries, tnames)
        for n in tnames:
            fr.loc[n] = Poison("loop variable %s after its loop" % n)
        for p in normal:
            for n in p.loc:
                if n not in loc0:
                    fr.loc.setdefault(n, Poison("variable %s set in a loop" % n))
        # objects; those whose values others may read first
        order = {o: 1 for o in mut}
        for e in entries:
            if isinstance(e.o, DictV) and not e.o.bi and any(z3.is_not(l) and z3.is_app(l.arg(0)) and any(l.arg(0).decl().name() == d.name() for h in self.havs(e.o, "dom") for d in h.decls) for l in e.lits):
                order[e.o] = 0
        for o in sorted(mut, key=lambda o: order[o]):
            es = [self.finalise(ctx, e) for e in entries if e.o is o]
            if o.depth < len(self.loops):
                up = self.loops[-1]
                for e in es:
                    up.log.append(e)
                if es or True:
                    o.havoc()
            else:
                if isinstance(o, Inst):
                    self.resolve_inst(o, es, S0[o])
                else:
                    st = S0[o][1]
                    o.resolve(es, st)
                self.havreg = [h for h in self.havreg if h[0] is not o]
        self.new_keys(ctx)
        self.cur_ctx = None

    def finalise(self, ctx, e):
        """replace values read from (or just stored under a new key of) an insert-once dict by its final value at that key"""
        if not ctx.finals or e.val is None or not self.plain(e.val):
            return e
        sh = shape_of(e.val)
        vs = flat(e.val, sh)
        lits = {l.get_id() for l in e.lits if is_expr(l)}
        mems = {l.get_id() for l in e.mems if is_expr(l)}
        ids = lambda xs: {x.get_id() for x in xs if is_expr(x)}
        for hd, hvs, olds, new in ctx.finals:
            for i, v in enumerate(vs):
                for c, (h, nv) in enumerate(zip(hvs, new)):
                    if (hd in lits and v.eq(h)) or any(v.eq(x[c]) and ids(ls) <= lits and ids(ms) <= mems for x, ls, ms in olds):
                        vs[i] = nv
        if all(x.eq(y) for x, y in zip(vs, flat(e.val, sh))):
            return e
        r = Entry(e.o, e.op, e.key, unflat(vs, sh), bound=e.bound, mems=e.mems, lits=e.lits)
        for a in ("path", "seq", "first"):
            if hasattr(e, a):
                setattr(r, a, getattr(e, a))
        return r

    def plain(self, v):
        try:
            return all(is_expr(x) for x in flat(v, shape_of(v)))
        except Exception:
            return False

    def new_keys(self, ctx):
        """a counter incremented exactly when a new key enters a dict or set counts the new keys"""
        for b, cond, v0, end in ctx.counters:
            for m, ksh, p0, p1 in ctx.firsts:
                if len(b) != len(m.bound) or not all(x.eq(y) for x, y in zip(b, m.bound)):
                    continue
                mc = And(m.cond, neg(m.first))
                if self.implied_under([], bexpr(cond) == mc):
                    self.fact(end == v0 + self.card(ksh, lambda q: conj([p1(q), neg(p0(q))])))

    def entries(self, ctx, normal):
        out = []
        for i, p in enumerate(normal):
            for e in p.log:
                x = Entry(e.o, e.op, e.key, e.val, bound=ctx.leaves + e.bound, mems=[ctx.mem] + e.mems, lits=p.lits + e.lits)
                x.path = (i, getattr(e, "path", None))
                out.append(x)
        return out

    def prefix_facts(self, fr, ctx, dom, normal, start, loc0, mutloc, tnames, mut, S0, end_hav):
        """what is known of the state in which a loop is left early: the run up to there coincides with the run of the loop
        in which the elements that leave it are skipped, so the facts about the intermediate states of that loop apply"""
        if self.loops or not (end_hav or mutloc):
            return False
        nob, reg = len(self.obls), list(self.havreg)
        self.cur_ctx = ctx
        try:
            entries = self.entries(ctx, normal)
            self.cells(fr, ctx, dom, normal, start, loc0, mutloc, entries, tnames)
            for o in mut:
                if not isinstance(o, Inst):
                    o.resolve([e for e in entries if e.o is o], S0[o][1])
            return True
        except Unsupported:
            return False
        finally:
            self.cur_ctx = None
            del self.obls[nob:]
            self.havreg = reg

    def resolve_inst(self, o, es, s0):
        for n in {e.key for e in es}:
            o.attrs[n] = Poison("attribute %s assigned in a loop" % n)

    def explore_body(self, fr, dom, bind, body, S0, loc0, mut, mutloc, tnames):
        lvs = self.fresh_flat(dom.sh, dom.name)
        x = unflat(lvs, dom.sh)
        mem = dom.mem(x)
        ctx = LoopCtx(dom, lvs, mem)
        nb, npc, nobj, nloops = len(self.bound), len(self.pc), len(self.objs), len(self.loops)
        self.loops.append(ctx)
        self.bound.extend(lvs)
        tr0 = self.trace
        paths, hints, start = [], {}, {}
        nosplit0 = self.nosplit
        try:
            for o in mut:
                if o in S0:
                    o.restore(S0[o])
            for o in mut:
                if o.depth < nloops + 1 and not isinstance(o, Inst):
                    o.havoc()
            for n, k in mutloc.items():
                if k == "poison":
                    start[n] = Poison("variable %s carried by a loop" % n)
                else:
                    start[n] = self.fresh(k, "cell_" + n)
            H = self.snapshot()
            todo = [[]]
            nh = len(self.havreg)
            while todo:
                prefix = todo.pop()
                for o, sn in H.items():
                    o.restore(sn)
                del self.objs[nobj:]
                fr.loc.clear()
                fr.loc.update(loc0)
                fr.loc.update(start)
                del self.pc[npc:]
                self.pc.append(("F", mem))
                for n, c in start.items():
                    if n.startswith("#len"):            # lists followed through loops only grow
                        self.pc.append(("F", c >= lift(loc0[n], "I")))
                ctx.log, ctx.cellinc = [], {}
                del self.bound[nb + len(lvs):]
                self.trace = Trace(prefix)
                del self.loops[nloops + 1:]
                p = PathR()
                p.exit = None
                try:
                    if nosplit0:
                        self.nosplit = 0
                    bind(dom.elem(x))
                    body()
                except _Cont:
                    pass
                except Infeasible:
                    todo.extend(self.trace.alts)
                    continue
                except _Brk:
                    p.exit = ("brk",)
                except _Ret as r:
                    p.exit = ("ret", r.v)
                except SymRaise as r:
                    p.exit = ("raise", r)
                finally:
                    self.nosplit = nosplit0
                todo.extend(self.trace.alts)
                if len(paths) > 200:
                    raise Unsupported("too many paths in a loop body")
                p.lits, p.facts = [], []
                for k, e in self.pc[npc + 1:]:
                    if k == "L":
                        p.lits.append(e)
                    else:
                        p.facts.append((len(p.lits), e))
                p.log, p.cellinc, p.loc = ctx.log, ctx.cellinc, dict(fr.loc)
                p.end = self.snapshot() if p.exit else {}
                p.bound_all = list(lvs) + self.bound[nb + len(lvs):]
                for i, e in enumerate(p.log):
                    if not e.bound:
                        e.seq = i
                paths.append(p)
                for o in S0:
                    if o.__class__ is not S0[o][0]:
                        hints[o] = (o.__class__, {k: o.__dict__.get(k) for k in ("sh", "ksh", "vsh")})
                    else:
                        st = S0[o][1]
                        for k in ("sh", "ksh", "vsh"):
                            if k in st and st[k] is None and getattr(o, k, None) is not None:
                                hints[o] = (o.__class__, {k2: o.__dict__.get(k2) for k2 in ("sh", "ksh", "vsh")})
        finally:
            self.trace = tr0
            del self.loops[nloops:]
            del self.bound[nb:]
            self.nosplit = nosplit0
        return paths, ctx, hints, start

    def cells(self, fr, ctx, dom, normal, start, loc0, mutloc, entries, tnames):
        lv, mem = ctx.leaves, ctx.mem
        for n, kind in mutloc.items():
            v0 = loc0[n]
            if kind == "poison":
                fr.loc[n] = Poison("variable %s assigned in a loop" % n)
                continue
            C = start[n]
            cname = C.decl().name()
            incs, assigned, bad = [], [], False
            for i, p in enumerate(normal):
                v = p.loc[n]
                passed = p.cellinc.get(n)
                base = passed[-1]["post"] if passed else C
                if passed:
                    for rec in passed:
                        for b, ms, ls, pre, d in rec["incs"]:
                            incs.append((lv + b, [mem] + ms, p.lits + ls, pre, d))
                if same(v, base):
                    continue
                if not is_scalar(v):
                    bad = True
                    continue
                v = lift(v, kind)
                d = simplify(v - base) if kind in "IR" else None
                if d is not None and not ({cname, base.decl().name()} & decls_in(d)):
                    incs.append((lv, [mem], p.lits, base, d))
                elif cname not in decls_in(v) and not passed:
                    assigned.append((p, v))
                else:
                    bad = True
            up = self.loops[-1] if self.loops else None
            if not bad and not assigned and up is not None and self.is_cell_start(up, n, v0, fr):
                post = self.fresh(kind, "cell_" + n)
                up.cellinc.setdefault(n, []).append({"post": post, "incs": incs})
                fr.loc[n] = post
                continue
            if bad or (incs and assigned):
                post = self.fresh(kind, "imprecise_" + n)
                self.taint(post)
                self.taint(C)
                fr.loc[n] = post
                continue
            v0l = lift(v0, kind)
            if assigned:
                self.taint(C)
                post = self.fresh(kind, "last_" + n)
                chg = disj_paths([p.lits for p, _ in assigned])
                w = [self.fresh(shape_of(x), "w") for x in lv]
                s = list(zip(lv, w))
                hit = self.fresh("B", "hit")
                self.fact(Implies(hit, conj([substitute(mem, *s), disj([conj([substitute(bexpr(conj(p.lits)), *s), post == substitute(v, *s)]) for p, v in assigned])])))
                self.fact(Implies(Not(hit), And(post == v0l, forall(lv, Implies(mem, neg(chg))))))
                fr.loc[n] = post
                continue
            if kind == "I" and all(z3.is_int_value(d) and d.as_long() == 1 for *_, d in incs):
                self.counter(fr, ctx, dom, n, C, v0l, incs, entries)
            else:
                self.taint(C)
                r = v0l
                for b, ms, ls, pre, d in incs:
                    r = r + self.sum(b, conj(ms + ls), d)
                fr.loc[n] = r

    def is_cell_start(self, up, n, v0, fr):
        return is_expr(v0) and v0.decl().name().startswith("cell_" + n)

    def counter(self, fr, ctx, dom, n, C, v0, incs, entries):
        """c += 1 under conditions: the values seen are exactly v0 .. final-1, each once"""
        lv = ctx.leaves
        # same bound & pre: merge paths
        groups = {}
        for b, ms, ls, pre, d in incs:
            groups.setdefault((tuple(x.get_id() for x in b), pre.get_id()), []).append((b, ms, ls, pre))
        sites = []
        for g in groups.values():
            b, ms, _, pre = g[0]
            cond = simplify(disj_paths([ls for _, _, ls, _ in g]))
            sites.append((b, conj(ms), cond, pre))
        if len(sites) == 1 and len(sites[0][0]) == len(lv) and dom.pos is not None and \
                (is_true(sites[0][2]) or self.implied_under([ctx.mem], sites[0][2])):
            val = v0 + dom.pos(unflat(lv, dom.sh))
            val = simplify(val)
            cd = C.decl()
            for e in entries:
                rewrite_entry(e, cd, val, lv, C)
            self.fact(forall(lv, Implies(ctx.mem, C == val)))
            card = dom.card if dom.card is not None else self.card(dom.sh, dom.mem)
            if dom.lo is not None:
                card = If(dom.hi > dom.lo, dom.hi - dom.lo, IntVal(0))
            fr.loc[n] = simplify(v0 + card)
            return
        end = self.fresh("I", "count_" + n)
        self.fact(end >= v0)
        if len(sites) == 1:
            ctx.counters.append((sites[0][0], And(sites[0][1], sites[0][2]), v0, end))
        m = self.fresh_flat("I", "m")[0]
        alts = []
        for b, ms, cond, pre in sites:
            self.fact(forall(b, Implies(And(ms, cond), And(v0 <= pre, pre < end))))
            W = self.fresh_fun("I", tuple(shape_of(x) for x in b), "visit")
            w = leaves(W(m))
            s = list(zip(b, w))
            alts.append(And(substitute(ms, *s), substitute(bexpr(cond), *s), substitute(pre, *s) == m))
            if len(sites) == 1:
                self.inverses[pre.decl().name()] = ("counter", b, W, v0, end, And(ms, cond), pre)
                self.fact(forall(b, Implies(And(ms, cond), conj([x == y for x, y in zip(leaves(W(pre)), b)]))))
        if sites:
            self.fact(forall([m], Implies(And(v0 <= m, m < end), disj(alts))))
        else:
            self.fact(end == v0)
        # range of the value seen at any time, whether it increments or not
        self.fact(forall(lv, Implies(ctx.mem, And(v0 <= C, C <= end))))
        for i in range(len(sites)):
            for j in range(i, len(sites)):
                b, ms, cond, pre = sites[i]
                b2, ms2, cond2, pre2 = sites[j]
                nb = [Const(self.uid("y"), x.sort()) for x in b2]
                s = list(zip(b2, nb))
                concl = conj([x == y for x, y in zip(b, nb)]) if i == j else BoolVal(False)
                self.fact(forall(b + nb, Implies(And(ms, cond, substitute(ms2, *s), substitute(bexpr(cond2), *s), pre == substitute(pre2, *s)), concl)))
        if dom.lo is not None and len(sites) == 1 and len(sites[0][0]) == 1:
            b, ms, cond, pre = sites[0]
            y = Const(self.uid("y"), IntSort())
            s = [(b[0], y)]
            self.fact(forall(b + [y], Implies(And(ms, cond, substitute(ms, *s), b[0] < y), pre < substitute(C, *s))))
            self.fact(forall(b + [y], Implies(And(ms, substitute(ms, *s), b[0] <= y), C <= substitute(C, *s))))
            if pre.eq(C) and not self.bound:
                cf = lambda z: substitute(cond, (b[0], z))
                self.fact(forall(b, Implies(ms, C == v0 + self.rank(dom.lo, cf, b[0]))))
                self.fact(end == v0 + self.rank(dom.lo, cf, dom.hi))
        fr.loc[n] = end

    def rank(self, lo, cond, x):
        """number of i in lo..x-1 satisfying cond"""
        y, X = self.fresh_flat(("I", "I"), "y")
        return substitute(self.sum([y], And(lo <= y, y < X, bexpr(cond(y))), IntVal(1)), (X, lift(x, "I")))

    # ---------------------------------------------------------------------------------------- resolution helpers
    def addhav(self, o, kind, f):
        self.havreg.append((o, kind, f, len(self.loops)))

    def havs(self, o, kind):
        return [f for oo, k, f, _ in self.havreg if oo is o and k == kind]

    def solve_keys(self, bound, key, Q, cond):
        """solve key(bound) = Q for the bound variables under cond; returns (substitution, side conditions, unresolved)"""
        unres = {b.get_id(): b for b in bound}
        pairs, side = [], []
        todo = list(zip(key, Q))
        dep = lambda e: any(c.get_id() in unres for c in consts_of(e))
        valid_here = lambda c: self.implied_under([bexpr(cond)], c)
        tried = set()
        progress = True
        while progress and unres:
            progress = False
            for kq in list(todo):
                k, q = kq
                off = None
                kk = k
                if is_expr(k) and is_int(k) and z3.is_add(k) and k.num_args() == 2:
                    a, b_ = k.children()
                    if not dep(a):
                        kk, off = b_, a
                    elif not dep(b_):
                        kk, off = a, b_
                qq = q - off if off is not None else q
                if kk.get_id() in unres:
                    v = unres.pop(kk.get_id())
                    pairs.append((v, qq))
                    todo.remove(kq)
                    progress = True
                    break
                if z3.is_app(kk) and kk.decl().name() in self.inverses and kk.num_args() and dep(kk):
                    inv = self.inverses[kk.decl().name()]
                    args = kk.children()
                    if inv[0] == "counter":
                        _, b, W, lo, hi, c0, pre = inv
                        if not (len(args) == len(b) and all(x.eq(y) for x, y in zip(pre.children(), b))):
                            continue
                        if kk.get_id() in tried:
                            continue
                        tried.add(kk.get_id())
                        if not valid_here(substitute(c0, *zip(b, args))):
                            continue
                        todo.remove(kq)
                        todo += list(zip(args, leaves(W(qq))))
                        side.append(And(lo <= qq, qq < hi))
                        progress = True
                        break
                    elif inv[0] == "bij":
                        # component idx of a tuple-valued bijection
                        _, decls, inverse, valid, argvalid = inv
                        comp = {}
                        for k2, q2 in todo:
                            if z3.is_app(k2) and k2.decl().name() in decls and len(k2.children()) == len(args) and all(x.eq(y) for x, y in zip(k2.children(), args)):
                                comp.setdefault(k2.decl().name(), (k2, q2))
                        if off is not None and len(decls) == 1:
                            comp = {decls[0]: (k, qq)}
                        if len(comp) != len(decls) or kk.get_id() in tried:
                            continue
                        tried.add(kk.get_id())
                        if not valid_here(argvalid(*args)):
                            continue
                        qs = [comp[d][1] for d in decls]
                        for d in decls:
                            todo.remove(next(t for t in todo if t[0] is comp[d][0]))
                        todo += list(zip(args, leaves(inverse(*qs))))
                        side.append(valid(*qs))
                        progress = True
                        break
        rest = [(k, q) for k, q in todo]
        return pairs, side, rest, list(unres.values())

    def elim(self, bound, cond, key, ksh, name="vis"):
        """closed form of  q |-> exists bound. cond and key(bound) = q ; plus a witness function"""
        Q = [Const(self.uid("q"), SORTS[s]) for s in flat_shape(ksh)]
        pairs, side, rest, unres = self.solve_keys(bound, key, Q, cond)
        ck = None
        if not unres:
            f = conj(side + [substitute(bexpr(cond), *pairs)] + [substitute(k, *pairs) == q for k, q in rest])
            wit = [substitute(b, *pairs) for b in bound]
        else:
            ck = (tuple(b.get_id() for b in bound), simplify(bexpr(cond)).sexpr(), tuple(k.get_id() for k in key), str(ksh))
        if ck is not None and self.cur_ctx is not None and ck in self.cur_ctx.elims:
            _, Q, f, wit = self.cur_ctx.elims[ck]
        elif ck is not None:
            vis = self.fresh_fun(ksh, "B", name)
            W = self.fresh_fun(ksh, tuple(shape_of(b) for b in bound), "w")
            qq = unflat(Q, ksh)
            w = leaves(W(qq))
            s = list(zip(bound, w))
            self.fact(forall(Q, Implies(vis(qq), conj([substitute(bexpr(cond), *s)] + [substitute(k, *s) == q for k, q in zip(key, Q)]))))
            self.fact(forall(bound, Implies(cond, vis(unflat(key, ksh)))))
            f, wit = vis(qq), w
            if self.cur_ctx is not None:
                self.cur_ctx.elims[ck] = (list(key) + list(bound), Q, f, wit)
        Qs = Q

        def form(q):
            return substitute(f, *zip(Qs, flat(q, ksh)))

        def witness(q):
            ps = list(zip(Qs, flat(q, ksh)))
            return [substitute(x, *ps) for x in wit]
        return form, witness

    def strip_self(self, e):
        return e

    def resolve_pred(self, ksh, p0, es, keyf, hvs):
        """predicate after the loop: p0 or inserted; axioms for the intermediate predicates hvs"""
        hnames = {d.name() for h in hvs for d in h.decls}
        merged = {}
        for e in es:
            key = keyf(e)
            kid = (tuple(b.get_id() for b in e.bound), tuple(k.get_id() for k in key))
            lits, first = [], None
            for l in e.lits:
                a = l.arg(0) if z3.is_not(l) else None
                if a is not None and z3.is_app(a) and a.decl().name() in hnames:
                    args = a.children()
                    if len(args) >= len(key) and all(x.eq(y) for x, y in zip(args[len(args) - len(key):], key)):
                        first = a
                        continue
                lits.append(l)
            merged.setdefault(kid, []).append((e, key, lits, first))
        infos, outs = [], []
        for g in merged.values():
            e0, key, _, _ = g[0]
            firsts = [f for *_, f in g]
            first = firsts[0] if all(f is not None and f.eq(firsts[0]) for f in firsts if True) else None
            cond = disj_paths([l for _, _, l, _ in g])
            val = g[-1][0].val
            if len(g) > 1 and e0.op != "append":
                for e, _, l, _ in reversed(g[:-1]):
                    if e.val is not val and e.val is not None:
                        val = merge(conj(l), e.val, val)
            m = Entry(e0.o, e0.op, e0.key, val, bound=e0.bound, mems=e0.mems, lits=[simplify(cond)] if not is_true(cond) else [])
            m.first = first
            form, wit = self.elim(m.bound, m.cond, key, ksh)
            infos.append((m, form, wit))
            outs.append((m, key, form))

        def p1(q):
            return disj([p0(q)] + [f(q) for _, _, f in outs])
        if self.cur_ctx is not None and len(infos) == 1 and infos[0][0].first is not None:
            self.cur_ctx.firsts.append((infos[0][0], ksh, p0, p1))
        if hvs:
            q = self.fresh_flat(ksh, "q")
            qq = unflat(q, ksh)
            for h in hvs:
                self.fact(forall(h.params + q, Implies(p0(qq), h(qq))))
                self.fact(forall(h.params + q, Implies(h(qq), p1(qq))))
            if any(m.first is not None for m, _, _ in outs):
                firsts = []
                for m, key, form in outs:
                    F = self.fresh_fun(ksh, "B", "first")
                    W = self.fresh_fun(ksh, tuple(shape_of(b) for b in m.bound), "visitor")
                    w = leaves(W(qq))
                    s = list(zip(m.bound, w))
                    cs = [substitute(m.cond, *s)] + [substitute(k, *s) == x for k, x in zip(key, q)] + [neg(p0(qq))]
                    if m.first is not None:
                        cs.append(neg(substitute(m.first, *s)))
                    self.fact(forall(q, Implies(F(qq), conj(cs))))
                    kk = unflat(key, ksh)
                    if m.first is not None:
                        self.fact(forall(m.bound, Implies(And(m.cond, neg(m.first)), conj([F(kk)] + [x == y for x, y in zip(leaves(W(kk)), m.bound)]))))
                    firsts.append(F)
                    m.F, m.W = F, W
                self.fact(forall(q, Implies(And(p1(qq), neg(p0(qq))), disj([F(qq) for F in firsts]))))
                for i in range(len(firsts)):
                    for j in range(i):
                        self.fact(forall(q, neg(And(firsts[i](qq), firsts[j](qq)))))
        return p1, infos

    def deletions(self, ksh, p0, h, infos, w):
        """the membership predicate h seen inside a loop that only deletes"""
        q = self.fresh_flat(ksh, "q")
        qq = unflat(q, ksh)
        self.fact(forall(h.params + q, Implies(h(qq), bexpr(p0(qq)))))
        self.fact(forall(h.params + q, Implies(And(p0(qq), neg(w(qq))), h(qq))))
        if len(infos) == 1:
            m = infos[0][0]
            key = flat(m.key, ksh)
            Q = [Const(self.uid("q"), SORTS[s]) for s in flat_shape(ksh)]
            if not self.solve_keys(m.bound, key, Q, m.cond)[3] and [x.get_id() for x in m.bound] == [x.get_id() for x in h.params]:
                # every key is deleted by one element only, so it is still there when its turn comes
                kk = unflat(key, ksh)
                self.fact(forall(m.bound, Implies(conj(m.mems), h(kk) == bexpr(p0(kk)))))

    def resolve_val(self, ksh, vsh, val0, infos):
        """value function after the loop"""
        if not infos:
            return val0
        if len(infos) == 1:
            m, form, wit = infos[0]
            v = lift(m.val, vsh)
            if m.first is not None and hasattr(m, "W"):
                F, W = m.F, m.W

                def val(q):
                    s = list(zip(m.bound, leaves(W(lift(q, ksh)))))
                    return merge(F(lift(q, ksh)), sub(v, s), val0(q))
            else:
                ka = self.by_key(m, ksh, v, vsh)

                def val(q):
                    if ka is not None:
                        return merge(form(q), ka(q), val0(q))
                    s = list(zip(m.bound, wit(q)))
                    return merge(form(q), sub(v, s), val0(q))
            return val
        nv = self.fresh_fun(ksh, vsh, "nv")
        q = self.fresh_flat(ksh, "q")
        qq = unflat(q, ksh)
        alts, forms = [], []
        for m, form, wit in infos:
            if m.first is not None and hasattr(m, "W"):
                f, w = m.F(qq), leaves(m.W(qq))
            else:
                f, w = form(qq), wit(qq)
            alts.append(conj([f, eqv(nv(qq), sub(lift(m.val, vsh), list(zip(m.bound, w))))]))
            forms.append(f)
        self.fact(forall(q, Implies(disj(forms), disj(alts))))
        self.fact(forall(q, Implies(neg(disj(forms)), eqv(nv(qq), val0(qq)))))
        return nv

    def by_key(self, m, ksh, v, vsh):
        """the value as a function of the key alone, when it depends on the loop variables only through the key"""
        if not self.plain(v):
            return None
        key = flat(m.key, ksh) if m.key is not None else []
        Q = [Const(self.uid("q"), SORTS[s]) for s in flat_shape(ksh)]
        if not key or any(k.num_args() == 0 and not any(k.eq(b) for b in m.bound) for k in key):
            return None
        ids = {b.get_id() for b in m.bound}
        vs = [substitute(x, *zip(key, Q)) for x in flat(v, vsh)]
        if any(c.get_id() in ids for x in vs for c in consts_of(x)):
            return None
        return lambda q: unflat([substitute(x, *zip(Q, flat(lift(q, ksh), ksh))) for x in vs], vsh)

    def keys_injective(self, infos, ksh, dom0):
        """True when every key is written at most once, by construction of the keys"""
        if len(infos) != 1:
            return False
        m, form, wit = infos[0]
        q = self.generic(ksh)
        if not is_false(simplify(dom0(q))):
            return False
        key = flat(m.key, ksh)
        Q = [Const(self.uid("q"), SORTS[s]) for s in flat_shape(ksh)]
        return not self.solve_keys(m.bound, key, Q, m.cond)[3]

    def oblig_same(self, infos, ksh, vsh, dom0, val0):
        """every write to a key stores the same value (so that no value of a bidict is ever replaced)"""
        for i, (m, _, _) in enumerate(infos):
            key, v = flat(m.key, ksh), lift(m.val, vsh)
            nb = [Const(self.uid("y"), x.sort()) for x in m.bound]
            s = list(zip(m.bound, nb))
            self.oblig("a key written again keeps its value", Implies(And(m.cond, substitute(m.cond, *s), conj([k == substitute(k, *s) for k in key])),
                                                                      eqv(v, sub(v, s))))
            self.oblig("no value of an existing key is changed", Implies(And(m.cond, dom0(unflat(key, ksh))), eqv(v, val0(unflat(key, ksh)))))
            for m2, _, _ in infos[:i]:
                nb = [Const(self.uid("y"), x.sort()) for x in m2.bound]
                s = list(zip(m2.bound, nb))
                self.oblig("a key written again keeps its value", Implies(And(m.cond, substitute(m2.cond, *s), conj([k == substitute(k2, *s) for k, k2 in zip(key, flat(m2.key, ksh))])),
                                                                          eqv(v, sub(lift(m2.val, vsh), s))))

    def increment(self, val, happs, hvs):
        names = {d.name() for h in hvs for d in h.decls}
        for h in happs:
            if not is_expr(h) or not is_expr(val):
                continue
            z, o = (RealVal(0), RealVal(1)) if is_real(h) else (IntVal(0), IntVal(1))
            if h.decl().name() not in decls_in(val):
                continue
            a = simplify(substitute(val, (h, z)))
            b = simplify(substitute(val, (h, o)) - substitute(val, (h, z)))
            if (z3.is_rational_value(b) and b.as_fraction() == 1 or z3.is_int_value(b) and b.as_long() == 1) and not (names & decls_in(a)):
                return a
        return None

    def sum_by_key(self, bound, cond, key, d):
        Q = Const(self.uid("q"), IntSort())
        pairs, side, rest, unres = self.solve_keys(bound, [key], [Q], cond)
        c = conj(side + [substitute(bexpr(cond), *pairs)] + [substitute(k, *pairs) == q for k, q in rest])
        s = self.sum(unres, c, substitute(d, *pairs))
        return lambda q: substitute(s, (Q, lift(q, "I")))

    # ---------------------------------------------------------------------------------------- sums, cardinalities
    def _register(self, table, prefix, bound, body, rsort):
        canon = [Const("b:%d:%s" % (i, b.sort()), b.sort()) for i, b in enumerate(bound)]
        cb = substitute(body, *zip(bound, canon)) if bound else body
        cids = {c.get_id() for c in canon}
        params = [c for c in consts_of(cb) if c.get_id() not in cids and not c.decl().name().startswith("str:") and c.decl().name() != "float:inf"]
        pc = [Const("p:%d:%s" % (i, p.sort()), p.sort()) for i, p in enumerate(params)]
        cb = substitute(cb, *zip(params, pc)) if params else cb
        key = (tuple(str(b.sort()) for b in bound), cb.sexpr())
        if key not in table:
            nm = "%s%d" % (prefix, len(table))
            d = Function(nm, *[p.sort() for p in params], rsort) if params else Const(nm, rsort)
            table[key] = (d, pc, canon, cb)
        d = table[key][0]
        return d(*params) if params else d

    def sum(self, bound, cond, term):
        """sum of term over the bound variables with cond, in a normal form (linearity, one-point and constant rules)"""
        cond = simplify(bexpr(cond))
        if not is_expr(term):
            term = lift(term, shape_of(term))
        term = simplify(term)
        return simplify(self._sum(list(bound), conjuncts(cond), term))

    def _sum(self, bound, cs, term):
        r = is_real(term)
        zero = RealVal(0) if r else IntVal(0)
        num = lambda e: z3.is_rational_value(e) or z3.is_int_value(e)
        isz = lambda e: num(e) and (e.as_fraction() if z3.is_rational_value(e) else e.as_long()) == 0
        if isz(term) or any(is_false(c) for c in cs):
            return zero
        ids = {b.get_id() for b in bound}
        dep = lambda e: any(c.get_id() in ids for c in consts_of(e))
        if not bound:
            c = conj(cs)
            return term if is_true(c) else If(c, term, zero)
        free = [c for c in cs if not dep(c)]
        if free:
            return If(conj(free), self._sum(bound, [c for c in cs if dep(c)], term), zero)
        # one-point rule
        for c in cs:
            p = self._point(c, bound)
            if p is not None:
                b, e = p
                rest = [x for x in cs if x is not c]
                cs2 = [y for x in rest for y in conjuncts(simplify(substitute(x, (b, e))))]
                return self._sum([x for x in bound if x is not b], cs2, simplify(substitute(term, (b, e))))
        # structure of the term
        if z3.is_app(term):
            k = term.decl().kind()
            if k == z3.Z3_OP_ADD:
                return sum((self._sum(bound, cs, t) for t in term.children()), zero)
            if k == z3.Z3_OP_SUB:
                a, *bs = term.children()
                return self._sum(bound, cs, a) - sum((self._sum(bound, cs, t) for t in bs), zero)
            if k == z3.Z3_OP_UMINUS:
                return -self._sum(bound, cs, term.arg(0))
            if k == z3.Z3_OP_MUL:
                out = [t for t in term.children() if not dep(t)]
                ins = [t for t in term.children() if dep(t)]
                if out:
                    f = out[0]
                    for t in out[1:]:
                        f = f * t
                    g = None
                    for t in ins:
                        g = t if g is None else g * t
                    if g is None:
                        g = RealVal(1) if r else IntVal(1)
                    return f * self._sum(bound, cs, g)
                for n, t in enumerate(ins):
                    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
                        oth = ins[:n] + ins[n + 1:]
                        mk = lambda x: simplify(z3.Product(*([x] + oth)))
                        return self._sum(bound, cs, If(t.arg(0), mk(t.arg(1)), mk(t.arg(2))))
                    if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
                        t2 = simplify(term, som=True)
                        if not t2.eq(term):
                            return self._sum(bound, cs, t2)
            if k == z3.Z3_OP_TO_REAL and z3.is_app(term.arg(0)) and term.arg(0).decl().kind() == z3.Z3_OP_ITE:
                t = term.arg(0)
                return self._sum(bound, cs, If(t.arg(0), simplify(ToReal(t.arg(1))), simplify(ToReal(t.arg(2)))))
            if k == z3.Z3_OP_ITE:
                c, a, b = term.children()
                if not dep(c):
                    return If(c, self._sum(bound, cs, a), self._sum(bound, cs, b))
                cc = simplify(c)
                if isz(b):
                    return self._sum(bound, cs + conjuncts(cc), a)
                nc = simplify(neg(c))
                if isz(a):
                    ps = self._point(cc, bound)
                    if ps is not None:
                        return self._sum(bound, cs, b) - self._sum(bound, cs + [cc], b)
                    return self._sum(bound, cs + conjuncts(nc), b)
                if any(self._point(x, bound) is not None for x in conjuncts(cc)):
                    return self._sum(bound, cs + conjuncts(cc), a) + self._sum(bound, cs, b) - self._sum(bound, cs + conjuncts(cc), b)
                if any(self._point(x, bound) is not None for x in conjuncts(nc)):
                    return self._sum(bound, cs + conjuncts(nc), b) + self._sum(bound, cs, a) - self._sum(bound, cs + conjuncts(nc), a)
        # a negated equation among the conditions
        for c in cs:
            if z3.is_not(c) and self._point(c.arg(0), bound) is not None:
                rest = [x for x in cs if x is not c]
                return self._sum(bound, rest, term) - self._sum(bound, rest + [c.arg(0)], term)
        # constant terms over an interval are left to the registry
        pre = [Const("z:%d:%s" % (i, b.sort()), b.sort()) for i, b in enumerate(bound)]
        uniq = {}
        for c in cs:
            uniq.setdefault(substitute(c, *zip(bound, pre)).sexpr(), c)
        cs = [uniq[k] for k in sorted(uniq)]
        body = If(conj(cs), term, zero) if cs else term
        return self._register(self.sums, "SUM", bound, body, RealSort() if r else IntSort())

    def _point(self, c, bound):
        if z3.is_eq(c):
            for x, y in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                for b in bound:
                    if x.eq(b) and b.decl().name() not in decls_in(y):
                        return b, y
            if is_int(c.arg(0)):
                for b in bound:
                    nm = b.decl().name()
                    if nm in decls_in(c):
                        d = c.arg(0) - c.arg(1)
                        for e in (simplify(b - d), simplify(b + d)):
                            if nm not in decls_in(e):
                                return b, e
        return None

    def card(self, sh, mem):
        b = self.fresh_flat(sh, "b")
        body = simplify(bexpr(mem(unflat(b, sh))))
        if is_false(body):
            return IntVal(0)
        # 0 <= b < n
        if len(b) == 1 and sh == "I":
            hi = range_of(body, b[0])
            if hi is not None:
                lo, hi = hi
                return simplify(If(hi > lo, hi - lo, IntVal(0)))
        return self._register(self.cards, "CARD", b, body, IntSort())

    def enumeration(self, d):
        """position function and its inverse for the (finite) iteration domain"""
        if d.pos is not None and d.at is not None:
            return d.pos, d.at, d.card if d.card is not None else self.card(d.sh, d.mem)
        b = self.fresh_flat(d.sh, "b")
        k = unflat(b, d.sh)
        canon = [Const("b:%d:%s" % (i, x.sort()), x.sort()) for i, x in enumerate(b)]
        key = (str(d.sh), substitute(simplify(bexpr(d.mem(k))), *zip(b, canon)).sexpr())
        if key not in self.enums:
            pos = self.fresh_fun(d.sh, "I", "pos")
            at = self.fresh_fun("I", d.sh, "nth")
            n = self.card(d.sh, d.mem)
            self.fact(forall(b, Implies(d.mem(k), And(0 <= pos(k), pos(k) < n, eqv(at(pos(k)), k)))))
            m = self.fresh_flat("I", "m")[0]
            self.fact(forall([m], Implies(And(0 <= m, m < n), And(d.mem(at(m)), pos(at(m)) == m))))
            self.enums[key] = (pos, at, n)
            if not pos.params:
                self.inverses[pos.decls[0].name()] = ("bij", [pos.decls[0].name()], lambda q: at(q), lambda q: And(0 <= q, q < n), lambda *a: d.mem(unflat(list(a), d.sh)))
        return self.enums[key]

    def setop(self, op, a, b):
        from objs import SetV
        sh = a.sh or getattr(b, "sh", None)
        if isinstance(b, View):
            ps = b.iterate()
            fs = []
            sh = sh
            if b._c is None:
                raise Unsupported("set operation on view")
            bm = lambda q: b.contains(q)
        else:
            bm = b.mem if getattr(b, "sh", None) is not None else (lambda q: BoolVal(False))
        am = a.mem if a.sh is not None else (lambda q: BoolVal(False))
        f = {"|": lambda q: disj([am(q), bm(q)]), "&": lambda q: conj([am(q), bm(q)]), "-": lambda q: conj([am(q), neg(bm(q))])}[op]
        return SetV(self, sh, f)

    def slice_bounds(self, s, n):
        def norm(x, dflt):
            if x is None:
                return dflt
            if isinstance(x, int):
                if x < 0:
                    if not self.decide(n + x >= 0):
                        return IntVal(0)
                    return simplify(n + x)
                x = IntVal(x)
            x = lift(x, "I")
            if not self.decide(x >= 0):
                raise Unsupported("negative slice bound")
            if not self.decide(x <= n):
                return n
            return x
        lo, hi = norm(s.lo, IntVal(0)), norm(s.hi, n)
        if not self.decide(lo <= hi):
            hi = lo
        return lo, hi

    # ---------------------------------------------------------------------------------------- expressions
    def eval(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def name(self, n, fr):
        f = fr
        while f is not None:
            if n in f.loc:
                v = f.loc[n]
                if isinstance(v, Poison):
                    raise Unsupported(v.why)
                return v
            f = f.up
        return self.global_lookup(fr.mod, n)

    def e_Name(self, e, fr):
        if e.id == "super":
            cls = fr.cls
            return lambda *a: Super(a[0] if a else cls, a[1] if a else fr.loc[fr.fn.node.args.args[0].arg])
        return self.name(e.id, fr)

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), self.mangle(e.attr, fr))

    def e_Tuple(self, e, fr):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                for k, v in self.iterate(self.eval(x.value, fr)):
                    if k != "one":
                        raise Unsupported("star of unbounded list")
                    out.append(v)
            else:
                out.append(self.eval(x, fr))
        return tuple(out)

    def e_List(self, e, fr):
        ps = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                ps += self.iterate(self.eval(x.value, fr))
            else:
                ps.append(("one", self.eval(x, fr)))
        return BagV(self, ps)

    def e_Set(self, e, fr):
        s = SetV(self)
        for x in e.elts:
            s.add(self.eval(x, fr))
        s.elts = None
        return s

    def e_Dict(self, e, fr):
        if not e.keys:
            return AnyDict(self)
        if all(isinstance(k, ast.Constant) or k is None for k in e.keys) :
            d = {}
            for k, v in zip(e.keys, e.values):
                if k is None:
                    w = self.eval(v, fr)
                    if isinstance(w, Opaque):
                        return Opaque("dict")
                    if not isinstance(w, CDict):
                        raise Unsupported("dict display")
                    d.update(w.d)
                else:
                    d[k.value] = self.eval(v, fr)
            return CDict(d)
        d = AnyDict(self)
        vals = [(self.eval(k, fr), self.eval(v, fr)) for k, v in zip(e.keys, e.values)]
        if any(not is_scalar(v) and not isinstance(v, (SetV, SetView)) for _, v in vals) or all(isinstance(k, (str, Named)) for k, _ in vals):
            return CDict(dict(vals))
        for k, v in vals:
            d.setitem(k, v)
        return d

    def e_IfExp(self, e, fr):
        c = self.truth(self.eval(e.test, fr))
        c = bexpr(c) if not isinstance(c, bool) else c
        if isinstance(c, bool):
            return self.eval(e.body if c else e.orelse, fr)
        c = simplify(c)
        if is_true(c) or is_false(c):
            return self.eval(e.body if is_true(c) else e.orelse, fr)
        r = self.pure2(c, lambda: self.eval(e.body, fr), lambda: self.eval(e.orelse, fr))
        if r is not None:
            return r[0]
        return self.eval(e.body if self.decide(c) else e.orelse, fr)

    def pure2(self, c, f, g):
        """evaluate both branches without splitting; None if impossible"""
        n = len(self.pc)
        nobj = len(self.objs)
        pos, pl, al = self.trace.pos, list(self.trace.prefix), list(self.trace.alts)
        nlog = len(self.loops[-1].log) if self.loops else 0
        self.nosplit += 1
        ok = False
        try:
            facts = []
            self.pc.append(("L", c))
            a = f()
            facts += [(c, x) for _, x in self.pc[n + 1:]]
            del self.pc[n:]
            self.pc.append(("L", neg(c)))
            b = g()
            facts += [(neg(c), x) for _, x in self.pc[n + 1:]]
            del self.pc[n:]
            r = merge(c, a, b)
            ok = True
            for h, x in facts:
                self.fact(Implies(h, x))
            return (r,)
        except (NeedSplit, SymRaise, Unsupported, Infeasible):
            return None
        finally:
            self.nosplit -= 1
            if not ok:
                del self.pc[n:]
                self.trace.pos, self.trace.prefix, self.trace.alts = pos, pl, al
                if self.loops:
                    del self.loops[-1].log[nlog:]

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = self.eval(e.values[0], fr)
        for nxt in e.values[1:]:
            t = self.truth(v)
            if isinstance(t, bool):
                if t != isand:
                    return v
                v = self.eval(nxt, fr)
                continue
            t = simplify(t)
            if is_true(t) or is_false(t):
                if is_true(t) != isand:
                    return v
                v = self.eval(nxt, fr)
                continue
            if is_expr(v) and is_bool(v):
                def rhs():
                    w = self.eval(nxt, fr)
                    w = bexpr(self.truth(w)) if not (is_expr(w) and is_bool(w)) else w
                    return w
                if isand:
                    r = self.pure2(t, rhs, lambda: BoolVal(False))
                else:
                    r = self.pure2(t, lambda: BoolVal(True), rhs)
                if r is not None:
                    v = simplify(r[0]) if is_expr(r[0]) else r[0]
                    continue
            if self.decide(t):
                if not isand:
                    return True if is_expr(v) and is_bool(v) else v
            elif isand:
                return False if is_expr(v) and is_bool(v) else v
            v = self.eval(nxt, fr)
        return v

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else neg(t)
        if isinstance(e.op, ast.USub):
            if isinstance(v, (int, float)):
                return -v
            if is_expr(v):
                return -(v if not is_bool(v) else lift(v, "I"))
            return self.lib.neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            return self.lib.invert(v)
        raise Unsupported("unary operator")

    def e_BinOp(self, e, fr):
        return self.binop(e.op, self.eval(e.left, fr), self.eval(e.right, fr))

    def binop(self, op, a, b):
        return self.lib.binop(op, a, b)

    def e_Compare(self, e, fr):
        l = self.eval(e.left, fr)
        out = []
        for op, r in zip(e.ops, e.comparators):
            rv = self.eval(r, fr)
            out.append(self.compare(op, l, rv))
            l = rv
        if len(out) == 1:
            return out[0]
        if all(isinstance(x, bool) for x in out):
            return all(out)
        return conj(out)

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            if a is None or b is None:
                r = a is None and b is None
                if is_expr(a) or is_expr(b):
                    r = self.lib.is_none(a if is_expr(a) else b)
                for x in (a, b):
                    if isinstance(x, Opt):
                        r = x.none
            elif isinstance(a, Named) or isinstance(b, Named):
                r = a == b
            elif isinstance(a, (bool,)) or isinstance(b, bool):
                return self.compare(ast.Eq() if isinstance(op, ast.Is) else ast.NotEq(), a, b)
            else:
                r = a is b
            if isinstance(r, bool):
                return r if isinstance(op, ast.Is) else not r
            return r if isinstance(op, ast.Is) else neg(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            if isinstance(r, bool):
                return r if isinstance(op, ast.In) else not r
            return r if isinstance(op, ast.In) else neg(r)
        return self.lib.compare(op, a, b)

    def contains(self, c, k):
        if isinstance(c, Inst):
            m = c.cls.find(self, "__contains__")
            if m:
                return self.truth(self.call(m[0], [c, k]))
        if isinstance(c, tuple):
            return disj_py([self.lib.compare(ast.Eq(), k, x) for x in c])
        if isinstance(c, CDict):
            return c.contains(k)
        if isinstance(c, str) and isinstance(k, str):
            return k in c
        if isinstance(c, BagV) and c.concrete() is not None:
            return disj_py([self.lib.compare(ast.Eq(), k, x) for x in c.concrete()])
        if hasattr(c, "contains"):
            r = c.contains(k)
            if is_expr(r):
                r = simplify(r)
                if is_true(r) or is_false(r):
                    return is_true(r)
            return r
        raise Unsupported("in %s" % type(c).__name__)

    def index(self, s, fr):
        if isinstance(s, ast.Slice):
            if s.step is not None:
                raise Unsupported("slice step")
            return SliceV(self.eval(s.lower, fr) if s.lower else None, self.eval(s.upper, fr) if s.upper else None)
        if isinstance(s, ast.Tuple):
            return tuple(self.index(x, fr) for x in s.elts)
        return self.eval(s, fr)

    def e_Subscript(self, e, fr):
        return self.getitem(self.eval(e.value, fr), self.index(e.slice, fr))

    def getitem(self, o, k):
        if isinstance(o, tuple):
            if isinstance(k, SliceV):
                return o[k.lo:k.hi]
            if isinstance(k, int):
                if -len(o) <= k < len(o):
                    return o[k]
                raise SymRaise("IndexError")
            raise Unsupported("symbolic tuple index")
        if isinstance(o, Inst):
            m = o.cls.find(self, "__getitem__")
            if m:
                return self.call(m[0], [o, k])
        if isinstance(o, CDict) and is_expr(k):
            for kk, v in o.d.items():
                c = self.lib.compare(ast.Eq(), k, kk)
                if self.decide(bexpr(c)):
                    return v
            raise SymRaise("KeyError")
        if isinstance(o, (HeapObj, SetView, View, InvView)) or hasattr(o, "getitem"):
            return o.getitem(k)
        if isinstance(o, Opaque):
            return Opaque(o.what + "[]")
        if isinstance(o, str) and isinstance(k, int):
            return o[k]
        raise Unsupported("subscript of %s" % type(o).__name__)

    def setitem(self, o, k, v):
        if isinstance(o, Inst):
            m = o.cls.find(self, "__setitem__")
            if m:
                return self.call(m[0], [o, k, v])
        if isinstance(o, (HeapObj, SetView, View, InvView)) or hasattr(o, "setitem"):
            return o.setitem(k, v)
        raise Unsupported("item assignment on %s" % type(o).__name__)

    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) and isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == "super":
            sup = self.e_Name(e.func.value.func, fr)(*[self.eval(a, fr) for a in e.func.value.args])
            f = self.getattr(sup, e.func.attr)
        else:
            f = self.eval(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, fr)
                for k, x in self.iterate(v):
                    if k != "one":
                        raise Unsupported("star argument")
                    args.append(x)
            else:
                args.append(self.eval(a, fr))
        kw = {}
        for k in e.keywords:
            v = self.eval(k.value, fr)
            if k.arg is None:
                if isinstance(v, dict):
                    kw.update(v)
                elif isinstance(v, CDict):
                    kw.update(v.d)
                elif isinstance(v, AnyDict):
                    pass
                elif isinstance(v, (Opaque,)) or hasattr(v, "kwterm"):
                    kw["**"] = v
                else:
                    raise Unsupported("** argument")
            else:
                kw[k.arg] = v
        return self.call(f, args, kw)

    def e_Lambda(self, e, fr):
        return FuncV(e, fr.mod, None, up=fr, kind="function")

    def e_JoinedStr(self, e, fr):
        parts, args = [], []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(str(v.value).replace("%", "%%"))
            else:
                x = self.eval(v.value, fr)
                if v.format_spec is not None:
                    parts.append("%" + ast.unparse(v.format_spec).strip("f'\""))
                else:
                    parts.append("%s")
                args.append(x)
        return self.lib.fmt("".join(parts), args)

    def comp(self, e, fr, emit):
        """run the comprehension as nested loops calling emit() innermost"""
        sub_ = Frame(fr.fn, {}, fr.mod, fr.cls, fr)
        sub_.isc = True

        def go(i):
            if i == len(e.generators):
                return emit(sub_)
            g = e.generators[i]
            it = self.eval(g.iter, sub_ if i else fr)
            for kind, p in self.iterate(it):
                def body():
                    for c in g.ifs:
                        if not self.branch(self.eval(c, sub_)):
                            raise _Cont()
                    go(i + 1)
                if kind == "one":
                    self.assign(g.target, p, sub_)
                    try:
                        body()
                    except _Cont:
                        pass
                else:
                    self.domloop(sub_, p, lambda v: self.assign(g.target, v, sub_), body, target_names(g.target), e)
        go(0)

    def e_ListComp(self, e, fr):
        out = BagV(self)
        self.comp(e, fr, lambda f: out.append(self.eval(e.elt, f)))
        return out

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, fr):
        out = SetV(self)
        self.comp(e, fr, lambda f: out.add(self.eval(e.elt, f)))
        return out

    def e_DictComp(self, e, fr):
        out = AnyDict(self)

        def emit(f):
            v = self.eval(e.value, f)
            k = self.eval(e.key, f)
            out.setitem(k, v)
        self.comp(e, fr, emit)
        return out

    def e_Yield(self, e, fr):
        f = fr
        while f.gen is None:
            f = f.up
        v = self.eval(e.value, fr) if e.value is not None else None
        self.lib.on_yield(f, v)
        f.gen.append(v)
        return None


class CDict:
    """dict with concrete (string) keys"""

    def __init__(self, d):
        self.d = dict(d)

    def getitem(self, k):
        if isinstance(k, (str, Named, int)):
            if k in self.d:
                return self.d[k]
            raise SymRaise("KeyError")
        raise Unsupported("symbolic key")

    def setitem(self, k, v):
        self.d[k] = v

    def contains(self, k):
        if isinstance(k, (str, Named, int)):
            return k in self.d
        raise Unsupported("symbolic key")

    def iterate(self):
        return [("one", k) for k in self.d]

    def length(self):
        return len(self.d)

    def attr(self, name):
        if name == "items":
            return lambda: tuple(self.d.items())
        if name == "keys":
            return lambda: tuple(self.d)
        if name == "values":
            return lambda: tuple(self.d.values())
        if name == "copy":
            return lambda: CDict(self.d)
        if name == "get":
            return lambda k, dflt=None: self.d.get(k, dflt)
        raise Unsupported("dict.%s" % name)

    def isinst(self, names):
        return "dict" in names


def split_goal(g):
    """goal as a list of (extra hypotheses, goal)"""
    if z3.is_and(g):
        return [x for c in g.children() for x in split_goal(c)]
    if z3.is_implies(g):
        return [([g.arg(0)] + h, x) for h, x in split_goal(g.arg(1))]
    if z3.is_quantifier(g) and g.is_forall():
        n = g.num_vars()
        vs = [z3.FreshConst(g.var_sort(i), "sk") for i in range(n)]
        return split_goal(z3.substitute_vars(g.body(), *reversed(vs)))
    if z3.is_eq(g) and is_bool(g.arg(0)):
        a, b = g.children()
        return [([a] + h, x) for h, x in split_goal(b)] + [([b] + h, x) for h, x in split_goal(a)]
    return [([], g)]


def conjuncts(c):
    if z3.is_and(c):
        return [y for x in c.children() for y in conjuncts(x)]
    if is_true(c):
        return []
    if z3.is_not(c) and z3.is_or(c.arg(0)):
        return [y for x in c.arg(0).children() for y in conjuncts(neg(x))]
    return [c]


def disj_py(xs):
    if all(isinstance(x, bool) for x in xs):
        return any(xs)
    return disj(xs)


def rewrite_entry(e, decl, val, lv, C):
    """replace applications C(args) by val[lv := args]"""
    def rw(x):
        if isinstance(x, tuple):
            return tuple(rw(y) for y in x)
        if not is_expr(x) or decl.name() not in decls_in(x):
            return x
        if decl.arity() == 0:
            return substitute(x, (C, val))
        args = C.children()
        body = substitute(val, *[(a, z3.Var(i, a.sort())) for i, a in enumerate(args)])
        return simplify(z3.substitute_funs(x, (decl, body)))
    e.key, e.val = rw(e.key) if is_scalar(e.key) else e.key, rw(e.val) if e.val is not None and is_scalar(e.val) else e.val
    e.lits = [rw(l) for l in e.lits]
    e.mems = [rw(l) for l in e.mems]


def range_of(body, b):
    """lo, hi if body is  lo <= b < hi (up to simplification)"""
    lo, hi = None, None
    for c in (body.children() if z3.is_and(body) else [body]):
        n = False
        if z3.is_not(c):
            n, c = True, c.arg(0)
        if not (z3.is_le(c) or z3.is_ge(c)):
            return None
        x, y = c.children()
        le = z3.is_le(c)
        if y.eq(b):
            x, y, le = y, x, not le
        if not x.eq(b) or b.decl().name() in decls_in(y):
            return None
        if le and not n:
            hi = simplify(y + 1) if hi is None else None
            if hi is None:
                return None
        elif not le and n:
            hi = y
        elif not le and not n:
            lo = y
        else:
            lo = simplify(y + 1)
    if lo is None or hi is None:
        return None
    return lo, hi


def typed_empty(E, o, h):
    cls, st = h
    if o.__class__ is cls:
        for k in ("sh", "ksh", "vsh"):
            if k in o.__dict__ and o.__dict__[k] is None and st.get(k) is not None:
                o.__dict__[k] = st[k]
        return
    o.__class__ = cls
    o.ksh, o.vsh = st["ksh"], st["vsh"]
    o.dom = lambda q: BoolVal(False)
    if cls is RelDict:
        o.rel = lambda q: BoolVal(False)
    else:
        o.val = E.fresh_fun(o.ksh, o.vsh, "undef")
        o.idom = lambda q: BoolVal(False)
        o.ival = E.fresh_fun(o.vsh, o.ksh, "undef")
        o.enum = None


def same(a, b):
    if a is b:
        return True
    if is_scalar(a) and is_scalar(b):
        if isinstance(a, tuple) or isinstance(b, tuple):
            return isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
        if is_expr(a) and is_expr(b):
            return a.eq(b)
        if is_expr(a) or is_expr(b):
            return False
        return type(a) is type(b) and a == b
    return False


def kind_of(v, v0):
    try:
        if is_scalar(v) and is_scalar(v0) and not isinstance(v, tuple) and not isinstance(v0, tuple):
            s, s0 = shape_of(v), shape_of(v0)
            if s == s0 and s in "IRB":
                return s
            if {s, s0} == {"I", "R"}:
                return "R"
    except Unsupported:
        pass
    return "poison"


def has_quant(e):
    seen, todo = set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        todo.extend(x.children())
    return False


def is_generator(node):
    todo = list(node.body)
    while todo:
        s = todo.pop()
        if isinstance(s, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(s, (ast.Yield, ast.YieldFrom)):
            return True
        todo.extend(ast.iter_child_nodes(s))
    return False


def target_names(t):
    if isinstance(t, ast.Name):
        return [t.id]
    if isinstance(t, (ast.Tuple, ast.List)):
        return [n for x in t.elts for n in target_names(x)]
    return []


def unmangle(name, cls, E):
    if name.startswith("_"):
        for c in cls.mro(E):
            p = "_%s__" % c.name.lstrip("_")
            if name.startswith(p):
                return name[len(p) - 2:]
    return name
