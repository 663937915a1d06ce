"""heap objects and their loop resolution"""
from values import *
from values import NeedSplit, Entry, Domain


class SetV(HeapObj):
    STATE = ("sh", "mem", "hav", "elems", "size")
    PYTYPES = ("set",)

    def __init__(self, E, sh=None, mem=None):
        super().__init__(E)
        self.sh, self.mem, self.hav = sh, mem or (lambda q: BoolVal(False)), ()
        self.elems = [] if mem is None else None    # the elements added to an empty set, if known one by one
        self.alias = None
        self.size = None                              # (membership predicate, number of elements), valid while mem is that

    def has(self, k):
        if self.sh is None:
            return BoolVal(False)
        if not shape_ok(k, self.sh):
            return BoolVal(False)
        return self.mem(lift(k, self.sh))

    def add(self, k):
        if self.sh is None:
            self.sh = shape_of(k)
        k = lift(k, self.sh)
        self.log("add", k)
        if self.alias:
            self.alias[0].reladd(self.alias[1], k, self)
        old = self.mem
        self.mem = lambda q: disj([old(q), eqv(q, k)])
        self.elems = self.elems + [k] if self.elems is not None else None

    def discard(self, k):
        if self.sh is None:
            return
        k = lift(k, self.sh)
        self.log("discard", k)
        if self.alias:
            self.alias[0].relremove(self.alias[1], k, self)
        old = self.mem
        self.mem = lambda q: conj([old(q), neg(eqv(q, k))])
        self.elems = None

    def settle(self, other):
        if self.sh is None and other.get("sh") is not None:
            self.sh = other["sh"]

    def havoc(self):
        if self.sh is None:
            raise Unsupported("untyped set in loop")
        f = self.E.fresh_fun(self.sh, "B", "hset")
        self.hav = self.hav + (f,)
        self.mem = f
        self.elems = None

    def resolve(self, es, s0):
        if any(e.op != "add" for e in es):
            return self.forget(s0)
        self.sh = self.sh or s0["sh"]
        self.mem, _ = self.E.resolve_pred(self.sh, s0["mem"], es, lambda e: flat(e.key, self.sh), self.hav_all(es))
        self.hav = ()
        self.elems = None

    def hav_all(self, es):
        return self.E.havs(self, "mem")

    def forget(self, s0):
        f = self.E.fresh_fun(self.sh, "B", "imprecise")
        self.E.taint(f)
        self.mem, self.elems = f, None

    def copy(self):
        r = SetV(self.E, self.sh, self.mem)
        r.elems = self.elems
        return r

    def contains(self, k):
        return self.has(k)

    def iterate(self):
        if self.sh is None:
            return []
        return [("dom", Domain(self.sh, self.mem, name="e"))]

    def length(self):
        if self.sh is not None and self.elems:
            n = IntVal(0)
            for i, k in enumerate(self.elems):
                n = n + If(disj([eqv(k, x) for x in self.elems[:i]]), IntVal(0), IntVal(1))
            return simplify(n)
        if self.size is not None and self.size[0] is self.mem:
            return self.size[1]
        return 0 if self.sh is None else self.E.card(self.sh, self.mem)

    def attr(self, name):
        return set_attr(self, name)


def shape_ok(k, sh):
    try:
        lift(k, sh)
        s = shape_of(k)
    except Unsupported:
        return False
    num = {"I", "R", "B"}

    def ok(a, b):
        if isinstance(a, tuple) or isinstance(b, tuple):
            return isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and all(ok(x, y) for x, y in zip(a, b))
        return a == b or (a in num and b in num)
    return ok(s, sh)


def set_attr(o, name):
    E = o.E if hasattr(o, "E") else o.d.E
    if name == "add":
        return lambda k: o.add(k)
    if name == "copy":
        return lambda: o.copy()
    if name in ("discard", "remove"):
        def rm(k):
            if name == "remove" and not E.decide(o.has(k)):
                raise SymRaise("KeyError")
            o.discard(k)
        return rm
    if name == "pop":
        def pop():
            n = o.length()
            if not E.decide(n > 0 if is_expr(n) else n > 0):
                raise SymRaise("KeyError")
            d = o.iterate()[0][1]
            k = E.enumeration(d)[1](IntVal(0))
            o.discard(k)
            return k
        return pop
    if name in ("union", "__or__"):
        return lambda x: E.setop("|", o, x)
    if name == "intersection":
        return lambda x: E.setop("&", o, x)
    if name == "difference":
        return lambda x: E.setop("-", o, x)
    raise Unsupported("set.%s" % name)


class SetView:
    """the set stored in a RelDict under a key (writes go to the dict)"""

    def __init__(self, d, k):
        self.d, self.k = d, k
        self.E = d.E

    @property
    def sh(self):
        return self.d.vsh

    @property
    def mem(self):
        k, r = self.k, self.d.rel
        return lambda v: r((k, v))

    def has(self, v):
        if self.d.vsh is None or not shape_ok(v, self.d.vsh):
            return BoolVal(False)
        return self.d.rel((self.k, lift(v, self.d.vsh)))

    contains = has

    def subst(self, pairs):
        return SetView(self.d.subst(pairs), sub(self.k, pairs))

    def add(self, v):
        self.d.reladd(self.k, v)

    def discard(self, v):
        self.d.relremove(self.k, v)

    def copy(self):
        return SetV(self.E, self.d.vsh, self.mem)

    def iterate(self):
        if self.d.vsh is None:
            return []
        return [("dom", Domain(self.d.vsh, self.mem, name="e"))]

    def length(self):
        return 0 if self.d.vsh is None else self.E.card(self.d.vsh, self.mem)

    def attr(self, name):
        return set_attr(self, name)

    def isinst(self, names):
        return "set" in names


class AnyDict(HeapObj):
    """{} / dict() / defaultdict(set) before anything was stored"""
    STATE = ("hav",)
    PYTYPES = ("dict",)

    def __init__(self, E, default=None, bi=False):
        super().__init__(E)
        self.default, self.bi, self.hav = default, bi, ()

    def become(self, kind, k, v=None):
        if kind == "rel":
            self.__class__ = RelDict
            self.ksh, self.vsh = shape_of(k), v
            self.dom = lambda q: BoolVal(False)
            self.rel = lambda q: BoolVal(False)
            self.shared, self.aliases = (), []
        else:
            self.__class__ = DictV
            self.ksh, self.vsh = shape_of(k), shape_of(v)
            self.dom = lambda q: BoolVal(False)
            self.val = self.E.fresh_fun(self.ksh, self.vsh, "undef")
            self.idom = lambda q: BoolVal(False)
            self.ival = self.E.fresh_fun(self.vsh, self.ksh, "undef")
            self.enum = None
        return self

    def settle(self, other):
        pass

    def has(self, k):
        return BoolVal(False)

    contains = has

    def getitem(self, k):
        if self.default == "set":
            return self.become("rel", k).getitem(k)
        raise SymRaise("KeyError")

    def setitem(self, k, v):
        if isinstance(v, (SetV, SetView)):
            return self.become("rel", k, v.sh).setitem(k, v)
        if not is_scalar(v):
            raise Unsupported("dict of %s" % type(v).__name__)
        return self.become("val", k, v).setitem(k, v)

    def iterate(self):
        return []

    def length(self):
        return 0

    def copy(self):
        return AnyDict(self.E, self.default, self.bi)

    def attr(self, name):
        return dict_attr(self, name)


class View:
    """keys()/values()/items() of a dict: a list of pieces"""

    def __init__(self, E, pieces, contains=None, length=None, card_of=None):
        self.E, self.pieces, self._c, self._l, self.card_of = E, pieces, contains, length, card_of

    def iterate(self):
        return self.pieces

    def contains(self, k):
        if self._c is None:
            raise Unsupported("in view")
        return self._c(k)

    def length(self):
        return self._l()


def dict_attr(o, name):
    E = o.E
    if name == "keys":
        return lambda: View(E, o.iterate(), o.contains, o.length, ("keys", o))
    if name == "items":
        return lambda: View(E, [("dom", p[1].mapped(lambda k: (k, o.value(k)))) for p in o.iterate()], None, o.length)
    if name == "values":
        return lambda: View(E, [("dom", p[1].mapped(lambda k: o.value(k))) for p in o.iterate()], None, o.length, ("values", o))
    if name == "copy":
        return lambda: o.copy()
    if name == "get":
        def get(k, d=None):
            if E.decide(o.has(k)):
                return o.getitem(k)
            return d
        return get
    if name == "pop":
        def pop(k):
            v = o.getitem(k)
            o.delitem(k)
            return v
        return pop
    if name == "setdefault":
        def sd(k, v):
            if not E.decide(o.has(k)):
                o.setitem(k, v)
            return o.getitem(k)
        return sd
    if name == "inv" and isinstance(o, (DictV, AnyDict)):
        return InvView(o)
    raise Unsupported("dict.%s" % name)


def stale_rel(q):
    raise Unsupported("a set shared between containers was changed through another one")


def share(a, b):
    a.shared = a.shared + (b,)
    b.shared = b.shared + (a,)


class RelDict(HeapObj):
    """dict whose values are sets: dom(k), rel(k,v)"""
    STATE = ("ksh", "vsh", "dom", "rel", "hav")
    PYTYPES = ("dict",)

    def __init__(self, E, ksh, vsh, dom, rel, default=None):
        super().__init__(E)
        self.ksh, self.vsh, self.dom, self.rel, self.default, self.hav, self.bi = ksh, vsh, dom, rel, default, (), False
        self.shared, self.aliases = (), []

    def settle(self, other):
        if self.vsh is None and other.get("vsh") is not None:
            self.vsh = other["vsh"]

    def has(self, k):
        if not shape_ok(k, self.ksh):
            return BoolVal(False)
        return self.dom(lift(k, self.ksh))

    contains = has

    def ensure(self, k):
        k = lift(k, self.ksh)
        self.log("ensure", k)
        old = self.dom
        self.dom = lambda q: disj([old(q), eqv(q, k)])

    def value(self, k):
        return SetView(self, k)

    def getitem(self, k):
        if not shape_ok(k, self.ksh):
            raise SymRaise("KeyError")
        k = lift(k, self.ksh)
        if self.default == "set":
            if not is_true(simplify(self.dom(k))):
                self.ensure(k)
        elif not self.E.decide(self.dom(k)):
            raise SymRaise("KeyError")
        return SetView(self, k)

    def setitem(self, k, v):
        if not isinstance(v, (SetV, SetView)):
            raise Unsupported("mixed dict")
        k = lift(k, self.ksh)
        if v.sh is not None and self.vsh is None:
            self.vsh = v.sh
        if isinstance(v, SetV):
            v.alias = (self, k)
            self.aliases = self.aliases + [v]
        else:
            share(self, v.d)
        fresh_key = self.E.implied(neg(self.dom(k)))
        if v.sh is None and fresh_key:
            return self.ensure(k)
        if self.carried() and not fresh_key:
            self.log("overwrite", k, v.mem if v.sh is not None else None)
        else:
            self.log("setset", k, v.mem if v.sh is not None else None)
        od, orl = self.dom, self.rel
        sm = v.mem if v.sh is not None else (lambda q: BoolVal(False))
        self.dom = lambda q: disj([od(q), eqv(q, k)])
        self.rel = lambda kv: If(eqv(kv[0], k), sm(kv[1]), orl(kv))

    def stale(self, src=None):
        """sets shared with other containers are about to change: reading them there is out of reach"""
        for o in self.shared:
            if o is not self:
                if self.E.loops and o.carried():
                    raise Unsupported("set shared between dictionaries is changed in a loop")
                o.rel = stale_rel
        for o in self.aliases:
            if o is not src:
                if self.E.loops and o.carried():
                    raise Unsupported("set shared with a dictionary is changed in a loop")
                o.mem, o.elems = stale_rel, None

    def reladd(self, k, v, src=None):
        self.stale(src)
        if self.vsh is None:
            self.vsh = shape_of(v)
        k, v = lift(k, self.ksh), lift(v, self.vsh)
        self.log("reladd", (k, v))
        old = self.rel
        self.rel = lambda kv: disj([old(kv), eqv(kv, (k, v))])

    def relremove(self, k, v, src=None):
        self.stale(src)
        k, v = lift(k, self.ksh), lift(v, self.vsh)
        self.log("relremove", (k, v))
        old = self.rel
        self.rel = lambda kv: conj([old(kv), neg(eqv(kv, (k, v)))])

    def delitem(self, k):
        k = lift(k, self.ksh)
        self.log("delete", k)
        od, orl = self.dom, self.rel
        self.dom = lambda q: conj([od(q), neg(eqv(q, k))])
        self.rel = lambda kv: conj([orl(kv), neg(eqv(kv[0], k))])

    def copy(self):
        c = RelDict(self.E, self.ksh, self.vsh, self.dom, self.rel, self.default)
        share(self, c)
        return c

    def iterate(self):
        return [("dom", Domain(self.ksh, self.dom, name="k", owner=self))]

    def length(self):
        return self.E.card(self.ksh, self.dom)

    def attr(self, name):
        return dict_attr(self, name)

    def havoc(self):
        if self.vsh is None:
            raise Unsupported("untyped dict of sets in loop")
        f, g = self.E.fresh_fun(self.ksh, "B", "hdom"), self.E.fresh_fun((self.ksh, self.vsh), "B", "hrel")
        self.E.addhav(self, "dom", f)
        self.E.addhav(self, "rel", g)
        self.dom, self.rel = f, g

    def once(self, es, s0):
        """assignments d[k] = set that never assign to one key twice"""
        E = self.E
        ks = [e for e in es if e.op in ("overwrite", "setset", "ensure")]
        s0d = s0.get("dom") or (lambda q: BoolVal(False))
        for i, e in enumerate(ks):
            key = flat(lift(e.key, self.ksh), self.ksh)
            c = conj(e.mems + e.lits)
            if not E.implied_under([bexpr(c)], neg(s0d(unflat(key, self.ksh)))):
                return False
            for e2 in ks[:i + 1]:
                nb = [Const(E.uid("y"), x.sort()) for x in e2.bound]
                s = list(zip(e2.bound, nb))
                k2 = [substitute(x, *s) for x in flat(lift(e2.key, self.ksh), self.ksh)]
                same = conj([x == y for x, y in zip(e.bound, nb)]) if e2 is e else BoolVal(False)
                hs = [bexpr(c), substitute(bexpr(conj(e2.mems + e2.lits)), *s)] + [a == b for a, b in zip(key, k2)]
                if e2 is e and not e.bound or not E.implied_under(hs, same):
                    return False
        return True

    def resolve(self, es, s0):
        if any(e.op == "overwrite" for e in es) and not any(e.op in ("relremove", "delete", "reladd") for e in es) and self.once(es, s0):
            for e in es:
                if e.op == "overwrite":
                    e.op = "setset"
        if any(e.op in ("overwrite", "relremove", "delete") for e in es):
            f, g = self.E.fresh_fun(self.ksh, "B", "imprecise"), self.E.fresh_fun((self.ksh, self.vsh), "B", "imprecise")
            self.E.taint(f), self.E.taint(g)
            self.dom, self.rel = f, g
            return
        kes = [e for e in es if e.op in ("ensure", "setset")]
        res = [e for e in es if e.op == "reladd"]
        E = self.E
        # d[k] = s with a set built in this iteration contributes (k, v) for every v of s
        extra = []
        for e in kes:
            if e.op == "setset" and e.val is not None:
                vs = E.fresh_flat(self.vsh, "m")
                x = Entry(self, "reladd", (lift(e.key, self.ksh), unflat(vs, self.vsh)), None, bound=e.bound + vs, mems=e.mems, lits=e.lits + [e.val(unflat(vs, self.vsh))])
                extra.append(x)
        s0d = s0.get("dom") or (lambda q: BoolVal(False))
        s0r = s0.get("rel") or (lambda q: BoolVal(False))
        self.dom, _ = E.resolve_pred(self.ksh, s0d, kes, lambda e: flat(e.key, self.ksh), E.havs(self, "dom"))
        self.rel, _ = E.resolve_pred((self.ksh, self.vsh), s0r, res + extra, lambda e: leaves(lift(e.key, (self.ksh, self.vsh))), E.havs(self, "rel"))


class DictV(HeapObj):
    """dict / bidict with scalar (or tuple) values"""
    STATE = ("ksh", "vsh", "dom", "val", "idom", "ival", "hav", "enum")
    PYTYPES = ("dict",)

    def __init__(self, E, ksh, vsh, dom, val, bi=False, idom=None, ival=None):
        super().__init__(E)
        self.ksh, self.vsh, self.dom, self.val, self.bi, self.idom, self.ival = ksh, vsh, dom, val, bi, idom, ival
        self.default, self.hav, self.enum = None, (), None

    def settle(self, other):
        pass

    def has(self, k):
        if not shape_ok(k, self.ksh):
            return BoolVal(False)
        return self.dom(lift(k, self.ksh))

    contains = has

    def ihas(self, v):
        if not shape_ok(v, self.vsh):
            return BoolVal(False)
        return self.idom(lift(v, self.vsh))

    def value(self, k):
        return self.val(lift(k, self.ksh))

    def getitem(self, k):
        if not self.E.decide(self.has(k)):
            raise SymRaise("KeyError")
        return self.E.prune(self.val(lift(k, self.ksh)))

    def setitem(self, k, v):
        if not is_scalar(v):
            raise Unsupported("mixed dict")
        if shape_of(v) == "R" and self.vsh == "I":
            self.vsh = "R"
            ov0 = self.val
            self.val = lambda q: real(ov0(q))
        k, v = lift(k, self.ksh), lift(v, self.vsh)
        od, ov = self.dom, self.val
        if self.bi:
            oid, oiv = self.idom, self.ival
            if not self.carried():
                if self.E.decide(conj([oid(v), neg(eqv(oiv(v), k))])):
                    raise SymRaise("ValueDuplicationError")
                had, oldv = od(k), ov(k)
                self.idom = lambda q: disj([eqv(q, v), conj([oid(q), neg(conj([had, eqv(q, oldv)]))])])
            else:
                self.idom = lambda q: disj([eqv(q, v), oid(q)])
            self.ival = lambda q: merge(eqv(q, v), k, oiv(q))
        self.log("set", k, v)
        self.dom = lambda q: disj([od(q), eqv(q, k)])
        self.val = lambda q: merge(eqv(q, k), v, ov(q))

    def delitem(self, k):
        if not self.E.decide(self.has(k)):
            raise SymRaise("KeyError")
        k = lift(k, self.ksh)
        self.log("delete", k)
        od, ov = self.dom, self.val
        self.dom = lambda q: conj([od(q), neg(eqv(q, k))])
        if self.bi:
            oid = self.idom
            vk = ov(k)
            self.idom = lambda q: conj([oid(q), neg(eqv(q, vk))])

    def copy(self):
        return DictV(self.E, self.ksh, self.vsh, self.dom, self.val, self.bi, self.idom, self.ival)

    def iterate(self):
        return [("dom", Domain(self.ksh, self.dom, name="k", owner=self))]

    def length(self):
        return self.E.card(self.ksh, self.dom)

    def attr(self, name):
        return dict_attr(self, name)

    def havoc(self):
        E = self.E
        p, f = E.fresh_fun(self.ksh, "B", "hdom"), E.fresh_fun(self.ksh, self.vsh, "hval")
        E.addhav(self, "dom", p)
        E.addhav(self, "val", f)
        self.dom, self.val = p, f
        if self.bi:
            p, f = E.fresh_fun(self.vsh, "B", "hidom"), E.fresh_fun(self.vsh, self.ksh, "hival")
            E.addhav(self, "idom", p)
            E.addhav(self, "ival", f)
            self.idom, self.ival = p, f

    def resolve(self, es, s0):
        E = self.E
        ksh, vsh = self.ksh, self.vsh
        dom0 = s0.get("dom") or (lambda q: BoolVal(False))
        val0 = s0.get("val") or E.fresh_fun(ksh, vsh, "undef")
        if any(e.op != "set" for e in es):
            f, g = E.fresh_fun(ksh, "B", "imprecise"), E.fresh_fun(ksh, vsh, "imprecise")
            E.taint(f), E.taint(g)
            self.dom, self.val = f, g
            if self.bi:
                f, g = E.fresh_fun(vsh, "B", "imprecise"), E.fresh_fun(vsh, ksh, "imprecise")
                E.taint(f), E.taint(g)
                self.idom, self.ival = f, g
            return
        self.dom, infos = E.resolve_pred(ksh, dom0, es, lambda e: flat(e.key, ksh), E.havs(self, "dom"))
        self.val = E.resolve_val(ksh, vsh, val0, infos)
        guarded = all(e.first is not None for e, _, _ in infos)
        empty0 = is_false(simplify(dom0(E.generic(ksh))))
        # insert-once: a value that can be read is the final one
        q = E.fresh_flat(ksh, "q")
        qq = unflat(q, ksh)
        once = guarded or E.keys_injective(infos, ksh, dom0)
        for hd, hv in zip(E.havs(self, "dom"), E.havs(self, "val")):
            if once:
                ps = hd.params
                E.fact(forall(ps + q, Implies(hd(qq), eqv(hv(qq), self.val(qq)))))
            else:
                E.taint(hv)
        if guarded and not self.bi and len(infos) == 1 and E.cur_ctx is not None and E.plain(infos[0][0].val):
            m = infos[0][0]
            key = lift(m.key, ksh)
            for hd, hv in zip(E.havs(self, "dom"), E.havs(self, "val")):
                h = bexpr(m.first)
                if not (hd.decls[0].name() == h.decl().name()):
                    continue
                a = list(h.children())
                E.cur_ctx.finals.append((h.get_id(), [d(*a) for d in hv.decls], [(flat(lift(e.val, vsh), vsh), e.lits, e.mems) for e in es], flat(lift(self.val(key), vsh), vsh)))
        if self.bi:
            idom0 = s0.get("idom") or (lambda q: BoolVal(False))
            ival0 = s0.get("ival") or E.fresh_fun(vsh, ksh, "undef")
            ies = []
            for e, _, _ in infos:
                ie = Entry(self, "iset", e.val, e.key, bound=e.bound, mems=e.mems, lits=e.lits)
                if e.first is not None:
                    ie.lits = ie.lits + [neg(e.first)]
                    if getattr(e, "firsts", None):
                        pass
                ies.append(ie)
            self.idom, iinfos = E.resolve_pred(vsh, idom0, ies, lambda e: flat(e.key, vsh), [])
            self.ival = E.resolve_val(vsh, ksh, ival0, iinfos)
            for h in E.havs(self, "idom"):
                vq = E.fresh_flat(vsh, "q")
                v_ = unflat(vq, vsh)
                E.fact(forall(h.params + vq, And(Implies(idom0(v_), h(v_)), Implies(h(v_), self.idom(v_)))))
            a, b = E.fresh(ksh, "q"), E.fresh(ksh, "q")
            E.oblig("bidict values stay distinct", Implies(And(self.dom(a), self.dom(b), eqv(self.val(a), self.val(b))), eqv(a, b)))
            if not once:
                E.oblig_same(infos, ksh, vsh, dom0, val0)


class InvView:
    """d.inv of a bidict"""

    def __init__(self, d):
        self.d = d
        self.E = d.E

    def has(self, v):
        return self.d.ihas(v) if isinstance(self.d, DictV) else BoolVal(False)

    contains = has

    def value(self, v):
        return self.d.ival(lift(v, self.d.vsh))

    def getitem(self, v):
        if not self.E.decide(self.has(v)):
            raise SymRaise("KeyError")
        return self.E.prune(self.d.ival(lift(v, self.d.vsh)))

    def setitem(self, v, k):
        self.d.setitem(k, v)

    def delitem(self, v):
        k = self.getitem(v)
        self.d.delitem(k)

    def iterate(self):
        if not isinstance(self.d, DictV):
            return []
        return [("dom", Domain(self.d.vsh, self.d.idom, name="k"))]

    def length(self):
        return self.d.length()

    def copy(self):
        d = self.d
        return DictV(d.E, d.vsh, d.ksh, d.idom, d.ival, True, d.dom, d.val)

    def attr(self, name):
        if name == "inv":
            return self.d
        return dict_attr(self, name)

    def isinst(self, names):
        return "dict" in names


class VecV(HeapObj):
    """numpy vector of kind R/I/B; col: an (n,1) matrix column (np.matrix), flat for our purposes"""
    STATE = ("n", "at", "hav")
    PYTYPES = ("ndarray",)

    def __init__(self, E, n, at, kind="R", col=False):
        super().__init__(E)
        self.n, self.at, self.kind, self.col, self.hav = n, at, kind, col, ()

    def settle(self, other):
        pass

    def idx(self, i):
        n = lift(self.n, "I")
        if isinstance(i, int):
            return n + i if i < 0 else IntVal(i)
        i = lift(i, "I")
        return i

    def bounds(self, i):
        """numpy wraps negative indices; indices here must be in 0..n-1"""
        if not self.E.decide(And(0 <= i, i < lift(self.n, "I"))):
            if self.E.decide(i >= lift(self.n, "I")) or self.E.decide(i < -lift(self.n, "I")):
                raise SymRaise("IndexError")
            return i + lift(self.n, "I")
        return i

    def getitem(self, i):
        if isinstance(i, SliceV):
            return self.slice(i)
        if isinstance(i, tuple) and len(i) == 2 and self.col:
            i = i[0]
        if not is_scalar(i):
            raise Unsupported("fancy index")
        i = self.bounds(self.idx(i))
        return self.E.prune(self.at(i))

    def slice(self, s):
        n = lift(self.n, "I")
        lo, hi = self.E.slice_bounds(s, n)
        at = self.at
        return VecV(self.E, simplify(hi - lo), (lambda q: at(q + lo)) if not (z3.is_int_value(lo) and lo.as_long() == 0) else at, self.kind, self.col)

    def setitem(self, i, v):
        E = self.E
        if isinstance(i, BagV):
            # v[list] = scalar
            c = i.concrete_or_pieces()
            old = self.at
            v = lift(v, self.kind)
            if self.carried():
                for kind, p in i.iterate():
                    if kind == "one":
                        self.setitem(p, v)
                    else:
                        b = E.fresh_flat(p.sh, "b")
                        k = unflat(b, p.sh)
                        key = lift(p.elem(k), "I")
                        en = Entry(self, "set", key, v, bound=b, mems=[p.mem(k)])
                        E.loops[-1].log.append(en)
                m = i.member()
                self.at = lambda q: If(m(q), v, old(q))
                return
            m = i.member()
            self.at = lambda q: If(m(q), v, old(q))
            return
        if isinstance(i, VecV) and i.kind == "B":
            if self.carried():
                raise Unsupported("masked assignment in loop")
            old, m = self.at, i.at
            if isinstance(v, VecV):
                raise Unsupported("masked vector assignment")
            v = lift(v, self.kind)
            self.at = lambda q: If(m(q), v, old(q))
            return
        if isinstance(i, SliceV):
            if self.carried():
                raise Unsupported("slice assignment in loop")
            lo, hi = E.slice_bounds(i, lift(self.n, "I"))
            old = self.at
            vf = (lambda q: lift(v.at(q - lo), self.kind)) if isinstance(v, VecV) else (lambda q: lift(v, self.kind))
            self.at = lambda q: If(And(lo <= q, q < hi), vf(q), old(q))
            return
        if not is_scalar(i):
            raise Unsupported("fancy index")
        i, v = self.bounds(self.idx(i)), lift(v, self.kind)
        self.log("set", i, v)
        old = self.at
        self.at = lambda q: If(q == i, v, old(q))

    def contains(self, v):
        k = self.E.fresh_flat("I", "j")[0]
        return z3.Exists([k], And(0 <= k, k < lift(self.n, "I"), eqv(self.at(k), v)))

    def copy(self):
        return VecV(self.E, self.n, self.at, self.kind, self.col)

    def domain(self):
        n, at = lift(self.n, "I"), self.at
        return Domain("I", lambda i: And(0 <= i, i < n), elem=lambda i: at(i), pos=lambda i: i, at=lambda i: i, card=n, name="i", lo=IntVal(0), hi=n)

    def iterate(self):
        return [("dom", self.domain())]

    def length(self):
        return self.n

    def havoc(self):
        f = self.E.fresh_fun("I", self.kind, "hvec")
        self.E.addhav(self, "at", f)
        self.at = f

    def resolve(self, es, s0):
        E = self.E
        hv = E.havs(self, "at")
        at0 = s0["at"]
        acc = []
        for e in es:
            d = E.increment(e.val, [h(e.key) for h in hv], hv)
            if d is None:
                acc = None
                break
            acc.append((e, d))
        if acc is not None and es and self.kind in ("R", "I"):
            terms = []
            for e, d in acc:
                e = E.strip_self(e)
                terms.append(E.sum_by_key(e.bound, e.cond, lift(e.key, "I"), d))
            self.at = lambda q: simplify_sum([at0(q)] + [t(q) for t in terms])
            for h in hv:
                E.taint(h)
            return
        true0 = lambda q: BoolVal(False)
        _, infos = E.resolve_pred("I", true0, es, lambda e: [lift(e.key, "I")], [])
        self.at = E.resolve_val("I", self.kind, at0, infos)
        for h in hv:
            E.taint(h)

    def attr(self, name):
        return self.E.lib.vec_attr(self, name)


def simplify_sum(ts):
    out = [t for t in ts if not (z3.is_rational_value(t) and t.as_fraction() == 0) and not (z3.is_int_value(t) and t.as_long() == 0)]
    if not out:
        return ts[0]
    r = out[0]
    for t in out[1:]:
        r = r + t
    return r


class SliceV:
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


class MatV(HeapObj):
    """matrix: m x n, value function, pattern nz of stored entries (for sparse matrices)"""
    STATE = ("m", "n", "at", "nz", "hav", "enum")
    PYTYPES = ("spmatrix", "dok_matrix")

    def __init__(self, E, m, n, at, nz=None, dense=False):
        super().__init__(E)
        self.m, self.n, self.at, self.dense, self.hav, self.enum = m, n, at, dense, (), None
        self.nz = nz or (lambda q: at(q) != 0)

    def isinst(self, names):
        return ("ndarray" in names) if self.dense else any(n in ("spmatrix", "dok_matrix") for n in names)

    def settle(self, other):
        pass

    def chk(self, i, j):
        m, n = lift(self.m, "I"), lift(self.n, "I")
        i = m + i if isinstance(i, int) and i < 0 else lift(i, "I")
        j = n + j if isinstance(j, int) and j < 0 else lift(j, "I")
        if not self.E.decide(And(0 <= i, i < m, 0 <= j, j < n)):
            if self.E.decide(Or(i >= m, j >= n, i < -m, j < -n)):
                raise SymRaise("IndexError")
            return If(i < 0, i + m, i), If(j < 0, j + n, j)
        return i, j

    def getitem(self, k):
        if not isinstance(k, tuple) or len(k) != 2:
            raise Unsupported("matrix row access")
        i, j = k
        if isinstance(i, SliceV) or isinstance(j, SliceV):
            return self.E.lib.mat_slice(self, i, j)
        i, j = self.chk(i, j)
        return self.E.prune(self.at((i, j)))

    def setitem(self, k, v):
        i, j = k
        if isinstance(i, SliceV) or isinstance(j, SliceV):
            return self.E.lib.mat_setslice(self, i, j, v)
        i, j = self.chk(i, j)
        v = lift(v, "R")
        self.log("set", (i, j), v)
        oa, oz = self.at, self.nz
        self.at = lambda q: If(And(q[0] == i, q[1] == j), v, oa(q))
        self.nz = lambda q: If(And(q[0] == i, q[1] == j), v != 0, oz(q))

    def delentry(self, k):
        i, j = k
        i, j = lift(i, "I"), lift(j, "I")
        self.log("del", (i, j))
        oa, oz = self.at, self.nz
        self.at = lambda q: If(And(q[0] == i, q[1] == j), RealVal(0), oa(q))
        self.nz = lambda q: And(oz(q), Not(And(q[0] == i, q[1] == j)))

    def copy(self):
        return MatV(self.E, self.m, self.n, self.at, self.nz, self.dense)

    def items(self):
        nz, at = self.nz, self.at
        m, n = lift(self.m, "I"), lift(self.n, "I")
        return Domain(("I", "I"), lambda q: And(0 <= q[0], q[0] < m, 0 <= q[1], q[1] < n, nz(q)), elem=lambda k: (k, at(k)), name="ij")

    def length(self):
        return self.m

    def contains(self, k):
        return self.nz(lift(k, ("I", "I")))

    def havoc(self):
        f, p = self.E.fresh_fun(("I", "I"), "R", "hmat"), self.E.fresh_fun(("I", "I"), "B", "hnz")
        self.E.addhav(self, "at", f)
        self.E.addhav(self, "nz", p)
        self.at, self.nz = f, p

    def resolve(self, es, s0):
        E = self.E
        sh = ("I", "I")
        false = lambda q: BoolVal(False)
        only_del = all(e.op == "del" for e in es)
        for e in es:
            if e.op == "del":
                e.val = RealVal(0)
        w, infos = E.resolve_pred(sh, false, es, lambda e: flat(e.key, sh), [])
        at0, nz0 = s0["at"], s0["nz"]
        for h in E.havs(self, "at"):
            E.taint(h)
        for h in E.havs(self, "nz"):
            if only_del:
                E.deletions(sh, nz0, h, infos, w)
            else:
                E.taint(h)
        self.at = E.resolve_val(sh, "R", at0, infos)
        at1 = self.at
        self.nz = lambda q: If(w(q), at1(q) != 0, nz0(q))

    def attr(self, name):
        return self.E.lib.mat_attr(self, name)


class BagV(HeapObj):
    """list / generator: pieces ('one', v) and ('dom', Domain)"""
    STATE = ("pieces", "hav")
    PYTYPES = ("list",)
    counted, cell, known = False, None, None      # a list whose length is followed through loops

    def __init__(self, E, pieces=()):
        super().__init__(E)
        self.pieces, self.hav = tuple(pieces), ()

    def settle(self, other):
        pass

    def append(self, v):
        self.log("append", None, v)
        self.pieces = self.pieces + (("one", v),)
        if self.cell is not None:
            fr, nm = self.cell
            fr.loc[nm] = fr.loc[nm] + 1

    def concrete(self):
        if all(p[0] == "one" for p in self.pieces):
            return [p[1] for p in self.pieces]
        return None

    concrete_or_pieces = concrete

    def iterate(self):
        if any(p[0] == "havoc" for p in self.pieces):
            raise Unsupported("iteration over a list that the loop extends")
        return list(self.pieces)

    def member(self):
        """membership predicate over Int"""
        E = self.E
        ones = [lift(p[1], "I") for p in self.pieces if p[0] == "one"]
        preds = []
        for p in self.pieces:
            if p[0] == "dom":
                d = p[1]
                k0 = E.fresh_flat(d.sh, "b")
                e = Entry(self, "x", lift(d.elem(unflat(k0, d.sh)), "I"), None, bound=k0, mems=[d.mem(unflat(k0, d.sh))])
                f, _ = E.resolve_pred("I", lambda q: BoolVal(False), [e], lambda e: [e.key], [])
                preds.append(f)
            elif p[0] != "one":
                raise Unsupported("list under construction")
        return lambda q: disj([q == o for o in ones] + [f(q) for f in preds])

    def contains(self, v):
        E = self.E
        out = []
        for k, p in self.iterate():
            if k == "one":
                if isinstance(p, (HeapObj,)) or isinstance(v, HeapObj):
                    out.append(BoolVal(p is v))
                else:
                    out.append(eqv(p, v))
            else:
                b = E.fresh_flat(p.sh, "b")
                kk = unflat(b, p.sh)
                out.append(z3.Exists(b, And(p.mem(kk), eqv(p.elem(kk), v))))
        return disj(out)

    def copy(self):
        return BagV(self.E, self.pieces)

    def length(self):
        if self.cell is not None:
            return self.cell[0].loc[self.cell[1]]
        if self.known is not None and self.known[0] is self.pieces and not isinstance(self.known[1], Poison):
            return self.known[1]
        n = 0
        for k, p in self.iterate():
            if k == "one":
                n = n + 1
            else:
                c = p.card if p.card is not None else self.E.card(p.sh, p.mem)
                n = n + c if not (isinstance(n, int) and n == 0) else c
        return n

    def getitem(self, i):
        E = self.E
        if isinstance(i, SliceV):
            c = self.concrete()
            if c is not None and all(x is None or isinstance(x, int) for x in (i.lo, i.hi)):
                return BagV(E, [("one", x) for x in c[i.lo:i.hi]])
            raise Unsupported("list slice")
        c = self.concrete()
        if c is not None and isinstance(i, int):
            if -len(c) <= i < len(c):
                return c[i]
            raise SymRaise("IndexError")
        ps = self.iterate()
        if len(ps) == 1 and ps[0][0] == "dom":
            d = ps[0][1]
            n = lift(self.length(), "I")
            ii = lift(i, "I") if not (isinstance(i, int) and i < 0) else n + i
            if not E.decide(And(0 <= ii, ii < n)):
                raise SymRaise("IndexError")
            at = d.at or E.enumeration(d)[1]
            return d.elem(at(ii))
        raise Unsupported("list index")

    def setitem(self, i, v):
        raise Unsupported("list item assignment")

    def havoc(self):
        self.pieces = self.pieces + (("havoc", self.E.uid("bag")),)

    def resolve(self, es, s0):
        E = self.E
        ps = list(s0["pieces"])
        groups = {}
        order = []
        for e in es:
            if e.op != "append":
                raise Unsupported("list operation in loop")
            key = tuple(b.get_id() for b in e.bound)
            if key not in groups:
                order.append(key)
            groups.setdefault(key, []).append(e)
        per = {}
        for key in order:
            ess = groups[key]
            merged = None
            if len({e.path for e in ess}) == len(ess):
                # at most one append per path: merge
                try:
                    cond = disj_paths([e.lits for e in ess])
                    val = ess[-1].val
                    for e in reversed(ess[:-1]):
                        val = merge(conj(e.lits), e.val, val) if e.val is not val else val
                    merged = [(conj(ess[0].mems + [cond]), val, cond)]
                except Unsupported:
                    merged = None
            if merged is None:
                merged = [(conj(e.mems + e.lits), e.val, None) for e in ess]
            for cond, val, c in merged:
                b = ess[0].bound
                ctx = E.cur_ctx
                d = mkdomain(E, b, cond, val)
                total = c is not None and is_true(simplify(c)) or (c is not None and E.implied_under(ess[0].mems, c))
                if total and ctx is not None and len(merged) == 1 and len(order) == 1 and len(b) == len(ctx.leaves):
                    cd = ctx.dom
                    d.pos, d.at, d.card, d.lo, d.hi = cd.pos, cd.at, cd.card, cd.lo, cd.hi
                    d.mem = cd.mem
                    if d.card is None:
                        d.card = E.card(cd.sh, cd.mem)
                ps.append(("dom", d))
        self.pieces = tuple(ps)

    def attr(self, name):
        if name == "append":
            return lambda v: self.append(v)
        if name == "copy":
            return lambda: self.copy()
        if name == "extend":
            def ext(x):
                if self.carried():
                    raise Unsupported("extend in loop")
                self.pieces = self.pieces + tuple(self.E.iterate(x))
            return ext
        if name == "index":
            raise Unsupported("list.index")
        raise Unsupported("list.%s" % name)


def mkdomain(E, b, cond, val):
    sorts = tuple(shape_of(x) for x in b)
    sh = sorts if len(sorts) != 1 else sorts[0]

    def pairs(k):
        return list(zip(b, leaves(k)))
    return Domain(sh, lambda k: substitute(bexpr(cond), *pairs(k)), elem=lambda k: sub(val, pairs(k)), name="c")


class Inst(HeapObj):
    STATE = ("attrs",)

    def __init__(self, E, cls, attrs=None):
        super().__init__(E)
        self.cls, self.attrs, self.hav, self.given = cls, dict(attrs or {}), (), attrs is not None

    def snap(self):
        return (self.__class__, {"attrs": dict(self.attrs)})

    def restore(self, s):
        self.attrs = dict(s[1]["attrs"])

    def settle(self, other):
        pass

    def __repr__(self):
        return "<%s>" % self.cls.name
