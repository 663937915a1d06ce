"""C01: InvertibleDict and its inverse describe one relation (class invariant proved for every operation)

State of a multi-map: the relation, the set of entered keys, the default flag, and the inverse, which is either not built
yet or a multi-map with the transposed relation that points back.  Every operation is run on an arbitrary state satisfying
this invariant and must re-establish it with exactly the specified new relation."""
from specs.common import *
Q = ID + ":InvertibleDict."
D, I_ = "_InvertibleDict__d", "_InvertibleDict__i"
K, V = "O", "O"


def state(E, built, default):
    m = rel_inst(E, K, V, "rel", default)
    m.inst_inv = m.attrs[I_]
    if not built:
        m.attrs[I_] = None
    return m


def is_map(E, x, what):
    if not (isinstance(x, Inst) and x.cls.name == "InvertibleDict"):
        raise Unsupported("%s is not an InvertibleDict" % what)


def contents(E, m, what, rel, dom):
    """the map's own direction, observed through look-ups, membership and items()"""
    k, v = const(E, K, "k"), const(E, V, "v")
    c = callm(E, m, "__contains__", k)
    E.oblig(what + ": entered keys are the right ones", bexpr(E.truth(c)) == bexpr(dom(k)))
    k2 = const(E, K, "k2")
    E.fact(dom(k2))
    r, s = expect(E, lambda: E.getitem(m, k2))
    E.oblig(what + ": looking up an entered key raises nothing", BoolVal(r is None))
    if r is None:
        E.oblig(what + ": look-up gives exactly the related values", bexpr(E.contains(s, v)) == bexpr(rel(k2, v)))
    E.oblig(what + ": keys() are the entered keys", bexpr(E.contains(callm(E, m, "keys"), k)) == bexpr(dom(k)))


def invariant(E, m, what, rel, dom, default):
    """rel(k, v), dom(k): what the relation must be now"""
    contents(E, m, what, lambda k, v: rel(k, v), dom)
    E.oblig(what + ": the default mode is kept", BoolVal(E.getattr(m, "is_default") is default))
    i = m.attrs.get(I_, 0)
    if i == 0:
        raise Unsupported("representation changed")
    if i is not None:
        is_map(E, i, "the inverse")
        k, v = const(E, K, "k"), const(E, V, "v")
        E.oblig(what + ": the inverse points back", BoolVal(i.attrs.get(I_) is m))
        E.oblig(what + ": the inverse has the same default mode", BoolVal(E.getattr(i, "is_default") is default))
        inv = [callm(E, i, "__contains__", v)]
        s = const(E, V, "v2")
        E.oblig(what + ": related values are keys of the inverse", Implies(rel(k, v), bexpr(E.truth(inv[0]))))
        E.fact(i.attrs[D].has(s))
        r, x = expect(E, lambda: E.getitem(i, s))
        E.oblig(what + ": looking up an entered key of the inverse raises nothing", BoolVal(r is None))
        if r is None:
            E.oblig(what + ": look-up in the inverse gives exactly the related keys", bexpr(E.contains(x, k)) == bexpr(rel(k, s)))


def same(m):
    r, d = m.rel, m.dom
    return (lambda k, v: r((k, v))), d


def tag(b, d):
    return "%s, %s" % ("inverse built" if b else "inverse not built", "default" if d else "no default")


def u_get(b, df):
    def run(E):
        m = state(E, b, df)
        k, v = const(E, K, "key"), const(E, V, "val")
        r, s = expect(E, lambda: E.getitem(m, k))
        if r is None:
            E.oblig("a look-up gives exactly the related values", bexpr(E.contains(s, v)) == m.rel((k, v)))
            E.oblig("without default mode only entered keys are found", Or(BoolVal(df), m.dom(k)))
        else:
            E.oblig("only a key that was never entered fails, with KeyError", And(BoolVal(r == "KeyError" and not df), neg(m.dom(k))))
        invariant(E, m, "after the look-up", *same(m), df)
    return Unit("getitem[%s]" % tag(b, df), [Q + "__getitem__", Q + "__contains__", Q + "keys"], run)


def u_add(b, df, via):
    def run(E):
        m = state(E, b, df)
        k, v = const(E, K, "key"), const(E, V, "val")
        new = (lambda a, c: Or(m.rel((a, c)), And(a == k, c == v)))
        if via:
            ok, _ = no_exception(E, lambda: callm(E, m.inst_inv, "add", v, k))
        else:
            ok, _ = no_exception(E, lambda: callm(E, m, "add", k, v))
        if ok:
            invariant(E, m, "after add", new, lambda q: Or(m.dom(q), q == k), df)
    return Unit("add%s[%s]" % (" through the inverse" if via else "", tag(b, df)), [Q + "add"], run)


def u_remove(b, df, via):
    def run(E):
        m = state(E, b, df)
        k, v = const(E, K, "key"), const(E, V, "val")
        r, _ = expect(E, (lambda: callm(E, m.inst_inv, "remove", v, k)) if via else (lambda: callm(E, m, "remove", k, v)))
        if r is None:
            E.oblig("only a pair of the relation can be removed", m.rel((k, v)))
            invariant(E, m, "after remove", lambda a, c: And(m.rel((a, c)), neg(And(a == k, c == v))), m.dom, df)
        else:
            E.oblig("a pair of the relation can be removed", neg(m.rel((k, v))))
            invariant(E, m, "after a rejected remove", *same(m), df)
    return Unit("remove%s[%s]" % (" through the inverse" if via else "", tag(b, df)), [Q + "remove"], run)


def u_inv(b, df):
    def run(E):
        m = state(E, b, df)
        ok, i = no_exception(E, lambda: E.getattr(m, "inv"))
        if not ok:
            return
        is_map(E, i, "the inverse")
        E.oblig("inverting twice gives back the map", BoolVal(E.getattr(i, "inv") is m))
        E.oblig("the inverse is always the same object", BoolVal(E.getattr(m, "inv") is i))
        k, v = const(E, K, "k"), const(E, V, "v")
        E.fact(m.rel((k, v)))
        c = callm(E, i, "__contains__", v)
        E.oblig("related values are keys of the inverse", E.truth(c))
        k3, v3 = const(E, K, "k3"), const(E, V, "v3")
        E.oblig("the inverse is the transposed relation", bexpr(i.attrs[D].has(v3) if False else i.attrs[D].rel((v3, k3)) if hasattr(i.attrs[D], "rel") else BoolVal(False)) == m.rel((k3, v3)))
        invariant(E, m, "after inversion", *same(m), df)
    return Unit("inv[%s]" % tag(b, df), [Q + "inv"], run)


def u_view(b, df):
    def run(E):
        m = state(E, b, df)
        k, v = const(E, K, "k"), const(E, V, "v")
        seen = []
        ps = E.iterate(callm(E, m, "items"))
        if len(ps) != 1 or ps[0][0] != "dom":
            raise Unsupported("items()")
        d = ps[0][1]
        kk, s = d.elem(k)
        E.oblig("items() lists every entered key once", And(d.mem(k) == m.dom(k), kk == k))
        E.oblig("items() lists the related values", bexpr(E.contains(s, v)) == m.rel((k, v)))
        invariant(E, m, "after listing", *same(m), df)
    return Unit("items[%s]" % tag(b, df), [Q + "items", Q + "keys"], run)


def u_init(df):
    def run(E):
        dom = E.fresh_fun(K, "B", "dom")
        rel = E.fresh_fun((K, V), "B", "rel")
        k, v = E.fresh_flat(K, "k") + E.fresh_flat(V, "v")
        E.fact(forall([k, v], Implies(rel((k, v)), dom(k))))
        d = RelDict(E, K, V, dom, rel)
        ok, m = no_exception(E, lambda: E.call(cls(E, ID, "InvertibleDict"), [d], {"is_default": df}))
        if ok:
            invariant(E, m, "after construction", lambda a, b: rel((a, b)), dom, df)
            q, w = const(E, K, "q"), const(E, V, "w")
            E.oblig("the given dictionary is not changed", And(d.dom(q) == dom(q), d.rel((q, w)) == rel((q, w))))
            E.oblig("later additions do not change the given dictionary", BoolVal(m.attrs.get(D) is not d))
    return Unit("__init__[%s]" % ("default" if df else "no default"), [Q + "__init__", Q + "is_default"], run)


B2 = (False, True)
UNITS = [u_init(d) for d in B2] + [u(b, d) for u in (u_get, u_inv, u_view) for b in B2 for d in B2] + \
    [u(b, d, False) for u in (u_add, u_remove) for b in B2 for d in B2] + [u(True, d, True) for u in (u_add, u_remove) for d in B2]
