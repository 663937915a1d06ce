"""C memory of the Cython sources: arrays, arrays of tuples, structs, pointers. Every access emits an obligation that it is inside
its block and the block is alive."""
from values import *
from objs import *
from z3 import And, Or, Not, Implies, If, IntVal, BoolVal, is_expr, simplify


class Null:
    def __repr__(self):
        return "NULL"


NULL = Null()


class CType:
    def __init__(self, name):
        self.name = name


class CStructType:
    def __init__(self, E, name, fields):
        self.E, self.name, self.fields = E, name, fields

    def __call__(self, *vs):
        return StructVal(self, dict(zip([f for f, _ in self.fields], vs)))


class StructVal:
    def __init__(self, typ, f):
        self.typ, self.f = typ, f


def is_int(v):
    return isinstance(v, (bool, int)) or is_expr(v) and (v.sort() == z3.IntSort() or v.sort() == z3.BoolSort())


def to_int(v):
    if not is_int(v):
        raise Unsupported("conversion of a %s to a C integer" % type(v).__name__)
    return lift(v, "I")


class CArr(VecV):
    """array of int or double"""
    STATE = ("n", "at", "hav", "freed")

    def __init__(self, E, n, at, kind):
        super().__init__(E, n, at, kind)
        self.freed = False

    def bounds(self, i):
        self.E.oblig("memory is accessed inside its block", And(0 <= i, i < lift(self.n, "I")) if not self.freed else BoolVal(False))
        self.E.fact(And(0 <= i, i < lift(self.n, "I")))
        return i

    def getitem(self, i):
        if not is_scalar(i):
            raise Unsupported("index")
        return self.at(self.bounds(lift(i, "I")))

    def setitem(self, i, v):
        if not is_scalar(i) or not is_scalar(v):
            raise Unsupported("index")
        if self.kind == "I":
            v = to_int(v)
        i, v = self.bounds(lift(i, "I")), lift(v, self.kind)
        self.log("set", i, v)
        old = self.at
        self.at = lambda q: If(q == i, v, old(q))


class CTup:
    """array of tuples"""
    def __init__(self, E, n, kinds):
        self.E, self.n, self.kinds, self.moved = E, n, kinds, False
        self.parts = [CArr(E, n, E.fresh_fun("I", k, "block"), k) for k in kinds]

    def chk(self):
        if self.moved:
            raise Unsupported("use of a block through a second pointer")

    def getitem(self, i):
        self.chk()
        return tuple(p.getitem(i) for p in self.parts)

    def setitem(self, i, v):
        self.chk()
        if not isinstance(v, tuple) or len(v) != len(self.parts):
            raise Unsupported("tuple")
        for p, x in zip(self.parts, v):
            p.setitem(i, x)


class CStruct(HeapObj):
    STATE = ("f", "freed")

    def __init__(self, E, typ, f=None):
        super().__init__(E)
        self.typ, self.f, self.freed = typ, f or {}, False

    def alive(self):
        self.E.oblig("memory is alive", BoolVal(not self.freed))
        if self.carried():
            raise Unsupported("struct in a loop")

    def getitem(self, k):
        if k != 0:
            raise Unsupported("pointer arithmetic")
        return self

    def attr(self, name):
        self.alive()
        if name not in self.f:
            raise Unsupported("uninitialised field")
        return self.f[name]

    def setattr_(self, name, v):
        self.alive()
        t = dict(self.typ.fields).get(name)
        if t is None:
            raise Unsupported("field")
        if t == "int":
            v = to_int(v)
        elif not t.endswith("*"):
            raise Unsupported("field of type " + t)
        self.f = dict(self.f, **{name: v})


class AbsStack:
    """a linked stack of which only the number of occurrences of every element is known"""
    def __init__(self, E, cnt):
        self.E, self.cnt = E, cnt
        t, y = E.fresh("I", "top"), E.fresh_flat("I", "y")[0]
        E.fact(forall([y], Implies(cnt(y) >= 1, cnt(t) >= 1)))
        self.top, self.empty = t, cnt(t) < 1
        self.node = None

    def isnull(self):
        return self.empty

    def getitem(self, k):
        if k != 0:
            raise Unsupported("pointer arithmetic")
        if self.node is None:
            self.E.oblig("the pointer is not NULL", Not(self.empty))
            self.E.fact(Not(self.empty))
            t, c = self.top, self.cnt
            self.node = StructVal(None, {"element": t, "btm": AbsStack(self.E, lambda v: c(v) - If(v == t, IntVal(1), IntVal(0)))})
        return self

    def attr(self, name):
        self.getitem(0)
        return self.node.f[name]


def occurrences(E, st):
    """number of occurrences of an element in a stack"""
    if st is NULL:
        return lambda v: IntVal(0)
    if isinstance(st, AbsStack):
        return st.cnt
    if isinstance(st, CStruct) and "btm" in st.f:
        r, e = occurrences(E, st.f["btm"]), lift(st.f["element"], "I")
        return lambda v: r(v) + If(v == e, IntVal(1), IntVal(0))
    raise Unsupported("stack")


class Nodes:
    """the array of graph nodes: the numbers of successors and predecessors, the sizes of the blocks and their contents"""
    KINDS = {"successors": "succ", "predecessors": "pred"}
    COUNTS = {"succcount": "succ", "predcount": "pred"}

    def __init__(self, E, n, fresh=True):
        self.E, self.n = E, n
        self.cnt = {k: CArr(E, n, E.fresh_fun("I", "I", k + "count"), "I") for k in ("succ", "pred")}
        self.len = {k: CArr(E, n, E.fresh_fun("I", "I", k + "len"), "I") for k in ("succ", "pred")}
        self.cont = {k: E.fresh_fun(("I", "I"), ("I", "I", "R"), k) for k in ("succ", "pred")}
        self.ver = {"succ": 0, "pred": 0}

    def setitem(self, i, v):
        if not isinstance(v, StructVal) or v.typ is None or v.typ.name != "Node":
            raise Unsupported("node")
        for f, k in self.COUNTS.items():
            self.cnt[k].setitem(i, v.f[f])
        for f, k in self.KINDS.items():
            if v.f[f] is not NULL:
                raise Unsupported("node")
            self.len[k].setitem(i, 0)

    def getitem(self, i):
        return NodeRef(self, i)


class NodeRef:
    def __init__(self, nodes, i):
        self.nodes, self.i = nodes, lift(i, "I")
        self.E = nodes.E
        self.E.oblig("memory is accessed inside its block", And(0 <= self.i, self.i < lift(nodes.n, "I")))
        self.E.fact(And(0 <= self.i, self.i < lift(nodes.n, "I")))

    def getitem(self, k):
        if k != 0:
            raise Unsupported("pointer arithmetic")
        return self

    def attr(self, name):
        N = self.nodes
        if name in N.COUNTS:
            return N.cnt[N.COUNTS[name]].getitem(self.i)
        if name in N.KINDS:
            return Ptr(N, self.i, N.KINDS[name])
        raise Unsupported("field")

    def setattr_(self, name, v):
        N = self.nodes
        if name in N.COUNTS:
            N.cnt[N.COUNTS[name]].setitem(self.i, v)
            return
        if name not in N.KINDS or not isinstance(v, CTup) or v.kinds != ("I", "I", "R") or self.E.loops:
            raise Unsupported("assignment to a pointer")
        v.chk()
        k = N.KINDS[name]
        N.len[k].setitem(self.i, v.n)
        old, ats, i = N.cont[k], [p.at for p in v.parts], self.i
        N.cont[k] = lambda q: tuple(If(q[0] == i, at(q[1]), o) for at, o in zip(ats, old(q)))
        N.ver[k] += 1
        v.moved = True


class Ptr:
    def __init__(self, nodes, i, k):
        self.nodes, self.i, self.k, self.ver = nodes, i, k, nodes.ver[k]

    def getitem(self, j):
        N = self.nodes
        if self.ver != N.ver[self.k]:
            raise Unsupported("use of an old pointer")
        E, j = N.E, lift(j, "I")
        ok = And(0 <= j, j < N.len[self.k].at(self.i))
        E.oblig("memory is accessed inside its block", ok)
        E.fact(ok)
        return N.cont[self.k]((self.i, j))

    def free(self):
        if self.ver != self.nodes.ver[self.k]:
            raise Unsupported("use of an old pointer")
        self.nodes.len[self.k].setitem(self.i, 0)


TUPLES = {"SAPPair": ("I", "I", "R")}


def get(E, name):
    if name == "cy_null":
        return NULL
    f = {"cy_malloc": malloc, "cy_free": free, "cy_addr": addr, "cy_copy": copy, "cy_int": lambda E, v: to_int(v), "cy_isnull": isnull,
         "cy_type": lambda E, s: CType(s), "cy_struct": lambda E, n, fs: CStructType(E, n, fs)}.get(name)
    return None if f is None else (lambda *a: f(E, *a))


def malloc(E, t, n):
    n = simplify(to_int(n))
    E.oblig("the size of a block is not negative", n >= 0)
    if t in ("int", "double"):
        k = "I" if t == "int" else "R"
        return CArr(E, n, E.fresh_fun("I", k, "block"), k)
    g = E.module("switss.utils.graph")
    if t in ("IntStack", "TreapStack"):
        g = E.module("switss.utils.stack")
    ty = E.global_lookup(g, t)
    if isinstance(ty, CType):
        ks = {"int": "I", "double": "R"}
        parts = ty.name.strip("()").split(",")
        if any(p not in ks for p in parts):
            raise Unsupported("type " + ty.name)
        return CTup(E, n, tuple(ks[p] for p in parts))
    if not isinstance(ty, CStructType):
        raise Unsupported("type " + t)
    if t == "Node":
        return Nodes(E, n)
    if z3.is_int_value(n) and n.as_long() == 1:
        return CStruct(E, ty)
    raise Unsupported("array of structs")


def free(E, p):
    if p is NULL:
        return
    if isinstance(p, Ptr):
        return p.free()
    if isinstance(p, CTup):
        p.chk()
        p = p.parts
    else:
        p = [p]
    for x in p:
        if isinstance(x, (CArr, CStruct)) and not x.carried():
            E.oblig("memory is released once", BoolVal(not x.freed))
            x.freed = True
        elif not isinstance(x, AbsStack):
            raise Unsupported("free")


def addr(E, b, i):
    if isinstance(b, Nodes):
        return NodeRef(b, i)
    raise Unsupported("address")


def copy(E, s):
    if isinstance(s, CStruct):
        s.alive()
        return CStruct(E, s.typ, dict(s.f))
    if isinstance(s, AbsStack):
        s.getitem(0)
        return StructObj(s.node.f)
    raise Unsupported("struct copy")


class StructObj:
    def __init__(self, f):
        self.f = f

    def attr(self, name):
        return self.f[name]


def isnull(E, p):
    if p is NULL:
        return True
    if isinstance(p, AbsStack):
        return p.isnull()
    if isinstance(p, (CStruct, CArr, CTup, Nodes)):
        return False
    raise Unsupported("pointer comparison")
