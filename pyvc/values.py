"""pyvc values: scalar terms, shapes and the heap objects of the symbolic interpreter.

Scalars are z3 terms (Int for Python ints, Real for floats -- exact reals --, Bool, and an uninterpreted sort Obj for
strings and opaque hashables) or Python literals; tuples are Python tuples of scalars.  Containers are *functional*: a
set is a membership predicate, a dictionary a domain predicate and a value function, a matrix a value function and a
pattern predicate.  A heap object holds the current closure; aliasing is Python aliasing of the heap object."""
import z3
from z3 import (And, Or, Not, Implies, If, ForAll, Exists, BoolVal, IntVal, RealVal, IntSort, RealSort, BoolSort,
                DeclareSort, Function, Const, simplify, substitute, is_true, is_false, is_expr, is_bool, is_int, is_real,
                ToReal, ToInt, Distinct)

Obj = DeclareSort("Obj")
SORTS = {"I": IntSort(), "R": RealSort(), "B": BoolSort(), "O": Obj}


class Unsupported(Exception):
    """the construct is outside the verifier's reach: the function counts as bounded, never as proved"""


class SymRaise(Exception):
    def __init__(self, exc, info=""):
        Exception.__init__(self, exc)
        self.exc, self.info = exc, info


class Opaque:
    """a value whose content is irrelevant (messages, colours)"""

    def __init__(self, what="opaque"):
        self.what = what


class Poison:
    def __init__(self, why):
        self.why = why


class Named:
    """an external constant or type, compared by identity of its name (pulp.LpMinimize, set, float, ...)"""

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Named) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return self.name


def flat_shape(sh):
    if isinstance(sh, tuple):
        return [x for s in sh for x in flat_shape(s)]
    return [sh]


def shape_of(v):
    if isinstance(v, tuple):
        return tuple(shape_of(x) for x in v)
    if isinstance(v, bool):
        return "B"
    if isinstance(v, int):
        return "I"
    if isinstance(v, float):
        return "R"
    if isinstance(v, (str, Named)):
        return "O"
    if is_expr(v):
        s = v.sort()
        for k, x in SORTS.items():
            if s == x:
                return k
    raise Unsupported("no scalar shape for %r" % (v,))


STR = {}


def strconst(s):
    if s not in STR:
        STR[s] = Const("str:" + s, Obj)
    return STR[s]


def str_axioms():
    return [Distinct(*STR.values())] if len(STR) > 1 else []


INF = Const("float:inf", RealSort())


class Opt:
    """None or a real number"""

    def __init__(self, E, none, val):
        self.E, self.none, self.val = E, none, val

    def get(self):
        if self.E.decide(self.none):
            raise SymRaise("TypeError", "None is not a number")
        return self.val

    def subst(self, pairs):
        return Opt(self.E, substitute(bexpr(self.none), *pairs), sub(self.val, pairs))


def real(v):
    if isinstance(v, Opt):
        return v.get()
    if isinstance(v, bool):
        return RealVal(1 if v else 0)
    if isinstance(v, int):
        return RealVal(v)
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            raise Unsupported("infinite float")
        return RealVal(repr(v))
    if is_expr(v):
        if is_int(v):
            return ToReal(v)
        if is_bool(v):
            return If(v, RealVal(1), RealVal(0))
        if is_real(v):
            return v
    raise Unsupported("not a number: %r" % (v,))


def lift(v, sh):
    if isinstance(sh, tuple):
        if not isinstance(v, tuple) or len(v) != len(sh):
            raise Unsupported("shape mismatch %r / %r" % (v, sh))
        return tuple(lift(a, b) for a, b in zip(v, sh))
    if sh == "R":
        return real(v)
    if sh == "I":
        if isinstance(v, bool):
            return IntVal(int(v))
        if isinstance(v, int):
            return IntVal(v)
        if isinstance(v, float) and v == int(v):
            return IntVal(int(v))
        if is_expr(v):
            if is_int(v):
                return v
            if is_bool(v):
                return If(v, IntVal(1), IntVal(0))
            if is_real(v):
                return ToInt(v)
    if sh == "B":
        if isinstance(v, bool):
            return BoolVal(v)
        if is_expr(v) and is_bool(v):
            return v
        if isinstance(v, (int, float)):
            return BoolVal(v != 0)
        if is_expr(v) and (is_int(v) or is_real(v)):
            return v != 0
    if sh == "O":
        if isinstance(v, str):
            return strconst(v)
        if isinstance(v, Named):
            return strconst("named:" + v.name)
        if is_expr(v) and v.sort() == Obj:
            return v
    raise Unsupported("cannot lift %r to %s" % (v, sh))


def leaves(v):
    if isinstance(v, tuple):
        return [x for y in v for x in leaves(y)]
    return [v]


def flat(v, sh):
    return leaves(lift(v, sh))


def unflat(xs, sh):
    xs = list(xs)

    def go(s):
        if isinstance(s, tuple):
            return tuple(go(t) for t in s)
        return xs.pop(0)
    return go(sh)


def is_scalar(v):
    if isinstance(v, tuple):
        return all(is_scalar(x) for x in v)
    return isinstance(v, (bool, int, float, str, Named)) or is_expr(v)


def sub(v, pairs):
    if not pairs:
        return v
    if isinstance(v, tuple):
        return tuple(sub(x, pairs) for x in v)
    if is_expr(v):
        return substitute(v, *pairs)
    if hasattr(v, "subst"):
        return v.subst(pairs)
    return v


def subst_any(x, pairs):
    if isinstance(x, Domain):
        d = Domain(x.sh, subst_any(x.mem, pairs), subst_any(x.elem, pairs), subst_any(x.pos, pairs), subst_any(x.at, pairs), sub(x.card, pairs), x.name, sub(x.lo, pairs), sub(x.hi, pairs), x.owner)
        return d
    if isinstance(x, (HeapObj, tuple)) or is_expr(x):
        return sub(tuple(subst_any(y, pairs) for y in x), []) if isinstance(x, tuple) else sub(x, pairs)
    if callable(x) and not isinstance(x, type):
        return lambda *a: sub(x(*a), pairs)
    return sub(x, pairs)


def bexpr(x):
    return BoolVal(x) if isinstance(x, bool) else x


def conj(xs):
    out = []
    for x in xs:
        x = bexpr(x)
        if is_true(x):
            continue
        if is_false(x):
            return BoolVal(False)
        out.append(x)
    if not out:
        return BoolVal(True)
    return out[0] if len(out) == 1 else And(*out)


def disj(xs):
    out = []
    for x in xs:
        x = bexpr(x)
        if is_false(x):
            continue
        if is_true(x):
            return BoolVal(True)
        out.append(x)
    if not out:
        return BoolVal(False)
    return out[0] if len(out) == 1 else Or(*out)


def disj_paths(lists):
    """disjunction of conjunctions of path literals, with complementary pairs merged (a&b | a&~b = a) and absorption"""
    tab = {}

    def key(l):
        l = bexpr(l)
        pos = True
        if z3.is_not(l):
            pos, l = False, l.arg(0)
        tab[l.get_id()] = l
        return l.get_id(), pos
    sets = set()
    for ls in lists:
        cs = []
        for l in ls:
            l = bexpr(l)
            if is_true(l):
                continue
            if is_false(l):
                cs = None
                break
            todo = [l]
            while todo:
                x = todo.pop()
                if z3.is_and(x):
                    todo.extend(x.children())
                else:
                    cs.append(key(x))
        if cs is not None:
            sets.add(frozenset(cs))
    if len(sets) > 40:
        return disj([conj(l) for l in lists])
    changed = True
    while changed:
        changed = False
        for a in list(sets):
            for b in list(sets):
                if a is b or a not in sets or b not in sets:
                    continue
                if a < b:
                    sets.discard(b)
                    changed = True
                    continue
                d = a - b
                if len(d) == 1:
                    (i, v), = d
                    if (i, not v) in b:
                        r = b - {(i, not v)}
                        if a - d <= r:
                            # a = X&l, b = X&~l&Y: b shrinks to X&Y
                            sets.discard(b)
                            sets.add(r)
                            changed = True
    out = []
    for st in sorted(sets, key=lambda st: sorted(st)):
        out.append(conj([tab[i] if v else neg(tab[i]) for i, v in sorted(st)]))
    return disj(out)


def neg(x):
    x = bexpr(x)
    if is_true(x):
        return BoolVal(False)
    if is_false(x):
        return BoolVal(True)
    if z3.is_not(x):
        return x.arg(0)
    return Not(x)


def forall(vs, body):
    body = bexpr(body)
    vs = [v for v in vs]
    return ForAll(vs, body) if vs and not is_true(body) else body


def eqv(a, b):
    """equality of scalar or tuple values as a z3 Bool"""
    if isinstance(a, tuple) or isinstance(b, tuple):
        if not (isinstance(a, tuple) and isinstance(b, tuple)) or len(a) != len(b):
            return BoolVal(False)
        return conj([eqv(x, y) for x, y in zip(a, b)])
    if a is None or b is None:
        return BoolVal(a is None and b is None)
    if isinstance(a, Named) and isinstance(b, Named):
        return BoolVal(a == b)
    if isinstance(a, (HeapObj, Opaque, Poison)) or isinstance(b, (HeapObj, Opaque, Poison)):
        raise Unsupported("== on %s / %s" % (type(a).__name__, type(b).__name__))
    if not is_expr(a) and not is_expr(b):
        return BoolVal(a == b)
    sa, sb = shape_of(a), shape_of(b)
    if sa == "O" or sb == "O":
        if sa != sb:
            return BoolVal(False)
        return lift(a, "O") == lift(b, "O")
    if sa == "B" and sb == "B":
        return lift(a, "B") == lift(b, "B")
    if "R" in (sa, sb):
        return real(a) == real(b)
    return lift(a, "I") == lift(b, "I")


def merge(c, a, b):
    """If(c,a,b) on values"""
    if a is b:
        return a
    if isinstance(a, Opt) or isinstance(b, Opt):
        o = [(x.none, x.val) if isinstance(x, Opt) else (BoolVal(True), RealVal(0)) if x is None else (BoolVal(False), real(x)) for x in (a, b)]
        return Opt((a if isinstance(a, Opt) else b).E, If(bexpr(c), *[bexpr(x[0]) for x in o]), If(bexpr(c), o[0][1], o[1][1]))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge(c, x, y) for x, y in zip(a, b))
    if not is_scalar(a) or not is_scalar(b):
        if a is None and b is None:
            return None
        raise Unsupported("merge of objects")
    if not is_expr(a) and not is_expr(b) and type(a) is type(b) and a == b:
        return a
    sa, sb = shape_of(a), shape_of(b)
    if sa != sb:
        if {sa, sb} <= {"I", "R", "B"}:
            sh = "R" if "R" in (sa, sb) else "I"
        else:
            raise Unsupported("merge of %s/%s" % (sa, sb))
    else:
        sh = sa
    a, b = lift(a, sh), lift(b, sh)
    if a.eq(b):
        return a
    return If(bexpr(c), a, b)


def decls_in(e, acc=None):
    """names of uninterpreted symbols occurring in e"""
    acc = set() if acc is None else acc
    seen = set()
    todo = [e]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo.extend(x)
            continue
        if not is_expr(x):
            continue
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc.add(x.decl().name())
            todo.extend(x.children())
    return acc


def consts_of(e):
    """uninterpreted 0-ary constants of e, in order of occurrence"""
    out, seen = [], set()

    def go(x):
        if isinstance(x, tuple):
            for y in x:
                go(y)
            return
        if not is_expr(x) or x.get_id() in seen:
            return
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            go(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(x)
            for y in x.children():
                go(y)
    go(e)
    return out


# ------------------------------------------------------------------------------------------- heap objects
class HeapObj:
    STATE = ()

    def __init__(self, E):
        self.E = E
        self.depth = len(E.loops)
        self.nbound = len(E.bound)
        E.objs.append(self)

    def snap(self):
        return (self.__class__, {k: self.__dict__.get(k) for k in self.STATE})

    def restore(self, s):
        self.__class__ = s[0]
        self.__dict__.update(s[1])

    def subst(self, pairs):
        """the object of another iteration (objects created before the loop stay themselves)"""
        if not self.nbound:
            return self
        c = object.__new__(type(self))
        for k, v in self.__dict__.items():
            c.__dict__[k] = v if k in ("E", "cls") or v is None or isinstance(v, (int, str, bool)) else subst_any(v, pairs)
        self.E.objs.append(c)
        return c

    def carried(self):
        return self.depth < len(self.E.loops)

    def log(self, op, key=None, val=None):
        E = self.E
        if E.nosplit:
            raise NeedSplit()
        if self.depth < len(E.loops):
            E.loops[-1].log.append(Entry(self, op, key, val))

    def havoc(self):
        raise Unsupported("loop changes a %s" % type(self).__name__)

    def resolve(self, entries, init):
        raise Unsupported("loop changes a %s" % type(self).__name__)

    # protocol defaults
    def attr(self, name):
        raise Unsupported("%s.%s" % (type(self).__name__, name))

    def getitem(self, k):
        raise Unsupported("%s[...]" % type(self).__name__)

    def setitem(self, k, v):
        raise Unsupported("%s[...] = ..." % type(self).__name__)

    def contains(self, k):
        raise Unsupported("in %s" % type(self).__name__)

    def iterate(self):
        """list of ('one', v) / ('dom', Domain)"""
        raise Unsupported("iteration over %s" % type(self).__name__)

    def length(self):
        raise Unsupported("len of %s" % type(self).__name__)

    def isinst(self, names):
        return any(n in self.PYTYPES for n in names)
    PYTYPES = ()


class NeedSplit(Exception):
    pass


class Entry:
    def __init__(self, o, op, key, val, cond=None, bound=(), mems=(), lits=()):
        self.o, self.op, self.key, self.val = o, op, key, val
        self.lits, self.bound, self.mems = list(lits), list(bound), list(mems)
        self.first = None

    @property
    def cond(self):
        return conj(self.mems + self.lits)


class Domain:
    """iteration domain: shape of its variables, membership, element value; pos: optional position function"""

    def __init__(self, sh, mem, elem=None, pos=None, at=None, card=None, name="x", lo=None, hi=None, owner=None):
        self.sh, self.mem, self.elem = sh, mem, elem or (lambda k: k)
        self.pos, self.at, self.card, self.name, self.lo, self.hi, self.owner = pos, at, card, name, lo, hi, owner

    def mapped(self, f):
        e = self.elem
        return Domain(self.sh, self.mem, lambda k: f(e(k)), self.pos, self.at, self.card, self.name, self.lo, self.hi, self.owner)


def lower(v, sh):
    """scalar value to a comparable tuple of z3 leaves"""
    return flat(v, sh)
