"""prints a Cython file as Python text (run by the interpreter that has Cython): the statements are those of Cython's own parse
tree. C declarations are dropped; pointers, allocation and NULL become calls of names starting with 'cy_' that the verifier
interprets. Refuses (exit 3) C types that would change values and constructs it does not know."""
import sys
from Cython.Compiler.TreeFragment import parse_from_strings
OKTYPES = {"int", "double", "bint", "cbool", "object", "void", "list", "Graph", None}


class Refuse(Exception):
    pass


class W:
    def __init__(self):
        self.out, self.structs, self.ints = [], {}, set()

    def line(self, d, s):
        self.out.append("    " * d + s)

    def m(self, n, *a):
        f = getattr(self, "n_" + type(n).__name__, None)
        if f is None:
            raise Refuse(type(n).__name__)
        return f(n, *a)

    # ---- expressions
    def n_NameNode(self, n):
        return str(n.name)

    def n_IntNode(self, n):
        return str(n.value)

    def n_FloatNode(self, n):
        return str(n.value)

    def n_BoolNode(self, n):
        return "True" if n.value else "False"

    def n_NoneNode(self, n):
        return "None"

    def n_NullNode(self, n):
        return "cy_null"

    def n_UnicodeNode(self, n):
        return repr(str(n.value))
    n_IdentifierStringNode = n_StringNode = n_UnicodeNode

    def n_AttributeNode(self, n):
        return "%s.%s" % (self.m(n.obj), n.attribute)

    def n_IndexNode(self, n):
        return "%s[%s]" % (self.m(n.base), self.m(n.index))

    def n_SliceIndexNode(self, n):
        return "%s[%s:%s]" % (self.m(n.base), self.m(n.start) if n.start else "", self.m(n.stop) if n.stop else "")

    def n_TupleNode(self, n):
        return "(%s)" % "".join(self.m(x) + ", " for x in n.args)

    def n_ListNode(self, n):
        return "[%s]" % ", ".join(self.m(x) for x in n.args)

    def n_SetNode(self, n):
        return "{%s}" % ", ".join(self.m(x) for x in n.args)

    def n_DictNode(self, n):
        return "{%s}" % ", ".join("%s: %s" % (self.m(x.key), self.m(x.value)) for x in n.key_value_pairs)

    def sizeof(self, n):
        if type(n).__name__ == "SizeofTypeNode":
            return self.typ(n.base_type, n.declarator)
        if type(n).__name__ == "SizeofVarNode":
            return self.m(n.operand)
        return None

    def n_TypecastNode(self, n):
        o = n.operand
        if type(o).__name__ == "SimpleCallNode" and self.m(o.function) == "malloc":
            a = o.args[0]
            if type(a).__name__ == "MulNode":
                x, t = (a.operand1, self.sizeof(a.operand2)) if self.sizeof(a.operand2) else (a.operand2, self.sizeof(a.operand1))
                cnt = self.m(x)
            else:
                t, cnt = self.sizeof(a), "1"
            if t is None:
                raise Refuse("malloc")
            want = self.typ(n.base_type, n.declarator)
            if want != t + "*":
                raise Refuse("allocation of %s as %s" % (t, want))
            return "cy_malloc(%r, %s)" % (t, cnt)
        self.typ(n.base_type, n.declarator)
        return self.m(o)

    def n_AmpersandNode(self, n):
        o = n.operand
        if type(o).__name__ != "IndexNode":
            raise Refuse("address")
        return "cy_addr(%s, %s)" % (self.m(o.base), self.m(o.index))

    def n_SimpleCallNode(self, n):
        f = self.m(n.function)
        if f == "malloc":
            raise Refuse("untyped malloc")
        f = "cy_free" if f == "free" else f
        return "%s(%s)" % (f, ", ".join(self.m(x) for x in n.args))

    def n_GeneralCallNode(self, n):
        a = [self.m(x) for x in n.positional_args.args]
        a += ["%s=%s" % (x.key.value, self.m(x.value)) for x in n.keyword_args.key_value_pairs]
        return "%s(%s)" % (self.m(n.function), ", ".join(a))

    def n_PrimaryCmpNode(self, n):
        o = [x for x in (n.operand1, n.operand2) if type(x).__name__ != "NullNode"]
        if len(o) == 1 and n.cascade is None and n.operator in ("==", "!=", "is", "is_not"):
            return ("cy_isnull(%s)" if n.operator in ("==", "is") else "(not cy_isnull(%s))") % self.m(o[0])
        if n.cascade is not None:
            raise Refuse("comparison chain")
        op = {"not_in": "not in", "is_not": "is not", "<>": "!="}.get(n.operator, n.operator)
        return "(%s %s %s)" % (self.m(n.operand1), op, self.m(n.operand2))

    def n_BoolBinopNode(self, n):
        return "(%s %s %s)" % (self.m(n.operand1), n.operator, self.m(n.operand2))

    def n_NotNode(self, n):
        return "(not %s)" % self.m(n.operand)

    def n_UnaryMinusNode(self, n):
        return "(-%s)" % self.m(n.operand)

    def binop(self, n):
        return "(%s %s %s)" % (self.m(n.operand1), n.operator, self.m(n.operand2))
    n_AddNode = n_SubNode = n_MulNode = binop

    def n_CondExprNode(self, n):
        return "(%s if %s else %s)" % (self.m(n.true_val), self.m(n.test), self.m(n.false_val))

    def n_YieldExprNode(self, n):
        return "(yield %s)" % self.m(n.arg)

    # ---- types
    def typ(self, b, d=None):
        t = type(b).__name__
        if t == "CSimpleBaseTypeNode":
            if b.name is not None and str(b.name) not in OKTYPES and str(b.name) not in self.structs or getattr(b, "signed", 1) not in (1,) or getattr(b, "longness", 0) < 0:
                if str(b.name) not in ("TNode", "IntStack", "TreapStack"):
                    raise Refuse("C type %s" % b.name)
            r = str(b.name)
        elif t == "CTupleBaseTypeNode":
            r = "(%s)" % ",".join(self.typ(c.base_type, c.declarator) if hasattr(c, "declarator") else self.typ(c) for c in b.components)
        elif t == "CComplexBaseTypeNode":
            r = self.typ(b.base_type, b.declarator)
        elif t == "MemoryViewSliceTypeNode":
            r = "view"
        else:
            raise Refuse("type " + t)
        while d is not None and type(d).__name__ == "CPtrDeclaratorNode":
            r += "*"
            d = d.base
        return r

    # ---- statements
    def n_StatListNode(self, n, d):
        if not n.stats:
            self.line(d, "pass")
        for s in n.stats:
            self.m(s, d)

    def body(self, n, d):
        k = len(self.out)
        self.m(n, d)
        if len(self.out) == k:
            self.line(d, "pass")

    def n_FromCImportStatNode(self, n, d):
        mod = str(n.module_name)
        if mod.startswith("libc"):
            return
        full = mod.lstrip(".")
        lvl = n.relative_level or 0
        if full in ("treaps",):
            return
        self.line(d, "from %s%s import %s" % ("." * max(lvl, 0), full, ", ".join(str(x[1]) for x in n.imported_names)))

    def n_FromImportStatNode(self, n, d):
        m = n.module
        self.line(d, "from %s import %s" % (str(m.module_name.value), ", ".join(str(x[0]) for x in n.items)))

    def n_CStructOrUnionDefNode(self, n, d):
        fs = []
        for a in n.attributes:
            for x in a.declarators:
                t = self.typ(a.base_type, x)
                y = x
                while hasattr(y, "base"):
                    y = y.base
                fs.append((str(y.name), t))
        self.structs[str(n.name)] = fs
        self.line(d, "%s = cy_struct(%r, %r)" % (n.name, str(n.name), tuple(fs)))

    def n_CTypeDefNode(self, n, d):
        y = n.declarator
        self.structs[str(y.name)] = None
        self.line(d, "%s = cy_type(%r)" % (y.name, self.typ(n.base_type)))

    def n_CClassDefNode(self, n, d):
        self.line(d, "class %s:" % n.class_name)
        self.body(n.body, d + 1)

    def n_CVarDefNode(self, n, d):
        for x in n.declarators:
            t = self.typ(n.base_type, x)
            y = x
            while hasattr(y, "base"):
                y = y.base
            self.ints.discard(str(y.name))
            if t == "int":
                self.ints.add(str(y.name))
            if getattr(y, "default", None) is not None:
                v = self.m(y.default)
                if t in self.structs and self.structs[t] is not None or t in ("IntStack", "TreapStack"):
                    v = "cy_copy(%s)" % v
                elif t == "int" and type(y.default).__name__ != "IntNode":
                    v = "cy_int(%s)" % v
                self.line(d, "%s = %s" % (y.name, v))

    def args(self, args):
        r = []
        for a in args:
            self.typ(a.base_type, a.declarator) if type(a.base_type).__name__ != "CSimpleBaseTypeNode" or a.base_type.name is not None and a.base_type.is_basic_c_type else None
            y = a.declarator
            while hasattr(y, "base"):
                y = y.base
            nm = str(y.name) or str(a.base_type.name)
            df = a.default if a.default is not None else getattr(y, "default", None)
            r.append(nm + ("=" + self.m(df) if df is not None else ""))
        return ", ".join(r)

    def conv(self, args, d):
        """C conversions of integer parameters"""
        self.ints = set()
        for a in args:
            b = a.base_type
            y = a.declarator
            if type(b).__name__ == "CSimpleBaseTypeNode" and b.is_basic_c_type and type(y).__name__ == "CNameDeclaratorNode" and str(b.name) == "int" and y.name:
                self.ints.add(str(y.name))
                self.line(d, "%s = cy_int(%s)" % (y.name, y.name))

    def n_DefNode(self, n, d):
        nm = "__init__" if n.name == "__cinit__" else str(n.name)
        if n.star_arg or n.starstar_arg or n.decorators:
            raise Refuse("signature")
        self.line(d, "def %s(%s):" % (nm, self.args(n.args)))
        self.conv(n.args, d + 1)
        self.body(n.body, d + 1)

    def n_CFuncDefNode(self, n, d):
        y = n.declarator
        while type(y).__name__ != "CFuncDeclaratorNode":
            y = y.base
        self.typ(n.base_type)
        self.line(d, "def %s(%s):" % (y.base.name, self.args(y.args)))
        self.conv(y.args, d + 1)
        self.body(n.body, d + 1)

    def n_SingleAssignmentNode(self, n, d):
        if type(n.rhs).__name__ == "ImportNode":
            self.line(d, "import %s as %s" % (n.rhs.module_name.value, self.m(n.lhs)))
            return
        r = self.m(n.rhs)
        if type(n.lhs).__name__ == "NameNode" and str(n.lhs.name) in self.ints and type(n.rhs).__name__ != "IntNode":
            r = "cy_int(%s)" % r
        self.line(d, "%s = %s" % (self.m(n.lhs), r))

    def n_InPlaceAssignmentNode(self, n, d):
        self.line(d, "%s %s= %s" % (self.m(n.lhs), n.operator, self.m(n.rhs)))

    def n_ExprStatNode(self, n, d):
        self.line(d, self.m(n.expr))

    def n_ReturnStatNode(self, n, d):
        self.line(d, "return %s" % self.m(n.value) if n.value is not None else "return")

    def n_PassStatNode(self, n, d):
        self.line(d, "pass")

    def n_ContinueStatNode(self, n, d):
        self.line(d, "continue")

    def n_BreakStatNode(self, n, d):
        self.line(d, "break")

    def n_AssertStatNode(self, n, d):
        self.line(d, "assert %s" % self.m(n.condition))

    def n_IfStatNode(self, n, d):
        k = "if"
        for c in n.if_clauses:
            self.line(d, "%s %s:" % (k, self.m(c.condition)))
            self.body(c.body, d + 1)
            k = "elif"
        if n.else_clause is not None:
            self.line(d, "else:")
            self.body(n.else_clause, d + 1)

    def n_WhileStatNode(self, n, d):
        if n.else_clause is not None:
            raise Refuse("while-else")
        self.line(d, "while %s:" % self.m(n.condition))
        self.body(n.body, d + 1)

    def n_ForInStatNode(self, n, d):
        if n.else_clause is not None:
            raise Refuse("for-else")
        self.line(d, "for %s in %s:" % (self.m(n.target), self.m(n.iterator.sequence)))
        self.body(n.body, d + 1)


w = W()
try:
    t = parse_from_strings("m", open(sys.argv[1]).read())
    w.m(t.body, 0)
except Refuse as e:
    sys.stderr.write("unsupported Cython: %s\n" % e)
    sys.exit(3)
print("\n".join(w.out))
