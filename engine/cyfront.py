"""Cython front end: a .pyx module is parsed with Cython's own parser and re-emitted as Python with explicit
C-type conversions, so that it can be executed on symbolic values."""
import threading
from io import StringIO

from Cython.Compiler import Parsing, Scanning, Errors, Nodes, ExprNodes as E, Builtin  # noqa: F401
from Cython.Compiler.TreeFragment import StringParseContext

from .core import Unsupported


def parse(path, code=None):
    if code is None:
        with open(path, encoding="utf-8") as f:
            code = f.read()
    Errors.init_thread()
    ctx = StringParseContext("m")
    src = Scanning.StringSourceDescriptor("m", code)
    scope = ctx.find_module("m", pos=(src, 1, 0), need_pxd=False)
    sc = Scanning.PyrexScanner(StringIO(code), src, source_encoding="UTF-8", scope=scope, context=ctx,
                               initial_pos=(src, 1, 0))
    return Parsing.p_module(sc, False, "m")


INT = {"int", "long", "short", "char", "size_t", "Py_ssize_t", "ssize_t", "int32_t", "int64_t", "bint", "Py_hash_t"}
FLT = {"double", "float"}


class TypeInfo:
    def __init__(self, kind, ndim=0, elem=None, contig=None):
        self.kind, self.ndim, self.elem, self.contig = kind, ndim, elem, contig


def base_type(n):
    t = type(n).__name__
    if t == "MemoryViewSliceTypeNode":
        b = base_type(n.base_type_node)
        contig = None
        if n.axes:
            last, first = n.axes[-1], n.axes[0]
            if type(last.step).__name__ == "IntNode":
                contig = "C"
            elif type(first.step).__name__ == "IntNode":
                contig = "F"
        return TypeInfo("mv", len(n.axes), b, contig)
    if t == "CSimpleBaseTypeNode":
        name = n.name
        if n.complex:
            return TypeInfo("c")
        if name in FLT:
            return TypeInfo("f")
        if name in INT or (n.is_basic_c_type and name in INT) or n.longness:
            width = 8 if (n.longness or name in ("size_t", "Py_ssize_t", "ssize_t", "int64_t", "long")) else 4
            r = TypeInfo("b" if name == "bint" else "i")
            r.width = width
            return r
        if name == "void":
            return TypeInfo("void")
        if n.is_basic_c_type and name not in (None, "object"):
            return TypeInfo("i")
        return TypeInfo("o")
    if t == "CConstOrVolatileTypeNode" or t == "CConstTypeNode":
        return base_type(n.base_type)
    if t == "TemplatedTypeNode":
        return TypeInfo("o")
    if t == "CComplexBaseTypeNode":
        return base_type(n.base_type)
    raise Unsupported(f"Cython type {t}")


def decl_name(d):
    """(name, extra) of a declarator."""
    t = type(d).__name__
    if t == "CNameDeclaratorNode":
        return d.name, d
    if t == "CFuncDeclaratorNode":
        return decl_name(d.base)
    raise Unsupported(f"Cython declarator {t}")


def elem_code(ti):
    e = ti.elem
    if e.kind == "i":
        return "'i%d'" % getattr(e, "width", 4)
    return {"f": "'f8'", "c": "'c16'", "b": "'i4'", "o": "None"}[e.kind]


def conv(ti, expr):
    if ti is None or ti.kind in ("o", "void"):
        return expr
    if ti.kind == "mv":
        return f"__mv({expr}, {elem_code(ti)}, {ti.ndim}, {ti.contig!r})"
    return {"f": "__cd", "c": "__cc", "i": "__ci", "b": "__cb"}[ti.kind] + f"({expr})"


BINOPS = {"AddNode": "+", "SubNode": "-", "MulNode": "*", "DivNode": "/", "ModNode": "%", "PowNode": "**",
          "IntBinopNode": None, "MatMultNode": "@"}


class Emitter:
    def __init__(self):
        self.out = []
        self.ind = 0
        self.types = [{}]
        self.rettype = [None]
        self.classes = []

    def w(self, s):
        self.out.append("    " * self.ind + s)

    # ---- statements
    def stat(self, n):
        if n is None:
            return
        t = type(n).__name__
        m = getattr(self, "s_" + t, None)
        if m is None:
            raise Unsupported(f"Cython statement {t}")
        m(n)

    def block(self, n):
        self.ind += 1
        k = len(self.out)
        self.stat(n)
        if len(self.out) == k:
            self.w("pass")
        self.ind -= 1

    def s_ModuleNode(self, n):
        self.stat(n.body)

    def s_StatListNode(self, n):
        for s in n.stats:
            self.stat(s)

    s_CompilerDirectivesNode = s_ModuleNode

    def s_ExprStatNode(self, n):
        self.w(self.e(n.expr))

    def s_PassStatNode(self, n):
        self.w("pass")

    def s_BreakStatNode(self, n):
        self.w("break")

    def s_ContinueStatNode(self, n):
        self.w("continue")

    def s_FromCImportStatNode(self, n):
        mod = n.module_name
        for imp in n.imported_names:
            pos, name, as_name = imp[0], imp[1], imp[2]
            if mod in ("libc.math",):
                self.w(f"{as_name or name} = __libc_math.{name}")
            elif mod.startswith("libc.") or mod.startswith("cython"):
                self.w(f"{as_name or name} = None")
            else:
                raise Unsupported(f"cimport from {mod}")

    def s_CImportStatNode(self, n):
        if n.module_name.split(".")[0] in ("cython", "libc"):
            if n.module_name == "cython" or n.as_name == "cython":
                self.w("cython = __cython")
            return
        if n.module_name == "numpy":
            self.w(f"{n.as_name or 'numpy'} = __np")
            return
        raise Unsupported(f"cimport {n.module_name}")

    def s_FromImportStatNode(self, n):
        mod = n.module.module_name.value
        for name, target in n.items:
            self.w(f"from {'.' * max(0, n.module.level or 0)}{mod} import {name} as {self.e(target)}")

    def s_SingleAssignmentNode(self, n):
        if type(n.rhs).__name__ == "ImportNode":
            name = n.rhs.module_name.value
            if name == "cython":
                self.w(f"{self.e(n.lhs)} = __cython")
            else:
                self.w(f"import {name} as {self.e(n.lhs)}")
            return
        self.assign(n.lhs, self.e(n.rhs))

    def assign(self, lhs, rhs):
        if type(lhs).__name__ == "NameNode":
            ti = self.types[-1].get(lhs.name)
            rhs = conv(ti, rhs)
            self.w(f"{lhs.name} = {rhs}")
        else:
            self.w(f"{self.e(lhs)} = {rhs}")

    def s_CascadedAssignmentNode(self, n):
        tmp = "__t"
        self.w(f"{tmp} = {self.e(n.rhs)}")
        for lhs in n.lhs_list:
            self.assign(lhs, tmp)

    def s_InPlaceAssignmentNode(self, n):
        l = self.e(n.lhs)
        if type(n.lhs).__name__ == "NameNode" and self.types[-1].get(n.lhs.name) is not None:
            self.w(f"{l} = {conv(self.types[-1][n.lhs.name], f'{l} {n.operator} ({self.e(n.rhs)})')}")
        else:
            self.w(f"{l} {n.operator}= {self.e(n.rhs)}")

    def s_CVarDefNode(self, n):
        ti = base_type(n.base_type)
        for d in n.declarators:
            if type(d).__name__ == "CFuncDeclaratorNode":
                continue
            if type(d).__name__ == "CArrayDeclaratorNode":
                dims = []
                b = d
                while type(b).__name__ == "CArrayDeclaratorNode":
                    dims.append(self.e(b.dimension))
                    b = b.base
                name, _ = decl_name(b)
                dt = {"f": "'f8'", "c": "'c16'", "i": "'i4'", "b": "'i4'"}[ti.kind]
                self.w(f"{name} = __np.zeros(({', '.join(reversed(dims)) if False else ', '.join(dims[::-1])},), dtype=__np.dtype({dt}))")
                continue
            name, dn = decl_name(d)
            self.types[-1][name] = ti
            if dn.default is not None:
                self.w(f"{name} = {conv(ti, self.e(dn.default))}")

    def s_DelStatNode(self, n):
        for a in n.args:
            self.w(f"del {self.e(a)}")

    def s_ReturnStatNode(self, n):
        if n.value is None:
            self.w("return")
        else:
            self.w(f"return {conv(self.rettype[-1], self.e(n.value))}")

    def s_IfStatNode(self, n):
        kw = "if"
        for c in n.if_clauses:
            self.w(f"{kw} {self.e(c.condition)}:")
            self.block(c.body)
            kw = "elif"
        if n.else_clause is not None:
            self.w("else:")
            self.block(n.else_clause)

    def s_WhileStatNode(self, n):
        self.w(f"while {self.e(n.condition)}:")
        self.block(n.body)
        if n.else_clause is not None:
            self.w("else:")
            self.block(n.else_clause)

    def s_ForInStatNode(self, n):
        it = n.iterator.sequence if hasattr(n.iterator, "sequence") else n.iterator
        self.w(f"for {self.e(n.target)} in {self.e(it)}:")
        self.block(n.body)
        if n.else_clause is not None:
            self.w("else:")
            self.block(n.else_clause)

    def s_ForFromStatNode(self, n):
        raise Unsupported("for-from loop")

    def s_ParallelRangeNode(self, n):
        self.w(f"for {self.e(n.target)} in range({', '.join(self.e(a) for a in n.args)}):")
        self.block(n.body)

    def s_GILStatNode(self, n):
        self.w("if True:")
        self.block(n.body)

    def s_WithStatNode(self, n):
        self.w("if True:")
        self.block(n.body)

    def s_RaiseStatNode(self, n):
        self.w("raise" + (f" {self.e(n.exc_type)}" if n.exc_type is not None else "") +
               (f"({self.e(n.exc_value)})" if n.exc_value is not None else ""))

    def s_AssertStatNode(self, n):
        c = getattr(n, "condition", None) or n.cond
        self.w(f"assert {self.e(c)}")

    def s_TryExceptStatNode(self, n):
        self.w("try:")
        self.block(n.body)
        for c in n.except_clauses:
            pat = "" if c.pattern is None else " " + (self.e(c.pattern[0]) if len(c.pattern) == 1 else
                                                       "(" + ", ".join(self.e(p) for p in c.pattern) + ")")
            self.w(f"except{pat}" + (f" as {self.e(c.target)}" if c.target is not None else "") + ":")
            self.block(c.body)
        if n.else_clause is not None:
            self.w("else:")
            self.block(n.else_clause)

    def s_GlobalNode(self, n):
        self.w("global " + ", ".join(n.names))

    # ---- functions
    def args_of(self, args, star=None, kw=None):
        out, info = [], []
        for a in args:
            ti = base_type(a.base_type) if a.base_type is not None else TypeInfo("o")
            name, dn = decl_name(a.declarator)
            if not name and type(a.base_type).__name__ == "CSimpleBaseTypeNode":
                name, ti = a.base_type.name, TypeInfo("o")
            s = name
            if a.default is not None:
                s += f"={self.e(a.default)}"
            out.append(s)
            info.append((name, ti))
        return out, info

    def s_DefNode(self, n):
        args, info = self.args_of(n.args)
        if n.star_arg is not None:
            args.append("*" + n.star_arg.name)
        if n.starstar_arg is not None:
            args.append("**" + n.starstar_arg.name)
        self.func(n.name, args, info, n.body, None)

    def s_CFuncDefNode(self, n):
        d = n.declarator
        while type(d).__name__ != "CFuncDeclaratorNode":
            d = d.base
        name, _ = decl_name(d)
        args, info = self.args_of(d.args)
        try:
            rt = base_type(n.base_type)
        except Unsupported:
            rt = TypeInfo("o")
        self.func(name, args, info, n.body, rt)

    def func(self, name, args, info, body, rt):
        self.w(f"def {name}({', '.join(args)}):")
        self.ind += 1
        self.types.append({})
        self.rettype.append(rt)
        for a, ti in info:
            self.types[-1][a] = ti
            if ti.kind not in ("o", "void"):
                self.w(f"{a} = {conv(ti, a)}")
        self.stat(body)
        if rt is not None and rt.kind in "fcib":
            self.w({"f": "return __cd(0.0)", "c": "return __cc(0.0)"}.get(rt.kind, "return 0"))
        else:
            self.w("pass")
        self.rettype.pop()
        self.types.pop()
        self.ind -= 1

    def s_CClassDefNode(self, n):
        raise Unsupported("cdef class")

    def s_PyClassDefNode(self, n):
        self.w(f"class {n.name}:")
        self.block(n.body)

    # ---- expressions
    def e(self, n):
        t = type(n).__name__
        m = getattr(self, "e_" + t, None)
        if m is None:
            if t in BINOPS and BINOPS[t]:
                return f"({self.e(n.operand1)} {getattr(n, 'operator', None) or BINOPS[t]} {self.e(n.operand2)})"
            if hasattr(n, "operand1") and hasattr(n, "operator"):
                return f"({self.e(n.operand1)} {n.operator} {self.e(n.operand2)})"
            raise Unsupported(f"Cython expression {t}")
        return m(n)

    def e_NameNode(self, n):
        return n.name

    def e_IntNode(self, n):
        return str(n.value).rstrip("uUlL")

    def e_FloatNode(self, n):
        return f"{n.value}"

    def e_ImagNode(self, n):
        return f"{n.value}j"

    def e_BoolNode(self, n):
        return "True" if n.value else "False"

    def e_NoneNode(self, n):
        return "None"

    def e_UnicodeNode(self, n):
        return repr(str(n.value))
    e_IdentifierStringNode = e_StringNode = e_UnicodeNode

    def e_BytesNode(self, n):
        return repr(bytes(n.value))

    def e_JoinedStrNode(self, n):
        return "'...'"

    def e_TupleNode(self, n):
        return "(" + "".join(self.e(a) + ", " for a in n.args) + ")"

    def e_ListNode(self, n):
        return "[" + ", ".join(self.e(a) for a in n.args) + "]"

    def e_DictNode(self, n):
        return "{" + ", ".join(f"{self.e(i.key)}: {self.e(i.value)}" for i in n.key_value_pairs) + "}"

    def e_AttributeNode(self, n):
        return f"{self.e(n.obj)}.{n.attribute}"

    def e_IndexNode(self, n):
        i = n.index
        s = self.e(i)
        if type(i).__name__ == "TupleNode":
            s = s[1:-1]
        return f"{self.e(n.base)}[{s}]"

    def e_SliceIndexNode(self, n):
        a = self.e(n.start) if n.start is not None and type(n.start).__name__ != "NoneNode" else ""
        b = self.e(n.stop) if n.stop is not None and type(n.stop).__name__ != "NoneNode" else ""
        return f"{self.e(n.base)}[{a}:{b}]"

    def e_SliceNode(self, n):
        def p(x):
            return "" if x is None or type(x).__name__ == "NoneNode" else self.e(x)
        s = f"{p(n.start)}:{p(n.stop)}"
        if p(n.step):
            s += ":" + p(n.step)
        return s

    def e_SimpleCallNode(self, n):
        return f"{self.e(n.function)}({', '.join(self.e(a) for a in n.args)})"

    def e_GeneralCallNode(self, n):
        a = self.e(n.positional_args)
        parts = []
        if type(n.positional_args).__name__ == "TupleNode":
            parts = [self.e(x) for x in n.positional_args.args]
        else:
            parts = ["*" + a]
        if n.keyword_args is not None:
            for i in n.keyword_args.key_value_pairs:
                parts.append(f"{i.key.value}={self.e(i.value)}")
        return f"{self.e(n.function)}({', '.join(parts)})"

    def cmp_tail(self, n):
        op = {"is_not": "is not", "not_in": "not in"}.get(n.operator, n.operator)
        s = f" {op} {self.e(n.operand2)}"
        if n.cascade is not None:
            s += self.cmp_tail(n.cascade)
        return s

    def e_PrimaryCmpNode(self, n):
        return f"({self.e(n.operand1)}{self.cmp_tail(n)})"

    def e_BoolBinopNode(self, n):
        return f"({self.e(n.operand1)} {n.operator} {self.e(n.operand2)})"

    def e_NotNode(self, n):
        return f"(not {self.e(n.operand)})"

    def e_UnaryMinusNode(self, n):
        return f"(-{self.e(n.operand)})"

    def e_UnaryPlusNode(self, n):
        return f"(+{self.e(n.operand)})"

    def e_TildeNode(self, n):
        return f"(~{self.e(n.operand)})"

    def e_CondExprNode(self, n):
        test = getattr(n, "test", None) or n.condition
        return f"({self.e(n.true_val)} if {self.e(test)} else {self.e(n.false_val)})"

    def e_TypecastNode(self, n):
        ti = base_type(n.base_type)
        x = self.e(n.operand)
        if ti.kind == "i":
            return f"__trunc({x})"
        return conv(ti, x)

    def e_ComprehensionNode(self, n):
        raise Unsupported("comprehension in Cython")


def translate(path):
    em = Emitter()
    em.stat(parse(path))
    return "\n".join(em.out) + "\n"


_lock = threading.Lock()
