"""Fortran front end: parses /repo/tbplas/fortran/*.{f90,F90} and executes the routines over symbolic scalars.

Covers the subset of Fortran 2003 the package is written in (modules, generic interfaces, user-defined operators,
explicit/assumed shape arrays, sections, pointers, derived types, DO/IF/SELECT/WHERE, OpenMP worksharing loops).
Anything else raises Unsupported.  Inside an ``!$OMP PARALLEL DO`` the accesses of every iteration are recorded
and conflicts between iterations are collected in ``RACES``.
"""
import os
import re

import numpy as np

from . import core, npshim
from .core import Sym, SymBool, lift, Unsupported, s_not, s_and, s_or, s_trunc, s_floor, ite

# ---- source -------------------------------------------------------------------------------------
_DEFINED = set()


def preprocess(text, incdir):
    out, stack = [], []
    defs = set(_DEFINED)

    def run(txt):
        for ln in txt.split("\n"):
            s = ln.strip()
            if s.startswith("#"):
                d = s[1:].strip()
                w = d.split(None, 1)
                k, a = w[0], (w[1].strip() if len(w) > 1 else "")
                if k == "ifdef":
                    stack.append([a.split()[0] in defs, False])
                elif k == "ifndef":
                    stack.append([a.split()[0] not in defs, False])
                elif k == "if":
                    e = re.sub(r"defined\s*\(?\s*(\w+)\s*\)?", lambda m: str(m.group(1) in defs), a)
                    e = e.replace("&&", " and ").replace("||", " or ").replace("!", " not ")
                    e = re.sub(r"\b(?!True\b|False\b|and\b|or\b|not\b)[A-Za-z_]\w*\b", "False", e)
                    stack.append([bool(eval(e, {})), False])
                elif k == "else":
                    stack[-1][0] = not stack[-1][0] and not stack[-1][1]
                elif k == "elif":
                    stack[-1][1] = stack[-1][1] or stack[-1][0]
                    stack[-1][0] = False
                elif k == "endif":
                    stack.pop()
                elif all(x[0] for x in stack):
                    if k == "define":
                        defs.add(a.split()[0])
                    elif k == "undef":
                        defs.discard(a.split()[0])
                    elif k == "include" and a.startswith('"'):
                        p = os.path.join(incdir, a.strip('"'))
                        if os.path.exists(p):
                            with open(p) as f:
                                run(f.read())
                out.append("")
                continue
            out.append(ln if all(x[0] for x in stack) else "")
    run(text)
    return out


def _strip_comment(s):
    q = None
    for i, ch in enumerate(s):
        if q:
            if ch == q:
                q = None
        elif ch in "'\"":
            q = ch
        elif ch == "!":
            return s[:i]
    return s


def logical_lines(lines):
    """-> list of (lineno, text); OpenMP directives are kept as lines starting with '!$omp'."""
    res, buf, start = [], "", 0
    omp = ""
    for no, ln in enumerate(lines, 1):
        s = ln.strip()
        if s.lower().startswith("!$omp"):
            d = s
            if omp:
                d = re.sub(r"(?i)^!\$omp\s*&?", "", d)
                omp += " " + d.rstrip("&").strip()
            else:
                omp = d.rstrip("&").strip()
            if not d.endswith("&"):
                res.append((no, omp.lower()))
                omp = ""
            continue
        s = _strip_comment(s).strip()
        if not s:
            continue
        if buf:
            if s.startswith("&"):
                s = s[1:]
            buf += " " + s if not buf.endswith("\0") else s
        else:
            buf, start = s, no
        if buf.endswith("&"):
            buf = buf[:-1]
            continue
        for part in _split_top(buf, ";"):
            if part.strip():
                res.append((start, part.strip()))
        buf = ""
    return res


def _split_top(s, sep):
    out, depth, q, cur = [], 0, None, ""
    i = 0
    while i < len(s):
        ch = s[i]
        if q:
            cur += ch
            if ch == q:
                q = None
        elif ch in "'\"":
            q = ch
            cur += ch
        elif ch in "([":
            depth += 1
            cur += ch
        elif ch in ")]":
            depth -= 1
            cur += ch
        elif depth == 0 and s.startswith(sep, i):
            out.append(cur)
            cur = ""
            i += len(sep)
            continue
        else:
            cur += ch
        i += 1
    out.append(cur)
    return out


# ---- expressions --------------------------------------------------------------------------------
_TOK = re.compile(r"""\s*(?:
 (?P<dotop>\.[A-Za-z]+\.)
|(?P<num>(?:\d+\.(?![A-Za-z]+\.)\d*|\.\d+|\d+)(?:[eEdD][+-]?\d+)?(?:_\w+)?)
|(?P<name>[A-Za-z_]\w*)
|(?P<str>'(?:[^']|'')*'|"(?:[^"]|"")*")
|(?P<op>\*\*|//|/=|==|<=|>=|=>|\(/|/\)|::|[-+*/<>=(),:%\[\]])
)""", re.X)


def tokenize(s):
    pos, out = 0, []
    s = s.rstrip()
    while pos < len(s):
        m = _TOK.match(s, pos)
        if not m or m.end() == pos:
            raise Unsupported(f"Fortran token at: {s[pos:pos + 30]}")
        k = m.lastgroup
        v = m.group(k)
        if k == "dotop":
            v = v.lower()
        if k == "name":
            v = v.lower()
        if k == "op" and v == "(/":
            # '(/' may also be '(' '/=' ... : only an array constructor when followed by something and closed by '/)'
            pass
        out.append((k, v))
        pos = m.end()
    out.append(("end", None))
    return out


_REL = {"==": "==", "/=": "/=", "<": "<", ">": ">", "<=": "<=", ">=": ">=", ".eq.": "==", ".ne.": "/=", ".lt.": "<",
        ".gt.": ">", ".le.": "<=", ".ge.": ">="}
_DOTKNOWN = set(_REL) | {".and.", ".or.", ".not.", ".eqv.", ".neqv.", ".true.", ".false."}


class P:
    def __init__(self, s):
        self.t = tokenize(s)
        self.i = 0

    def peek(self):
        return self.t[self.i]

    def nxt(self):
        r = self.t[self.i]
        self.i += 1
        return r

    def acc(self, v):
        if self.t[self.i][1] == v and self.t[self.i][0] != "str":
            self.i += 1
            return True
        return False

    def need(self, v):
        if not self.acc(v):
            raise Unsupported(f"Fortran syntax: expected {v!r}, got {self.peek()[1]!r}")

    def full(self):
        e = self.expr()
        if self.peek()[0] != "end":
            raise Unsupported(f"Fortran syntax near {self.peek()[1]!r}")
        return e

    def expr(self):
        e = self.equiv()
        while self.peek()[0] == "dotop" and self.peek()[1] not in _DOTKNOWN:
            op = self.nxt()[1]
            e = ("userop", op, e, self.equiv())
        return e

    def equiv(self):
        e = self.or_()
        while self.peek()[1] in (".eqv.", ".neqv."):
            op = self.nxt()[1]
            e = ("bin", op, e, self.or_())
        return e

    def or_(self):
        e = self.and_()
        while self.acc(".or."):
            e = ("bin", ".or.", e, self.and_())
        return e

    def and_(self):
        e = self.not_()
        while self.acc(".and."):
            e = ("bin", ".and.", e, self.not_())
        return e

    def not_(self):
        if self.acc(".not."):
            return ("un", ".not.", self.not_())
        return self.rel()

    def rel(self):
        e = self.add()
        if self.peek()[1] in _REL and self.peek()[0] != "str":
            op = _REL[self.nxt()[1]]
            return ("bin", op, e, self.add())
        return e

    def add(self):
        if self.peek()[1] in ("+", "-") and self.peek()[0] == "op":
            op = self.nxt()[1]
            e = self.mul()
            if op == "-":
                e = ("un", "-", e)
        else:
            e = self.mul()
        while self.peek()[0] == "op" and self.peek()[1] in ("+", "-"):
            op = self.nxt()[1]
            e = ("bin", op, e, self.mul())
        return e

    def mul(self):
        e = self.pow()
        while self.peek()[0] == "op" and self.peek()[1] in ("*", "/"):
            op = self.nxt()[1]
            e = ("bin", op, e, self.pow())
        return e

    def pow(self):
        e = self.prim()
        if self.acc("**"):
            if self.peek()[1] in ("-", "+"):
                op = self.nxt()[1]
                r = self.pow()
                r = ("un", "-", r) if op == "-" else r
            else:
                r = self.pow()
            return ("bin", "**", e, r)
        return e

    def prim(self):
        k, v = self.nxt()
        if k == "num":
            return number(v)
        if k == "str":
            return ("str", v[1:-1])
        if k == "dotop":
            if v == ".true.":
                return ("const", True)
            if v == ".false.":
                return ("const", False)
            raise Unsupported(f"unary operator {v}")
        if k == "op" and v in ("(/", "["):
            close = "/)" if v == "(/" else "]"
            items = []
            while not self.acc(close):
                items.append(self.aitem())
                self.acc(",")
            return ("acons", items)
        if k == "op" and v == "(":
            e = self.expr()
            if self.acc(","):
                im = self.expr()
                self.need(")")
                return ("complex", e, im)
            self.need(")")
            return ("paren", e)
        if k == "name":
            return self.desig(v)
        raise Unsupported(f"Fortran syntax near {v!r}")

    def aitem(self):
        if self.peek()[1] == "(" and self.peek()[0] == "op":
            save = self.i
            try:
                self.nxt()
                items = [self.expr()]
                while self.acc(","):
                    if self.peek()[0] == "name" and self.t[self.i + 1][1] == "=":
                        var = self.nxt()[1]
                        self.nxt()
                        a = self.expr()
                        self.need(",")
                        b = self.expr()
                        c = self.expr() if self.acc(",") else None
                        self.need(")")
                        return ("ido", items, var, a, b, c)
                    items.append(self.expr())
            except Unsupported:
                pass
            self.i = save
        e = self.expr()
        # (/ expr, var = a, b /) without parentheses
        if self.peek()[1] == "," and self.t[self.i + 1][0] == "name" and self.t[self.i + 2][1] == "=":
            pass
        return e

    def desig(self, name):
        e = ("name", name)
        while True:
            if self.peek()[0] == "op" and self.peek()[1] == "(":
                self.nxt()
                args = self.args(")")
                e = ("ref", e, args)
            elif self.peek()[0] == "op" and self.peek()[1] == "(/":
                raise Unsupported("ambiguous (/")
            elif self.acc("%"):
                e = ("comp", e, self.nxt()[1])
            else:
                return e

    def args(self, close):
        args = []
        while not self.acc(close):
            args.append(self.arg())
            if not self.acc(","):
                self.need(close)
                break
        return args

    def arg(self):
        if self.peek()[0] == "name" and self.t[self.i + 1] == ("op", "="):
            n = self.nxt()[1]
            self.nxt()
            return ("kw", n, self.expr())
        if self.acc("::"):
            return ("slice", None, None, self.expr())
        if self.acc(":"):
            return self.slice_rest(None)
        if self.peek() == ("op", "*"):
            self.nxt()
            return ("star",)
        e = self.expr()
        if self.acc(":"):
            return self.slice_rest(e)
        if self.acc("::"):
            return ("slice", e, None, self.expr())
        return e

    def slice_rest(self, lo):
        hi = st = None
        if self.peek()[1] not in (",", ")", ":"):
            hi = self.expr()
        if self.acc(":"):
            st = self.expr()
        return ("slice", lo, hi, st)


def number(v):
    v = v.split("_")[0]
    if re.fullmatch(r"\d+", v):
        return ("const", int(v))
    t = v.lower()
    if "d" in t:
        return ("const", Sym(lift(float(t.replace("d", "e"))).p, "f"))
    x = float(t)
    y = float(np.float32(x))
    return ("const", Sym(lift(y).p, "f"))


def pexpr(s):
    return P(s).full()


# ---- program units ------------------------------------------------------------------------------
class Decl:
    __slots__ = ("name", "ty", "dims", "attrs", "init", "tname", "intent")

    def __init__(self, name, ty, dims, attrs, init, tname, intent):
        self.name, self.ty, self.dims, self.attrs, self.init, self.tname, self.intent = name, ty, dims, attrs, init, tname, intent


class Proc:
    def __init__(self, kind, name, args, result, file, module):
        self.kind, self.name, self.args, self.result, self.file, self.module = kind, name, args, result, file, module
        self.decls, self.uses, self.body, self.contains = {}, [], [], {}
        self.elemental = False


class Module:
    def __init__(self, name, file):
        self.name, self.file = name, file
        self.decls, self.uses, self.procs, self.generics, self.types = {}, [], {}, {}, {}
        self.frame = None


_TYPE = re.compile(r"(?i)^(integer|real|complex|logical|character|double\s+precision|double\s+complex|type\s*\(\s*(\w+)\s*\)|class\s*\(\s*(\w+)\s*\))")
_TY = {"integer": "i", "real": "f", "complex": "c", "logical": "l", "character": "s"}


def parse_decl(s):
    """declaration statement -> list of Decl, or None."""
    m = _TYPE.match(s)
    if not m:
        return None
    if re.match(r"(?i)^(integer|real|complex|logical|type\s*\([^)]*\)|double\s*\w+)[^:=]*\bfunction\b", s):
        return None
    base = m.group(1).lower()
    tname = (m.group(2) or m.group(3) or "").lower() or None
    rest = s[m.end():]
    base = re.sub(r"\s+", " ", base)
    if base.startswith(("type", "class")):
        ty = "t"
    elif base == "double precision":
        ty = "f"
    elif base == "double complex":
        ty = "c"
    else:
        ty = _TY[base]
    rest = rest.strip()
    # kind / length
    if rest.startswith("("):
        d = 0
        for i, ch in enumerate(rest):
            d += ch == "("
            d -= ch == ")"
            if d == 0:
                break
        rest = rest[i + 1:].strip()
    elif rest.startswith("*"):
        mm = re.match(r"\*\s*(\(\s*\*\s*\)|\d+)", rest)
        rest = rest[mm.end():].strip()
    attrs, dims, intent = set(), None, None
    if "::" in rest:
        parts = _split_top(rest, "::")
        left, right = parts[0], "::".join(parts[1:])
        for a in _split_top(left, ","):
            a = a.strip()
            if not a:
                continue
            al = a.lower()
            if al.startswith("dimension"):
                dims = parse_dims(a[a.index("(") + 1:a.rindex(")")])
            elif al.startswith("intent"):
                intent = re.sub(r"\s", "", al[al.index("(") + 1:al.rindex(")")])
            else:
                attrs.add(al)
    else:
        right = rest
        if "=" in right and "(" not in right:
            return None
    out = []
    for ent in _split_top(right, ","):
        ent = ent.strip()
        mm = re.match(r"^(\w+)\s*(.*)$", ent, re.S)
        if not mm:
            return None
        n, tail = mm.group(1).lower(), mm.group(2).strip()
        d = dims
        if tail.startswith("("):
            k = 0
            for i, ch in enumerate(tail):
                k += ch == "("
                k -= ch == ")"
                if k == 0:
                    break
            d = parse_dims(tail[1:i])
            tail = tail[i + 1:].strip()
        init = None
        if tail.startswith("=>"):
            init = None
        elif tail.startswith("="):
            init = pexpr(tail[1:])
        elif tail.startswith("*"):
            pass
        elif tail:
            return None
        out.append(Decl(n, ty, d, attrs, init, tname, intent))
    return out


def parse_dims(s):
    out = []
    for a in _split_top(s, ","):
        a = a.strip()
        if a == ":":
            out.append(("assumed", None))
        elif a == "*":
            out.append(("size", None))
        else:
            parts = _split_top(a, ":")
            if len(parts) == 2:
                if parts[1].strip() == "":
                    out.append(("assumed", pexpr(parts[0])))
                elif parts[1].strip() == "*":
                    out.append(("size", pexpr(parts[0])))
                else:
                    out.append(("range", pexpr(parts[0]), pexpr(parts[1])))
            else:
                out.append(("range", ("const", 1), pexpr(a)))
    return out


class Source:
    def __init__(self, path):
        self.path = path
        self.base = os.path.basename(path)
        with open(path) as f:
            text = f.read()
        self.lines = logical_lines(preprocess(text, os.path.dirname(path)))
        self.pos = 0
        self.modules, self.procs = {}, {}
        self.parse()

    def peek(self):
        return self.lines[self.pos] if self.pos < len(self.lines) else (0, None)

    def parse(self):
        while self.pos < len(self.lines):
            no, s = self.peek()
            l = s.lower()
            if l.startswith("!$omp") or l.startswith("include"):
                self.pos += 1
                continue
            m = re.match(r"^module\s+(\w+)$", l)
            if m:
                self.pos += 1
                self.parse_module(m.group(1))
                continue
            p = self.try_proc(None)
            if p is None:
                raise Unsupported(f"{self.base}:{no}: {s[:60]}")
            self.procs[p.name] = p

    def parse_module(self, name):
        mod = Module(name, self.base)
        self.modules[name] = mod
        incontains = False
        while True:
            no, s = self.peek()
            if s is None:
                raise Unsupported(f"{self.base}: unterminated module")
            l = s.lower()
            if re.match(r"^end\s*module", l) or l == "end":
                self.pos += 1
                return
            if l == "contains":
                incontains = True
                self.pos += 1
                continue
            if incontains:
                p = self.try_proc(mod)
                if p is None:
                    raise Unsupported(f"{self.base}:{no}: {s[:60]}")
                mod.procs[p.name] = p
                continue
            self.pos += 1
            if self.spec_common(s, l, mod):
                continue
            m = re.match(r"^interface\s+(?:operator\s*\(\s*(.+?)\s*\)|assignment\s*\(\s*=\s*\)|(\w+))$", l)
            if m:
                g = m.group(1) or m.group(2)
                key = ("op:" + g) if m.group(1) else g
                lst = mod.generics.setdefault(key, [])
                while True:
                    no, s = self.peek()
                    self.pos += 1
                    l = s.lower()
                    if re.match(r"^end\s*interface", l):
                        break
                    mm = re.match(r"^(?:module\s+)?procedure\s*(?:::)?\s*(.*)$", l)
                    if mm:
                        lst += [x.strip() for x in mm.group(1).split(",")]
                    else:
                        raise Unsupported(f"{self.base}:{no}: interface {s[:50]}")
                continue
            m = re.match(r"^type\s*(?:,[^:]*)?(?:::)?\s*(\w+)$", l)
            if m and not l.startswith("type("):
                fields = []
                while True:
                    no, s = self.peek()
                    self.pos += 1
                    if re.match(r"(?i)^end\s*type", s):
                        break
                    d = parse_decl(s)
                    if d is None:
                        raise Unsupported(f"{self.base}:{no}: {s[:50]}")
                    fields += d
                mod.types[m.group(1)] = fields
                continue
            d = parse_decl(s)
            if d is None:
                raise Unsupported(f"{self.base}:{no}: {s[:60]}")
            for x in d:
                mod.decls[x.name] = x

    def spec_common(self, s, l, unit):
        if l.startswith("implicit") or re.match(r"^(private|public|save|intrinsic|external|!\$omp)\b", l) or l.startswith("!$omp"):
            return True
        m = re.match(r"^use\s*(?:,\s*intrinsic\s*)?(?:::)?\s*(\w+)\s*(?:,\s*(.*))?$", l)
        if m:
            only, ren = None, {}
            t = m.group(2)
            if t:
                mm = re.match(r"^only\s*:\s*(.*)$", t)
                items = _split_top(mm.group(1) if mm else t, ",")
                if mm:
                    only = []
                for it in items:
                    it = it.strip()
                    if not it:
                        continue
                    o = re.match(r"^operator\s*\(\s*(.+?)\s*\)$", it)
                    if o:
                        only.append("op:" + o.group(1))
                    elif "=>" in it:
                        a, b = [x.strip() for x in it.split("=>")]
                        ren[a] = b
                        if only is not None:
                            only.append(a)
                    elif only is not None:
                        only.append(it)
            unit.uses.append((m.group(1), only, ren))
            return True
        return False

    def try_proc(self, mod):
        no, s = self.peek()
        l = s.lower()
        m = re.match(r"^((?:(?:pure|elemental|recursive|impure)\s+|(?:integer|real|complex|logical|double\s+precision|type)\s*(?:\([^)]*\))?\s+)*)(subroutine|function)\s+(\w+)\s*(?:\(\s*(.*?)\s*\))?\s*(.*)$", l)
        if not m or l.startswith("end"):
            return None
        self.pos += 1
        pre, kind, name, args, tail = m.groups()
        args = [a.strip() for a in args.split(",")] if args else []
        result = name
        r = re.search(r"result\s*\(\s*(\w+)\s*\)", tail or "")
        if r:
            result = r.group(1)
        p = Proc(kind, name, args, result, self.base, mod)
        p.line = no
        p.elemental = "elemental" in pre
        tm = _TYPE.search(re.sub(r"\b(pure|elemental|recursive|impure)\b", "", pre).strip())
        if tm:
            ty = _TY.get(tm.group(1).split("(")[0].strip(), "f")
            p.decls[result] = Decl(result, ty, None, set(), None, None, None)
        # specification part
        while True:
            no, s = self.peek()
            l = s.lower()
            if l.startswith("!$omp"):
                break
            if self.spec_common(s, l, p):
                self.pos += 1
                continue
            mm = re.match(r"^(target|pointer|allocatable|dimension|parameter|optional)\b(?!\s*=)", l)
            if mm:
                raise Unsupported(f"{self.base}:{no}: attribute statement {s[:40]}")
            d = parse_decl(s) if _TYPE.match(s) else None
            if d is None:
                break
            for x in d:
                p.decls[x.name] = x
            self.pos += 1
        p.body = self.block(lambda l: re.match(r"^end(\s*(subroutine|function)\b.*)?$", l) or l == "contains")
        no, s = self.peek()
        if s.lower() == "contains":
            self.pos += 1
            while not re.match(r"(?i)^end(\s*(subroutine|function)\b.*)?$", self.peek()[1]):
                q = self.try_proc(mod)
                if q is None:
                    raise Unsupported(f"{self.base}:{self.peek()[0]}: {self.peek()[1][:50]}")
                q.host = p
                p.contains[q.name] = q
        self.pos += 1
        return p

    # ---- executable part
    def block(self, stop):
        out = []
        omp = None
        while True:
            no, s = self.peek()
            if s is None:
                raise Unsupported(f"{self.base}: unexpected end of file")
            l = s.lower()
            if stop(l):
                return out
            if l.startswith("!$omp"):
                self.pos += 1
                d = l[5:].strip()
                if re.match(r"^end\b", d) or d.startswith(("simd", "barrier", "flush")):
                    continue
                if re.match(r"^parallel\s*do", d):
                    omp = d
                    continue
                if d.startswith(("critical", "atomic", "parallel", "do", "single", "master", "task", "section")):
                    out.append(("ompother", no, d))
                    continue
                continue
            st = self.stmt(no, s, l)
            if st is not None:
                if omp is not None and st[0] == "do":
                    st = ("ompdo", no, omp, st)
                omp = None
                out.append(st)

    def stmt(self, no, s, l):
        self.pos += 1
        label = None
        m = re.match(r"^(\w+)\s*:\s*(do|if|select)\b", l)
        if m and not re.match(r"^\w+\s*::", l):
            label = m.group(1)
            cut = s.index(":") + 1
            s = s[cut:].strip()
            l = s.lower()
        m = re.match(r"^\d+\s+(.*)$", l)
        if m:
            s = s[len(s) - len(m.group(1)):]
            l = m.group(1)
        # if
        if re.match(r"^if\s*\(", l):
            i = self._close(s, s.index("("))
            cond = pexpr(s[s.index("(") + 1:i])
            tail = s[i + 1:].strip()
            if tail.lower() == "then":
                branches, els = [], None
                body = self.block(self._if_stop)
                branches.append((cond, body))
                while True:
                    no2, s2 = self.peek()
                    l2 = s2.lower()
                    self.pos += 1
                    if re.match(r"^end\s*if", l2):
                        break
                    mm = re.match(r"^else\s*if\s*\(", l2)
                    if mm:
                        j = self._close(s2, s2.index("("))
                        c2 = pexpr(s2[s2.index("(") + 1:j])
                        branches.append((c2, self.block(self._if_stop)))
                    else:
                        els = self.block(self._if_stop)
                return ("if", no, branches, els)
            self.pos -= 1
            self.lines[self.pos] = (no, tail)
            st = self.stmt(no, tail, tail.lower())
            return ("if", no, [(cond, [st] if st else [])], None)
        if re.match(r"^do(\s|$)", l) and not re.match(r"^do\w*\s*=[^=]", l.replace(" ", "")[:0] or "x"):
            r = s[2:].strip()
            rl = r.lower()
            end = lambda x: re.match(r"^end\s*do\b", x)
            if not r:
                body = self.block(end)
                self.pos += 1
                return ("loop", no, label, body)
            mm = re.match(r"^while\s*\(", rl)
            if mm:
                i = self._close(r, r.index("("))
                cond = pexpr(r[r.index("(") + 1:i])
                body = self.block(end)
                self.pos += 1
                return ("while", no, label, cond, body)
            mm = re.match(r"^(\w+)\s*=\s*(.*)$", r)
            if mm:
                parts = _split_top(mm.group(2), ",")
                ex = [pexpr(x) for x in parts]
                body = self.block(end)
                self.pos += 1
                return ("do", no, label, mm.group(1).lower(), ex[0], ex[1], ex[2] if len(ex) > 2 else None, body)
            raise Unsupported(f"{self.base}:{no}: {s[:50]}")
        if re.match(r"^select\s*case\s*\(", l):
            i = self._close(s, s.index("("))
            sel = pexpr(s[s.index("(") + 1:i])
            cases = []
            cstop = lambda x: re.match(r"^(case\b|end\s*select)", x)
            while True:
                no2, s2 = self.peek()
                l2 = s2.lower()
                self.pos += 1
                if re.match(r"^end\s*select", l2):
                    break
                mm = re.match(r"^case\s*default", l2)
                if mm:
                    vals = None
                else:
                    j = self._close(s2, s2.index("("))
                    vals = P(s2[s2.index("(") + 1:j] + ")").args(")")
                cases.append((vals, self.block(cstop)))
            return ("select", no, sel, cases)
        if re.match(r"^where\s*\(", l):
            i = self._close(s, s.index("("))
            cond = pexpr(s[s.index("(") + 1:i])
            tail = s[i + 1:].strip()
            if tail:
                lhs, rhs = self._assign(tail)
                return ("where", no, cond, [("assign", no, lhs, rhs)], [])
            ws = lambda x: re.match(r"^(else\s*where|end\s*where)", x)
            a = self.block(ws)
            b = []
            if self.peek()[1].lower().startswith("else"):
                self.pos += 1
                b = self.block(ws)
            self.pos += 1
            return ("where", no, cond, a, b)
        m = re.match(r"^call\s+(\w+)\s*(.*)$", s, re.I | re.S)
        if m and not re.match(r"^call\s*=", l):
            t = m.group(2).strip()
            args = []
            if t:
                p = P(t)
                p.need("(")
                args = p.args(")")
            return ("call", no, m.group(1).lower(), args)
        m = re.match(r"^(exit|cycle)\s*(\w+)?$", l)
        if m:
            return (m.group(1), no, m.group(2))
        if l == "return":
            return ("return", no)
        if re.match(r"^(error\s+)?stop\b", l):
            return ("stop", no)
        if l == "continue":
            return None
        if re.match(r"^(print\b|write\s*\(|open\s*\(|close\s*\(|flush\s*\(|read\b)", l) and not re.match(r"^\w+\s*(\([^=]*\))?\s*=[^=]", l):
            return ("io", no) if l.startswith("read") else None
        m = re.match(r"^(allocate|deallocate|nullify)\s*\((.*)\)$", l)
        if m:
            return (m.group(1), no, P(m.group(2) + ")").args(")"))
        a = self._assign(s, no)
        return a if a[0] == "passign" else ("assign", no, a[0], a[1])

    def _assign(self, s, no=0):
        i = self._top(s, "=>")
        if i is not None:
            return ("passign", no, pexpr(s[:i]), pexpr(s[i + 2:]))
        i = self._top(s, "=")
        if i is None:
            raise Unsupported(f"{self.base}:{no}: statement {s[:60]}")
        return pexpr(s[:i]), pexpr(s[i + 1:])

    @staticmethod
    def _top(s, op):
        d, q = 0, None
        i = 0
        while i < len(s):
            ch = s[i]
            if q:
                if ch == q:
                    q = None
            elif ch in "'\"":
                q = ch
            elif ch in "([":
                d += 1
            elif ch in ")]":
                d -= 1
            elif d == 0 and s.startswith(op, i):
                if op == "=" and (s[i:i + 2] in ("==", "=>") or s[i - 1] in "=/<>"):
                    i += 1
                    continue
                return i
            i += 1
        return None

    @staticmethod
    def _if_stop(l):
        return re.match(r"^(else\b|elseif\b|end\s*if\b)", l)

    def _close(self, s, i):
        d, q = 0, None
        for j in range(i, len(s)):
            ch = s[j]
            if q:
                if ch == q:
                    q = None
            elif ch in "'\"":
                q = ch
            elif ch == "(":
                d += 1
            elif ch == ")":
                d -= 1
                if d == 0:
                    return j
        raise Unsupported(f"{self.base}: unbalanced parentheses")


# ---- values -------------------------------------------------------------------------------------
class FArr:
    __slots__ = ("d", "lb", "ty")

    def __init__(self, d, lb, ty):
        self.d, self.lb, self.ty = d, lb, ty

    @property
    def rank(self):
        return self.d.ndim


class Undef:
    __slots__ = ("ty",)

    def __init__(self, ty):
        self.ty = ty


class Var:
    __slots__ = ("name", "ty", "val", "arr", "ptr", "tname", "shared_id")

    def __init__(self, name, ty, val=None, arr=False, ptr=False, tname=None):
        self.name, self.ty, self.val, self.arr, self.ptr, self.tname = name, ty, val, arr, ptr, tname


class ElemRef:
    """actual argument a(i) or section bound to a scalar dummy."""
    __slots__ = ("a", "ix", "name", "ty", "arr", "ptr", "tname")

    def __init__(self, a, ix, name):
        self.a, self.ix, self.name, self.ty, self.arr, self.ptr, self.tname = a, ix, name, a.ty, False, False, None

    @property
    def val(self):
        _rd(self.a.d, self.ix)
        return self.a.d[self.ix]

    @val.setter
    def val(self, v):
        _wr(self.a.d, self.ix)
        self.a.d[self.ix] = v


class FObj:
    def __init__(self, tname, fields):
        self.tname = tname
        self.f = fields

    def copy(self):
        o = FObj(self.tname, {})
        for k, v in self.f.items():
            w = Var(v.name, v.ty, v.val, v.arr, v.ptr, v.tname)
            if v.arr and not v.ptr and isinstance(v.val, FArr):
                w.val = FArr(v.val.d.copy(order="F"), v.val.lb, v.val.ty)
            o.f[k] = w
        return o


class _Exit(Exception):
    def __init__(self, label):
        self.label = label


class _Cycle(_Exit):
    pass


class _Return(Exception):
    pass


class FortranStop(Exception):
    pass


def coerce(ty, v):
    if isinstance(v, Undef):
        return v
    if ty == "f":
        if isinstance(v, Sym):
            return v if v.ty == "f" else (v.real if v.ty == "c" else Sym(v.p, "f"))
        return Sym(lift(v).p, "f") if not isinstance(v, complex) else lift(v.real)
    if ty == "c":
        if isinstance(v, Sym):
            return v if v.ty == "c" else Sym(v.p, "c")
        return Sym(lift(v).p, "c")
    if ty == "i":
        if isinstance(v, Sym):
            if v.ty == "c":
                v = v.real
            r = s_trunc(v)
            return r.value() if isinstance(r, Sym) and r.is_const() else r
        if isinstance(v, (bool, SymBool)):
            raise Unsupported("logical assigned to integer")
        return int(v)
    return v


def tyof(v):
    if isinstance(v, FArr):
        return v.ty
    if isinstance(v, Sym):
        return v.ty
    if isinstance(v, (bool, SymBool, np.bool_)):
        return "l"
    if isinstance(v, int):
        return "i"
    if isinstance(v, float):
        return "f"
    if isinstance(v, complex):
        return "c"
    if isinstance(v, FObj):
        return "t:" + v.tname
    if isinstance(v, str):
        return "s"
    if isinstance(v, Undef):
        return v.ty
    raise Unsupported(f"type of {type(v)}")


_undef_n = [0]


def use(v):
    """Value of a variable that is read: undefined storage becomes a fresh unconstrained value."""
    if isinstance(v, Undef):
        c = core.cur()
        if v.ty in "fc" and c is not None:
            _undef_n[0] += 1
            x = c.var(f"uninit{_undef_n[0]}", "f", None, None)
            return Sym(x.p, v.ty)
        raise Unsupported("use of an undefined integer or logical")
    return v


# ---- OpenMP access recording --------------------------------------------------------------------
class Region:
    def __init__(self):
        self.w, self.r = {}, {}
        self.it = None
        self.conf = []

    def read(self, key):
        w = self.w.get(key)
        if w is not None and w != self.it and w != "?":
            self.conf.append(("read", key))
        r = self.r.get(key)
        if r is None:
            self.r[key] = self.it
        elif r != self.it:
            self.r[key] = "many"

    def write(self, key):
        w = self.w.get(key)
        if w is not None and w != self.it:
            self.conf.append(("write", key))
        r = self.r.get(key)
        if r is not None and r != self.it:
            self.conf.append(("write after read", key))
        self.w[key] = self.it


REGION = [None]
KEEP = []
RACES = []


def _aid(d, ix):
    return d.__array_interface__["data"][0] + sum(i * s for i, s in zip(ix, d.strides))


def reset():
    _undef_n[0] = 0
    REGION[0] = None
    del KEEP[:], RACES[:]
    RANDOM.__init__()


def _rd(d, ix):
    g = REGION[0]
    if g is not None:
        g.read(_aid(d, ix))


def _wr(d, ix):
    g = REGION[0]
    if g is not None:
        g.write(_aid(d, ix))


def _rdall(d):
    g = REGION[0]
    if g is not None:
        for ix in np.ndindex(d.shape):
            g.read(_aid(d, ix))


# ---- random numbers -----------------------------------------------------------------------------
class RandomModel:
    """Streams are numbered in the order in which distinct seeds are first used."""
    SIZE = 8

    def __init__(self):
        self.seeds, self.cur, self.k, self.fn = [], 0, 0, None
        self.log = []

    def put(self, arr):
        t = tuple(int(x) if not isinstance(x, Sym) else x for x in arr)
        if t not in self.seeds:
            self.seeds.append(t)
        self.cur, self.k = self.seeds.index(t), 0
        self.log.append(self.cur)

    def draw(self):
        if self.fn is None:
            c = core.cur()
            v = c.var(f"rnd{self.cur}_{self.k}", "f", 0, 1)
        else:
            v = self.fn(self.cur, self.k)
        self.k += 1
        return v


RANDOM = RandomModel()


def _ew(f, *xs):
    """Elementwise application over scalars and arrays."""
    arrs = [x for x in xs if isinstance(x, FArr)]
    if not arrs:
        return f(*xs)
    shp = arrs[0].d.shape
    for a in arrs[1:]:
        if a.d.shape != shp:
            raise IndexError(f"shape mismatch {a.d.shape} and {shp}")
    out = np.empty(shp, dtype=object, order="F")
    if REGION[0] is not None:
        KEEP.append(out)
    ty = None
    for ix in np.ndindex(*shp):
        v = f(*[_el(x, ix) for x in xs])
        out[ix] = v
        if ty is None:
            ty = tyof(v)
    if ty is None:
        tys = [tyof(x) for x in xs]
        ty = max(tys, key=lambda t: "lifc".find(t)) if all(t in "lifc" for t in tys) else tys[0]
    return FArr(out, (1,) * len(shp), ty)


def _el(x, ix):
    if isinstance(x, FArr):
        _rd(x.d, ix)
        return use(x.d[ix])
    return x


def _wrap32(n):
    n &= 0xFFFFFFFF
    return n - (1 << 32) if n >= 1 << 31 else n


def _clean(v):
    if isinstance(v, Sym) and v.ty == "i" and v.is_const():
        return v.value()
    return v


def _arith(op, a, b):
    ia, ib = type(a) is int, type(b) is int
    if op == "+":
        r = a + b
        return _wrap32(r) if ia and ib else _clean(r)
    if op == "-":
        r = a - b
        return _wrap32(r) if ia and ib else _clean(r)
    if op == "*":
        r = a * b
        return _wrap32(r) if ia and ib else _clean(r)
    if op == "/":
        ta, tb = tyof(a), tyof(b)
        if ta == "i" and tb == "i":
            if ia and ib:
                if b == 0:
                    raise ZeroDivisionError("integer division by zero")
                q = abs(a) // abs(b)
                return q if (a >= 0) == (b >= 0) else -q
            return _clean(s_trunc(Sym((lift(a) / b).p, "f")))
        if ia and not isinstance(b, Sym):
            return lift(a) / b
        return lift(a) / b
    if op == "**":
        if ia and ib:
            if b < 0:
                return 0 if abs(a) != 1 else (1 if a == 1 or b % 2 == 0 else -1)
            return _wrap32(a ** b)
        return lift(a) ** b
    raise Unsupported(op)


def _rel(op, a, b):
    if op == "==":
        return a == b
    if op == "/=":
        return a != b
    if op == "<":
        return a < b
    if op == ">":
        return a > b
    if op == "<=":
        return a <= b
    return a >= b


def _logic(op, a, b):
    if op == ".and.":
        return s_and(a, b)
    if op == ".or.":
        return s_or(a, b)
    if op == ".eqv.":
        return s_or(s_and(a, b), s_and(s_not(a), s_not(b)))
    return s_or(s_and(a, s_not(b)), s_and(s_not(a), b))


# ---- interpreter --------------------------------------------------------------------------------
class Program:
    def __init__(self, d):
        self.dir = d
        self.modules, self.ext = {}, {}
        self.used = set()
        for fn in sorted(os.listdir(d)):
            if fn.lower().endswith((".f90", ".f", ".f95", ".f03")):
                s = Source(os.path.join(d, fn))
                self.modules.update(s.modules)
                self.ext.update(s.procs)
        self._names = {}
        self._steps = 0

    # names visible in a unit: dict name -> ("var", frame, name) | ("proc", p) | ("gen", [procs]) | ("type", ...)
    def modframe(self, m):
        if m.frame is None:
            m.frame = {}
            fr = Frame(self, None, m)
            for d in m.decls.values():
                m.frame[d.name] = fr.make(d)
        return m.frame

    def exported(self, m, seen=()):
        if m.name in seen:
            return {}
        key = ("exp", m.name)
        if key in self._names:
            return self._names[key]
        out = {}
        for u in m.uses:
            out.update(self.use_names(u, seen + (m.name,)))
        for k, p in m.procs.items():
            out[k] = ("proc", p)
        for k, t in m.types.items():
            out[k] = ("type", t)
        for k, lst in m.generics.items():
            procs = [m.procs[x] for x in lst if x in m.procs]
            prev = out.get(k)
            if prev is not None and prev[0] == "gen":
                procs = procs + [p for p in prev[1] if p not in procs]
            out[k] = ("gen", procs)
        self.modframe_lazy(m, out)
        self._names[key] = out
        return out

    def modframe_lazy(self, m, out):
        for k in m.decls:
            out[k] = ("modvar", m)

    def use_names(self, u, seen=()):
        name, only, ren = u
        m = self.modules.get(name)
        if m is None:
            return {}
        ex = self.exported(m, seen)
        if only is None:
            out = dict(ex)
            for a, b in ren.items():
                if b in ex:
                    out[a] = ex[b]
            return out
        out = {}
        for a in only:
            b = ren.get(a, a)
            if b in ex:
                out[a] = ex[b]
        return out

    def scope(self, p):
        key = ("proc", id(p))
        s = self._names.get(key)
        if s is None:
            s = {}
            for k, q in self.ext.items():
                s[k] = ("proc", q)
            if p.module is not None:
                s.update(self.exported(p.module))
            host = getattr(p, "host", None)
            if host is not None:
                s.update(self.scope(host))
            for u in p.uses:
                new = self.use_names(u)
                for k, v in new.items():
                    o = s.get(k)
                    if o is not None and o[0] == "gen" and v[0] == "gen" and o is not v:
                        v = ("gen", v[1] + [x for x in o[1] if x not in v[1]])
                    s[k] = v
            for k, q in p.contains.items():
                s[k] = ("proc", q)
            self._names[key] = s
        return s

    def call(self, p, args, kws=None, caller=None):
        """args: list of Var/ElemRef (by reference) or plain values."""
        self.used.add(f"tbplas/fortran/{p.file}:{p.name}")
        fr = Frame(self, p, p.module)
        host = getattr(p, "host", None)
        if host is not None:
            # host association: the frame of the enclosing procedure
            while caller is not None and caller.proc is not host:
                caller = caller.host
            if caller is None:
                raise Unsupported("internal procedure called from outside its host")
            fr.host = caller
        names = p.args
        if len(args) > len(names):
            raise Unsupported(f"too many arguments for {p.name}")
        bind = dict(zip(names, args))
        for k, v in (kws or {}).items():
            bind[k] = v
        return fr.run(bind)


class Frame:
    def __init__(self, prog, proc, mod):
        self.prog, self.proc, self.mod = prog, proc, mod
        self.v = {}
        self.host = None
        self.names = prog.scope(proc) if proc is not None else (prog.exported(mod) if mod is not None and ("exp", mod.name) in prog._names else {})
        if proc is None and mod is not None:
            nm = {}
            for u in mod.uses:
                nm.update(prog.use_names(u))
            for k in mod.decls:
                nm[k] = ("modvar", mod)
            self.names = nm

    # -- declarations
    def bounds(self, dims):
        lb, n = [], []
        for d in dims:
            if d[0] != "range":
                raise Unsupported("deferred shape")
            a, b = self.ix(self.ev(d[1])), self.ix(self.ev(d[2]))
            lb.append(a)
            n.append(max(0, b - a + 1))
        return tuple(lb), tuple(n)

    def make(self, d):
        v = Var(d.name, d.ty, None, d.dims is not None, "pointer" in d.attrs, d.tname)
        if d.ty == "t":
            if d.dims is not None:
                raise Unsupported("array of derived type")
            t = self.lookup_type(d.tname)
            v.val = FObj(d.tname, {f.name: self.make(f) if f.dims is None or all(x[0] == "range" for x in f.dims) else Var(f.name, f.ty, None, True, True, f.tname) for f in t})
            return v
        if d.dims is None:
            v.val = coerce(d.ty, self.ev(d.init)) if d.init is not None else Undef(d.ty)
            return v
        if any(x[0] != "range" for x in d.dims):
            v.val = None        # pointer or allocatable
            return v
        lb, shp = self.bounds(d.dims)
        a = np.empty(shp, dtype=object, order="F")
        if REGION[0] is not None:
            KEEP.append(a)
        if d.init is not None:
            x = self.ev(d.init)
            for ix in np.ndindex(*shp):
                a[ix] = coerce(d.ty, x.d[ix] if isinstance(x, FArr) else x)
        else:
            u = Undef(d.ty)
            for ix in np.ndindex(*shp):
                a[ix] = u
        v.val = FArr(a, lb, d.ty)
        return v

    def lookup_type(self, n):
        e = self.names.get(n)
        if e is None and self.mod is not None and n in self.mod.types:
            return self.mod.types[n]
        if e is None or e[0] != "type":
            raise Unsupported(f"type {n}")
        return e[1]

    def run(self, bind):
        p = self.proc
        KEEPREG = REGION[0]
        pend = []
        # scalar dummies first: they appear in array bounds
        for a in p.args:
            d = p.decls.get(a)
            if d is None:
                raise Unsupported(f"{p.name}: argument {a} not declared")
            if d.dims is None:
                x = bind.get(a)
                if x is None:
                    self.v[a] = Var(a, d.ty, None)
                    continue
                if isinstance(x, (Var, ElemRef)):
                    if x.arr and d.ty != "t":
                        raise Unsupported("array passed to a scalar dummy")
                    self.v[a] = x
                else:
                    self.v[a] = Var(a, d.ty, x if d.ty in "ts" else coerce(d.ty, x) if d.ty != "l" else x, False, False, d.tname)
            else:
                pend.append((a, d, bind.get(a)))
        back = []
        # dimension expressions may use SIZE() of other arrays: assumed-shape ones first
        for a, d, x in sorted(pend, key=lambda t: 0 if all(q[0] == "assumed" for q in t[1].dims) else 1):
            if x is None:
                self.v[a] = Var(a, d.ty, None, True)
                continue
            arr = x.val if isinstance(x, Var) else x
            if isinstance(arr, ElemRef):
                raise Unsupported("sequence association from an element")
            if not isinstance(arr, FArr):
                raise Unsupported(f"{p.name}: array expected for {a}")
            if isinstance(x, Var) and x.ptr and "pointer" in d.attrs:
                self.v[a] = x
                continue
            if all(q[0] == "assumed" for q in d.dims):
                if arr.d.ndim != len(d.dims):
                    raise Unsupported("rank mismatch")
                lb = tuple(self.ix(self.ev(q[1])) if q[1] is not None else 1 for q in d.dims)
                na = FArr(arr.d, lb, arr.ty)
            else:
                dims = list(d.dims)
                if dims[-1][0] == "size":
                    lo = self.ix(self.ev(dims[-1][1])) if dims[-1][1] is not None else 1
                    rest, shp0 = self.bounds(dims[:-1])
                    k = 1
                    for z in shp0:
                        k *= z
                    n = arr.d.size // max(k, 1)
                    lb, shp = rest + (lo,), shp0 + (n,)
                else:
                    lb, shp = self.bounds(dims)
                if arr.d.shape == shp:
                    na = FArr(arr.d, lb, arr.ty)
                else:
                    tot = 1
                    for z in shp:
                        tot *= z
                    if tot > arr.d.size:
                        raise IndexError(f"{p.name}: argument {a} has {arr.d.size} elements, {tot} expected")
                    fl = arr.d.ravel(order="F")
                    view = arr.d.flags.f_contiguous or arr.d.ndim == 1
                    if arr.d.ndim == 1:
                        fl = arr.d
                    sub = fl[:tot].reshape(shp, order="F")
                    na = FArr(sub, lb, arr.ty)
                    if not (view and np.shares_memory(sub, arr.d)) and tot:
                        back.append((arr.d, sub, tot))
            if d.ty != arr.ty:
                raise Unsupported(f"type mismatch for argument {a} of {p.name}")
            self.v[a] = Var(a, d.ty, na, True, "pointer" in d.attrs)
        for n, d in p.decls.items():
            if n not in self.v:
                if n == p.name and p.kind == "subroutine":
                    continue
                self.v[n] = self.make(d)
        if p.kind == "function" and p.result not in self.v:
            raise Unsupported(f"{p.name}: result not declared")
        try:
            self.block(p.body)
        except _Return:
            pass
        for dst, sub, tot in back:
            fl = sub.ravel(order="F")
            idx = list(np.ndindex(*dst.shape[::-1]))
            for k in range(tot):
                dst[tuple(reversed(idx[k]))] = fl[k]
        if p.kind == "function":
            r = self.v[p.result].val
            if isinstance(r, FArr):
                return FArr(r.d, (1,) * r.d.ndim, r.ty)
            return use(r) if not isinstance(r, FObj) else r
        return None

    # -- statements
    def block(self, body):
        for st in body:
            self.stmt(st)

    def stmt(self, st):
        k = st[0]
        try:
            getattr(self, "s_" + k)(st)
        except (Unsupported, _Exit, _Return, core.Infeasible, core.PathLimit, FortranStop):
            raise
        except (IndexError, ZeroDivisionError) as e:
            if not getattr(e, "_ftn", False):
                e._ftn = True
                e.args = (f"{self.proc.file}:{st[1]}: {e.args[0] if e.args else e}",)
            raise

    def s_io(self, st):
        raise Unsupported("READ statement")

    def s_ompother(self, st):
        raise Unsupported(f"OpenMP directive {st[2]}")

    def s_assign(self, st):
        lhs, rhs = st[2], st[3]
        v = self.ev(rhs)
        self.assign(lhs, v)

    def assign(self, lhs, v):
        if lhs[0] == "name":
            var = self.var(lhs[1])
            if var is None:
                raise Unsupported(f"assignment to {lhs[1]}")
            self.put(var, v)
            return
        if lhs[0] == "ref":
            base = self.ref_base(lhs[1])
            if isinstance(base, Var) or isinstance(base, ElemRef):
                arr = base.val
                if arr is None:
                    raise IndexError(f"{base.name} is not associated")
                ix = self.index(arr, lhs[2])
                if self.is_elem(ix):
                    _wr(arr.d, ix)
                    if isinstance(v, FArr):
                        raise Unsupported("array assigned to element")
                    arr.d[ix] = coerce(arr.ty, v)
                else:
                    self.fill(arr.d[ix], arr.ty, v)
                return
        if lhs[0] == "comp":
            obj = self.ev(lhs[1])
            self.put(obj.f[lhs[2]], v)
            return
        raise Unsupported(f"assignment target {lhs[0]}")

    def put(self, var, v):
        if isinstance(v, FObj):
            var.val = v.copy()
            return
        if var.arr:
            if var.val is None:
                if isinstance(v, FArr):
                    var.val = FArr(np.empty(v.d.shape, dtype=object, order="F"), (1,) * v.d.ndim, var.ty)
                else:
                    raise IndexError(f"{var.name} is not allocated")
            self.fill(var.val.d, var.val.ty, v)
            return
        if isinstance(v, FArr):
            raise Unsupported("array assigned to scalar")
        g = REGION[0]
        if g is not None and isinstance(var, Var):
            g.write(self.skey(var))
        if var.ty in "ls":
            var.val = v
        else:
            var.val = coerce(var.ty, v)

    def skey(self, var):
        KEEP.append(var)
        return ("s", id(var), var.name)

    def fill(self, d, ty, v):
        if isinstance(v, FArr):
            if v.d.shape != d.shape:
                raise IndexError(f"shape mismatch in assignment: {d.shape} = {v.d.shape}")
            if v.d.size and np.shares_memory(v.d, d):
                v = FArr(v.d.copy(order="F"), v.lb, v.ty)
            for ix in np.ndindex(*d.shape):
                _rd(v.d, ix)
                _wr(d, ix)
                x = v.d[ix]
                d[ix] = coerce(ty, x)
        else:
            x = coerce(ty, v)
            for ix in np.ndindex(*d.shape):
                _wr(d, ix)
                d[ix] = x

    def s_passign(self, st):
        tgt, src = st[2], st[3]
        if tgt[0] == "name":
            var = self.var(tgt[1])
        elif tgt[0] == "comp":
            var = self.ev(tgt[1]).f[tgt[2]]
        else:
            raise Unsupported("pointer assignment target")
        g = REGION[0]
        if g is not None:
            g.write(self.skey(var))
        if src[0] == "name" or src[0] == "comp":
            s = self.var(src[1]) if src[0] == "name" else self.ev(src[1]).f[src[2]]
            if s is None or not isinstance(s.val, FArr):
                raise Unsupported("pointer to a scalar")
            var.val = FArr(s.val.d, s.val.lb, s.val.ty)
        elif src[0] == "ref":
            base = self.ref_base(src[1])
            if isinstance(base, Var):
                arr = base.val
                ix = self.index(arr, src[2])
                if self.is_elem(ix):
                    raise Unsupported("pointer to an element")
                d = arr.d[ix]
                var.val = FArr(d, (1,) * d.ndim, arr.ty)
            elif src[1] == ("name", "null"):
                var.val = None
            else:
                raise Unsupported("pointer assignment source")
        else:
            raise Unsupported("pointer assignment source")

    def cond(self, e):
        v = self.ev(e)
        return bool(v)

    def s_if(self, st):
        for c, b in st[2]:
            if self.cond(c):
                self.block(b)
                return
        if st[3] is not None:
            self.block(st[3])

    def loopvals(self, st):
        a, b = self.ix(self.ev(st[4])), self.ix(self.ev(st[5]))
        s = self.ix(self.ev(st[6])) if st[6] is not None else 1
        if s == 0:
            raise ZeroDivisionError("DO step is zero")
        n = max(0, (b - a + s) // s)
        return a, s, n

    def s_do(self, st):
        label, body = st[2], st[7]
        a, s, n = self.loopvals(st)
        var = self.var(st[3])
        i = a
        for _ in range(n):
            var.val = i
            try:
                self.block(body)
            except _Cycle as e:
                if e.label not in (None, label):
                    raise
            except _Exit as e:
                if e.label not in (None, label):
                    raise
                return
            i = var.val + s
        var.val = i

    def s_ompdo(self, st):
        d, do = st[2], st[3]
        if REGION[0] is not None:
            self.s_do(do)
            return
        priv = set()
        for m in re.finditer(r"(?:last|first)?private\s*\(([^)]*)\)", d):
            priv |= {x.strip() for x in m.group(1).split(",")}
        red = set()
        for m in re.finditer(r"reduction\s*\(\s*([^:]+):([^)]*)\)", d):
            red |= {x.strip() for x in m.group(2).split(",")}
        first = set()
        for m in re.finditer(r"firstprivate\s*\(([^)]*)\)", d):
            first |= {x.strip() for x in m.group(1).split(",")}
        if "schedule" in d:
            pass
        # loop variables of sequential DO loops inside are private
        priv |= set(_dovars(do[7])) | {do[3]}
        a, s, n = self.loopvals(do)
        reg = Region()
        saved = {}
        for x in priv:
            v = self.var(x)
            if v is None:
                continue
            saved[x] = v.val
        pv = {x: self.var(x) for x in priv if self.var(x) is not None}
        var = self.var(do[3])
        ign = {self.skey(v) for v in pv.values()} | {self.skey(self.var(x)) for x in red if self.var(x) is not None}
        REGION[0] = reg
        i = a
        try:
            for t in range(n):
                reg.it = t
                for x, v in pv.items():
                    if x in first:
                        continue
                    if v.arr:
                        if isinstance(v.val, FArr):
                            v.val = FArr(np.empty_like(v.val.d), v.val.lb, v.val.ty)
                            u = Undef(v.ty)
                            for ix in np.ndindex(*v.val.d.shape):
                                v.val.d[ix] = u
                            KEEP.append(v.val.d)
                    else:
                        v.val = Undef(v.ty)
                var.val = i
                try:
                    self.block(do[7])
                except _Cycle as e:
                    if e.label not in (None, do[2]):
                        raise
                i += s
        finally:
            REGION[0] = None
        conf = [c for c in reg.conf if c[1] not in ign]
        for kind, key in conf:
            who = key[2] if isinstance(key, tuple) else self.name_of(key)
            RACES.append((self.proc.file, self.proc.name, st[1], who, kind))
        for x, v in pv.items():
            if x not in first and not v.arr and x != do[3]:
                v.val = Undef(v.ty) if "lastprivate" not in d else v.val
        del KEEP[:]

    def name_of(self, addr):
        for n, v in self.v.items():
            if v.arr and isinstance(v.val, FArr) and v.val.d.size:
                d = v.val.d
                lo = d.__array_interface__["data"][0]
                if lo <= addr < lo + d.size * d.itemsize:
                    return n
        return "array"

    def s_loop(self, st):
        label, body = st[2], st[3]
        for _ in range(100000):
            try:
                self.block(body)
            except _Cycle as e:
                if e.label not in (None, label):
                    raise
            except _Exit as e:
                if e.label not in (None, label):
                    raise
                return
        raise core.PathLimit("unbounded DO loop")

    def s_while(self, st):
        label, body = st[2], st[4]
        for _ in range(100000):
            if not self.cond(st[3]):
                return
            try:
                self.block(body)
            except _Cycle as e:
                if e.label not in (None, label):
                    raise
            except _Exit as e:
                if e.label not in (None, label):
                    raise
                return
        raise core.PathLimit("unbounded DO WHILE loop")

    def s_select(self, st):
        v = self.ev(st[2])
        default = None
        for vals, body in st[3]:
            if vals is None:
                default = body
                continue
            for x in vals:
                if x[0] == "slice":
                    c = s_and(True if x[1] is None else v >= self.ev(x[1]), True if x[2] is None else v <= self.ev(x[2]))
                else:
                    c = v == self.ev(x)
                if bool(c):
                    self.block(body)
                    return
        if default is not None:
            self.block(default)

    def s_where(self, st):
        m = self.ev(st[2])
        if not isinstance(m, FArr):
            raise Unsupported("WHERE with a scalar mask")
        for neg, body in ((False, st[3]), (True, st[4])):
            for a in body:
                if a[0] != "assign":
                    raise Unsupported("statement in WHERE")
                v = self.ev(a[3])
                old = self.ev(a[2])
                if old.d.shape != m.d.shape:
                    raise IndexError("WHERE shape")
                out = np.empty(old.d.shape, dtype=object, order="F")
                for ix in np.ndindex(*old.d.shape):
                    c = s_not(m.d[ix]) if neg else m.d[ix]
                    nv = v.d[ix] if isinstance(v, FArr) else v
                    out[ix] = nv if c is True else old.d[ix] if c is False else ite(c, use(nv), use(old.d[ix]))
                self.assign(a[2], FArr(out, old.lb, old.ty))

    def s_exit(self, st):
        raise _Exit(st[2])

    def s_cycle(self, st):
        raise _Cycle(st[2])

    def s_return(self, st):
        raise _Return()

    def s_stop(self, st):
        raise FortranStop(f"STOP at {self.proc.file}:{st[1]}")

    def s_allocate(self, st):
        for a in st[2]:
            if a[0] == "kw":
                continue
            if a[0] != "ref" or a[1][0] != "name":
                raise Unsupported("ALLOCATE")
            var = self.var(a[1][1])
            lb, n = [], []
            for x in a[2]:
                if x[0] == "slice":
                    lo, hi = self.ix(self.ev(x[1])), self.ix(self.ev(x[2]))
                else:
                    lo, hi = 1, self.ix(self.ev(x))
                lb.append(lo)
                n.append(max(0, hi - lo + 1))
            d = np.empty(tuple(n), dtype=object, order="F")
            u = Undef(var.ty)
            for ix in np.ndindex(*d.shape):
                d[ix] = u
            var.val = FArr(d, tuple(lb), var.ty)

    def s_deallocate(self, st):
        for a in st[2]:
            if a[0] == "name":
                self.var(a[1]).val = None

    s_nullify = s_deallocate

    def s_call(self, st):
        name, args = st[2], st[3]
        e = self.names.get(name)
        if e is None:
            return self.intrinsic_sub(name, args)
        self.invoke(e, name, args)

    def actual(self, a):
        """Actual argument: variable reference when possible."""
        if a[0] == "name":
            v = self.var(a[1])
            if v is not None:
                if v.arr and v.val is None:
                    raise IndexError(f"{v.name} is not associated")
                return v
            return self.ev(a)
        if a[0] == "ref":
            base = self.ref_base(a[1])
            if isinstance(base, Var):
                arr = base.val
                if isinstance(arr, FArr):
                    ix = self.index(arr, a[2])
                    if self.is_elem(ix):
                        return ElemRef(arr, ix, base.name)
                    d = arr.d[ix]
                    return FArr(d, (1,) * d.ndim, arr.ty)
            return self.ev(a)
        if a[0] == "comp":
            o = self.ev(a[1])
            return o.f[a[2]]
        return self.ev(a)

    def invoke(self, e, name, args):
        pos, kws = [], {}
        for a in args:
            if a[0] == "kw":
                kws[a[1]] = self.actual(a[2])
            else:
                pos.append(self.actual(a))
        if e[0] == "proc":
            p = e[1]
        elif e[0] == "gen":
            p = self.resolve(e[1], pos, name)
        else:
            raise Unsupported(f"{name} is not a procedure")
        if p.elemental and any(isinstance(x.val if isinstance(x, Var) else x, FArr) for x in pos):
            vals = [x.val if isinstance(x, (Var, ElemRef)) else x for x in pos]
            if p.kind != "function":
                raise Unsupported("elemental subroutine on arrays")
            return _ew(lambda *xs: self.prog.call(p, list(xs), None, self), *vals)
        # scalars passed by value of expression; scalar Vars by reference
        g = REGION[0]
        if g is not None:
            for n, x in zip(p.args, pos):
                if isinstance(x, Var) and not x.arr:
                    dd = p.decls.get(n)
                    if dd is not None and dd.dims is None and dd.intent == "in":
                        g.read(self.skey(x))
        pos2 = []
        for n, x in zip(p.args, pos):
            dd = p.decls.get(n)
            if dd is not None and dd.dims is None and dd.intent == "in" and isinstance(x, (Var, ElemRef)):
                val = x.val
                x = Var(n, dd.ty, val.copy() if isinstance(val, FObj) else val, False, False, dd.tname)
                if not isinstance(val, (FObj, Undef)) and dd.ty in "ifc" and tyof(val) != dd.ty:
                    raise Unsupported(f"type mismatch for argument {n} of {p.name}")
            elif dd is not None and dd.dims is None and dd.ty in "ifc" and not isinstance(x, (Var, ElemRef)) and tyof(x) != dd.ty:
                raise Unsupported(f"type mismatch for argument {n} of {p.name}")
            pos2.append(x)
        return self.prog.call(p, pos2 + pos[len(p.args):], kws, self)

    def resolve(self, procs, args, name):
        sig = []
        for a in args:
            v = a.val if isinstance(a, (Var, ElemRef)) else a
            if isinstance(a, Var) and a.arr and isinstance(v, FArr):
                sig.append((v.ty, v.d.ndim))
            elif isinstance(v, FArr):
                sig.append((v.ty, v.d.ndim))
            elif isinstance(v, FObj):
                sig.append(("t:" + v.tname, 0))
            elif isinstance(v, Undef):
                sig.append((v.ty, 0))
            else:
                t = a.ty if isinstance(a, (Var, ElemRef)) and a.ty != "t" else tyof(v)
                sig.append((t, 0))
        for p in procs:
            if len(p.args) != len(sig):
                continue
            ok = True
            for n, (t, r) in zip(p.args, sig):
                d = p.decls.get(n)
                dt = d.ty if d.ty != "t" else "t:" + d.tname
                dr = 0 if d.dims is None else len(d.dims)
                if dt != t or (dr != r and not p.elemental):
                    ok = False
                    break
            if ok:
                return p
        raise Unsupported(f"no specific procedure of {name} for {sig}")

    # -- expressions
    def var(self, n):
        v = self.v.get(n)
        if v is not None:
            return v
        if self.host is not None and n not in self.proc.contains:
            v = self.host.var(n)
            if v is not None:
                return v
        e = self.names.get(n)
        if e is not None and e[0] == "modvar":
            fr = self.prog.modframe(e[1])
            return fr[n]
        return None

    def ix(self, v):
        if isinstance(v, Sym):
            return v.__index__()
        if isinstance(v, bool) or not isinstance(v, int):
            raise Unsupported(f"integer expected, got {type(v).__name__}")
        return v

    def index(self, arr, args):
        if len(args) != arr.d.ndim:
            raise Unsupported("rank mismatch in subscript")
        out = []
        for k, a in enumerate(args):
            lb, n = arr.lb[k], arr.d.shape[k]
            if a[0] == "slice":
                st = self.ix(self.ev(a[3])) if a[3] is not None else 1
                lo = self.ix(self.ev(a[1])) if a[1] is not None else (lb if st > 0 else lb + n - 1)
                hi = self.ix(self.ev(a[2])) if a[2] is not None else (lb + n - 1 if st > 0 else lb)
                cnt = max(0, (hi - lo + st) // st)
                if cnt and not (lb <= lo < lb + n and lb <= lo + (cnt - 1) * st < lb + n):
                    raise IndexError(f"section {lo}:{hi} outside {lb}:{lb + n - 1}")
                if cnt == 0:
                    out.append(slice(0, 0))
                else:
                    e = lo - lb + cnt * st
                    out.append(slice(lo - lb, e if e >= 0 else None, st))
            else:
                v = self.ev(a)
                if isinstance(v, FArr):
                    idx = [self.ix(use(x)) - lb for x in v.d]
                    if any(not 0 <= x < n for x in idx):
                        raise IndexError("vector subscript out of bounds")
                    out.append(idx)
                    continue
                i = self.ix(v)
                if not lb <= i < lb + n:
                    raise IndexError(f"subscript {i} outside {lb}:{lb + n - 1}")
                out.append(i - lb)
        return tuple(out)

    @staticmethod
    def is_elem(ix):
        return all(type(i) is int for i in ix)

    def ref_base(self, e):
        """Variable designated by the left part of a reference, or None for a function."""
        if e[0] == "name":
            v = self.var(e[1])
            return v if v is not None and v.arr else None
        if e[0] == "comp":
            o = self.ev(e[1])
            if isinstance(o, FObj):
                return o.f[e[2]]
        return None

    def ev(self, e):
        return getattr(self, "e_" + e[0])(e)

    def e_const(self, e):
        return e[1]

    def e_str(self, e):
        return e[1]

    def e_paren(self, e):
        return self.ev(e[1])

    def e_complex(self, e):
        return Sym((lift(self.ev(e[1])) + lift(self.ev(e[2])) * core.I).p, "c")

    def e_name(self, e):
        v = self.var(e[1])
        if v is None:
            if e[1] in self.names and self.names[e[1]][0] in ("proc", "gen"):
                raise Unsupported("procedure as value")
            raise Unsupported(f"name {e[1]}")
        if v.arr:
            if v.val is None:
                raise IndexError(f"{e[1]} is not associated")
            return v.val
        x = v.val
        g = REGION[0]
        if g is not None and isinstance(v, Var):
            g.read(self.skey(v))
        if isinstance(x, Undef):
            x = use(x)
            v.val = x
        return x

    def e_comp(self, e):
        o = self.ev(e[1])
        if not isinstance(o, FObj):
            raise Unsupported("component of a non-structure")
        f = o.f[e[2]]
        return f.val

    def e_un(self, e):
        v = self.ev(e[2])
        if e[1] == "-":
            return _ew(lambda x: -x, v)
        return _ew(s_not, v)

    def e_bin(self, e):
        op = e[1]
        a = self.ev(e[2])
        if op in (".and.", ".or."):
            # both operands may be evaluated; short-circuiting only matters for errors
            if a is False and op == ".and.":
                return False
            if a is True and op == ".or.":
                return True
            b = self.ev(e[3])
            return _ew(lambda x, y: _logic(op, x, y), a, b)
        b = self.ev(e[3])
        if isinstance(a, FObj) or isinstance(b, FObj):
            return self.userop(op, a, b)
        if op in ("+", "-", "*", "/", "**"):
            return _ew(lambda x, y: _arith(op, x, y), a, b)
        if op in (".eqv.", ".neqv."):
            return _ew(lambda x, y: _logic(op, x, y), a, b)
        return _ew(lambda x, y: _rel(op, x, y), a, b)

    def userop(self, op, a, b):
        g = self.names.get("op:" + op)
        if g is None:
            raise Unsupported(f"operator {op}")
        p = self.resolve(g[1], [a, b], op)
        return self.prog.call(p, [a, b])

    def e_userop(self, e):
        return self.userop(e[1], self.ev(e[2]), self.ev(e[3]))

    def e_acons(self, e):
        out = []

        def add(x):
            if isinstance(x, FArr):
                out.extend(use(y) for y in x.d.ravel(order="F"))
            else:
                out.append(x)

        def item(it):
            if it[0] == "ido":
                _, items, var, a, b, c = it
                a, b = self.ix(self.ev(a)), self.ix(self.ev(b))
                s = self.ix(self.ev(c)) if c is not None else 1
                v = self.var(var)
                old = v.val
                i = a
                while (i <= b) if s > 0 else (i >= b):
                    v.val = i
                    for x in items:
                        item(x)
                    i += s
                v.val = old
            else:
                add(self.ev(it))
        for it in e[1]:
            item(it)
        d = np.empty(len(out), dtype=object)
        ty = None
        for i, x in enumerate(out):
            d[i] = x
            t = tyof(x)
            ty = t if ty is None or "lifc".find(t) > "lifc".find(ty) else ty
        if ty in ("f", "c"):
            for i in range(len(out)):
                d[i] = coerce(ty, d[i])
        return FArr(d, (1,), ty or "i")

    def e_ref(self, e):
        base = self.ref_base(e[1])
        if base is not None:
            arr = base.val
            if arr is None:
                raise IndexError(f"{base.name} is not associated")
            ix = self.index(arr, e[2])
            if self.is_elem(ix):
                _rd(arr.d, ix)
                v = arr.d[ix]
                if isinstance(v, Undef):
                    v = use(v)
                    arr.d[ix] = v
                return v
            d = arr.d[ix]
            return FArr(d, (1,) * d.ndim, arr.ty)
        if e[1][0] != "name":
            raise Unsupported("reference")
        n = e[1][1]
        g = self.names.get(n)
        if g is not None and g[0] in ("proc", "gen"):
            return self.invoke(g, n, e[2])
        if g is not None and g[0] == "type":
            raise Unsupported("structure constructor")
        return self.intrinsic(n, e[2])

    # -- intrinsics
    def intrinsic_sub(self, n, args):
        if n == "random_number":
            a = self.actual(args[0])
            if isinstance(a, FArr) or (isinstance(a, Var) and a.arr):
                d = a.d if isinstance(a, FArr) else a.val.d
                for ix in sorted(np.ndindex(*d.shape), key=lambda t: t[::-1]):
                    d[ix] = RANDOM.draw()
            else:
                a.val = RANDOM.draw()
            return
        if n == "random_seed":
            for a in args:
                if a[0] == "kw" and a[1] == "size" or a[0] != "kw":
                    self.actual(a[2] if a[0] == "kw" else a).val = RandomModel.SIZE
                elif a[1] == "put":
                    x = self.ev(a[2])
                    RANDOM.put([use(y) for y in x.d])
                else:
                    raise Unsupported("RANDOM_SEED(get)")
            return
        raise Unsupported(f"subroutine {n}")

    def intrinsic(self, n, args):
        f = INTRINSICS.get(n)
        if f is None:
            raise Unsupported(f"Fortran function {n}")
        if n in ("present", "associated", "allocated"):
            a = args[0]
            v = (self.v.get(a[1]) or self.var(a[1])) if a[0] == "name" else self.ev(a[1]).f[a[2]] if a[0] == "comp" else None
            return v is not None and v.val is not None
        pos, kw = [], {}
        for a in args:
            if a[0] == "kw":
                kw[a[1]] = self.ev(a[2])
            else:
                pos.append(self.ev(a))
        return f(*pos, **kw)


def _dovars(body):
    out = []
    for st in body:
        k = st[0]
        if k == "do":
            out.append(st[3])
            out += _dovars(st[7])
        elif k == "ompdo":
            out += _dovars([st[3]])
        elif k == "if":
            for _, b in st[2]:
                out += _dovars(b)
            if st[3]:
                out += _dovars(st[3])
        elif k == "loop":
            out += _dovars(st[3])
        elif k == "while":
            out += _dovars(st[4])
        elif k == "select":
            for _, b in st[3]:
                out += _dovars(b)
    return out


def _size(a, dim=None, kind=None):
    if not isinstance(a, FArr):
        raise Unsupported("SIZE of a scalar")
    return int(a.d.size) if dim is None else int(a.d.shape[dim - 1])


def _elems(a):
    _rdall(a.d)
    return [use(x) for x in a.d.ravel(order="F")]


def _sum(a, dim=None, mask=None):
    if dim is not None:
        d = a.d
        out = None
        for k in range(d.shape[dim - 1]):
            s = FArr(np.take(d, k, axis=dim - 1), (1,) * (d.ndim - 1), a.ty)
            out = s if out is None else _ew(lambda x, y: _arith("+", x, y), out, s)
        return out
    r = coerce(a.ty, 0)
    ms = _elems(mask) if mask is not None else None
    for i, x in enumerate(_elems(a)):
        if ms is not None:
            x = ite(ms[i], x, 0) if isinstance(ms[i], SymBool) else (x if ms[i] else 0)
        r = _arith("+", r, x)
    return r


def _product(a):
    r = coerce(a.ty, 1)
    for x in _elems(a):
        r = _arith("*", r, x)
    return r


def _dot(a, b):
    if a.d.shape != b.d.shape:
        raise IndexError("DOT_PRODUCT sizes")
    ty = "c" if "c" in (a.ty, b.ty) else "f" if "f" in (a.ty, b.ty) else "i"
    r = coerce(ty, 0)
    for x, y in zip(_elems(a), _elems(b)):
        if isinstance(x, Sym) and a.ty == "c":
            x = x.conjugate()
        r = _arith("+", r, _arith("*", x, y))
    return r


def _matmul(a, b):
    A = a.d if a.d.ndim == 2 else a.d.reshape(1, -1)
    B = b.d if b.d.ndim == 2 else b.d.reshape(-1, 1)
    if A.shape[1] != B.shape[0]:
        raise IndexError("MATMUL shapes")
    ty = "c" if "c" in (a.ty, b.ty) else "f" if "f" in (a.ty, b.ty) else "i"
    out = np.empty((A.shape[0], B.shape[1]), dtype=object, order="F")
    for i in range(A.shape[0]):
        for j in range(B.shape[1]):
            s = coerce(ty, 0)
            for k in range(A.shape[1]):
                s = s + use(A[i, k]) * use(B[k, j])
            out[i, j] = s
    if a.d.ndim == 1:
        out = out[0]
    elif b.d.ndim == 1:
        out = out[:, 0]
    return FArr(out, (1,) * out.ndim, ty)


def _cplx(x, y=0, kind=None):
    def f(a, b):
        if isinstance(a, Sym) and a.ty == "c":
            return a
        return Sym((lift(a) + lift(b) * core.I).p, "c")
    return _ew(f, x, y)


def _real(x, kind=None):
    return _ew(lambda a: coerce("f", a), x)


def _mod(a, b):
    def f(x, y):
        if type(x) is int and type(y) is int:
            q = abs(x) % abs(y)
            return q if x >= 0 else -q
        r = s_trunc(Sym((lift(x) / y).p, "f"))
        return _clean(lift(x) - r * y)
    return _ew(f, a, b)


def _modulo(a, b):
    def f(x, y):
        if type(x) is int and type(y) is int:
            return x % y
        return _clean(lift(x) % y)
    return _ew(f, a, b)


def _minmax(sign):
    def f(*xs):
        def g(a, b):
            if type(a) is int and type(b) is int:
                return min(a, b) if sign < 0 else max(a, b)
            c = (lift(a) <= b) if sign < 0 else (lift(a) >= b)
            return a if c is True else b if c is False else ite(c, a, b)
        r = xs[0]
        for y in xs[1:]:
            r = _ew(g, r, y)
        return r
    return f


def _val(sign):
    def f(a):
        xs = _elems(a)
        r = xs[0]
        for y in xs[1:]:
            r = _minmax(sign)(r, y)
        return r
    return f


def _sqrt(x):
    def f(a):
        r = core.s_sqrt(a)
        return Sym(r.p, "c") if tyof(a) == "c" else Sym(r.p, "f")
    return _ew(f, x)


def _abs(x):
    def f(a):
        if type(a) is int:
            return abs(a)
        return core.s_abs(a)
    return _ew(f, x)


def _exp(x):
    return _ew(lambda a: core.s_exp(a), x)


def _sign(a, b):
    def f(x, y):
        ax = abs(x) if type(x) is int else core.s_abs(x)
        c = y >= 0
        return ax if c is True else -ax if c is False else ite(c, ax, -ax)
    return _ew(f, a, b)


def _norm2(x):
    s = coerce("f", 0)
    for a in _elems(x):
        s = s + a * a
    return core.s_sqrt(s)


def _merge(a, b, m):
    return _ew(lambda x, y, c: x if c is True else y if c is False else ite(c, x, y), a, b, m)


def _int(x, kind=None):
    return _ew(lambda a: coerce("i", a), x)


def _nint(x, kind=None):
    return _ew(lambda a: _clean(core.s_round(a)), x)


def _bnd(up):
    def f(a, dim=None):
        r = [(l + n - 1 if up else l) for l, n in zip(a.lb, a.d.shape)]
        if dim is not None:
            return r[dim - 1]
        d = np.empty(len(r), dtype=object)
        d[:] = r
        return FArr(d, (1,), "i")
    return f


def _shape(a):
    d = np.empty(a.d.ndim, dtype=object)
    d[:] = list(a.d.shape)
    return FArr(d, (1,), "i")


def _reshape(a, shape, order=None):
    shp = tuple(int(x) for x in shape.d)
    return FArr(a.d.ravel(order="F").reshape(shp, order="F"), (1,) * len(shp), a.ty)


def _conjg(x):
    return _ew(lambda a: lift(a).conjugate(), x)


def _aimag(x):
    return _ew(lambda a: lift(a).imag if lift(a).ty == "c" else Sym(core.Poly({}), "f"), x)


def _any(m, dim=None):
    return s_or(*_elems(m))


def _all(m, dim=None):
    return s_and(*_elems(m))


def _count(m):
    r = 0
    for x in _elems(m):
        r = r + (x.as_int() if isinstance(x, SymBool) else int(x))
    return r


def _transpose(a):
    return FArr(np.array(a.d.T, dtype=object, order="F"), (1, 1), a.ty)


def _trig(fn):
    return lambda x: _ew(fn, x)


def _log(x):
    return _ew(npshim.s_log, x)


INTRINSICS = {
    "size": _size, "sum": _sum, "product": _product, "dot_product": _dot, "matmul": _matmul, "transpose": _transpose,
    "cmplx": _cplx, "dcmplx": lambda x, y=0: _cplx(x, y), "real": _real, "dble": _real, "dreal": _real, "float": _real,
    "conjg": _conjg, "dconjg": _conjg, "aimag": _aimag, "dimag": _aimag, "imag": _aimag,
    "int": _int, "nint": _nint, "floor": lambda x, kind=None: _ew(lambda a: _clean(s_floor(a)), x),
    "ceiling": lambda x, kind=None: _ew(lambda a: _clean(core.s_ceil(a)), x),
    "mod": _mod, "modulo": _modulo, "min": _minmax(-1), "max": _minmax(1), "dmin1": _minmax(-1), "dmax1": _minmax(1),
    "minval": _val(-1), "maxval": _val(1),
    "abs": _abs, "dabs": _abs, "cdabs": _abs, "zabs": _abs, "iabs": _abs, "sqrt": _sqrt, "dsqrt": _sqrt, "cdsqrt": _sqrt,
    "exp": _exp, "dexp": _exp, "cdexp": _exp, "zexp": _exp, "log": _log, "dlog": _log,
    "cos": _trig(core.s_cos), "sin": _trig(core.s_sin), "dcos": _trig(core.s_cos), "dsin": _trig(core.s_sin),
    "tan": _trig(lambda x: core.s_sin(x) / core.s_cos(x)), "dtan": _trig(lambda x: core.s_sin(x) / core.s_cos(x)),
    "sign": _sign, "dsign": _sign, "norm2": _norm2, "merge": _merge, "lbound": _bnd(False), "ubound": _bnd(True),
    "shape": _shape, "reshape": _reshape, "any": _any, "all": _all, "count": _count,
    "ieee_is_nan": lambda x: False, "ieee_is_finite": lambda x: True, "present": None, "associated": None, "allocated": None,
    "kind": lambda x: 8, "len": lambda s: len(s), "trim": lambda s: s, "isnan": lambda x: False,
}
for _n in ("present", "associated", "allocated"):
    INTRINSICS[_n] = lambda *a: None


# ---- f2py ---------------------------------------------------------------------------------------
_DT = {"i": np.dtype("i4"), "f": np.dtype("f8"), "c": np.dtype("c16"), "l": np.dtype("i4")}


class F2PyModule:
    __name__ = "tbplas.fortran.f2py"

    def __init__(self, d):
        self._dir = d
        self._prog = None
        self.used = set()

    def prog(self):
        if self._prog is None:
            self._prog = Program(self._dir)
            self._prog.used = self.used
        return self._prog

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        p = self.prog().ext.get(n.lower())
        if p is None:
            raise AttributeError(f"module 'tbplas.fortran.f2py' has no attribute '{n}'")
        return lambda *a, **k: self._call(p, a, k)

    def signature(self, p):
        """(required, optional, outs) as f2py derives them."""
        outs = [a for a in p.args if p.decls[a].intent == "out"]
        ins = [a for a in p.args if a not in outs]
        dimvars = set()
        for a in ins:
            d = p.decls[a]
            if d.dims:
                for q in d.dims:
                    if q[0] == "range" and q[1] == ("const", 1) and q[2][0] == "name":
                        dimvars.add(q[2][1])
        opt = [a for a in ins if a in dimvars and p.decls[a].dims is None and p.decls[a].ty == "i"]
        req = [a for a in ins if a not in opt]
        return req, opt, outs

    def _call(self, p, args, kw):
        req, opt, outs = self.signature(p)
        names = req + opt
        if len(args) > len(names):
            raise TypeError(f"{p.name}() takes at most {len(names)} arguments ({len(args)} given)")
        given = dict(zip(names, args))
        given.update({k.lower(): v for k, v in kw.items()})
        for a in req:
            if a not in given:
                raise TypeError(f"{p.name}() missing required argument '{a}'")
        bind = {}
        dims = {}
        for a in names:
            d = p.decls[a]
            if a not in given:
                continue
            x = given[a]
            if d.dims is None:
                if d.ty == "s":
                    bind[a] = str(x)
                elif d.ty == "l":
                    bind[a] = bool(x)
                else:
                    if isinstance(x, np.ndarray):
                        x = x.item() if x.size == 1 else x
                    bind[a] = coerce(d.ty, x)
                if a in opt:
                    dims[a] = bind[a]
                continue
            if isinstance(x, np.ndarray):
                sdt = getattr(x, "sdt", x.dtype)
                raw = np.asarray(x).view(np.ndarray)
            else:
                x = npshim.array(x)
                sdt = x.sdt
                raw = np.asarray(x).view(np.ndarray)
            if raw.dtype != object:
                raw = raw.astype(object)
            want = _DT[d.ty]
            if d.intent in ("inout", "inplace"):
                if sdt != want:
                    raise ValueError(f"failed in converting argument '{a}' of {p.name}: dtype {sdt} is not {want}")
                if raw.ndim > 1 and not raw.flags.f_contiguous:
                    raise ValueError(f"failed in converting argument '{a}' of {p.name}: not Fortran contiguous")
                bind[a] = FArr(raw, (1,) * raw.ndim, d.ty)
            else:
                c = np.empty(raw.shape, dtype=object, order="F")
                for ix in np.ndindex(*raw.shape):
                    c[ix] = coerce(d.ty, raw[ix])
                if raw.ndim < len(d.dims):
                    c = c.reshape(c.shape + (1,) * (len(d.dims) - raw.ndim), order="F")
                bind[a] = FArr(c, (1,) * c.ndim, d.ty)
            sh = bind[a].d.shape
            if len(sh) != len(d.dims):
                raise ValueError(f"{p.name}: argument {a} has rank {len(sh)}")
        for a in names:
            d = p.decls[a]
            if d.dims is None or a not in bind:
                continue
            for k, q in enumerate(d.dims):
                if q[0] == "range" and q[1] == ("const", 1) and q[2][0] == "name" and q[2][1] in opt:
                    n = q[2][1]
                    sz = bind[a].d.shape[k]
                    if n not in dims:
                        dims[n] = sz
                    elif dims[n] != sz:
                        if sz < dims[n]:
                            raise ValueError(f"{p.name}: {k}-th dimension of '{a}' must be {dims[n]} but got {sz}")
        for n in opt:
            if n not in dims:
                raise TypeError(f"{p.name}: cannot determine {n}")
            bind[n] = int(dims[n])
        fr = Frame(self.prog(), p, None)
        for a, v in bind.items():
            fr.v[a] = Var(a, p.decls[a].ty, v, isinstance(v, FArr))
        for a in outs:
            d = p.decls[a]
            if d.dims is None:
                bind[a] = Var(a, d.ty, coerce(d.ty, 0))
            else:
                lb, shp = fr.bounds(d.dims)
                c = np.empty(shp, dtype=object, order="F")
                z = coerce(d.ty, 0)
                for ix in np.ndindex(*shp):
                    c[ix] = z
                bind[a] = FArr(c, lb, d.ty)
        self.prog().call(p, [bind[a] for a in p.args])
        res = []
        for a in outs:
            v = bind[a]
            if isinstance(v, Var):
                res.append(use(v.val))
            else:
                c = np.empty(v.d.shape, dtype=object, order="F")
                for ix in np.ndindex(*v.d.shape):
                    c[ix] = use(v.d[ix])
                res.append(npshim.mk(c, _DT[v.ty], docast=False))
        if not res:
            return None
        return res[0] if len(res) == 1 else tuple(res)
