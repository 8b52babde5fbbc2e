"""Race queries for the OpenMP worksharing loops of the Fortran sources.

For every ``!$OMP PARALLEL DO`` two copies of the loop body with symbolic, different iteration numbers are walked; array
subscripts become integer terms over the iteration number, the (symbolic) inner loop variables, the shared scalars and
uninterpreted functions for the contents of integer arrays.  For every pair (write in one iteration, access in the other)
the solver decides whether some sizes, index-array contents and iteration numbers make them touch the same element.
Nothing is bounded: loop lengths and array contents are free integers (bounds are only added when the solver answers
unknown, and are then reported).
"""
import re
import time

import z3

from .core import Unsupported, Sym
from . import ftn


class Acc:
    __slots__ = ("name", "idx", "write", "conds", "text")

    def __init__(self, name, idx, write, conds, text):
        self.name, self.idx, self.write, self.conds, self.text = name, idx, write, conds, text


INQUIRY = {"size", "shape", "lbound", "ubound", "allocated", "associated", "kind", "present", "epsilon", "huge", "tiny"}


def base(e):
    while e[0] == "paren":
        e = e[1]
    if e[0] == "name":
        return e[1]
    if e[0] == "comp":
        b = base(e[1])
        return None if b is None else b + "%" + e[2]
    if e[0] == "ref":
        return base(e[1])
    return None


def assigned(body, scope=None):
    """Names that a list of statements may change."""
    out = set()
    for st in body:
        if st is None:
            continue
        k = st[0]
        if k in ("assign", "passign"):
            b = base(st[2])
            if b:
                out.add(b)
        elif k == "do":
            out.add(st[3])
            out |= assigned(st[7])
        elif k == "ompdo":
            out |= assigned([st[3]])
        elif k == "if":
            for _, b in st[2]:
                out |= assigned(b)
            out |= assigned(st[3] or [])
        elif k == "loop":
            out |= assigned(st[3])
        elif k == "while":
            out |= assigned(st[4])
        elif k == "select":
            for _, b in st[3]:
                out |= assigned(b)
        elif k == "where":
            out |= assigned(st[3]) | assigned(st[4])
        elif k in ("call", "allocate", "deallocate", "nullify"):
            for a in st[3] if k == "call" else st[2]:
                if isinstance(a, tuple):
                    a = a[2] if a[0] == "kw" else a
                    b = base(a) if a[0] in ("name", "comp", "ref") else None
                    if b:
                        out.add(b)
    return out


def clauses(d):
    g = lambda pat: {x.strip() for m in re.finditer(pat, d) for x in m.group(1).split(",")}
    priv = g(r"\b(?:last|first)?private\s*\(([^)]*)\)")
    first = g(r"\bfirstprivate\s*\(([^)]*)\)")
    red = {}
    for m in re.finditer(r"reduction\s*\(\s*([^:]+?)\s*:([^)]*)\)", d):
        for x in m.group(2).split(","):
            red[x.strip()] = m.group(1)
    m = re.search(r"collapse\s*\(\s*(\d+)\s*\)", d)
    return priv, first, red, int(m.group(1)) if m else 1


class Walk:
    """One copy of the loop body."""
    def __init__(self, an, tag, priv, first, red, env):
        self.an, self.tag, self.priv, self.red = an, tag, priv, red
        self.env = dict(env)
        self.acc, self.notes = [], []
        self.conds = []
        self.ready = set(first)

    def fresh(self, hint="t"):
        self.an.n += 1
        return z3.Int(f"{hint}_{self.tag}_{self.an.n}")

    # ---- integer terms
    def ti(self, e):
        k = e[0]
        if k == "paren":
            return self.ti(e[1])
        if k == "const":
            v = e[1]
            if isinstance(v, bool):
                return None
            if isinstance(v, int):
                return z3.IntVal(v)
            return None
        if k == "name":
            n = e[1]
            if n in self.env:
                return self.env[n]
            if not self.an.is_int(n):
                return None
            if n in self.priv or n in self.an.changed:
                return self.fresh(n)
            return z3.Int("g_" + n)
        if k == "un" and e[1] == "-":
            a = self.ti(e[2])
            return None if a is None else -a
        if k == "bin" and e[1] in ("+", "-", "*", "/"):
            a, b = self.ti(e[2]), self.ti(e[3])
            if a is None or b is None:
                return None
            if e[1] == "+":
                return a + b
            if e[1] == "-":
                return a - b
            if e[1] == "*":
                return a * b
            return self.div(a, b)
        if k == "ref":
            n = base(e)
            if n is None:
                return None
            if self.an.is_array(n):
                if n in self.an.changed:
                    return self.fresh(n.replace("%", "_"))
                ix = [self.ti(a) if a[0] != "slice" else None for a in e[2]]
                if any(x is None for x in ix) or not self.an.is_int(n):
                    return self.fresh(n.replace("%", "_"))
                f = z3.Function("a_" + n, *([z3.IntSort()] * (len(ix) + 1)))
                return f(*ix)
            args = [a[2] if a[0] == "kw" else a for a in e[2]]
            if n == "size":
                d = self.ti(args[1]) if len(args) > 1 else None
                b = base(args[0])
                if b is None or (len(args) > 1 and d is None):
                    return self.fresh("size")
                return z3.Int(f"size_{b}_{d}")
            if n in ("mod", "modulo") and len(args) == 2:
                a, b = self.ti(args[0]), self.ti(args[1])
                if a is None or b is None:
                    return None
                return a - b * self.div(a, b)
            if n in ("min", "max") and args:
                ts = [self.ti(a) for a in args]
                if any(t is None for t in ts):
                    return None
                r = ts[0]
                for t in ts[1:]:
                    r = z3.If(t < r, t, r) if n == "min" else z3.If(t > r, t, r)
                return r
            if n == "int":
                return self.fresh("int")
        return None

    def div(self, a, b):
        q = self.fresh("q")
        self.conds.append(z3.Implies(z3.And(a >= 0, b > 0), z3.And(b * q <= a, a < b * q + b)))
        self.conds.append(z3.Implies(z3.And(a < 0, b > 0), z3.And(q <= 0, b * q >= a, b * q - b < a)))
        return q

    def tb(self, e):
        k = e[0]
        if k == "paren":
            return self.tb(e[1])
        if k == "un" and e[1] == ".not.":
            return z3.Not(self.tb(e[2]))
        if k == "bin" and e[1] in (".and.", ".or."):
            f = z3.And if e[1] == ".and." else z3.Or
            return f(self.tb(e[2]), self.tb(e[3]))
        if k == "bin" and e[1] in ("==", "/=", "<", "<=", ">", ">="):
            a, b = self.ti(e[2]), self.ti(e[3])
            if a is not None and b is not None:
                return {"==": a == b, "/=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[e[1]]
        self.an.n += 1
        return z3.Bool(f"b_{self.tag}_{self.an.n}")

    # ---- accesses
    def put(self, name, idx, write, text):
        if name in self.priv:
            if not write and name not in self.ready and not self.an.is_array(name):
                self.notes.append(f"private variable {name} is read before it is set ({text})")
                self.ready.add(name)
            elif write:
                self.ready.add(name)
            return
        if name in self.red:
            self.notes.append(f"reduction variable {name} is used outside its reduction ({text})")
            return
        self.acc.append(Acc(name, idx, write, list(self.conds), text))

    def index(self, args):
        out = []
        for a in args:
            if a[0] == "slice":
                t = self.fresh("s")
                if a[3] is None:
                    lo = self.ti(a[1]) if a[1] is not None else None
                    hi = self.ti(a[2]) if a[2] is not None else None
                    if lo is not None:
                        self.conds.append(t >= lo)
                    if hi is not None:
                        self.conds.append(t <= hi)
                out.append(t)
            else:
                t = self.ti(a)
                out.append(self.fresh("x") if t is None else t)
        return out

    def read(self, e):
        k = e[0]
        if k in ("const", "str", "star"):
            return
        if k == "name":
            n = e[1]
            if self.an.is_var(n) and not self.an.is_const(n):
                self.put(n, None, False, n)
            else:
                self.call(n, [])
            return
        if k == "comp":
            b = base(e)
            if b is not None:
                self.put(b, None, False, b)
            return
        if k == "ref":
            n = base(e)
            if n is not None and self.an.is_array(n):
                for a in e[2]:
                    self.read(a)
                if not self.an.is_const(n):
                    self.put(n, self.index(e[2]), False, n)
                return
            if e[1][0] == "name":
                if e[1][1] in INQUIRY and not self.an.procs(e[1][1]):
                    for a in e[2][1:]:
                        self.read(a)
                    return
                self.call(e[1][1], e[2])
                return
            raise Unsupported("reference in a parallel loop")
        for x in e[1:]:
            if isinstance(x, tuple) and x and isinstance(x[0], str):
                self.read(x)
            elif isinstance(x, list):
                for y in x:
                    if isinstance(y, tuple):
                        self.read(y)

    def write(self, e, text):
        while e[0] == "paren":
            e = e[1]
        n = base(e)
        if n is None:
            raise Unsupported("assignment in a parallel loop")
        if e[0] == "ref":
            for a in e[2]:
                self.read(a)
            self.put(n, self.index(e[2]), True, text)
        else:
            self.put(n, None, True, text)

    def call(self, name, args):
        args = [(a[2], a[1]) if a[0] == "kw" else (a, None) for a in args]
        procs = self.an.procs(name)
        if not procs:
            if name in ("random_number", "random_seed", "rand", "irand"):
                self.put("(random number generator)", None, True, name)
                for a, _ in args:
                    self.write(a, name)
                return
            for a, _ in args:
                self.read(a)
            return
        for p in procs:
            self.an.used.add(f"tbplas/fortran/{p.file}:{p.name}")
            s = self.an.summary(p)
            for g in s["globals"]:
                self.put(g, None, True, f"{g} in {p.name}")
            for i, (a, kw) in enumerate(args):
                d = kw if kw is not None else (p.args[i] if i < len(p.args) else None)
                mode = s["modes"].get(d, "r")
                if "r" in mode:
                    self.read(a)
                if "w" in mode:
                    if a[0] in ("name", "ref", "comp"):
                        self.write(a, f"argument {d} of {p.name}")
                        b = base(a)
                        self.env.pop(b, None)
                        if self.an.is_int(b) and a[0] == "name":
                            self.env[b] = self.fresh(b)
                    else:
                        self.read(a)

    # ---- statements
    def havoc(self, names):
        for n in names:
            if n in self.env or n in self.priv:
                if self.an.is_int(n):
                    self.env[n] = self.fresh(n)

    def bound(self, st):
        """Fresh value of the variable of a DO statement."""
        lo, hi, step = self.ti(st[4]), self.ti(st[5]), self.ti(st[6]) if st[6] is not None else z3.IntVal(1)
        v = self.fresh(st[3])
        if step is None:
            return v
        step = z3.simplify(step)
        if z3.is_int_value(step) and step.as_long() == 1:
            self.conds += ([v >= lo] if lo is not None else []) + ([v <= hi] if hi is not None else [])
        elif lo is not None:
            m = self.fresh("m")
            self.conds += [m >= 0, v == lo + step * m]
            if hi is not None:
                self.conds.append(z3.Implies(step > 0, v <= hi))
                self.conds.append(z3.Implies(step < 0, v >= hi))
        return v

    def block(self, body):
        n = len(self.conds)
        for st in body:
            if st is not None:
                self.stmt(st)
        # definitions made on the way (quotients, slices) stay valid
        return n

    def stmt(self, st):
        k = st[0]
        if k == "assign":
            lhs, rhs = st[2], st[3]
            n = base(lhs)
            if n in self.red and lhs[0] == "name":
                if self.reduction(n, rhs):
                    return
            self.read(rhs)
            v = self.ti(rhs) if lhs[0] == "name" and self.an.is_int(n) else None
            self.write(lhs, f"line {st[1]}")
            if lhs[0] == "name" and self.an.is_int(n) and not self.an.is_array(n):
                self.env[n] = v if v is not None else self.fresh(n)
        elif k == "if":
            envs, readies = [], []
            e0, r0 = dict(self.env), set(self.ready)
            neg = []
            for cond, body in st[2]:
                self.env, self.ready = dict(e0), set(r0)
                self.read(cond)
                c = self.tb(cond)
                m = len(self.conds)
                self.conds += neg + [c]
                self.block(body)
                self.guarded(m, neg + [c])
                envs.append(self.env)
                readies.append(self.ready)
                neg = neg + [z3.Not(c)]
            self.env, self.ready = dict(e0), set(r0)
            if st[3]:
                m = len(self.conds)
                self.conds += neg
                self.block(st[3])
                self.guarded(m, neg)
            envs.append(self.env)
            readies.append(self.ready)
            self.ready = set.intersection(*readies)
            out = {}
            for n in set().union(*envs):
                vs = [x.get(n) for x in envs]
                out[n] = vs[0] if all(v is not None and vs[0] is not None and v.eq(vs[0]) for v in vs) else self.fresh(n)
            self.env = out
        elif k in ("do", "ompdo"):
            do = st[3] if k == "ompdo" else st
            for x in do[4:7]:
                if x is not None:
                    self.read(x)
            self.priv.add(do[3])
            self.ready.add(do[3])
            m = len(self.conds)
            ch = assigned(do[7]) - {do[3]}
            self.havoc(ch)
            self.env[do[3]] = self.bound(do)
            self.block(do[7])
            del self.conds[m:]
            self.havoc(ch | {do[3]})
        elif k in ("loop", "while", "where"):
            body = st[3] if k == "loop" else st[4] if k == "while" else st[3] + st[4]
            if k != "loop":
                self.read(st[3] if k == "while" else st[2])
            ch = assigned(body)
            self.havoc(ch)
            m = len(self.conds)
            self.block(body)
            del self.conds[m:]
            self.havoc(ch)
        elif k == "select":
            self.read(st[2])
            for _, b in st[3]:
                m = len(self.conds)
                self.block(b)
                del self.conds[m:]
                self.havoc(assigned(b))
        elif k == "call":
            self.call(st[2], st[3])
        elif k in ("cycle", "exit", "return", "stop", "io"):
            pass
        else:
            raise Unsupported(f"{k} in a parallel loop")

    def guarded(self, m, guard):
        """Conditions of a branch become implications for what follows."""
        body = self.conds[m + len(guard):]
        del self.conds[m:]
        self.conds += [z3.Implies(z3.And(*guard), x) for x in body]

    def reduction(self, n, rhs):
        """x = x op e or x = e op x with the declared operator."""
        op = self.red[n]
        while rhs[0] == "paren":
            rhs = rhs[1]

        def flat(e):
            """Operand lists (sign, e) of a sum / product chain."""
            if e[0] == "bin" and e[1] in ("+", "-") and op in ("+", "-"):
                return flat(e[2]) + [(e[1], x) for _, x in flat(e[3])]
            if e[0] == "bin" and e[1] == op:
                return flat(e[2]) + flat(e[3])
            return [("+", e)]
        if rhs[0] == "ref" and base(rhs) == op:
            parts = [("+", a) for a in rhs[2]]
        else:
            parts = flat(rhs)
        own = [p for p in parts if p[1] == ("name", n)]
        if len(own) != 1 or own[0][0] != "+":
            return False
        for _, p in parts:
            if p != ("name", n):
                self.read(p)
        return True


class Analysis:
    def __init__(self, prog, stats=None, timeout=3000):
        self.prog, self.stats, self.timeout = prog, stats, timeout
        self.n = 0
        self.used = set()
        self.bounded = []
        self.queries = 0
        self._sum = {}

    # ---- names of the current procedure
    def decl(self, n):
        p = self.proc
        while p is not None:
            if n in p.decls:
                return p.decls[n]
            p = getattr(p, "host", None)
        s = self.prog.scope(self.proc).get(n)
        if s is not None and s[0] == "modvar":
            return s[1].decls[n]
        return None

    def is_var(self, n):
        return "%" in n or self.decl(n) is not None and not (self.procs(n) and n not in self.proc.decls)

    def is_array(self, n):
        if "%" in n:
            return True
        d = self.decl(n)
        return d is not None and (bool(d.dims) or "pointer" in d.attrs and bool(d.dims))

    def is_int(self, n):
        if n is None:
            return False
        if "%" in n:
            b, f = n.split("%")[0], n.split("%")[-1]
            d = self.decl(b)
            for m in self.prog.modules.values():
                for t in m.types.values():
                    ds = t if isinstance(t, dict) else getattr(t, "decls", {})
                    x = ds.get(f) if isinstance(ds, dict) else None
                    if x is not None:
                        return x.ty == "i"
            return f in ("indptr", "indices")
        d = self.decl(n)
        return d is not None and d.ty == "i"

    def is_const(self, n):
        d = self.decl(n.split("%")[0])
        return d is not None and "parameter" in d.attrs

    def procs(self, n):
        if n in self.proc.decls and self.proc.decls[n].dims:
            return []
        s = self.prog.scope(self.proc).get(n)
        if s is None:
            return []
        return [s[1]] if s[0] == "proc" else list(s[1]) if s[0] == "gen" else []

    def summary(self, p, depth=0):
        """How a procedure uses its arguments and which variables outlive it."""
        if id(p) in self._sum:
            return self._sum[id(p)]
        res = dict(modes={}, globals=set())
        self._sum[id(p)] = res
        local = {n for n, d in p.decls.items()}
        kept = {n for n, d in p.decls.items() if n not in p.args and "parameter" not in d.attrs and ("save" in d.attrs or d.init is not None)}
        changed = assigned(p.body)
        for a in p.args:
            d = p.decls.get(a)
            it = d.intent if d is not None else None
            res["modes"][a] = {"in": "r", "out": "w", "inout": "rw"}.get(it) or ("rw" if a in changed else "r")
        for n in changed:
            b = n.split("%")[0]
            if b in kept or (b not in local and b != p.result):
                res["globals"].add(f"{p.name}:{b}")

        def calls(body):
            for st in body:
                if st is None:
                    continue
                for x in st:
                    yield from nested(x)

        def nested(x):
            if isinstance(x, tuple):
                if x and x[0] == "call":
                    yield x[2]
                if x and x[0] == "ref" and isinstance(x[1], tuple) and x[1][0] == "name":
                    yield x[1][1]
                for y in x:
                    yield from nested(y)
            elif isinstance(x, list):
                for y in x:
                    yield from nested(y)
        save = self.proc
        self.proc = p
        try:
            for st in p.body:
                for n in nested(st):
                    if n in ("random_number", "random_seed"):
                        res["globals"].add("(random number generator)")
                    if depth < 6:
                        for q in self.procs(n):
                            res["globals"] |= self.summary(q, depth + 1)["globals"]
        finally:
            self.proc = save
        return res

    # ---- loops
    def find(self, body, path=()):
        for i, st in enumerate(body):
            if st is None:
                continue
            here = path + ((body, i),)
            k = st[0]
            if k == "ompdo":
                yield st, here
            elif k == "ompother":
                raise Unsupported(f"OpenMP directive {st[2][:40]}")
            elif k == "do":
                yield from self.find(st[7], here)
            elif k == "if":
                for _, b in st[2]:
                    yield from self.find(b, here)
                yield from self.find(st[3] or [], here)
            elif k == "loop":
                yield from self.find(st[3], here)
            elif k == "while":
                yield from self.find(st[4], here)
            elif k == "select":
                for _, b in st[3]:
                    yield from self.find(b, here)

    def loops(self):
        seen = []
        for m in self.prog.modules.values():
            seen += list(m.procs.values())
        seen += list(self.prog.ext.values())
        for p in seen:
            todo = [p] + list(p.contains.values())
            for q in todo:
                for st, path in self.find(q.body):
                    yield q, st, path

    def check(self, proc, st, path):
        """List of conflicts of one loop."""
        self.proc = proc
        self.used.add(f"tbplas/fortran/{proc.file}:{proc.name}")
        priv, first, red, collapse = clauses(st[2])
        do = st[3]
        self.changed = assigned([do])
        # what is known on entry: straight-line integer assignments of the enclosing blocks
        pre = Walk(self, "e", set(), set(), {}, {})
        for depth, (body, i) in enumerate(path):
            outer = path[depth - 1] if depth else None
            if outer is not None:
                o = outer[0][outer[1]]
                if o[0] in ("do", "loop", "while"):
                    for n in assigned(body):
                        pre.env[n] = pre.fresh(n) if self.is_int(n) else None
                        if pre.env[n] is None:
                            del pre.env[n]
                if o[0] == "do":
                    pre.env[o[3]] = pre.bound(o)
            keep, self.changed = self.changed, set()
            for s in body[:i]:
                if s is None:
                    continue
                if s[0] == "assign" and s[2][0] == "name" and self.is_int(s[2][1]):
                    v = pre.ti(s[3])
                    pre.env[s[2][1]] = v if v is not None else pre.fresh(s[2][1])
                elif s[0] == "if" and len(s[2]) == 1 and not s[3] and len(s[2][0][1]) == 1 and s[2][0][1][0][0] in ("exit", "cycle", "return"):
                    pre.conds.append(z3.Not(pre.tb(s[2][0][0])))
                else:
                    for n in assigned([s]):
                        if self.is_int(n):
                            pre.env[n] = pre.fresh(n)
            self.changed = keep
        copies = []
        for tag in ("1", "2"):
            w = Walk(self, tag, set(priv), first, red, {})
            w.conds = list(pre.conds)
            w.env = {n: v for n, v in pre.env.items() if n not in self.changed or n in first}
            its = []
            d = do
            for level in range(collapse):
                w.priv.add(d[3])
                w.ready.add(d[3])
                for x in d[4:7]:
                    if x is not None:
                        w.read(x)
                v = w.bound(d)
                w.env[d[3]] = v
                its.append(v)
                if level + 1 < collapse:
                    inner = [x for x in d[7] if x is not None]
                    if len(inner) != 1 or inner[0][0] != "do":
                        raise Unsupported("collapse of an imperfect nest")
                    d = inner[0]
            w.block(d[7])
            copies.append((w, its))
        (a, ia), (b, ib) = copies
        out = list(dict.fromkeys(a.notes))
        different = z3.Or(*[x != y for x, y in zip(ia, ib)])
        done = set()
        for x in a.acc:
            if not x.write:
                continue
            for y in b.acc:
                if y.name != x.name:
                    continue
                eqs = []
                if x.idx is not None and y.idx is not None and len(x.idx) == len(y.idx):
                    eqs = [p == q for p, q in zip(x.idx, y.idx)]
                key = (x.name, str(x.idx), str(y.idx), str(x.conds), str(y.conds), y.write)
                if key in done:
                    continue
                done.add(key)
                r = self.ask([different] + x.conds + y.conds + eqs, (proc, st))
                if r != "unsat":
                    kind = "write" if y.write else "read"
                    out.append(f"{x.name}: written in one iteration and {kind} in another ({x.text} / {y.text}){'' if r == 'sat' else ' [solver: unknown]'}")
        return list(dict.fromkeys(out))

    def ask(self, cs, where):
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", self.timeout)
        s.add(*cs)
        r = str(s.check())
        if r == "unknown":
            # small instances: every free integer within -8 .. 64
            s = z3.Solver()
            s.set("timeout", 20000)
            vs = set()
            stack = list(cs)
            seen = set()
            while stack:
                t = stack.pop()
                if t.get_id() in seen:
                    continue
                seen.add(t.get_id())
                if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.sort() == z3.IntSort():
                    vs.add(t)
                stack += t.children()
            s.add(*cs)
            for v in vs:
                s.add(v >= -8, v <= 64)
            r = str(s.check())
            self.bounded.append(f"{where[0].file}:{where[0].name}")
        self.queries += 1
        if self.stats is not None:
            self.stats.queries += 1
            self.stats.time += time.time() - t0
            setattr(self.stats, r, getattr(self.stats, r) + 1)
        return r
