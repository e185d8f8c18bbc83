"""Conditional constant propagation: all outcomes of a function for given constant inputs.

Every quantity is either a known constant or unknown (U).  A branch on a known condition is
followed only where it leads, one on an unknown condition both ways, loops are followed as
long as their conditions are known.  Calls of functions of the library are followed as well.
Values: int, float, str (any text: string, view, name), NULL, tuple (array), dict (aggregate),
Ptr (element of an array), Ref (variable), U."""
import struct
from model import AnalysisError

WIDTH = {"int": (32, 1), "unsigned int": (32, 0), "short": (16, 1), "unsigned short": (16, 0), "long": (64, 1), "unsigned long": (64, 0), "long long": (64, 1),
         "unsigned long long": (64, 0), "char32_t": (32, 0), "char16_t": (16, 0), "wchar_t": (32, 1), "unsigned char": (8, 0), "char8_t": (8, 0), "char": (8, 1),
         "signed char": (8, 1)}
TEXT = ("basic_string", "basic_string_view", "PdfName", "PdfString", "charbuff_t", "charbuff", "PdfObject", "PdfVariant", "nullable", "optional", "span", "cspan")


class _U:
    def __repr__(self): return "U"
    def __bool__(self): raise AnalysisError("truth of an unknown")


class _N:
    def __repr__(self): return "NULL"


U, NULL = _U(), _N()


class Ptr(tuple):
    """(sequence, index); the sequence is a tuple or str"""
    def __new__(cls, s, i): return tuple.__new__(cls, (s, i))
    def __repr__(self): return "Ptr(..,%s)" % self[1]


class Ref(tuple):
    """address of a variable: (key,)"""
    def __new__(cls, k): return tuple.__new__(cls, (k,))


class Budget(Exception): pass


def canon(t):
    return t["c"].replace("const ", "").replace("volatile ", "").strip() if t else ""


def wrap(v, t):
    if not isinstance(v, int) or t is None:
        return v
    c = canon(t)
    if c == "bool":
        return int(v != 0)
    w = WIDTH.get(c)
    if w is None:
        return v
    v &= (1 << w[0]) - 1
    return v - (1 << w[0]) if w[1] and v >> (w[0] - 1) else v


def literal(v):
    """value of an initialiser extracted from the source"""
    if v is None:
        return NULL
    if isinstance(v, (int, float)):
        return v
    if isinstance(v, list):
        return tuple(literal(x) for x in v)
    if isinstance(v, dict):
        if "s" in v:
            return v["s"]
        if "v" in v:
            return v["v"]
        if "f" in v:
            return float(v["f"])
        if "ctor" in v:
            a = [literal(x) for x in v["a"]]
            n = v["ctor"].split("::")[-1]
            if n == "pair":
                return tuple(a)
            if n in TEXT and not a:
                return ""
            if len(a) >= 1 and (n in TEXT or n in ("vector", "unordered_map", "map", "set", "unordered_set", "initializer_list", "array")):
                return a[0]
            if len(a) == 1:
                return a[0]
            return tuple(a)
    return U


class PEval:
    def __init__(self, prog, subject=None, steps=60000, depth=8, inline=None, hook=None):
        self.prog, self.subject, self.steps, self.depth = prog, subject, steps, depth
        self.inline, self.hook = inline, hook
        self.frames = 0
        self.glob = {}

    # outcomes: list of (kind, value, heap, events)
    def run(self, fn, args, this=None, heap=None):
        self.left = self.steps
        return self.call(fn, args, this or {}, heap or {}, (), 0)

    def call(self, fn, args, this, heap, ev, depth):
        if fn.entry is None:
            raise AnalysisError("no CFG for " + fn.q)
        self.frames += 1
        fr = self.frames
        heap = dict(heap)
        for (d, name, ty), v in zip(fn.params, args):
            heap[(fr, d)] = v
        if this is not None and isinstance(this, dict):
            for k, v in this.items():
                heap[("this", k)] = v
        out, work, seen = [], [(fn.entry, 0, heap, {}, ev)], set()
        while work:
            b, ix, heap, vals, ev = work.pop()
            v = fn.blocks[b]
            n = len(v["e"])
            stop = False
            while ix < n:
                self.left -= 1
                if self.left < 0:
                    raise Budget()
                e = v["e"][ix]
                ix += 1
                if isinstance(e, list):
                    if e[0] == "init":
                        val = self.val(fn, fr, e[2], heap, vals)
                        if e[1]:
                            heap = dict(heap); heap[("this", e[1])] = val
                    continue
                k = fn.k(e)
                if k == "Throw":
                    out.append(("throw", U, heap, ev)); stop = True; break
                if k == "ReturnStmt":
                    ks = fn.kids(e)
                    out.append(("ret", self.val(fn, fr, ks[0], heap, vals) if ks else None, heap, ev)); stop = True; break
                if k == "Call" or k == "Construct":
                    res = self.docall(fn, fr, e, heap, vals, ev, depth)
                    if isinstance(res, list):
                        for kind, val, h, e2 in res:
                            if kind == "throw":
                                out.append(("throw", U, h, e2))
                                continue
                            v2 = dict(vals); v2[e] = U if val is None else val
                            work.append((b, ix, h, v2, e2))
                        stop = True; break
                    val, heap, ev = res
                    vals = dict(vals); vals[e] = val
                    continue
                val, heap = self.elem(fn, fr, e, heap, vals)
                vals = dict(vals); vals[e] = val
            if stop:
                continue
            if v.get("nr"):
                out.append(("throw", U, heap, ev)); continue
            if b == fn.exit:
                out.append(("ret", None, heap, ev)); continue
            succ, tc, tk = v["s"], v.get("tc"), v.get("tk")
            nxt = []
            if tc is not None and tc >= 0 and len(succ) == 2 and tk != "SwitchStmt":
                c = self.truth(self.val(fn, fr, tc, heap, vals))
                for t, s in ((1, succ[0]), (0, succ[1])):
                    if s is not None and (c is U or c == t):
                        v2 = vals
                        if c is U:
                            v2 = dict(vals); v2[tc] = t
                        nxt.append((s, heap, v2))
            elif tk == "SwitchStmt":
                c = self.val(fn, fr, tc, heap, vals)
                if c is U or not isinstance(c, int):
                    nxt = [(s, heap, vals) for s in succ if s is not None]
                else:
                    hit = dflt = None
                    own = set(j for j in fn.subtree(fn.x(v["ts"])["body"])) if v.get("ts") is not None else None
                    for s in succ:
                        if s is None:
                            continue
                        l, m = fn.blocks[s].get("lab"), False
                        if l is not None and (own is None or l in own):
                            while l is not None and l >= 0 and fn.k(l) in ("CaseStmt", "DefaultStmt"):
                                if fn.k(l) == "CaseStmt":
                                    m = True
                                    if self.case_hits(fn, l, c):
                                        hit = s
                                    l = fn.kids(l)[-1] if fn.kids(l) else None
                                else:
                                    dflt, m = s, True
                                    l = fn.kids(l)[0] if fn.kids(l) else None
                        if not m and dflt is None:
                            dflt = s
                    t = hit if hit is not None else dflt
                    if t is not None:
                        nxt = [(t, heap, vals)]
            else:
                nxt = [(s, heap, vals) for s in succ if s is not None]
            if not nxt:
                out.append(("ret", None, heap, ev))
            for s, h, v2 in nxt:
                if len(nxt) > 1 or fn.blocks[s].get("tc") is not None:
                    key = (s, ev, frozenset((k, self.key(x)) for k, x in h.items()), frozenset((k, self.key(x)) for k, x in v2.items() if isinstance(x, int)))
                    if key in seen:
                        continue
                    seen.add(key)
                work.append((s, 0, h, v2, ev))
        return out

    @staticmethod
    def key(x):
        if isinstance(x, dict):
            return ("dict",) + tuple(sorted((k, PEval.key(v)) for k, v in x.items()))
        try:
            hash(x)
            return (type(x).__name__, x)
        except TypeError:
            return id(x)

    def case_hits(self, fn, l, c):
        v = fn.cv(l)
        if v is None:
            return False
        hi = fn.x(l).get("hi")
        return v <= c <= hi if isinstance(hi, int) else v == c

    def truth(self, v):
        if v is U:
            return U
        if v is NULL:
            return 0
        if isinstance(v, (int, float)):
            return int(v != 0)
        if isinstance(v, (Ptr, Ref)):
            return 1
        return U

    # ---- variables
    def lkey(self, fn, fr, i, heap):
        """storage denoted by expression i"""
        i = fn.strip(i)
        k = fn.k(i)
        if k == "DeclRefExpr":
            d = fn.x(i)["d"]
            key = (fr, d)
            v = heap.get(key)
            if isinstance(v, Ref) and self.isref(fn, d):
                return v[0]
            return key
        if k == "MemberExpr":
            kid = fn.kids(i)[0] if fn.kids(i) else -1
            p = fn.path(i)
            if kid < 0 or fn.k(fn.strip(kid)) == "This" or p and p.startswith("this."):
                return ("this", (p or "").replace("this.", "", 1))
            base = self.lkey(fn, fr, kid, heap)
            d = fn.decl(i)
            return ("m", base, d["q"].split("::")[-1]) if base is not None and d else None
        if k == "UnaryOperator" and fn.x(i)["op"] == "*":
            v = self.val(fn, fr, fn.kids(i)[0], heap, {})
            return v[0] if isinstance(v, Ref) else None
        return None

    def isref(self, fn, d):
        dd = fn.tab.decls[d]
        t = fn.ty(dd["t"])
        return bool(t) and t["k"] in ("ref", "rref", "lref", "reference") or bool(t) and t.get("c", "").rstrip().endswith("&")

    def load(self, fn, key, heap):
        if key in heap:
            return heap[key]
        if key and key[0] == "m":
            b = self.load(fn, key[1], heap)
            if isinstance(b, dict):
                return b.get(key[2], U)
        return U

    def store(self, key, v, heap):
        if key is None:
            return heap
        heap = dict(heap)
        heap[key] = v
        if key[0] == "m":
            b = heap.get(key[1])
            if isinstance(b, dict):
                b = dict(b); b[key[2]] = v
                heap[key[1]] = b
        else:
            for k in [k for k in heap if k[0] == "m" and k[1] == key]:
                del heap[k]
        return heap

    # ---- statements with effects
    def elem(self, fn, fr, e, heap, vals):
        k, x = fn.k(e), fn.x(e)
        if k == "DeclStmt":
            for d, init in x["vars"]:
                if fn.tab.decls[d].get("k") == "var" and self.static_const(fn, d) is not None:
                    continue
                if init is None or init < 0:
                    heap = dict(heap); heap[(fr, d)] = U
                    continue
                v = self.val(fn, fr, init, heap, vals)
                if self.isref(fn, d):
                    lk = self.lkey(fn, fr, init, heap)
                    if lk is not None and lk in heap:
                        v = Ref(lk)
                heap = dict(heap); heap[(fr, d)] = v
            return U, heap
        if k == "BinaryOperator" and x["op"] == "=":
            l, r = fn.kids(e)
            v = self.val(fn, fr, r, heap, vals)
            return v, self.assign(fn, fr, l, v, heap, vals)
        if k == "CompoundAssign":
            l, r = fn.kids(e)
            op = x["op"].rstrip("=")
            v = self.arith(op, self.val(fn, fr, l, heap, vals), self.val(fn, fr, r, heap, vals), fn.type(e))
            return v, self.assign(fn, fr, l, v, heap, vals)
        if k == "UnaryOperator" and x["op"] in ("++", "--", "p++", "p--"):
            l = fn.kids(e)[0]
            o = self.val(fn, fr, l, heap, vals)
            v = self.arith("+" if "++" in x["op"] else "-", o, 1, fn.type(e))
            return (o if x["op"][0] == "p" else v), self.assign(fn, fr, l, v, heap, vals)
        v = dict(vals); v.pop(e, None)
        return self.val(fn, fr, e, heap, v), heap

    def assign(self, fn, fr, l, v, heap, vals):
        l = fn.strip(l)
        if fn.k(l) == "ArraySubscriptExpr":
            a, ix = fn.kids(l)
            key = self.lkey(fn, fr, a, heap)
            arr = self.load(fn, key, heap) if key is not None else U
            i = self.val(fn, fr, ix, heap, vals)
            if isinstance(arr, tuple) and not isinstance(arr, (Ptr, Ref)) and isinstance(i, int) and 0 <= i < len(arr):
                return self.store(key, arr[:i] + (v,) + arr[i + 1:], heap)
            return self.store(key, U, heap) if key is not None else heap
        key = self.lkey(fn, fr, l, heap)
        if key is None:
            return heap
        t = fn.type(l)
        return self.store(key, wrap(v, t), heap)

    # ---- expressions
    def val(self, fn, fr, i, heap, vals):
        if i is None or i < 0:
            return U
        if i in vals:
            return vals[i]
        k, t, ln, kids, x = fn.nodes[i]
        cv = fn.cv(i)
        if cv is not None and isinstance(cv, (int, float)):
            return cv
        if k in ("IntegerLiteral", "CharacterLiteral", "CXXBoolLiteralExpr"):
            return U
        if k == "FloatingLiteral":
            v = x.get("f", x.get("v"))
            try:
                return float(v)
            except (TypeError, ValueError):
                return U
        if k == "StringLiteral":
            return x["s"] if "s" in x else U
        if k in ("CXXNullPtrLiteralExpr", "GNUNullExpr"):
            return NULL
        if k in ("Paren", "ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXDefaultArgExpr", "CXXDefaultInitExpr", "CXXStdInitializerListExpr"):
            return self.val(fn, fr, kids[0], heap, vals) if kids else U
        if k == "Cast":
            v = self.val(fn, fr, kids[0], heap, vals)
            ck = x.get("ck")
            if ck in ("IntegralCast", "IntegralToBoolean"):
                return wrap(v, fn.type(i)) if isinstance(v, int) else U if ck == "IntegralToBoolean" and v is U else v
            if ck == "PointerToBoolean":
                return self.truth(v)
            if ck == "NullToPointer":
                return NULL
            if ck == "IntegralToFloating":
                return float(v) if isinstance(v, int) else U
            if ck == "FloatingToIntegral":
                return wrap(int(v), fn.type(i)) if isinstance(v, float) else U
            if ck == "ArrayToPointerDecay":
                if isinstance(v, tuple) and not isinstance(v, (Ptr, Ref)):
                    return Ptr(v, 0)
                return v
            return v
        if k == "DeclRefExpr":
            key = self.lkey(fn, fr, i, heap)
            if key in heap:
                return heap[key]
            return self.static_const(fn, x["d"]) or self.numconst(fn, x["d"])
        if k == "MemberExpr":
            key = self.lkey(fn, fr, i, heap)
            if key is not None and key in heap:
                return heap[key]
            if not kids or kids[0] < 0:
                return U
            b = self.val(fn, fr, kids[0], heap, vals)
            d = fn.decl(i)
            n = d["q"].split("::")[-1] if d else None
            if isinstance(b, Ptr):
                b = self.deref(b)
            if isinstance(b, dict):
                return b.get(n, U)
            if isinstance(b, tuple) and not isinstance(b, (Ptr, Ref)):
                return self.field(fn, d, b)
            return U
        if k == "This":
            return U
        if k == "ArraySubscriptExpr":
            a, ix = (self.val(fn, fr, y, heap, vals) for y in kids)
            return self.index(a, ix, fn.type(i))
        if k == "UnaryOperator":
            op = x["op"]
            if op == "&":
                key = self.lkey(fn, fr, kids[0], heap)
                if key is not None and key in heap:
                    return Ref(key)
                v = self.val(fn, fr, kids[0], heap, vals)
                return U
            v = self.val(fn, fr, kids[0], heap, vals)
            if op == "*":
                if isinstance(v, Ref):
                    return self.load(fn, v[0], heap)
                return self.deref(v)
            if op == "!":
                c = self.truth(v)
                return U if c is U else 1 - c
            if op == "-" and isinstance(v, (int, float)):
                return wrap(-v, fn.type(i))
            if op == "~" and isinstance(v, int):
                return wrap(~v, fn.type(i))
            if op == "+":
                return v
            return U
        if k == "BinaryOperator":
            op = x["op"]
            if op in ("&&", "||"):
                a = self.truth(self.val(fn, fr, kids[0], heap, vals))
                w = 1 if op == "||" else 0
                if a is not U and a == w:
                    return w
                b = self.truth(self.val(fn, fr, kids[1], heap, vals))
                if b is not U and b == w:
                    return w
                return U if a is U or b is U else 1 - w
            if op == ",":
                return self.val(fn, fr, kids[1], heap, vals)
            if op == "=":
                return self.val(fn, fr, kids[1], heap, vals)
            return self.arith(op, self.val(fn, fr, kids[0], heap, vals), self.val(fn, fr, kids[1], heap, vals), fn.type(i), fn, kids)
        if k == "ConditionalOperator":
            c = self.truth(self.val(fn, fr, kids[0], heap, vals))
            if c is U:
                a, b = self.val(fn, fr, kids[1], heap, vals), self.val(fn, fr, kids[2], heap, vals)
                return a if a is not U and type(a) == type(b) and a == b else U
            return self.val(fn, fr, kids[1 if c else 2], heap, vals)
        if k == "InitListExpr":
            r = tuple(self.val(fn, fr, y, heap, vals) for y in kids)
            return r
        if k in ("Construct", "Call"):
            # not an element of its own (no effects): value only
            r = self.pure(fn, fr, i, heap, vals)
            return r
        if k in ("ImplicitValueInitExpr", "CXXScalarValueInitExpr"):
            return 0 if fn.type(i) and canon(fn.type(i)) in WIDTH else U
        return U

    def field(self, fn, d, b):
        cls = d.get("q", "").rsplit("::", 1)[0] if d else None
        if d and d["q"].split("::")[-1] in ("first", "second"):
            j = 0 if d["q"].endswith("first") else 1
            return b[j] if j < len(b) else U
        r = self.prog.recs.get(d.get("cls") or cls) if d else None
        if r is None:
            ix = d.get("fi") if d else None
            return b[ix] if isinstance(ix, int) and ix < len(b) else U
        names = [f["n"] for f in r["fields"]]
        n = d["q"].split("::")[-1]
        return b[names.index(n)] if n in names and names.index(n) < len(b) else U

    def static_const(self, fn, d):
        dd = fn.tab.decls[d]
        if dd.get("k") not in ("var", "field", "member"):
            return None
        v = self.prog.vars.get(dd.get("u"))
        if v is None or "val" not in v:
            return None
        if dd["u"] not in self.glob:
            ok = v.get("const") or v.get("cx") or self.never_written(dd["u"])
            self.glob[dd["u"]] = literal(v["val"]) if ok else None
        r = self.glob[dd["u"]]
        return None if r is None or r is U else r

    def never_written(self, u):
        """a table without const that nothing assigns to"""
        if not hasattr(self.prog, "_written"):
            w = set()
            for f in self.prog.fns.values():
                for i, n in enumerate(f.nodes):
                    l = None
                    if n[0] == "BinaryOperator" and n[4]["op"] == "=" or n[0] == "CompoundAssign":
                        l = n[3][0]
                    elif n[0] == "UnaryOperator" and n[4]["op"] in ("++", "--", "p++", "p--", "&"):
                        l = n[3][0]
                    while l is not None and l >= 0:
                        if f.k(l) == "DeclRefExpr":
                            w.add(f.decl(l).get("u")); break
                        ks = f.kids(l)
                        l = ks[0] if ks and f.k(l) in ("Cast", "ArraySubscriptExpr", "MemberExpr", "UnaryOperator") else None
            self.prog._written = w
        return u not in self.prog._written

    def numconst(self, fn, d):
        v = self.static_const(fn, d)
        return U if v is None else v

    def deref(self, p):
        if isinstance(p, Ptr):
            return self.index(p[0], p[1], None)
        if isinstance(p, str):
            return self.index(p, 0, None)
        return U

    def index(self, a, ix, t):
        if isinstance(a, Ptr):
            a, ix = a[0], ix + a[1] if isinstance(ix, int) else U
        if not isinstance(ix, int) or ix < 0:
            return U
        if isinstance(a, str):
            b = a.encode("utf-8", "surrogateescape")
            v = b[ix] if ix < len(b) else 0 if ix == len(b) else U
            return v - 256 if isinstance(v, int) and v > 127 else v
        if isinstance(a, tuple) and not isinstance(a, Ref):
            return a[ix] if ix < len(a) else U
        return U

    def arith(self, op, a, b, t, fn=None, kids=None):
        if isinstance(a, str) and isinstance(b, int) and op in ("+", "-"):
            a = Ptr(a, 0)
        if isinstance(a, Ptr):
            if isinstance(b, int) and op in ("+", "-"):
                return Ptr(a[0], a[1] + (b if op == "+" else -b))
            if isinstance(b, Ptr) and a[0] == b[0]:
                return {"-": a[1] - b[1], "==": int(a[1] == b[1]), "!=": int(a[1] != b[1]), "<": int(a[1] < b[1]), ">": int(a[1] > b[1]), "<=": int(a[1] <= b[1]),
                        ">=": int(a[1] >= b[1])}.get(op, U)
        for p, q in ((a, b), (b, a)):
            if p is NULL and op in ("==", "!="):
                if q is NULL:
                    return int(op == "==")
                if isinstance(q, (Ptr, Ref, str, tuple)):
                    return int(op == "!=")
        if isinstance(a, str) or isinstance(b, str):
            return self.text_cmp(op, a, b)
        if isinstance(a, Ref) and isinstance(b, Ref) and op in ("==", "!="):
            return int((a == b) == (op == "=="))
        if a is U or b is U:
            z = 0 if op in ("*", "&") else None
            if z is not None and (type(a) is int and a == 0 or type(b) is int and b == 0):
                return 0
            return U
        if not isinstance(a, (int, float)) or not isinstance(b, (int, float)):
            return U
        c = {"==": lambda: a == b, "!=": lambda: a != b, "<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b}.get(op)
        if c:
            if fn is not None and isinstance(a, int) and isinstance(b, int):
                ta = fn.type(kids[0])
                if ta and canon(ta) in WIDTH:
                    return int(c())
            return int(c())
        try:
            if isinstance(a, float) or isinstance(b, float):
                r = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b}.get(op)
                return r() if r else U
            r = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b,
                 "<<": lambda: a << b if 0 <= b < 64 else U, ">>": lambda: a >> b if 0 <= b < 64 else U,
                 "/": lambda: (abs(a) // abs(b)) * (1 if (a < 0) == (b < 0) else -1), "%": lambda: abs(a) % abs(b) * (1 if a >= 0 else -1)}.get(op)
            return wrap(r(), t) if r else U
        except (ZeroDivisionError, TypeError):
            return U

    def text_cmp(self, op, a, b):
        if isinstance(a, str) and isinstance(b, str):
            x, y = a.encode("utf-8", "surrogateescape"), b.encode("utf-8", "surrogateescape")
            return {"==": int(x == y), "!=": int(x != y), "<": int(x < y), ">": int(x > y), "<=": int(x <= y), ">=": int(x >= y)}.get(op, a + b if op == "+" else U)
        if self.subject is not None and (a is U or b is U) and op in ("==", "!="):
            lit = a if isinstance(a, str) else b
            return int((lit == self.subject) == (op == "=="))
        return U

    # ---- calls
    def operands(self, fn, i):
        o = fn.obj(i)
        return ([o] if o is not None and o >= 0 and fn.k(i) == "Call" else []) + list(fn.args(i))

    def pure(self, fn, fr, i, heap, vals):
        r = self.model(fn, fr, i, heap, vals)
        return U if r is None else r[0]

    def docall(self, fn, fr, e, heap, vals, ev, depth):
        r = self.model(fn, fr, e, heap, vals)
        f = fn.callee(e)
        if self.hook and f:
            ops = [self.val(fn, fr, a, heap, vals) for a in self.operands(fn, e)]
            x = self.hook(fn, e, f, ops)
            if x is not None:
                ev = ev + (x,)
        if r is not None:
            return r[0], r[1], ev
        if f is None:
            return U, self.havoc(fn, fr, e, heap), ev
        g = self.prog.fns.get(f["u"])
        if g is not None and g.d.get("nr"):
            return [("throw", U, heap, ev)]
        if g is not None and g.entry is not None and depth < self.depth:
            virt = f.get("virt") or f.get("v")
            if not (virt and len(self.prog.targets(fn, e)) > 1) and (self.inline is None or self.inline(g)):
                o = fn.obj(e)
                on_this = o is not None and o >= 0 and fn.k(fn.strip(o)) == "This"
                args, refs = [], False
                for a, p in zip(fn.args(e), g.params):
                    v = self.val(fn, fr, a, heap, vals)
                    pt = g.ty(p[2]) if isinstance(p[2], int) else p[2]
                    if self.isref(g, p[0]):
                        k = self.lkey(fn, fr, a, heap)
                        if k is not None and k in heap:
                            v = Ref(k)
                            if not isinstance(heap[k], _U):
                                refs = True
                            refs = True
                    args.append(v)
                if on_this or refs or any(a is not U for a in args) or self.inline is not None:
                    th = None if on_this or o is None or o < 0 else {}
                    h = heap
                    saved = None
                    if not on_this:
                        saved = {k: v for k, v in heap.items() if k[0] == "this"}
                        h = {k: v for k, v in heap.items() if k[0] != "this"}
                        if o is not None and o >= 0 and fn.k(e) == "Call":
                            ov = self.val(fn, fr, o, heap, vals)
                            if isinstance(ov, dict):
                                for n, vv in ov.items():
                                    h[("this", n)] = vv
                    res = self.call(g, args, None, h, ev, depth + 1)
                    if saved is not None:
                        res = [(kd, vv, {**{k: x for k, x in hh.items() if k[0] != "this"}, **saved}, e2) for kd, vv, hh, e2 in res]
                    # drop the callee's frame and merge equal outcomes
                    uniq = {}
                    for kd, vv, hh, e2 in res:
                        hh = {k: x for k, x in hh.items() if k in heap or k[0] in ("this", "m")}
                        if isinstance(vv, Ref) and vv[0] not in hh:
                            vv = U
                        if isinstance(vv, Ref) and not (g.d.get("ret_ptr")):
                            vv = hh.get(vv[0], U)
                        kk = (kd, self.key(vv), frozenset((a, self.key(b)) for a, b in hh.items()), e2)
                        uniq[kk] = (kd, vv, hh, e2)
                    return list(uniq.values())
        return U, self.havoc(fn, fr, e, heap), ev

    def havoc(self, fn, fr, e, heap):
        """forget what an unknown call may change: arguments passed by non-const reference or pointer, the object"""
        f = fn.callee(e)
        pt = [fn.ty(p) for p in f.get("p", [])] if f else []
        for j, a in enumerate(fn.args(e)):
            t = pt[j] if j < len(pt) else None
            c = (t or {}).get("c", "")
            if t is None or (c.rstrip().endswith(("&", "*")) and not c.startswith("const ")):
                v = fn.strip(a)
                if fn.k(v) == "UnaryOperator" and fn.x(v)["op"] == "&":
                    v = fn.kids(v)[0]
                key = self.lkey(fn, fr, v, heap)
                if key is not None and key in heap:
                    x = heap[key]
                    if isinstance(x, Ref):
                        key = x[0]
                    heap = self.store(key, U, heap)
        if f is not None and fn.k(e) == "Call" and not f.get("cm") and f.get("cls"):
            o = fn.obj(e)
            if o is not None and o >= 0:
                key = self.lkey(fn, fr, o, heap)
                if key is not None and key in heap:
                    heap = self.store(key, U, heap)
        return heap

    def model(self, fn, fr, e, heap, vals):
        """calls whose result is known without following them: (value, heap) or None"""
        f = fn.callee(e)
        k = fn.k(e)
        V = lambda i: self.val(fn, fr, i, heap, vals)
        if k == "Construct":
            a = fn.args(e)
            t = fn.type(e)
            n = (f or {}).get("q", "").split("::")[-2:] if f else []
            cls = n[0] if n else ""
            cls = cls.split("<")[0]
            if f and (f.get("cc") or f.get("mc")) and a:
                return V(a[0]), heap
            if cls in TEXT:
                if not a:
                    return "" if cls in ("basic_string", "basic_string_view", "charbuff_t", "charbuff") else U, heap
                v = V(a[0])
                if isinstance(v, Ptr) and isinstance(v[0], str):
                    v = v[0].encode("utf-8", "surrogateescape")[v[1]:].decode("utf-8", "surrogateescape")
                if len(a) >= 2:
                    w = V(a[1])
                    if isinstance(v, str) and isinstance(w, int) and fn.k(fn.strip(a[1])) != "CXXDefaultArgExpr":
                        ty = canon(fn.type(a[1]))
                        if ty in WIDTH and ty != "bool":
                            v = v.encode("utf-8", "surrogateescape")[:w].decode("utf-8", "surrogateescape")
                    elif isinstance(v, int) and isinstance(w, int):
                        return U, heap
                    elif w is U and len(a) >= 2 and fn.k(a[1]) != "CXXDefaultArgExpr":
                        return U, heap
                return (v if isinstance(v, str) else U if cls not in ("PdfObject", "PdfVariant", "nullable", "optional") else v), heap
            if cls == "pair" and len(a) == 2:
                return (V(a[0]), V(a[1])), heap
            if cls in ("vector", "initializer_list", "array", "unordered_map", "map", "set", "unordered_set"):
                if not a:
                    return (), heap
                v = V(a[0])
                if isinstance(v, tuple) and not isinstance(v, (Ptr, Ref)):
                    return v, heap
                return U, heap
            g = self.prog.fns.get(f["u"]) if f else None
            if g is not None and self.inline is not None and self.inline(g):
                return None
            if len(a) == 1:
                v = V(a[0])
                if isinstance(v, (int, float)) and not isinstance(v, bool):
                    pass
                return U, self.havoc(fn, fr, e, heap)
            return U, self.havoc(fn, fr, e, heap)
        if f is None:
            return None
        cv = fn.cv(e)
        if cv is not None:
            return cv, heap
        q = f["q"]
        n = q.split("::")[-1]
        op = fn.x(e).get("op") or f.get("oo")
        ops = self.operands(fn, e)
        if op in ("==", "!=", "<", ">", "<=", ">=") and len(ops) == 2:
            a, b = V(ops[0]), V(ops[1])
            if isinstance(a, (str, Ptr)) or isinstance(b, (str, Ptr)):
                if isinstance(a, str) or isinstance(b, str):
                    return self.text_cmp(op, self.txt(a), self.txt(b)), heap
                return self.arith(op, a, b, None), heap
            if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                return self.arith(op, a, b, None), heap
            g = self.prog.fns.get(f["u"])
            if g is None:
                return U, heap
            return None
        if op == "=" and len(ops) == 2 and self.value_like(fn, ops[0]):
            v = V(ops[1])
            return v, self.assign(fn, fr, ops[0], self.txt(v) if isinstance(v, Ptr) and isinstance(v[0], str) else v, heap, vals)
        if op in ("+", "+=") and len(ops) == 2:
            a, b = V(ops[0]), V(ops[1])
            if isinstance(a, str) or isinstance(b, str):
                if isinstance(a, int): a = self.chr(a)
                if isinstance(b, int): b = self.chr(b)
                v = self.txt(a) + self.txt(b) if isinstance(self.txt(a), str) and isinstance(self.txt(b), str) else U
                return v, self.assign(fn, fr, ops[0], v, heap, vals) if op == "+=" else heap
            if isinstance(a, Ptr) and isinstance(b, int):
                v = self.arith("+", a, b, None)
                return v, self.assign(fn, fr, ops[0], v, heap, vals) if op == "+=" else heap
        if op in ("++", "--") and ops:
            a = V(ops[0])
            if isinstance(a, Ptr):
                v = self.arith("+" if op == "++" else "-", a, 1, None)
                return (a if len(ops) == 2 else v), self.assign(fn, fr, ops[0], v, heap, vals)
        if op in ("*", "->") and len(ops) == 1:
            a = V(ops[0])
            if isinstance(a, Ptr):
                return (a if op == "->" else self.deref(a)), heap
            if isinstance(a, (str, int)):
                return a, heap
        if op == "[]" and len(ops) == 2:
            a, b = V(ops[0]), V(ops[1])
            if self.is_map(fn, ops[0]):
                r = self.lookup(a, b)
                return (U if r is None else r[1]), heap
            if isinstance(a, (str, tuple)):
                return self.index(a, b, None), heap
        std = q.startswith("std::") or q.startswith("__gnu") or "::" not in q
        o = fn.obj(e)
        if o is not None and o >= 0:
            a = V(o)
            args = [V(x) for x in fn.args(e)]
            r = self.method(fn, fr, n, a, args, o, heap, vals, e)
            if r is not None:
                return r
        if n in ("strcmp", "memcmp", "strncmp", "strcasecmp", "compare") and std and o in (None, -1):
            a = [self.txt(V(x)) for x in fn.args(e)]
            if n != "strcmp" and len(a) > 2 and isinstance(a[2], int):
                a = [x[:a[2]] if isinstance(x, str) else x for x in a[:2]]
            if isinstance(a[0], str) and isinstance(a[1], str):
                return (a[0] > a[1]) - (a[0] < a[1]), heap
            r = self.text_cmp("!=", a[0], a[1]) if isinstance(a[0], str) or isinstance(a[1], str) else U
            return r, heap
        if n in ("strlen", "length") and std and fn.args(e):
            a = self.txt(V(fn.args(e)[0]))
            return (len(a.encode("utf-8", "surrogateescape")) if isinstance(a, str) else U), heap
        if n in ("size", "begin", "end", "cbegin", "cend", "move", "forward", "as_const") and std and len(fn.args(e)) == 1:
            a = V(fn.args(e)[0])
            if n in ("move", "forward", "as_const"):
                return a, heap
            if isinstance(a, (str, tuple)) and not isinstance(a, (Ptr, Ref)):
                return (len(a) if n == "size" else Ptr(a, 0) if "begin" in n else Ptr(a, len(a))), heap
            return U, heap
        if n in ("find", "find_if") and std and len(fn.args(e)) == 3:
            a, b, c = (V(x) for x in fn.args(e))
            if n == "find" and isinstance(a, Ptr) and isinstance(b, Ptr) and c is not U:
                for j in range(a[1], b[1]):
                    if self.index(a[0], j, None) == c:
                        return Ptr(a[0], j), heap
                return b, heap
            return U, heap
        if n == "move" or n == "forward":
            return V(fn.args(e)[0]), heap
        if n.startswith("operator\"\"") or n.startswith("operator\"\" "):
            return V(fn.args(e)[0]), heap
        if n in ("min", "max") and std and len(fn.args(e)) == 2:
            a, b = (V(x) for x in fn.args(e))
            if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                return (min if n == "min" else max)(a, b), heap
            return U, heap
        return None

    def chr(self, v):
        return bytes([v & 255]).decode("latin-1") if v & 255 < 128 else bytes([v & 255]).decode("utf-8", "surrogateescape")

    def txt(self, v):
        if isinstance(v, Ptr) and isinstance(v[0], str):
            return v[0].encode("utf-8", "surrogateescape")[v[1]:].decode("utf-8", "surrogateescape")
        return v

    def value_like(self, fn, i):
        t = fn.type(i)
        c = canon(t)
        return any(x in c for x in ("basic_string", "PdfName", "PdfString", "string_view", "nullable", "optional", "iterator", "PdfObject", "charbuff"))

    def is_map(self, fn, i):
        return "map<" in canon(fn.type(i)) or "Map" in canon(fn.type(i))

    def lookup(self, m, key):
        if not isinstance(m, tuple) or isinstance(m, (Ptr, Ref)):
            return None
        for p in m:
            if isinstance(p, tuple) and len(p) == 2 and type(p[0]) == type(key) and p[0] == key:
                return p
        return None

    def method(self, fn, fr, n, a, args, o, heap, vals, e):
        if n in ("begin", "cbegin", "end", "cend") and isinstance(a, (str, tuple)) and not isinstance(a, (Ptr, Ref)):
            return Ptr(a, 0 if "begin" in n else len(a)), heap
        if n in ("size", "length") and isinstance(a, (str, tuple)) and not isinstance(a, (Ptr, Ref)):
            return (len(a.encode("utf-8", "surrogateescape")) if isinstance(a, str) else len(a)), heap
        if n == "empty" and isinstance(a, (str, tuple)) and not isinstance(a, (Ptr, Ref)):
            return int(len(a) == 0), heap
        if n == "find" and isinstance(a, tuple) and not isinstance(a, (Ptr, Ref)) and args and args[0] is not U:
            for j, p in enumerate(a):
                kk = p[0] if isinstance(p, tuple) and p else p
                if type(kk) == type(args[0]) and kk == args[0]:
                    return Ptr(a, j), heap
            return Ptr(a, len(a)), heap
        if n == "at" and isinstance(a, tuple) and args and args[0] is not U:
            if self.is_map(fn, o):
                r = self.lookup(a, args[0])
                return (U if r is None else r[1]), heap
            return self.index(a, args[0], None), heap
        if isinstance(a, str):
            if n in ("data", "c_str", "GetString", "GetRawData", "GetName", "GetNameString", "str", "value", "ToString"):
                return a, heap
            if n in ("back", "front"):
                return self.index(a, len(a) - 1 if n == "back" else 0, None), heap
            if n == "at" and args:
                return self.index(a, args[0], None), heap
            if n == "substr" and args and all(isinstance(x, int) for x in args):
                lo = args[0]
                hi = lo + args[1] if len(args) > 1 and 0 <= args[1] < 1 << 40 else len(a)
                return a[lo:hi], heap
            if n == "find" and args and isinstance(args[0], (str, int)):
                s = args[0] if isinstance(args[0], str) else self.chr(args[0])
                r = a.find(s)
                return (r if r >= 0 else (1 << 64) - 1), heap
            if n == "compare" and len(args) == 1 and isinstance(self.txt(args[0]), str):
                b = self.txt(args[0])
                return (a > b) - (a < b), heap
            if n in ("IsNull", "IsEmpty"):
                return (int(a == "") if n == "IsEmpty" else U), heap
            if n in ("IsName", "IsString", "IsNameOrString"):
                return 1 if n != "IsString" else U, heap
        if n in ("push_back", "append", "assign", "clear") and (isinstance(a, str) or n in ("assign", "clear")):
            v = U
            if n == "clear":
                v = "" if isinstance(a, str) or "string" in canon(fn.type(o)) else () if isinstance(a, tuple) else U
            elif n == "push_back" and isinstance(args[0], int):
                v = a + self.chr(args[0])
            elif n == "append" and len(args) == 1 and isinstance(self.txt(args[0]), str):
                v = a + self.txt(args[0])
            elif n == "assign" and len(args) == 1 and isinstance(self.txt(args[0]), str):
                v = self.txt(args[0])
            return v, self.assign(fn, fr, o, v, heap, vals)
        return None
