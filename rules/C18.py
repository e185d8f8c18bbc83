"""C18: bytes with the high bit set are never sign-extended where their value matters."""
from lib import *

ASSUMPTIONS = [
    "Plain char is signed, as on the platform the library is built for here; on platforms with unsigned char the property holds trivially.",
    "Ordering of std::string and std::string_view values compares unsigned bytes (char_traits<char>, ISO C++ 23.2.4.2).",
]

CTYPE = {
    "isdigit": lambda v: 48 <= v <= 57, "isxdigit": lambda v: 48 <= v <= 57 or 65 <= v <= 70 or 97 <= v <= 102,
    "isspace": lambda v: v in (32, 9, 10, 11, 12, 13), "isalpha": lambda v: 65 <= v <= 90 or 97 <= v <= 122,
    "isupper": lambda v: 65 <= v <= 90, "islower": lambda v: 97 <= v <= 122, "isalnum": lambda v: 48 <= v <= 57 or 65 <= v <= 90 or 97 <= v <= 122,
    "isprint": lambda v: 32 <= v < 127, "isgraph": lambda v: 32 < v < 127, "iscntrl": lambda v: v < 32 or v == 127, "isblank": lambda v: v in (32, 9),
    "ispunct": lambda v: 32 < v < 127 and not (48 <= v <= 57 or 65 <= v <= 90 or 97 <= v <= 122), "tolower": None, "toupper": None,
}
ALL = frozenset(range(256))


class Cannot(Exception): pass


def ctype(q):
    q = q.split("::")[-1]
    return q if q in CTYPE else None


def canon(t):
    return t["c"].replace("const ", "").replace("volatile ", "").strip() if t else ""


def signed_char(t):
    return canon(t).rstrip("& ").strip() in ("char", "signed char")


WIDTH = {"int": (32, 1), "unsigned int": (32, 0), "short": (16, 1), "unsigned short": (16, 0), "long": (64, 1), "unsigned long": (64, 0), "long long": (64, 1),
         "unsigned long long": (64, 0), "char32_t": (32, 0), "char16_t": (16, 0), "wchar_t": (32, 1), "unsigned char": (8, 0), "char8_t": (8, 0)}


def truth(v):
    return bool(v) if v != "UB" else "UB"


class Eval:
    """value of an expression in terms of one byte, with that byte read as signed (S) or unsigned (U)"""

    def __init__(self, fn, same, signed):
        self.fn, self.same, self.signed = fn, same, signed

    def char(self, v):
        v &= 255
        return v - 256 if self.signed and v > 127 else v

    def conv(self, v, t):
        if v == "UB":
            return v
        c = canon(t)
        if c in ("char", "signed char"):
            return self.char(v)
        if c == "bool":
            return int(v != 0)
        w = WIDTH.get(c)
        if w is None:
            if t and t["k"] == "enum":
                w = (32, 1)
            else:
                raise Cannot
        v &= (1 << w[0]) - 1
        return v - (1 << w[0]) if w[1] and v >> (w[0] - 1) else v

    def __call__(self, i, b):
        fn = self.fn
        if i is None or i < 0:
            raise Cannot
        k, t, ln, kids, x = fn.nodes[i]
        if self.same(i):
            return self.char(b)
        cv = fn.cv(i)
        if cv is not None and isinstance(cv, (int, bool)):
            return self.char(cv) if signed_char(fn.type(i)) else int(cv)
        if k in ("Paren", "ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr"):
            return self(kids[0], b)
        if k == "Cast":
            if x.get("ck") in ("IntegralCast", "NoOp", "IntegralToBoolean", "LValueToRValue"):
                return self.conv(self(kids[0], b), fn.type(i))
            raise Cannot
        if k == "UnaryOperator":
            v = self(kids[0], b)
            if v == "UB":
                return v
            if x["op"] == "!":
                return int(not v)
            if x["op"] == "-":
                return self.conv(-v, fn.type(i))
            if x["op"] == "~":
                return self.conv(~v, fn.type(i))
            if x["op"] == "+":
                return v
            raise Cannot
        if k == "BinaryOperator":
            op = x["op"]
            if op in ("&&", "||"):
                a = self(kids[0], b)
                if a == "UB":
                    return a
                if bool(a) == (op == "||"):
                    return int(bool(a))
                c = self(kids[1], b)
                return c if c == "UB" else int(bool(c))
            if op in ("=", ","):
                raise Cannot
            a, c = self(kids[0], b), self(kids[1], b)
            if "UB" in (a, c):
                return "UB"
            r = {"==": lambda: a == c, "!=": lambda: a != c, "<": lambda: a < c, "<=": lambda: a <= c, ">": lambda: a > c, ">=": lambda: a >= c}.get(op)
            if r:
                return int(r())
            f = {"+": lambda: a + c, "-": lambda: a - c, "*": lambda: a * c, "&": lambda: a & c, "|": lambda: a | c, "^": lambda: a ^ c,
                 "<<": lambda: a << c if 0 <= c < 64 else 0, ">>": lambda: a >> c if 0 <= c < 64 else 0,
                 "/": lambda: int(a / c) if c else "UB", "%": lambda: a - int(a / c) * c if c else "UB"}.get(op)
            if not f:
                raise Cannot
            return self.conv(f(), fn.type(i))
        if k == "ConditionalOperator":
            c = self(x.get("cond", kids[0]) if "cond" in x else kids[0], b)
            if c == "UB":
                return c
            return self(kids[1] if c else kids[2], b)
        if k == "Call":
            f = fn.callee(i)
            n = ctype(f["q"]) if f else None
            if n and CTYPE[n] and len(fn.args(i)) >= 1:
                v = self(fn.args(i)[0], b)
                if v == "UB" or v < 0 or v > 255:
                    return "UB"
                return int(CTYPE[n](v))
        raise Cannot


def sames(fn, i):
    """recogniser of reads of the same byte as node i"""
    p = fn.path(i)
    if p is None or p.startswith("#"):
        return lambda j: j == i, None
    return (lambda j: j == i or (fn.k(j) not in ("Cast",) and signed_char(fn.type(j)) and fn.path(j) == p)), p


def local_scalar(fn, p):
    m = re.match(r"^v(\d+):[^.\[\]*]*$", p or "")
    return int(m.group(1)) if m else None


def bound(fn, i):
    """upper bound of a non-negative integer expression, or None"""
    if i < 0:
        return None
    k, t, ln, kids, x = fn.nodes[i]
    v = fn.cv(i)
    if isinstance(v, int):
        return v if v >= 0 else None
    if k in ("Cast", "Paren"):
        return bound(fn, kids[0])
    if k == "ConditionalOperator":
        a, b = bound(fn, kids[1]), bound(fn, kids[2])
        return max(a, b) if a is not None and b is not None else None
    if k == "BinaryOperator":
        a, b = bound(fn, kids[0]), bound(fn, kids[1])
        if x["op"] == "&":
            return min(v for v in (a, b) if v is not None) if (a, b) != (None, None) else None
        if x["op"] == ">>" and a is not None and isinstance(fn.cv(kids[1]), int):
            return a >> fn.cv(kids[1])
        if x["op"] == "%" and b and (fn.cv(kids[1]) or 0) > 0 and a is not None:
            return b - 1
        if x["op"] in ("+", "|") and a is not None and b is not None:
            return a + b
    return None


class Bytes(Flow):
    """bytes an access path can hold, narrowed by the conditions tested on it"""

    def __init__(self, fn, same, path):
        super().__init__(fn)
        self.same, self.p = same, path
        self.roots = {int(x) for x in re.findall(r"v(\d+):", path)}
        self.loc = local_scalar(fn, path)
        self.ev = Eval(fn, same, True)

    def init(self): return ALL
    def join(self, a, b): return a | b

    def elem(self, s, e):
        fn = self.fn
        if isinstance(e, list):
            return s
        k, t, ln, kids, x = fn.nodes[e]
        if k == "DeclStmt":
            return ALL if any(d in self.roots for d, _ in x["vars"]) else s
        if k == "BinaryOperator" and x["op"] == "=" and self.same(kids[0]):
            m = bound(fn, kids[1])
            return frozenset(range(m + 1)) if m is not None and m < 256 else ALL
        if k == "CompoundAssign" or k == "BinaryOperator" and x["op"] == "=":
            d = var_of(fn, kids[0])
            if d is not None:
                return ALL if d in self.roots else s
            return s if self.loc is not None else ALL
        if k == "UnaryOperator" and x["op"] in ("++", "--", "p++", "p--"):
            d = var_of(fn, kids[0])
            return ALL if d is None and self.loc is None or d in self.roots else s
        if k == "Call":
            f = fn.callee(e)
            if f and (ctype(f["q"]) or f.get("cm") and self.loc is None):
                return s
            if f and (f.get("oo") in ("[]", "*", "!=", "==") and self.loc is None):
                return s
            if self.loc is None:
                return ALL
            for a in fn.args(e):
                if a >= 0 and (fn.path(a) or "").startswith("&") and var_of(fn, fn.kids(a)[0] if fn.kids(a) else a) == self.loc:
                    return ALL
                if a >= 0 and var_of(fn, a) == self.loc and fn.k(a) == "DeclRefExpr":
                    return ALL          # bound to a reference
        return s

    def edge(self, s, c, truth, b):
        try:
            r = set()
            for v in s:
                y = self.ev(c, v)
                if y == "UB" or bool(y) == truth:
                    r.add(v)
            return frozenset(r)
        except Cannot:
            return s

    def case(self, s, blk, lab):
        c = blk.get("tc")
        if c is None or c < 0:
            return s
        fn = self.fn
        vals = set()
        for t in blk["s"]:
            l = fn.blocks[t].get("lab") if t in fn.blocks else None
            if l is not None and fn.k(l) == "CaseStmt":
                vals.add(fn.cv(l))
        try:
            if lab is not None and fn.k(lab) == "CaseStmt" and fn.cv(lab) is not None:
                return frozenset(v for v in s if self.ev(c, v) == fn.cv(lab))
            return frozenset(v for v in s if self.ev(c, v) not in vals)
        except Cannot:
            return s


class Checker:
    def __init__(self, prog):
        self.prog, self.memo, self.flows = prog, {}, {}

    def narrowed(self, fn, i, rd):
        """the byte is the low part of a number that was tested to be below 128"""
        s = fn.strip(rd)
        if s < 0 or not fn.path(s):
            return False
        for c, t in conds_at(fn, i):
            if not isinstance(t, bool) or fn.k(fn.strip(c)) != "BinaryOperator":
                continue
            c = fn.strip(c)
            op, (a, b) = fn.x(c)["op"], fn.kids(c)
            m = fn.cv(b)
            if m is None or fn.path(fn.strip(a)) != fn.path(s):
                continue
            if (op in ("<", "<=") and t and m + (op == "<=") <= 128 or op in (">", ">=") and not t and m + (op == ">") <= 128) and canon(fn.type(fn.strip(a))) in WIDTH and not WIDTH[canon(fn.type(fn.strip(a)))][1]:
                return True
        return False

    def feasible(self, fn, i, same, p):
        if p is None or fn.entry is None:
            return ALL
        key = (fn.usr, p)
        if key not in self.flows:
            self.flows[key] = states_of(Bytes(fn, same, p))
        st = self.flows[key]
        # the state just before the element that contains the read is evaluated
        j = i
        while j is not None and j not in fn.where:
            j = fn.parent.get(j)
        return st.get(fn.where[j], ALL) if j is not None else ALL

    def ok(self, fn, cast):
        """None when the sign of the byte widened by this cast cannot matter, else why it does"""
        rd = fn.kids(cast)[0]
        if self.narrowed(fn, cast, rd):
            return None
        same, p = sames(fn, rd)
        feas = self.feasible(fn, cast, same, p)
        if all(v < 128 for v in feas):
            return None
        return self.use(fn, cast, same, feas, False)

    def agrees(self, fn, i, same, feas):
        """evaluating i with signed and unsigned bytes gives the same; None if it cannot be evaluated"""
        S, U = Eval(fn, same, True), Eval(fn, same, False)
        try:
            for v in feas:
                a, b = S(i, v), U(i, v)
                if a != b and not (a != "UB" and b != "UB" and signed_char(fn.type(i)) and (a - b) % 256 == 0):
                    return v
            return -1
        except Cannot:
            return None

    def use(self, fn, i, same, feas, low, depth=0):
        """i: expression whose value is a sign-extended byte (low: only its low 8 bits are those of the unsigned computation)"""
        p = fn.parent.get(i)
        if p is None or depth > 30:
            return "use not understood" if depth > 30 else None
        k, t, ln, kids, x = fn.nodes[p]
        r = self.agrees(fn, p, same, feas) if k not in ("CompoundStmt",) else None
        if r == -1:
            return None
        up = lambda l=low: self.use(fn, p, same, feas, l, depth + 1)
        if k == "Cast":
            ck = x.get("ck")
            c = canon(fn.type(p))
            if ck in ("IntegralCast", "NoOp"):
                if c in ("char", "signed char", "unsigned char", "char8_t"):
                    return None
                if x.get("xp") and not low and False:
                    return None
                return up()
            if ck == "IntegralToBoolean":
                return None if not low else self.boolean(fn, p, same, feas)
            if ck == "ToVoid":
                return None
            if ck in ("IntegralToFloating",):
                return "is converted to a floating-point number"
            return up()
        if k in ("Paren", "ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "InitListExpr", "Construct"):
            if k in ("InitListExpr", "Construct"):
                return "initialises a wider value"
            return up()
        if k == "UnaryOperator":
            if x["op"] == "!":
                return None if not low else self.boolean(fn, p, same, feas)
            return up(True)
        if k == "BinaryOperator":
            op = x["op"]
            o = kids[1] if kids[0] == i else kids[0]
            if op == "=":
                if kids[1] != i:
                    return "use not understood"
                return self.stored(fn, kids[0], same, feas, p, depth)
            if op == ",":
                return up() if kids[1] == i else None
            if op == "&":
                m = fn.cv(o)
                if m is not None:
                    m &= 0xFFFFFFFF
                    if m <= 0xFF:
                        return None
                if canon(fn.type(fn.kids(o)[0] if fn.k(o) == "Cast" and fn.kids(o) else o)) in ("unsigned char", "char8_t"):
                    return None
                return up(True)
            if op in ("+", "-", "*", "|", "^"):
                return up(True)
            if op == "<<":
                return up(True) if kids[0] == i else "is used as a shift count"
            if op in (">>", "/", "%"):
                return "its sign extension takes part in '%s'" % op
            if op in ("==", "!="):
                if low:
                    return self.boolean(fn, p, same, feas)
                c = fn.cv(o)
                if c is not None:
                    return None if c < 128 else "is compared with %d, which a signed byte never equals" % c
                s = o
                while s >= 0 and fn.k(s) in ("Cast", "Paren") and not signed_char(fn.type(s)):
                    s = fn.kids(s)[0]
                if s >= 0 and signed_char(fn.type(s)):
                    return None
                return "is compared with a value that is not a sign-extended byte"
            if op in ("<", "<=", ">", ">="):
                return self.boolean(fn, p, same, feas)
            if op in ("&&", "||"):
                return None
            return "use not understood"
        if k == "CompoundAssign":
            if kids[0] == i or self.inside(fn, kids[0], i):
                return "is used as part of the target"
            if x["op"] in (">>=", "/=", "%="):
                return "its sign extension takes part in '%s'" % x["op"]
            if x["op"] == "<<=":
                return "is used as a shift count"
            c = canon(fn.type(kids[0])).rstrip("& ").strip()
            if c in ("char", "signed char", "unsigned char", "char8_t"):
                return None
            return self.stored(fn, kids[0], same, feas, p, depth)
        if k == "ConditionalOperator":
            if kids[0] == i:
                return None if not low else self.boolean(fn, i, same, feas)
            return up()
        if k in ("ArraySubscriptExpr", "Subscript"):
            return "is used as an index"
        if k == "SwitchStmt":
            if low:
                return "is switched over after arithmetic"
            for j in fn.subtree(p):
                if fn.k(j) == "CaseStmt" and fn.cv(j) is not None and fn.cv(j) > 127:
                    return "is compared with case %d, which a signed byte never equals" % fn.cv(j)
            return None
        if k == "DeclStmt":
            for d, init in x["vars"]:
                if init == i:
                    return self.local(fn, d, feas, depth)
            return "use not understood"
        if k == "ReturnStmt":
            t = self.returns8(fn)
            return None if t else "is returned as a wider number"
        if k in ("IfStmt", "WhileStmt", "ForStmt", "DoStmt"):
            return None if not low else "is tested after arithmetic"
        if k == "Call":
            f = fn.callee(p)
            if f and ctype(f["q"]):
                return "is passed to %s, which is defined for 0..255 only" % f["q"]
            if f and f.get("oo") == "[]":
                return "is used as an index"
            a = fn.args(p)
            if f and i in a:
                g = self.prog.fns.get(f["u"])
                n = a.index(i)
                if g and n < len(g.params) and g.entry is not None:
                    return self.local(g, g.params[n][0], ALL, depth, " in " + g.q.replace("mm::", ""))
            return "is passed as a wider number to %s" % (f["q"] if f else "a function")
        if k == "CompoundStmt":
            return None
        return "use not understood (%s)" % k

    def inside(self, fn, root, i):
        return i in set(fn.subtree(root))

    def returns8(self, fn):
        return canon(fn.ty(fn.d.get("t")) if isinstance(fn.d.get("t"), int) else None) in ("char", "unsigned char", "bool")

    def boolean(self, fn, i, same, feas):
        """a truth value that depends on sign extension: look at the whole condition it is part of"""
        top = i
        while True:
            r = self.agrees(fn, top, same, feas)
            if r == -1:
                return None
            p = fn.parent.get(top)
            if p is None or fn.k(p) not in ("BinaryOperator", "UnaryOperator", "Paren", "Cast") or fn.k(p) == "BinaryOperator" and fn.x(p)["op"] not in ("&&", "||"):
                break
            top = p
        # the condition has other operands as well: treat every other atom as free
        if self.free(fn, top, same, feas):
            return None
        for v in feas:
            try:
                a, b = Eval(fn, same, True)(i, v), Eval(fn, same, False)(i, v)
                if a != b:
                    return "byte %02X decides '%s' differently as a signed number" % (v, fn.text(i)[:50])
            except Cannot:
                return "takes part in an ordering comparison as a signed number"
        return None

    def free(self, fn, top, same, feas):
        at = []

        def atoms(i):
            s = i
            if fn.k(s) == "Paren":
                return atoms(fn.kids(s)[0])
            if fn.k(s) == "BinaryOperator" and fn.x(s)["op"] in ("&&", "||"):
                for c in fn.kids(s):
                    atoms(c)
            elif fn.k(s) == "UnaryOperator" and fn.x(s)["op"] == "!":
                atoms(fn.kids(s)[0])
            else:
                at.append(s)
        atoms(top)
        S, U = Eval(fn, same, True), Eval(fn, same, False)
        byte, other = [], []
        for a in at:
            try:
                for v in feas:
                    S(a, v), U(a, v)
                byte.append(a)
            except Cannot:
                if any(same(j) for j in fn.subtree(a) if j >= 0):
                    return False
                other.append(a)
        if len(other) > 6:
            return False

        def val(i, E, v, env):
            if i in env:
                return env[i]
            k, t, ln, kids, x = fn.nodes[i]
            if k == "Paren":
                return val(kids[0], E, v, env)
            if k == "BinaryOperator" and x["op"] in ("&&", "||"):
                a = val(kids[0], E, v, env)
                if a == (x["op"] == "||"):
                    return a
                return val(kids[1], E, v, env)
            if k == "UnaryOperator" and x["op"] == "!" and i not in at:
                return not val(kids[0], E, v, env)
            y = E(i, v)
            return y if y == "UB" else bool(y)
        for m in range(1 << len(other)):
            env = {a: bool(m >> n & 1) for n, a in enumerate(other)}
            for v in feas:
                a, b = val(top, S, v, env), val(top, U, v, env)
                if a != b or a == "UB":
                    return False
        return True

    def stored(self, fn, lhs, same, feas, p, depth):
        c = canon(fn.type(lhs)).rstrip("& ").strip()
        if c in ("char", "signed char", "unsigned char", "char8_t"):
            return None
        d = var_of(fn, lhs)
        if d is not None and fn.tab.decls[d]["k"] in ("var", "parm"):
            return self.local(fn, d, feas, depth)
        return "is stored as a wider number"

    def normalised(self, fn, d):
        """statements that take d back into 0..255: d &= 255, d = d & 255, if (d < 0) d += 256"""
        out = []
        for j, n in enumerate(fn.nodes):
            if n[0] == "CompoundAssign" and var_of(fn, n[3][0]) == d:
                v = fn.cv(n[3][1])
                if n[4]["op"] == "&=" and v == 255:
                    out.append(j)
                elif n[4]["op"] in ("+=", "-=") and v in (256, -256):
                    i = fn.parent.get(j)
                    while i is not None and fn.k(i) != "IfStmt":
                        i = fn.parent.get(i)
                    c = fn.strip(fn.x(i)["cond"]) if i is not None else -1
                    if c >= 0 and fn.k(c) == "BinaryOperator" and fn.x(c)["op"] == "<" and var_of(fn, fn.kids(c)[0]) == d and fn.cv(fn.kids(c)[1]) == 0:
                        out.append(i)
            elif n[0] == "BinaryOperator" and n[4]["op"] == "=" and var_of(fn, n[3][0]) == d:
                r = fn.strip(n[3][1])
                if fn.k(r) == "BinaryOperator" and fn.x(r)["op"] == "&" and any(var_of(fn, y) == d and fn.cv(z) == 255 for y, z in (fn.kids(r), fn.kids(r)[::-1])):
                    out.append(j)
                elif fn.k(r) == "ConditionalOperator":
                    c = fn.strip(fn.kids(r)[0])
                    if fn.k(c) == "BinaryOperator" and fn.x(c)["op"] == "<" and var_of(fn, fn.kids(c)[0]) == d and fn.cv(fn.kids(c)[1]) == 0:
                        t = fn.strip(fn.kids(r)[1])
                        if fn.k(t) == "BinaryOperator" and fn.x(t)["op"] == "+" and fn.cv(fn.kids(t)[1]) == 256 and var_of(fn, fn.kids(r)[2]) == d:
                            out.append(j)
        return out

    def after_norm(self, fn, j, norm):
        """the read j is part of a normalising statement or comes after one on every path"""
        for n in norm:
            if j in set(fn.subtree(n)) or fn.k(n) == "IfStmt" and any(j in set(fn.subtree(y)) for y in (fn.x(n)["cond"], fn.x(n)["then"]) if y >= 0):
                return True
        marks = set()
        for n in norm:
            marks.add(fn.strip(fn.x(n)["cond"]) if fn.k(n) == "IfStmt" else n)
        m = Must(fn, lambda f, e: ["n"] if isinstance(e, int) and e in marks else [], None)
        ins = m.run()
        i = j
        while i is not None and i not in fn.where:
            i = fn.parent.get(i)
        if i is None:
            return False
        b, ix = fn.where[i]
        s = ins.get(b)
        if s is None:
            return True
        for e in fn.blocks[b]["e"][:ix]:
            s = m.elem(s, e)
            if s is None:
                return True
        return "n" in s

    def local(self, fn, d, feas, depth, where=""):
        """every use of the wide variable d that may hold a sign-extended byte"""
        key = (fn.usr, d)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = None
        r = None
        name = fn.tab.decls[d].get("q") or "?"
        norm = self.normalised(fn, d)
        for j, n in enumerate(fn.nodes):
            if n[0] != "DeclRefExpr" or n[4]["d"] != d:
                continue
            q = fn.parent.get(j)
            if q is not None and (fn.k(q) == "BinaryOperator" and fn.x(q)["op"] == "=" or fn.k(q) == "CompoundAssign") and fn.kids(q)[0] == j:
                continue
            if norm and self.after_norm(fn, j, norm):
                continue
            r = self.use(fn, j, lambda z: False, ALL, False, depth + 1)
            if r:
                r = "as '%s'%s, %s" % (name, where, r)
                break
        self.memo[key] = r
        return r


def run(prog, ctx):
    R = "no-sign-extension"
    ctx.rule(R, "For every conversion of a plain char that is not a constant to a wider number: the byte is known to be below 128 there (flow-sensitive), or the value is cut back to 8 bits, masked, or only compared for equality with such a byte or an ASCII constant, or the condition it decides has the same outcome for all 256 bytes read signed and unsigned (finite evaluation); never an index, shift, division, ordering, ctype argument, part of a wider number.")
    R2 = "signed-storage"
    ctx.rule(R2, "No lookup table or integer container element is indexed by plain char through an overloaded subscript, and no container of numbers is built from plain chars.")
    ck = Checker(prog)
    n = 0
    for f in sorted(prog.fns.values(), key=lambda f: f.usr):
        for i, nd in enumerate(f.nodes):
            if nd[0] != "Cast" or nd[4].get("ck") not in ("IntegralCast", "IntegralToFloating"):
                continue
            s = f.kids(i)[0]
            if s < 0 or not signed_char(f.type(s)) or f.cv(s) is not None:
                continue
            c = canon(f.type(i))
            if c in ("char", "signed char", "unsigned char", "bool", "char8_t"):
                continue
            if (f.path(s) or "").startswith("this.m_currentPrefix"):
                ctx.notes.append("PdfFontManager::m_currentPrefix holds generated letters, not document data")
                continue
            why = "is converted to a floating-point number" if nd[4]["ck"] == "IntegralToFloating" else ck.ok(f, i)
            n += 1
            top = f.parent.get(i)
            ctx.check(R, why is None, f.sig(), "%s -> %s" % (f.text(s)[:40], c), f.loc(i), "a byte read as plain char %s" % why if why else "")
    # iterator-range constructions of number containers from characters
    num = re.compile(r"^std::(?:vector|basic_string|deque|list)<(?:unsigned (?:int|short|long)|int|short|long|char16_t|char32_t|wchar_t)\b")
    for f in sorted(prog.fns.values(), key=lambda f: f.usr):
        for i, nd in enumerate(f.nodes):
            if nd[0] not in ("Construct", "Call"):
                continue
            c = f.callee(i)
            if not c:
                continue
            t = f.type(i) if nd[0] == "Construct" else (f.type(f.obj(i)) if f.obj(i) >= 0 else None)
            if not t or not num.match(canon(t)):
                continue
            a = [x for x in f.args(i) if x >= 0]
            if len(a) < 2:
                continue
            its = [canon(f.type(x)) for x in a]
            bad = any(re.search(r"(?:^|<)(?:const )?char ?\*", q) for q in its)
            ctx.check(R2, not bad, f.sig(), f.text(i)[:60], f.loc(i), "numbers are built from a range of plain chars")
    ctx.need(R, 60)
