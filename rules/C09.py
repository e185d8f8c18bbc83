"""C09: copies, moves, assignments and comparisons cover the whole value."""
from boolfn import *
from proto import *
from model import AnalysisError

ASSUMPTIONS = [
    "Comparison operators of the standard library and of scalar types are equalities/orders of the values they compare; terms that are spelled by the same access path denote the same value within one comparison.",
    "A call that gets the source (or something read from it) together with a member transfers that member; what a transferred sub-value contains is the business of its own copy operations, which are checked themselves when written by hand.",
]
# members that identify a particular instance and are not part of its value: never copied
IDENTITY = {
    "mm::PdfObject": {"m_Document", "m_Parent", "m_IndirectReference", "m_IsDirty", "m_IsDelayedLoadDone", "m_IsDelayedLoadStreamDone"},
    "mm::PdfDataContainer": {"m_Owner", "m_IsImmutable"},
    "mm::PdfObjectStream": {"m_Parent", "m_locked"},
    "mm::PdfDocument": {"m_Metadata", "m_FontManager", "m_Trailer", "m_Catalog", "m_Info", "m_Pages", "m_AcroForm", "m_Outlines", "m_NameTree"},   # rebuilt from the trailer
    "mm::PdfMemDocument": {"m_device"},
    "mm::AESCryptoEngine": set(),
}
ENGINES = {"m_aes", "m_rc4"}     # cipher engines of the encryption classes: own state
# not part of what is compared: "we don't check owner", and the spelling of a string
NOT_COMPARED = {
    "mm::PdfDataContainer": {"m_Owner"},
    "mm::PdfString": {"m_isHex"},
    "mm::PdfName": set(),
    "mm::PdfObject": {"m_Parent", "m_IsDirty", "m_IsDelayedLoadDone", "m_IsDelayedLoadStreamDone", "m_Stream"},
}
# members compared only in some states, (class, member): atom which, with the given value, makes it irrelevant
IRRELEVANT = {
    ("mm::nullable", "m_value"): lambda a, v: not v and "m_hasValue" in str(a),
    ("mm::PdfVariant", "m_Data"): lambda a, v: v and a[0] == "eq" and a[1].endswith("m_DataType") and a[2] in ("#8", "#0"),
    ("mm::PdfObject", "m_Variant"): lambda a, v: not v and "m_IndirectReference" in a[1] and a[2] == "#0",      # indirect objects are compared by identity
    ("mm::PdfObject", "m_Document"): lambda a, v: v and "m_IndirectReference" in a[1] and a[2] == "#0",
    ("mm::PdfObject", "m_IndirectReference"): lambda a, v: v and "m_IndirectReference" in a[1] and a[2] == "#0",
}
# classes whose values can contain a value of the same class
NESTING = {"mm::PdfArray", "mm::PdfDictionary", "mm::PdfVariant", "mm::PdfObject"}
VALUE_DELETES = {"mm::PdfVariant"}


def rec_of(f, t):
    ty = f.ty(t)
    if ty and ty["k"] in ("ref", "rref"):
        ty = f.ty(ty["e"])
    return ty.get("r") if ty else None


def cls_of(f):
    return (f.cls or "").split("<")[0]


def fields(prog, c, bases=True):
    out = []
    r = prog.recs.get(c)
    if r:
        out += [(c, x["n"]) for x in r["fields"] if x["n"]]
    if bases:
        for b in prog.bases(c):
            if b != c and b in prog.recs:
                out += [(b, x["n"]) for x in prog.recs[b]["fields"] if x["n"]]
    return out


def identity(prog, c, n):
    return n in IDENTITY.get(c, ()) or n in ENGINES


class Normal(Must):
    """facts on paths that return normally"""
    def elem(self, s, e):
        if isinstance(e, int) and self.fn.k(e) == "Throw":
            return None
        return super().elem(s, e)


class Copy:
    """members that a copy operation certainly takes over from its source"""

    def __init__(self, prog):
        self.prog, self.memo = prog, {}

    def tainted(self, fn, srcs):
        """locals derived from the source"""
        out = set(srcs)
        ini = var_inits(fn)
        ch = True
        while ch:
            ch = False
            for d, es in ini.items():
                if d not in out and any(self.mentions(fn, e, out) for e in es):
                    out.add(d); ch = True
            for i, n in enumerate(fn.nodes):     # filled element by element
                if n[0] == "Call" and fn.obj(i) is not None and fn.obj(i) >= 0 and fn.callee(i) and fn.callee(i)["q"].split("::")[-1] in ("push_back", "emplace_back", "insert", "emplace", "try_emplace", "append", "assign"):
                    d = var_of(fn, fn.obj(i))
                    if d is not None and d not in out and any(self.mentions(fn, a, out) for a in fn.args(i)):
                        out.add(d); ch = True
        return out

    def mentions(self, fn, i, t):
        return i is not None and i >= 0 and any(fn.k(j) == "DeclRefExpr" and fn.x(j)["d"] in t for j in fn.subtree(i) if j >= 0)

    def member(self, fn, i):
        """member of *this an expression names (or selects inside of)"""
        p = fn.path(i)
        if p:
            m = re.match(r"[&*(]*this\.(\w+)", p)
            if m:
                return m.group(1)
        i = fn.strip(i)
        if i >= 0 and fn.k(i) == "DeclRefExpr" and isref(fn, fn.x(i)["d"]):
            ini = var_inits(fn).get(fn.x(i)["d"], [])
            for x in ini[:1]:
                x = fn.strip(x)
                if fn.k(x) == "Call" and isthis(fn, fn.obj(x)) and fn.callee(x) and fn.callee(x)["u"] in self.prog.fns:
                    return self.returned(self.prog.fns[fn.callee(x)["u"]])
                return self.member(fn, x) if fn.k(x) != "DeclRefExpr" else None
        if i >= 0 and fn.k(i) in ("ArraySubscriptExpr", "ArraySubscript", "UnaryOperator", "MemberExpr") and fn.kids(i):
            return self.member(fn, fn.kids(i)[0])
        if i >= 0 and fn.k(i) == "Call" and fn.obj(i) is not None and fn.obj(i) >= 0 and (fn.callee(i) or {}).get("oo") in ("[]", "*", "->"):
            return self.member(fn, fn.obj(i))
        return None

    def owner(self, c, n):
        for cc, m in fields(self.prog, c):
            if m == n:
                return cc
        return c

    def gen(self, fn, t, e):
        c = cls_of(fn)
        out = set()
        if isinstance(e, list):
            if e[0] == "init":
                n, node = e[1], e[2]
                if n:
                    if self.mentions(fn, node, t):
                        out.add((c, n))
                elif node >= 0:
                    out |= self.callee_facts(fn, node, t)
            return out
        k = fn.k(e)
        if k in ("BinaryOperator", "CompoundAssign") and fn.x(e).get("op", "").endswith("="):
            a, b = fn.kids(e)
            m = self.member(fn, a)
            if m and self.mentions(fn, b, t):
                out.add((self.owner(c, m), m))
            elif m and self.governed(fn, e, m, t):
                out.add((self.owner(c, m), m))
        elif k in ("Call", "Construct"):
            ops = ([fn.obj(e)] if k == "Call" and fn.obj(e) is not None and fn.obj(e) >= 0 else []) + fn.args(e)
            f = fn.callee(e)
            if any(self.mentions(fn, a, t) for a in ops):
                for a in ops:
                    m = self.member(fn, a)
                    g = f and self.prog.fns.get(f["u"])
                    ro = g is not None and (g.d.get("cm") and a == ops[0]) or (f or {}).get("oo") in ("==", "!=", "<", ">")
                    if m and not ro:
                        out.add((self.owner(c, m), m))
                out |= self.callee_facts(fn, e, t)
            elif ops and f and (f.get("oo") == "=" or f["q"].split("::")[-1] in ("reset", "clear")):
                m = self.member(fn, ops[0])
                if m and self.governed(fn, e, m, t):
                    out.add((self.owner(c, m), m))
        return out

    def governed(self, fn, e, m, t):
        """assigned a fixed value because of the state of the same member of the source"""
        return any(self.mentions(fn, cc, t) and any(fn.k(j) == "MemberExpr" and fn.decl(j)["q"].split("::")[-1] == m for j in fn.subtree(cc) if j >= 0) for cc, tr in conds_at(fn, e))

    def loops(self, g, t):
        """members filled by loops that run over the source: condition -> members"""
        out = {}
        for h, v in g.blocks.items():
            if v.get("tk") not in ("CXXForRangeStmt", "ForStmt", "WhileStmt", "DoStmt") or v.get("tc") is None or v["tc"] < 0 or not self.mentions(g, v["tc"], t):
                continue
            body, work = set(), [v["s"][0]] if v["s"] else []
            while work:
                b = work.pop()
                if b is None or b in body or b == h or b not in g.blocks:
                    continue
                body.add(b); work += g.blocks[b]["s"]
            f = set()
            for b in body:
                for e in g.blocks[b]["e"]:
                    if isinstance(e, int):
                        f |= self.gen(g, t, e)
            out[v["tc"]] = out[g.strip(v["tc"])] = f
        return out

    def returned(self, g):
        """member of *this a member function returns (a reference to what is in)"""
        r = set()
        for i, n in enumerate(g.nodes):
            if n[0] == "ReturnStmt" and g.kids(i):
                p = re.match(r"[&*(]*this\.(\w+)", g.path(g.kids(i)[0]) or "")
                r.add(p.group(1) if p else None)
        return r.pop() if len(r) == 1 else None

    def callee_facts(self, fn, e, t):
        f = fn.callee(e)
        g = f and self.prog.fns.get(f["u"])
        if f is None:
            return set()
        args = fn.args(e)
        ix = frozenset(i for i, a in enumerate(args) if self.mentions(fn, a, t))
        if fn.k(e) == "Call":
            if not isthis(fn, fn.obj(e)):
                return set()
        if not ix:
            return set()
        if g is None or g.entry is None or g.d.get("imp"):
            q = f["q"].rsplit("::", 1)
            if len(q) == 2 and (f.get("imp") or q[1] == q[0].split("::")[-1] or q[1] == "operator=") and q[0] in self.prog.recs and len(args) == 1:
                return {x for x in fields(self.prog, q[0])}       # implicit member-wise copy
            return set()
        if not g.cls or g.cls.split("<")[0] not in [cls_of(fn)] + list(self.prog.bases(cls_of(fn))):
            return set()
        return self.facts(g, ix)

    def facts(self, g, ix):
        key = (g.usr, ix)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = frozenset()
        srcs = {p[0] for i, p in enumerate(g.params) if i in ix}
        t = self.tainted(g, srcs)
        selfd = lambda fn, c, truth: self.same(fn, c, truth, srcs)
        every = frozenset(fields(self.prog, cls_of(g)))
        loops = self.loops(g, t)
        fl = Normal(g, lambda fn, e: self.gen(fn, t, e), edge=lambda fn, c, truth: every if selfd(fn, c, truth) else loops.get(c) if not truth and c in loops else self.absent(fn, c, truth, t))
        fl.run()
        r = fl.out_at_exit()
        self.memo[key] = frozenset(r or ())
        return self.memo[key]

    def may(self, g, ix):
        key = ("may", g.usr, ix)
        if key not in self.memo:
            self.memo[key] = frozenset()
            t = self.tainted(g, {p[0] for i, p in enumerate(g.params) if i in ix})
            out = set()
            for b in g.blocks.values():
                for e in b["e"]:
                    if isinstance(e, int) or e[0] == "init":
                        out |= self.gen(g, t, e)
            self.memo[key] = frozenset(out)
        return self.memo[key]

    def absent(self, fn, c, truth, t):
        """in a constructor: members the source turns out not to have (they start out empty)"""
        if not fn.d.get("ctor"):
            return None
        i = fn.strip(c)
        if fn.k(i) == "BinaryOperator" or fn.k(i) == "Call" and (fn.callee(i) or {}).get("oo") in ("==", "!="):
            op = fn.x(i).get("op") if fn.k(i) == "BinaryOperator" else fn.callee(i)["oo"]
            null = any("NullPtr" in fn.k(j) for j in fn.subtree(i) if j >= 0)
            if not (null and op in ("==", "!=") and truth == (op == "==")):
                return None
        elif truth:
            return None
        if not self.mentions(fn, i, t):
            return None
        return {(self.owner(cls_of(fn), n), n) for n in {fn.decl(j)["q"].split("::")[-1] for j in fn.subtree(i) if j >= 0 and fn.k(j) == "MemberExpr"} if n.startswith("m_")}

    def same(self, fn, c, truth, srcs):
        """the edge on which this and the source are the same object"""
        i = fn.strip(c)
        if fn.k(i) not in ("BinaryOperator",):
            return False
        a = [fn.path(x) or "" for x in fn.kids(i)]
        if not ("this" in a and any(re.match(r"&v(\d+):", x) and int(re.match(r"&v(\d+):", x).group(1)) in srcs for x in a)):
            return False
        return fn.x(i)["op"] == "==" and truth or fn.x(i)["op"] == "!=" and not truth


def field_tys(prog):
    out = {}
    for c, r in prog.recs.items():
        for x in r["fields"]:
            out[(c, x["n"])] = r["tab"].types[x["t"]]
    return out


def run(prog, ctx):
    R1 = ctx.rule("copies-all", "Every hand-written copy/move constructor and assignment transfers every member that belongs to the value, on every path that is not self-assignment.")
    R1b = ctx.rule("identity-kept", "Copy operations never take over the identity of the source (document, owner, object number, lock).")
    R2 = ctx.rule("compares-all", "Wherever == yields true every member of the value has been found equal (or irrelevant), and it yields false only where something compared differs.")
    R3 = ctx.rule("negation", "!= is the exact negation of == over the same operand types, for every outcome of the comparisons they are made of.")
    R4 = ctx.rule("symmetric", "== and != of operands of the same kind give the same result with the operands exchanged.")
    R5 = ctx.rule("self-assignment", "An assignment does not destroy or overwrite its own content before it has read all of the source, unless the source is known to be another object; where values nest, the source may also be inside the target.")
    R6 = ctx.rule("owned-pointer", "A class that deletes memory through its members when destroyed never copies them member by member implicitly; every kind of value it frees is one it clones.")
    cp = Copy(prog)
    copy_rules(prog, ctx, cp, R1, R1b)
    compare_rules(prog, ctx, R2, R3, R4)
    self_rules(prog, ctx, cp, R5)
    owned_rules(prog, ctx, R6)
    ctx.need(R1, 15); ctx.need(R2, 12); ctx.need(R3, 15); ctx.need(R4, 12); ctx.need(R5, 10); ctx.need(R6, 3)


def copy_ops(prog):
    for f in sorted(prog.fns.values(), key=lambda f: (f.file, f.line)):
        if f.entry is None or f.d.get("imp") or not f.cls or not f.params:
            continue
        c = cls_of(f)
        r = rec_of(f, f.params[0][2])
        r = (r or "").split("<")[0]
        if len(f.params) != 1 or f.d.get("st") or c == "mm::PdfEncrypt":    # (abstract: see the classes derived from it)
            continue
        if r == c and (f.d.get("cc") or f.d.get("mc") or f.name == "operator="):
            yield f, c
        elif f.d.get("ctor") and c in prog.derived("mm::PdfEncrypt") and r == "mm::PdfEncrypt":
            yield f, c


def copy_rules(prog, ctx, cp, R1, R1b):
    for f, c in copy_ops(prog):
        whole = frozenset({0})
        have = cp.facts(f, whole)
        may = cp.may(f, whole)
        missing = []
        for cc, n in fields(prog, c):
            if identity(prog, cc, n):
                continue
            if (cc, n) not in have:
                # a union member is copied according to the kind
                missing.append("%s::%s" % (cc.split("::")[-1], n))
        if c == "mm::PdfVariant" and f.d.get("cc"):
            missing = [m for m in missing if m != "PdfVariant::m_Data"]     # per kind: rule owned-pointer
        ctx.check(R1, not missing, f.sig(), ",".join(missing) or c, f.loc(), "does not take over %s on every path" % ", ".join(missing))
        bad = sorted(n for cc, n in may if n in IDENTITY.get(cc, ()) and cc in ("mm::PdfObject", "mm::PdfDataContainer", "mm::PdfObjectStream"))
        ctx.check(R1b, not bad, f.sig(), ",".join(bad) or c, f.loc(), "takes over the identity of the source: %s" % ", ".join(bad))


# ---------------------------------------------------------------- comparisons
def operands(f):
    """operand types"""
    ts = []
    if f.cls and not f.d.get("st"):
        ts.append(f.cls)
    for p in f.params:
        ty = f.ty(p[2])
        if ty["k"] in ("ref", "rref"):
            ty = f.ty(ty["e"])
        ts.append(re.sub(r"^const ", "", ty.get("c") or ty["s"]))
    return tuple(ts)


def compare_rules(prog, ctx, R2, R3, R4):
    ops = {}
    for f in prog.fns.values():
        if f.name in ("operator==", "operator!=") and f.entry is not None and not f.d.get("imp"):
            o = operands(f)
            if len(o) == 2 and "utf8" not in f.q:
                ops.setdefault((f.cls, o), {})[f.name[8:]] = f
    fty = field_tys(prog)
    for (cls, o), d in sorted(ops.items(), key=lambda x: str(x[0])):
        T = {}
        for n, f in d.items():
            try:
                T[n] = Ev(prog).function(f, ["LHS", "RHS"])
            except Unsup as e:
                ctx.notes.append("%s: not readable (%s)" % (f.sig(), e))
        if not T:
            continue
        any_f = d.get("==") or d["!="]
        where = any_f.q.rsplit("::", 1)[0] + "(%s, %s)" % o
        if len(T) == 2:
            bad = None
            for a, b, asg in product(T["=="], T["!="]):
                if a == b and a != "X" or (a == "X") != (b == "X"):
                    bad = asg; break
            ctx.check(R3, bad is None, where, "!=", d["!="].loc(), "== and != do not exclude each other when " + show(bad))
        other = ops.get((cls, (o[1], o[0])), {}) if cls is None else d if o[0] == o[1] else {}
        for n, t in T.items():
            if n not in other:
                continue
            bad = None
            try:
                u = swap(t if other is d else Ev(prog).function(other[n], ["LHS", "RHS"]), "LHS", "RHS")
            except Unsup:
                continue
            for a, b, asg in product(t, u):
                if a != b and "X" not in (a, b):
                    bad = asg; break
            ctx.check(R4, bad is None, where, n, d[n].loc(), "the result depends on the order of the operands when " + show(bad))
        if "==" in T and o[0].split("<")[0].split("::")[-1] == o[1].split("<")[0].split("::")[-1]:
            c = (cls or o[0]).split("<")[0]
            if "::Iterator" in (cls or "") or c.endswith("::iterator") or "Iterable" in c:
                continue
            coverage(prog, ctx, R2, where, c if c in prog.recs else o[0].split("<")[0], d["=="], T["=="], fty)


def show(asg):
    if not asg:
        return ""
    return ", ".join("%s%s" % ("" if v else "not ", {"eq": "%s == %s", "lt": "%s < %s", "p": "%s"}[a[0]] % a[1:]) for a, v in asg.items())[:300]


def leaves(T, asg=None):
    asg = asg or {}
    if isinstance(T, tuple):
        for v in (True, False):
            if T[1] in asg:
                if asg[T[1]] != v:
                    continue
                yield from leaves(T[2] if v else T[3], asg)
                continue
            s = dict(asg); s[T[1]] = v
            if consistent(s):
                yield from leaves(T[2] if v else T[3], s)
        return
    yield T, asg


def mems(term, side):
    return re.findall(r"\b%s\.(\w+)" % side, term)


def coverage(prog, ctx, R2, where, c, f, T, fty):
    fs = [(cc, n) for cc, n in fields(prog, c) if n not in NOT_COMPARED.get(cc, ()) and not (cc == "mm::PdfDataContainer")]
    arr, size = {}, {}
    for cc, n in fs:
        t = fty.get((cc, n))
        if t and t["k"] == "arr":
            m = re.search(r"(\w+) ?\[(\d+)\]", t["s"])
            arr[n] = int(m.group(2)) if m else None
            size[n] = arr[n] * {"double": 8, "float": 4, "char": 1, "int": 4, "unsigned": 4}.get(m.group(1), 0) if m else 0

    def ptr(n):
        for cc in {x for x, y in fs if y == n} | {c}:
            t = fty.get((cc, n))
            if t and (t["k"] == "ptr" or (t.get("r") or "").endswith(("_ptr",))):
                return True
        return False
    problem = None
    for v, asg in leaves(T):
        if v == "X":
            continue
        if any(a[0] == "eq" and val and {a[1], a[2]} == {"&LHS", "&RHS"} for a, val in asg.items()):
            if v is not True:
                problem = ("identity", "a value does not equal itself")
            continue
        if v is True:
            for cc, n in fs:
                irr = IRRELEVANT.get((c, n))
                if irr and any(irr(a, val) for a, val in asg.items()):
                    continue
                eqs = [a for a, val in asg.items() if val and a[0] == "eq" and n in mems(a[1] + " " + a[2], "LHS") and n in mems(a[1] + " " + a[2], "RHS")]
                if arr.get(n) and eqs:
                    ixs = {m for a in eqs for m in re.findall(r"%s\[#(\d+)\]" % n, a[1])}
                    whole = any("%s[" % n not in a[1] and ("{" not in a[1] or a[1].endswith("{%d}" % size[n])) for a in eqs)
                    if not whole and len(ixs) < arr[n]:
                        problem = (n, "'%s' is not compared in full" % n)
                        continue
                both = {side: [a for a, val in asg.items() if val and a[0] == "eq" and a[2].startswith("#") and n in mems(a[1], side)] for side in ("LHS", "RHS")}
                if not eqs and not (both["LHS"] and both["RHS"] and {a[2] for a in both["LHS"]} & {a[2] for a in both["RHS"]}) and not both_pred(asg, n):
                    problem = (n, "values that differ only in '%s' compare equal (when %s)" % (n, show(asg)))
        elif v is False:
            def decisive(a, val):
                if a[0] == "eq" and not val:
                    if {a[1], a[2]} == {"LHS", "RHS"}:
                        return True
                    s = a[1] + " " + a[2]
                    l, r = mems(s, "LHS"), mems(s, "RHS")
                    if l and r:
                        # a different pointer does not make a different value
                        return not (a[1].count(".") == 1 and a[2].count(".") == 1 and not a[1].startswith("*") and ptr(l[0]) and c != "mm::PdfObject")
                    if (l or r) and a[2].startswith("#"):
                        side = "RHS" if l else "LHS"
                        return any(b[0] == "eq" and w and b[2] == a[2] and (l or r)[0] in mems(b[1], side) for b, w in asg.items())
                return False
            if not any(decisive(a, val) for a, val in asg.items()):
                if not (c == "mm::PdfVariant" and any(val and a[0] == "eq" and a[1].endswith("m_DataType") and a[2] == "#0" for a, val in asg.items())) and not opposite(asg):
                    problem = ("false", "equal values can compare different (when %s)" % show(asg))
    ctx.check(R2, problem is None, where, problem[0] if problem else "==", f.loc(), problem[1] if problem else "")


def both_pred(asg, n):
    """a predicate on the member is known for both sides and is the same"""
    for a, v in asg.items():
        if a[0] == "p" and n in mems(a[1], "LHS"):
            b = ("p", a[1].replace("LHS", "RHS"))
            if asg.get(b) == v:
                return True
    return False


def opposite(asg):
    for a, v in asg.items():
        if a[0] == "p":
            b = ("p", a[1].replace("LHS", "RHS"))
            if b != a and b in asg and asg[b] != v:
                return True
    return False


# ---------------------------------------------------------------- self assignment
def self_rules(prog, ctx, cp, R5):
    memo = {}

    def check(f, c, root, guarded, seen):
        """problem found in f whose first parameter is the source"""
        if (f.usr, guarded) in seen:
            return None
        seen.add((f.usr, guarded))
        src = f.params[0][0]
        t = {src} | {d for d, es in var_inits(f).items() if isref(f, d) and any(cp.mentions(f, e, {src}) for e in es)}
        events = []
        for b, blk in f.blocks.items():
            for ix, e in enumerate(blk["e"]):
                if isinstance(e, list) and e[0] == "dtor":
                    if e[1] in swapped_locals(f, t):
                        events.append((b, ix, None, "destroys", "dtor"))
                    continue
                if not isinstance(e, int):
                    continue
                ev = destroys(prog, cp, f, e, t)
                if ev:
                    events.append((b, ix, e, ev, None))
        for b, ix, e, how, kind in events:
            g = guarded or (e is not None and any(cp.same(f, cc, not tr, {src}) for cc, tr in conds_at(f, e) if not isinstance(tr, tuple)))
            reads_after = later_reads(f, b, ix, t, cp)
            at = e is not None and how == "self"
            if at and (c in NESTING and holds_objects(f.type(f.strip(f.obj(e) if f.obj(e) is not None and f.obj(e) >= 0 else f.args(e)[0]))) or not g and moved(f, e)):
                return e, "'%s' may hold the source while it is overwritten" % f.text(e)[:60]
            if reads_after and (c in NESTING or not g):
                return e, "the previous content is destroyed%s before the source has been read" % (" by '%s'" % f.text(e)[:60] if e is not None else "")
        for b, blk in f.blocks.items():
            for e in blk["e"]:
                if isinstance(e, int) and f.k(e) == "Call" and f.callee(e):
                    h = prog.fns.get(f.callee(e)["u"])
                    if h is not None and h.entry is not None and h is not f and cls_of(h) == c and len(h.params) == 1 and len(f.args(e)) == 1 and rec_of(h, h.params[0][2]) == c \
                       and not h.d.get("ctor") and isthis(f, f.obj(e)) and cp.mentions(f, f.args(e)[0], t):
                        g = guarded or any(cp.same(f, cc, not tr, {src}) for cc, tr in conds_at(f, e) if not isinstance(tr, tuple))
                        r = check(h, c, root, g, seen)
                        if r:
                            return (e, r[1] + " (in %s)" % h.name)
        return None
    for f, c in copy_ops(prog):
        if f.d.get("ctor"):
            continue
        r = check(f, c, f, False, set())
        ctx.check(R5, r is None, f.sig(), "source", f.loc(r[0]) if r and r[0] is not None else f.loc(), r[1] if r else "")


def isthis(f, o):
    return o is None or o < 0 or f.k(f.strip(o)) == "This" or f.path(o) in ("this", "*this")


def isref(f, d):
    t = f.tab.decls[d].get("t")
    ty = f.ty(t) if t is not None else None
    return ty is not None and ty["k"] in ("ref", "rref", "ptr")


def swapped_locals(f, t):
    """locals that received content of *this in exchange"""
    out = set()
    for i, n in enumerate(f.nodes):
        if n[0] == "Call" and (f.callee(i) or {}).get("q", "").split("<")[0].endswith("swap"):
            ops = ([f.obj(i)] if f.obj(i) is not None and f.obj(i) >= 0 else []) + f.args(i)
            if any((f.path(a) or "").startswith("this.") for a in ops):
                out |= {var_of(f, a) for a in ops if var_of(f, a) is not None} - t
    return out


def moved(f, e):
    return any(f.k(j) == "Call" and (f.callee(j) or {}).get("q", "").startswith("std::move") for j in f.subtree(e) if j >= 0)


def destroys(prog, cp, f, e, t):
    k = f.k(e)
    if k in ("Delete", "CXXDeleteExpr", "DeleteExpr"):
        if (f.path(f.kids(e)[0]) or "").lstrip("*&").startswith("this."):
            return "delete"
    if k == "Call":
        cal = f.callee(e)
        if not cal:
            return None
        ops = ([f.obj(e)] if f.obj(e) is not None and f.obj(e) >= 0 else []) + f.args(e)
        n = cal["q"].split("::")[-1]
        p0 = f.path(ops[0]) if ops else None
        if cal.get("oo") == "=" and p0 and p0.startswith("this.") and len(ops) == 2:
            ty = f.type(f.strip(ops[0]))
            if ty and ty["k"] == "rec":
                r = ty.get("r") or ""
                if cp.mentions(f, ops[1], t) and not is_temp_copy(f, ops[1], t):
                    # a container assigned from the source itself: the old elements die while the source is read
                    return "self" if r.startswith("std::") and (moved(f, e) or holds_objects(ty)) or r in NESTING and False else None
                return "assign"
        if n in ("clear", "reset", "pop_back") and p0 and p0.startswith("this."):
            return "clear"
        if n in ("clear", "Clear") and isthis(f, f.obj(e)) and not f.args(e) and f.cls and cal["q"].startswith(f.cls):
            return "clear"
        g = prog.fns.get(cal["u"])
        if g is not None and any(m[0] in ("Delete", "CXXDeleteExpr", "DeleteExpr") for m in g.nodes):
            for a in f.args(e):
                p = f.path(a)
                if p and p.startswith("this."):
                    return "delete"
    return None


def holds_objects(ty):
    return re.search(r"mm::PdfObject\b(?! ?\*)", ty.get("c") or ty["s"]) is not None


def is_temp_copy(f, a, t):
    """the operand is a complete copy made beforehand"""
    i = f.strip(a)
    return f.k(i) == "Construct" and False


def later_reads(f, b, ix, t, cp):
    """the source is still read after (b, ix)"""
    seen, work = set(), [(b, ix + 1)]
    while work:
        bb, k = work.pop()
        if (bb, k > 0) in seen:
            continue
        seen.add((bb, k > 0))
        for e in f.blocks[bb]["e"][k:]:
            if isinstance(e, int) and f.k(e) == "DeclRefExpr" and f.x(e)["d"] in t:
                # its address alone is not its content
                p = f.parent.get(e)
                if p is not None and f.k(p) == "UnaryOperator" and f.x(p)["op"] == "&":
                    continue
                return True
            if isinstance(e, int) and f.k(e) in ("Call", "Construct", "MemberExpr", "BinaryOperator", "CompoundAssign") and any(
                    f.k(j) == "DeclRefExpr" and f.x(j)["d"] in t and j not in f.where for j in f.subtree(e) if j >= 0):
                if not (f.k(e) == "BinaryOperator" and f.x(e)["op"] in ("==", "!=")):
                    return True
        for s in f.blocks[bb]["s"]:
            if s in f.blocks:
                work.append((s, 0))
    return False


# ---------------------------------------------------------------- owned pointers
def frees(prog, f, seen=None):
    """f (or what it calls on this) deletes something reached from a member"""
    seen = seen if seen is not None else set()
    if f is None or f.usr in seen or f.entry is None:
        return False
    seen.add(f.usr)
    for i, n in enumerate(f.nodes):
        if n[0] in ("Delete", "CXXDeleteExpr", "DeleteExpr") and "this." in (f.path(f.kids(i)[0]) or ""):
            return True
        if n[0] in ("Delete", "CXXDeleteExpr", "DeleteExpr") and any("m_" in (f.text(j) or "") for j in f.subtree(i) if j >= 0 and f.k(j) == "MemberExpr"):
            return True
        if n[0] == "Call" and f.callee(i):
            g = prog.fns.get(f.callee(i)["u"])
            if g is not None:
                if isthis(f, f.obj(i)) and g.cls == f.cls and frees(prog, g, seen):
                    return True
                if any(m[0] in ("Delete", "CXXDeleteExpr", "DeleteExpr") for m in g.nodes) and any((f.path(a) or "").startswith("this.") for a in f.args(i)):
                    return True
    return False


def owned_rules(prog, ctx, R6):
    for f in sorted(prog.fns.values(), key=lambda f: f.q):
        if not f.d.get("dtor") or not frees(prog, f):
            continue
        r = prog.recs.get(cls_of(f))
        if r is None:
            continue
        imp = [g for g in prog.fns.values() if g.cls == f.cls and g.d.get("imp") and (g.name == "operator=" or g.d.get("cc") or g.d.get("mc"))]
        ctx.check(R6, not imp, cls_of(f), "copies", f.loc(), "the destructor frees what a member points to, and the class is copied or assigned member by member")
    # every kind of value freed is cloned and vice versa
    freed = kinds(prog, [f for f in prog.fns.values() if f.cls == "mm::PdfVariant" and any(n[0] in ("Delete", "CXXDeleteExpr", "DeleteExpr") for n in f.nodes)], ("Delete", "CXXDeleteExpr", "DeleteExpr"))
    cl = [f for f in prog.fns.values() if f.cls == "mm::PdfVariant" and len(f.params) == 1 and rec_of(f, f.params[0][2]) == "mm::PdfVariant" and any(n[0] == "New" for n in f.nodes)]
    cloned = kinds(prog, cl, ("New",), src=True)
    if not freed or not cloned:
        raise AnalysisError("PdfVariant: freeing or cloning not found")
    for k in sorted(freed | cloned):
        ctx.check(R6, k in freed and k in cloned, "mm::PdfVariant", k, cl[0].loc(), "values of kind %s are %s" % (k, "freed but shared by copies" if k in freed else "copied but never freed"))


def kinds(prog, fs, what, src=False):
    names = dict((int(v), n) for n, v in prog.enum("mm::PdfDataType")["c"])
    out = set()

    def subject(f, i):
        i = f.strip(i)
        return i >= 0 and ((f.k(i) == "MemberExpr" and f.decl(i)["q"].endswith("::m_DataType")) or (f.k(i) == "Call" and (f.callee(i) or {}).get("q", "") == "mm::PdfVariant::GetDataType"))
    for f in fs:
        st = states_of(Values(f, subject, names))
        for i, n in enumerate(f.nodes):
            if n[0] in what and i in f.where:
                out |= {names[v] for v in st.get(f.where[i], ())}
    return out
