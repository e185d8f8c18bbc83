"""C17: definite initialisation of fields by every constructor and of locals before every read."""
from lib import *

ASSUMPTIONS = [
    "A function outside the library that takes a pointer or a non-const reference sets it, unless it is in the table of calls that leave their output alone when they fail (then it is set on the path where the call is known to have succeeded).",
    "Arrays are treated as a whole: the first store into an array, or passing it to a call, counts as initialising it.",
    "Unions are not tracked by member.",
]

SCALAR = ("int", "flt", "bool", "ptr", "enum")
# external functions that do not set their outputs on failure -> how success shows
#   'true': result converts to true; 'zero': result equals 0; 'ec': member ec equals errc()
COND = [(re.compile(r"^(?:TIFFGetField|TIFFReadRGBA\w+|png_get_(?!IHDR)\w+|FcPatternGet|FcConfigFilename)$"), "true"),
        (re.compile(r"^FcPatternGet\w*$"), "zero"),
        (re.compile(r"^(?:FT_Open_Face|FT_New_\w*Face|FT_Get_PS_Font_\w+|FT_Load_Sfnt_Table|FT_Init_FreeType|FT_Sfnt_Table_Info)$"), "zero"),
        (re.compile(r"^std::from_chars$"), "ec"),
        (re.compile(r"^(?:std::)?v?s?n?f?scanf(?:_s)?$"), "count")]
FULL = re.compile(r"^(?:std::)?(?:memset|memcpy|memmove|__builtin_memset|__builtin_memcpy|bzero)$")


def kindof(f, tid):
    t = f.ty(tid)
    return t["k"] if t else None


class DA(Flow):
    """definite assignment; facts: access paths that have a value, plus ('if', call, path) pending facts"""

    def __init__(self, fn, A):
        super().__init__(fn)
        self.A = A

    def init(self):
        return frozenset()

    def join(self, a, b):
        return a & b

    def elem(self, s, e):
        f, A = self.fn, self.A
        if isinstance(e, list):
            if e[0] == "init":
                if e[1]:
                    sub = A.uninit_of_expr(f, e[2])
                    if sub is None:
                        return s | {"this." + e[1]}
                    return s | {"this.%s" % e[1]} if not sub else s | {"this.%s.%s" % (e[1], x) for x in ()} 
                c = f.callee(e[2]) if e[2] >= 0 and f.k(e[2]) == "Construct" else None
                if c and c.get("cls") == f.cls:
                    g = A.p.fns.get(c["u"])
                    return s | (A.summary(g)[0] if g else frozenset()) | {"*ALL"} if g is None else s | frozenset(A.summary(g)[0])
            return s
        k = f.k(e)
        x = f.x(e)
        if k == "Throw":
            return None
        if k == "DeclStmt":
            g = set()
            for dd, init in x["vars"]:
                d = f.tab.decls[dd]
                if init is not None and init >= 0:
                    if A.uninit_of_expr(f, init):
                        continue
                    g.add("v%d:%s" % (dd, d["q"].split("::")[-1]))
                    t = f.ty(d.get("t")) or {}
                    if t.get("k") == "ref":       # a reference to it escapes
                        p = f.path(init)
                        if p: g.add(p.lstrip("&*"))
                    # result variable of a conditional call
                    j = f.strip(init)
                    if f.k(j) == "Call":
                        for z in s:
                            if isinstance(z, tuple) and z[0] == "if" and z[1] == j:
                                g.add(("ifv", "v%d:%s" % (dd, d["q"].split("::")[-1]), z[2], z[3]))
            return s | g
        if k == "BinaryOperator" and x["op"] == "=" or k == "CompoundAssign":
            l = f.kids(e)[0]
            p = self.lhs(l)
            if p:
                s = s | {p}
                j = f.strip(f.kids(e)[1])
                if f.k(j) == "Call":
                    s = s | {("ifv", p, z[2], z[3]) for z in s if isinstance(z, tuple) and z[0] == "if" and z[1] == j}
            return s
        if k == "UnaryOperator" and x["op"] == "&":
            # address taken for something other than a call argument
            par = f.parent.get(e)
            while par is not None and f.k(par) == "Cast":
                par = f.parent.get(par)
            if par is None or f.k(par) not in ("Call", "Construct"):
                p = self.lhs(f.kids(e)[0])
                if p: return s | {p}
            return s
        if k == "LambdaExpr":
            g = {f.path(c).lstrip("&*") for c in f.kids(e) if c >= 0 and f.path(c)}
            return s | g
        if k == "InitListExpr":
            return s
        if k in ("Call", "Construct"):
            return s | self.A.gens(f, e, s)
        if k in ("CXXForRangeStmt", "CXXCatchStmt"):
            return s
        return s

    def lhs(self, l):
        f = self.fn
        l0 = l
        while l >= 0 and f.k(l) in ("Cast", "ArraySubscriptExpr"):
            l = f.kids(l)[0]
        p = f.path(l)
        if p is None:
            return None
        return p.lstrip("&") if f.k(l0) != "UnaryOperator" else p

    def refine(self, s, c, truth, b):
        """both operands of a true && (false ||) were evaluated, also where the branch is on the
        stored value of the whole condition"""
        f = self.fn
        if s is not None and c >= 0 and f.k(c) == "BinaryOperator" and f.x(c)["op"] in ("&&", "||") and truth == (f.x(c)["op"] == "&&"):
            for o in f.kids(c):
                for e in self.uncond(o):
                    if s is not None:
                        s = self.elem(s, e)
                s = self.refine(s, o, truth, b) if s is not None else None
            return s
        return super().refine(s, c, truth, b)

    def uncond(self, i):
        f = self.fn
        if i < 0 or f.k(i) in ("LambdaExpr",):
            return
        if f.k(i) == "BinaryOperator" and f.x(i)["op"] in ("&&", "||"):
            yield from self.uncond(f.kids(i)[0])
            return
        if f.k(i) == "ConditionalOperator":
            yield from self.uncond(f.kids(i)[0])
            return
        for k in f.kids(i):
            yield from self.uncond(k)
        yield i

    def edge(self, s, c, truth, b):
        f = self.fn
        if f.cv(c) is not None and bool(f.cv(c)) != truth:
            return None
        j = f.strip(c)
        k = f.k(j)
        call, how, var = None, None, None
        add = set()
        if k == "Call":
            add |= {z[2] for z in s if isinstance(z, tuple) and z[0] == "if" and z[1] == j and z[3] == ("true" if truth else "zero")}
        p = f.path(j)
        if p:
            add |= {z[2] for z in s if isinstance(z, tuple) and z[0] == "ifv" and z[1] == p and z[3] == ("true" if truth else "zero")}
            if not truth:
                add.add("*" + p)          # a null pointer has nothing to set
                if p.startswith("*"): add.add(p)
        if k == "BinaryOperator" and f.x(j)["op"] in ("==", "!=", "<", ">", "<=", ">="):
            l, r = f.kids(j)
            op = f.x(j)["op"]
            for a, o in ((l, r), (r, l)):
                pa = f.path(a)
                pn = f.path(o)
                if pa and pn in ("#null", "#0") and op in ("==", "!="):
                    if truth == (op == "=="):
                        add.add("*" + pa)
                a = f.strip(a)
                pend = [z for z in s if isinstance(z, tuple) and (z[0] == "if" and z[1] == a or z[0] == "ifv" and pa is not None and z[1] == pa)]
                cv = f.cv(o)
                for z in pend:
                    if z[3] in ("zero", "true") and cv is not None and op in ("==", "!="):
                        # which outcome does this edge prove?
                        eq = truth == (op == "==")
                        if z[3] == "zero" and cv == 0 and eq or z[3] == "true" and cv == 0 and not eq or z[3] == "true" and cv == 1 and eq:
                            add.add(z[2])
                        if z[3] == "zero" and cv != 0 and eq:
                            pass
                    if z[3] == "count" and cv is not None:
                        if op == "==" and truth and cv >= 1 or op == "!=" and not truth and cv >= 1 or op in ("<",) and not truth and cv >= 1:
                            add.add(z[2])
                # from_chars: result.ec compared with errc()
                if f.k(a) == "MemberExpr" and (f.decl(a) or {}).get("q", "").endswith("::ec"):
                    base = f.path(f.kids(a)[0]) if f.kids(a) else None
                    bn = f.strip(f.kids(a)[0]) if f.kids(a) else -1
                    if op in ("==", "!=") and truth == (op == "=="):
                        for z in s:
                            if isinstance(z, tuple) and z[3] == "ec" and (z[0] == "ifv" and z[1] == base or z[0] == "if" and z[1] == bn):
                                add.add(z[2])
        return s | add if add else s


class A17:
    def __init__(self, prog):
        self.p = prog
        self._sum = {}
        self._ud = {}
        self.stack = set()

    # ---------------------------------------------- records left uninitialised by default
    def uninit_fields(self, q, depth=0):
        """scalar fields that default-initialisation of record q leaves without a value"""
        if q in self._ud:
            return self._ud[q]
        self._ud[q] = ()
        r = self.p.recs.get(q)
        if r is None or depth > 4:
            return ()
        if any(m[1] and self.p_is_default_ctor(r, m[0]) for m in r["methods"]):
            return ()               # user-provided default constructor: judged on its own
        if r.get("un"):
            return ()
        out = []
        for fl in r["fields"]:
            t = r["tab"].types[fl["t"]]
            if fl.get("ini") or fl.get("anon"):
                continue
            if t["k"] in SCALAR:
                out.append(fl["n"])
        self._ud[q] = tuple(out)
        return self._ud[q]

    def p_is_default_ctor(self, r, did):
        d = r["tab"].decls[did]
        return d.get("ctor") and not d.get("p")

    def uninit_of_expr(self, f, i):
        """fields left uninitialised by initialiser expression i (None: not a default construction)"""
        if i is None or i < 0:
            return None
        if f.k(i) == "Construct":
            c = f.callee(i)
            if c and not f.args(i) and (c.get("imp") or c.get("def")) and c["u"] not in self.p.fns:
                if f.x(i).get("zi"):
                    return None
                return self.uninit_fields(c.get("cls") or "")
        return None

    # ---------------------------------------------- summaries
    def summary(self, g):
        """(paths assigned on every normal return, extra ones assigned when the result is true)
        paths are relative to 'this' and to parameters ('p0', '*p0', ...)"""
        if g.usr in self._sum:
            return self._sum[g.usr]
        self._sum[g.usr] = (frozenset(["?"]), frozenset())     # optimistic while in recursion
        fl = DA(g, self)
        if g.entry is None:
            self._sum[g.usr] = (frozenset(), frozenset())
            return self._sum[g.usr]
        fl.run()
        pm = {"v%d:%s" % (d, g.tab.decls[d]["q"].split("::")[-1]): "p%d" % ix for ix, (d, *_) in enumerate(g.params)}

        def rel(s):
            out = set()
            for z in s:
                if not isinstance(z, str):
                    continue
                st = 0
                while z[st:st + 1] in "*&" and z[st:st + 1]:
                    st += 1
                m = re.match(r"(v\d+:\w+|this)(.*)$", z[st:])
                if not m:
                    continue
                if m.group(1) == "this":
                    out.add(z)
                elif m.group(1) in pm:
                    out.add(z[:st] + pm[m.group(1)] + m.group(2))
            return out
        ex = fl.out_at_exit()
        always = rel(ex) if ex is not None else {"?"}
        true = None
        if (g.ty(g.d.get("t")) or {}).get("k") == "bool":
            for b, ix, e, s in fl.states():
                if isinstance(e, int) and g.k(e) == "ReturnStmt" and g.kids(e):
                    r = g.kids(e)[0]
                    if g.cv(r) == 0:
                        continue
                    s2 = set(s)
                    # return cond-call(...): success implies what the call's success implies
                    j = g.strip(r)
                    s2 |= {z[2] for z in s if isinstance(z, tuple) and z[0] == "if" and z[1] == j and z[3] == "true"}
                    s2 = fl.edge(frozenset(s2), r, True, b)
                    pr = g.path(r)
                    if pr:
                        s2 |= {z[2] for z in s if isinstance(z, tuple) and z[0] == "ifv" and z[1] == pr and z[3] == "true"}
                    t = rel(s2)
                    true = t if true is None else true & t
        self._sum[g.usr] = (frozenset(always), frozenset((true or set()) - always))
        return self._sum[g.usr]

    def gens(self, f, i, s):
        p = self.p
        d = f.callee(i)
        args = f.args(i)
        out = set()
        if not d:
            # call through a pointer: assume outputs are set
            for a in args:
                q = f.path(a)
                if q and q.startswith("&"):
                    out.add(q[1:])
            return out
        obj = f.obj(i)
        if d.get("ca") or d.get("ma") or d.get("oo") == "=":
            o = obj if obj >= 0 else (args[0] if args else -1)
            q = f.path(o) if o >= 0 else None
            if q:
                out.add(q)
            if q == "*this" or q == "this":
                if d["u"] not in p.fns:
                    out.add("*ALL")
        ts = [p.fns[t] for t in ([d["u"]] if f.k(f.strip(obj)) == "This" and f.d.get("ctor") else p.targets(f, i)) if t in p.fns]
        q0 = d["q"]
        if ts:
            sums = [self.summary(t) for t in ts]
            al = [x[0] for x in sums if "?" not in x[0]]
            tr = [x[0] | x[1] for x in sums if "?" not in x[0]]
            inter = frozenset.intersection(*al) if al else frozenset()
            interT = (frozenset.intersection(*tr) if tr else frozenset()) - inter
            allq = not al
            for z, cond in [(z, None) for z in inter] + [(z, "true") for z in interT]:
                m = re.match(r"([*&]*)(p(\d+)|this)(.*)$", z)
                if not m:
                    continue
                if m.group(2) == "this":
                    b = f.path(obj) if obj >= 0 else "this" if f.k(i) != "Construct" else None
                    if b is None:
                        continue
                    b = b.lstrip("*&") if b != "this" else b
                    q = b + m.group(4)
                else:
                    ix = int(m.group(3))
                    if ix >= len(args):
                        continue
                    b = f.path(args[ix])
                    if b is None:
                        b = self.deep_path(f, args[ix])
                    if b is None:
                        continue
                    pre = m.group(1)
                    if pre.startswith("*") and b.startswith("&"):
                        q = pre[1:] + b[1:] + m.group(4)
                    else:
                        q = pre + b + m.group(4)
                out.add(q if cond is None else ("if", i, q, cond))
            if allq:
                for a in args:
                    q = f.path(a)
                    if q: out.add(q.lstrip("&"))
            # parameters of class type handed on by reference: not tracked
            tb = ts[0]
            for ix, a in enumerate(args):
                q = f.path(a)
                if q is None or ix >= len(tb.params):
                    continue
                t = tb.ty(tb.tab.decls[tb.params[ix][0]].get("t"))
                if t and t["k"] in ("ref", "rref") and (tb.ty(t["e"]) or {}).get("k") not in SCALAR and not (tb.ty(t["e"]) or {}).get("q"):
                    out.add(q)
                    if (tb.ty(t["e"]) or {}).get("k") == "arr": out.add(q)
                if t and t["k"] == "ptr" and (tb.ty(t["e"]) or {}).get("k") not in SCALAR and q.startswith("&"):
                    out.add(q[1:])
                if t and t["k"] == "ptr" and q and not q.startswith("&") and (f.type(f.strip(a)) or {}).get("k") == "arr":
                    out.add(q)
            return out
        how = None
        for rx, h in COND:
            if rx.match(q0):
                how = h
        ps = d.get("p", [])
        tab = d.get("_tab") or f.tab
        for ix, a in enumerate(args):
            q = f.path(a)
            if q is None:
                q = self.deep_path(f, a)
            if q is None:
                continue
            t = tab.types[ps[ix]] if ix < len(ps) and ps[ix] >= 0 else None
            set_ = None
            if t and t["k"] in ("ref", "rref"):
                e = tab.types[t["e"]]
                if not e.get("q"):
                    set_ = q
            elif q.startswith("&"):
                e = tab.types[t["e"]] if t and t["k"] == "ptr" else {}
                if not e.get("q"):
                    set_ = q[1:]
            elif (f.type(f.strip(a)) or {}).get("k") == "arr":
                set_ = q
            if set_:
                out.add(set_ if how is None else ("if", i, set_, how))
                if FULL.match(q0):
                    out.add(set_)
        if obj >= 0 and not d.get("cm"):
            q = f.path(obj)
            if q: out.add(q)
        return out

    def deep_path(self, f, a):
        j = f.strip(a)
        while f.k(j) in ("ArraySubscriptExpr", "Cast"):
            j = f.kids(j)[0]
        return f.path(j)


class PS(Flow):
    """path-sensitive refinement: sets of (assigned facts, conditions on local variables)"""
    CAP = 40

    def __init__(self, fn, A):
        super().__init__(fn)
        self.d = DA(fn, A)
        self.A = A
        self.d.refine = lambda s, c, t, b: DA.refine(self.d, s, c, t, b)

        self.tested = set()
        for v in fn.blocks.values():
            if v.get("tc") is not None and v["tc"] >= 0:
                self.tested |= {fn.path(j) for j in fn.subtree(v["tc"]) if j >= 0}

    def init(self):
        return frozenset([(self.d.init(), frozenset())])

    def join(self, a, b):
        s = a | b
        if len(s) > self.CAP:
            fs = [x[0] for x in s]; cs = [x[1] for x in s]
            # merge states that share their conditions first
            by = {}
            for x, c in s:
                by[c] = by[c] & x if c in by else x
            s = frozenset((x, c) for c, x in by.items())
            if len(s) > self.CAP:
                s = frozenset([(frozenset.intersection(*fs), frozenset.intersection(*cs))])
        return s

    def elem(self, s, e):
        f = self.fn
        kill, seta = None, None
        if isinstance(e, int):
            k = f.k(e)
            if k == "BinaryOperator" and f.x(e)["op"] == "=" or k == "CompoundAssign":
                kill = f.path(f.kids(e)[0])
                if k == "BinaryOperator" and kill in self.tested and f.cv(f.kids(e)[1]) is not None:
                    seta = (kill, "==", f.cv(f.kids(e)[1]), True)
            elif k == "UnaryOperator" and ("++" in f.x(e)["op"] or "--" in f.x(e)["op"] or f.x(e)["op"] == "&"):
                kill = f.path(f.kids(e)[0])
            elif k == "DeclStmt":
                out = s
                for dd, init in f.x(e)["vars"]:
                    if init is not None and init >= 0:
                        nm = "v%d:%s" % (dd, f.tab.decls[dd]["q"].split("::")[-1])
                        out = frozenset((x, frozenset(z for z in c if z[0] != nm) | ({(nm, "==", f.cv(init), True)} if f.cv(init) is not None and nm in self.tested else set())) for x, c in out)
                s = out
            elif k in ("Call", "Construct"):
                ks = set()
                for a in f.args(e):
                    q = f.path(a)
                    if q: ks.add(q.lstrip("&"))
                s = frozenset((x, frozenset(z for z in c if not any(z[0] == q and self.byref(f, e, q) or z[0].startswith(("this.", "*")) for q in ks | {""}))) for x, c in s) if any(c for x, c in s) else s
        out = set()
        for x, c in s:
            n = self.d.elem(x, e)
            if n is None:
                continue
            if kill:
                c = frozenset(z for z in c if z[0] != kill)
            if seta:
                c = c | {seta}
            out.add((n, c))
        return frozenset(out) or None

    def byref(self, f, e, q):
        d = f.callee(e)
        if not d:
            return True
        tab = d.get("_tab") or f.tab
        for a, pt in zip(f.args(e), d.get("p", [])):
            p = f.path(a)
            if p and p.lstrip("&") == q:
                t = tab.types[pt] if pt is not None and pt >= 0 else None
                if p.startswith("&") or t is None or t["k"] in ("ref", "rref") and not tab.types[t["e"]].get("q"):
                    return True
        return False

    def refine(self, s, c, truth, b):
        if s is None:
            return None
        f = self.fn
        if c >= 0 and f.k(c) == "UnaryOperator" and f.x(c)["op"] == "!":
            return self.refine(s, f.kids(c)[0], not truth, b)
        if c >= 0 and f.k(c) == "BinaryOperator" and f.x(c)["op"] in ("&&", "||"):
            l, r = f.kids(c)
            if truth == (f.x(c)["op"] == "&&"):
                return self.refine(self.refine(s, l, truth, b), r, truth, b)
            s1 = self.refine(s, l, truth, b)
            s2 = self.refine(self.refine(s, l, not truth, b), r, truth, b)
            return s1 if s2 is None else s2 if s1 is None else s1 | s2
        out = set()
        for x, cs in s:
            n = self.d.refine(x, c, truth, b)
            if n is None:
                continue
            for cs2 in self.conds(cs, c, truth):
                out.add((n, cs2))
        return frozenset(out) or None

    def case(self, s, sw, lab):
        return s

    def conds(self, cs, c, truth):
        """yield extended condition sets that are consistent (possibly none)"""
        f = self.fn
        c = f.strip(c)
        k = f.k(c)
        if k == "UnaryOperator" and f.x(c)["op"] == "!":
            yield from self.conds(cs, f.kids(c)[0], not truth)
            return
        if k == "BinaryOperator" and f.x(c)["op"] in ("&&", "||"):
            l, r = f.kids(c)
            if truth == (f.x(c)["op"] == "&&"):
                for a in self.conds(cs, l, truth):
                    yield from self.conds(a, r, truth)
                return
            seen = set()
            for a in self.conds(cs, l, truth):
                if a not in seen:
                    seen.add(a); yield a
            for a in self.conds(cs, l, not truth):
                for b2 in self.conds(a, r, truth):
                    if b2 not in seen:
                        seen.add(b2); yield b2
            return
        at = None
        if k == "BinaryOperator" and f.x(c)["op"] in ("==", "!=", "&", "<", ">", "<=", ">="):
            l, r = f.kids(c)
            p, v, op = f.path(l), f.cv(r), f.x(c)["op"]
            if v is None or p is None or p.startswith("#"):
                p, v = f.path(r), f.cv(l)
                op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
            if p and v is None and (f.path(l) == "#null" or f.path(r) == "#null"):
                p, v = (f.path(l) if f.path(r) == "#null" else f.path(r)), 0
            if p and v is not None and not p.startswith("#"):
                at = (p, op, v, truth)
        else:
            p = f.path(c)
            if p and not p.startswith("#"):
                at = (p, "!=", 0, truth)
        if at is None or "(" in at[0]:
            yield cs
            return
        if at[1] == "!=":
            at = (at[0], "==", at[2], not at[3])
        if not self.consistent(cs, at):
            return
        yield cs | {at}

    @staticmethod
    def ev(v, op, k):
        return {"==": v == k, "&": bool(v & k), "<": v < k, ">": v > k, "<=": v <= k, ">=": v >= k}[op]

    def consistent(self, cs, at):
        same = [z for z in cs if z[0] == at[0]] + [at]
        eq = {z[2] for z in same if z[1] == "==" and z[3]}
        if len(eq) > 1:
            return False
        for v in eq:
            for z in same:
                if self.ev(v, z[1], z[2]) != z[3]:
                    return False
        for z in same:
            if z[:3] == at[:3] and z[3] != at[3]:
                return False
        return True


def holds(s, p):
    """path p (or an enclosing object) has a value in s"""
    if "*ALL" in s and p.startswith("this."):
        return True
    q = p
    while True:
        if q in s:
            return True
        if "." not in q:
            return False
        q = q.rsplit(".", 1)[0]


def run(prog, ctx):
    A = A17(prog)
    r1 = ctx.rule("R1", "every constructor gives every scalar, pointer and enumeration member of its class a value on every path on which it returns (initialiser, in-class initialiser, delegated constructor, assignment, or a helper that always assigns it)")
    nctor = 0
    for f in prog.fns.values():
        if not f.d.get("ctor") or f.d.get("imp") or f.d.get("def"):
            continue
        r = prog.recs.get(f.cls)
        if not r or r.get("un"):
            continue
        tab = r["tab"]
        nctor += 1
        fl = DA(f, A)
        fl.run()
        s = fl.out_at_exit()
        if s is None:
            continue            # never returns normally
        for fd in r["fields"]:
            t = tab.types[fd["t"]]
            p = "this." + fd["n"]
            if fd.get("anon"):
                continue
            if t["k"] in SCALAR:
                ctx.check(r1, holds(s, p) or fd.get("ini"), "%s" % f.sig(), fd["n"], f.loc(),
                          "constructor %s may return without having given member %s a value" % (f.sig(), fd["n"]))
            elif t["k"] == "arr" and (tab.types[t["e"]] or {}).get("k") in SCALAR:
                pass
            elif t["k"] == "rec":
                un = A.uninit_fields(t["r"] if t["r"] in prog.recs else t.get("c", ""))
                for u in un:
                    # default-constructed here?
                    dflt = False
                    for kind, nm, node, wr in f.d.get("inits", []):
                        if kind == "m" and nm == fd["n"]:
                            dflt = bool(A.uninit_of_expr(f, node))
                    if dflt:
                        ctx.check(r1, holds(s, p + "." + u), f.sig(), fd["n"] + "." + u, f.loc(),
                                  "constructor %s may return without having given member %s.%s a value" % (f.sig(), fd["n"], u))
    r2 = ctx.rule("R2", "a scalar local variable, or a scalar member of a local structure, that is declared without a value is assigned on every path before it is read")
    for f in prog.fns.values():
        cand = {}
        for i, n in enumerate(f.nodes):
            if n[0] != "DeclStmt":
                continue
            for dd, init in n[4]["vars"]:
                d = f.tab.decls[dd]
                if d.get("g") or d.get("u") in prog.vars or d["k"] != "var":
                    continue
                t = f.ty(d.get("t"))
                if not t:
                    continue
                nm = "v%d:%s" % (dd, d["q"].split("::")[-1])
                if (init is None or init < 0) and t["k"] in SCALAR:
                    cand[nm] = None
                elif t["k"] == "rec":
                    if init is not None and init >= 0:
                        for u in A.uninit_of_expr(f, init) or ():
                            cand[nm + "." + u] = nm
        # range-for and catch variables are initialised by the construct itself
        for i, n in enumerate(f.nodes):
            if n[0] == "CXXForRangeStmt":
                for key in ("lv",):
                    v = n[4].get(key)
                    if isinstance(v, int):
                        cand.pop("v%d:%s" % (v, f.tab.decls[v]["q"].split("::")[-1]), None)
            if n[0] == "CXXCatchStmt":
                v = n[4].get("var")
                if isinstance(v, int) and v >= 0:
                    cand.pop("v%d:%s" % (v, f.tab.decls[v]["q"].split("::")[-1]), None)
        if not cand:
            continue
        fl = DA(f, A)
        fl.run()
        done = set()
        fine = None
        for b, ix, e, s in fl.states():
            if not isinstance(e, int):
                continue
            if f.k(e) in ("DeclRefExpr", "MemberExpr") and f.x(e).get("rv"):
                p = f.path(e)
            elif f.k(e) == "CompoundAssign" or f.k(e) == "UnaryOperator" and ("++" in f.x(e)["op"] or "--" in f.x(e)["op"]):
                p = f.path(f.kids(e)[0])
                if f.k(f.strip(f.kids(e)[0])) not in ("DeclRefExpr", "MemberExpr"):
                    continue
            else:
                continue
            if p in cand:
                ok = holds(s, p)
                if not ok:
                    if fine is None:
                        try:
                            fine = states_of(PS(f, A))
                        except AnalysisError:
                            fine = {}
                    ok = fine and ((b, ix) not in fine or all(holds(x, p) for x, c in fine[(b, ix)]))
                if ok:
                    ctx.ok(r2, "%s: %s" % (f.q, p.split(":", 1)[-1]))
                elif p not in done:
                    done.add(p)
                    ctx.bad(r2, f.sig(), p.split(":", 1)[-1], f.loc(e), "%s may be read here without having been given a value on some path" % p.split(":", 1)[-1])
    ctx.need(r1, 500)
    ctx.need(r2, 200)
    ctx.notes.append("%d user-written constructors" % nctor)
