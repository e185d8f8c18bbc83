"""C11: file structure is written in order with exact cross-reference offsets.

F1: an abstract interpreter follows everything that a save writes to its output device (helpers and the functions of the cross-reference classes are inlined, virtual calls are resolved once per concrete cross-reference class, full and incremental saves are separate runs). Every GetPosition() call yields a symbolic position; any output or seek ends its validity. An object must be recorded with the position that is valid at that moment, and the next thing that is written must be that object. An object that is recorded without a current position must not be written there: it is skipped, or unchanged in an incremental update.

F2: the same interpreter runs the automaton header, objects, cross-reference section, trailer, start offset, end. Nothing may be written out of order, and every path that returns has reached the end.

F3: the number that is written after startxref is the position that was valid when the cross-reference section began. For cross-reference streams this is the stream object, and its own entry has the same position before the data of the stream are set.

F4: the offset and the generation of an entry reach the output unchanged: the recorded offset is stored unmodified, the entry is built from the offset and the reference of one item, and the entry has its fixed format.

F5: an incremental update seeks to the end of the device, in that function and with no output in between, and hands over the offset of the section that was loaded before it writes. Files for updates are opened for appending."""
from lib import *
from model import AnalysisError

ASSUMPTIONS = [
    "OutputStreamDevice::GetPosition returns the number of bytes before the next byte that is written, and Seek(0, End) moves to the end of the data.",
    "PdfObject::Write writes exactly the object it is called on; PdfImmediateWriter::Finish is not implemented and always throws.",
]

DEV = {"mm::OutputStreamDevice", "mm::StreamDevice", "mm::OutputStream"}
OBJ = "mm::PdfObject"
XREF = "mm::PdfXRef"
WRITER = "mm::PdfWriter"
LIM = 60000


def last(q):
    return q.split("::")[-1]


def base(f, t):
    while t is not None and t.get("k") in ("ptr", "ref", "rref") and t.get("e", -1) is not None and t.get("e", -1) >= 0:
        t = f.ty(t["e"])
    c = (t or {}).get("c", "")
    for p in ("const ", "class ", "struct "):
        if c.startswith(p):
            c = c[len(p):]
    if "unique_ptr<" in c or "shared_ptr<" in c:
        c = c.split("<", 1)[1].split(",")[0].rstrip("> ")
    return c


def bits(t):
    c = (t or {}).get("c", "").replace("const ", "")
    return {"unsigned int": 32, "int": 32, "unsigned short": 16, "short": 16, "unsigned char": 8, "char": 8,
            "unsigned long": 64, "long": 64, "unsigned long long": 64, "long long": 64}.get(c)


class Ctx:
    """one activation: who `this` is, which expressions denote the device, what parameters stand for"""

    def __init__(self, f, depth, devs, alias, vals):
        self.f, self.depth, self.devs, self.alias, self.vals = f, depth, devs, alias, vals

    def key(self):
        return (self.f.usr, self.depth, tuple(sorted(self.devs)), tuple(sorted(self.alias.items())), tuple(sorted(self.vals.items(), key=str)))


class S:
    """auto: place in the file; here: symbolic position that is current; sec: position where the section began;
    env: values of variables and fields; rec: recorded, not yet written objects; fmt: what buffers hold"""
    __slots__ = ("auto", "here", "sec", "env", "rec", "fmt")

    def __init__(self, auto, here=None, sec=None, env=frozenset(), rec=frozenset(), fmt=frozenset()):
        self.auto, self.here, self.sec, self.env, self.rec, self.fmt = auto, here, sec, env, rec, fmt

    def t(self):
        return (self.auto, self.here, self.sec, self.env, self.rec, self.fmt)

    def __eq__(self, o):
        return self.t() == o.t()

    def __hash__(self):
        return hash(self.t())

    def set(self, **k):
        r = S(*self.t())
        for a, b in k.items():
            setattr(r, a, b)
        return r

    def get(self, k):
        for a, b in self.env:
            if a == k:
                return b
        return None

    def put(self, k, v):
        e = {x for x in self.env if x[0] != k}
        if v is not None:
            e.add((k, v))
        return self.set(env=frozenset(e))


class Interp:
    def __init__(self, prog, ctx, cls, incremental, report):
        self.prog, self.ctx, self.cls, self.inc, self.report = prog, ctx, cls, incremental, report
        self.memo = {}
        self.stack = []
        self.n = 0
        self.seen = set()
        self.recs, self.outs, self.ends = set(), set(), set()

    # ---------------------------------------------------------------- helpers
    def p(self, f, i):
        q = f.path(f.strip(i)) if i is not None and i >= 0 else None
        return q.lstrip("*&") if q else None

    def dev(self, c, i):
        f = c.f
        if i is None or i < 0:
            return False
        i = f.strip(i)
        while f.k(i) == "UnaryOperator" and f.x(i)["op"] in ("*", "&"):
            i = f.strip(f.kids(i)[0])
        if base(f, f.type(i)) not in DEV and base(f, f.type(i)) not in self.prog.derived("mm::OutputStream"):
            return False
        q = self.p(f, i)
        if q is None:
            return False
        if q in c.devs or q == "this.m_Device":
            return True
        if f.k(i) == "DeclRefExpr":
            v = var_inits(f).get(f.x(i)["d"], [])
            return len(v) == 1 and v[0] is not None and self.dev(c, v[0])
        return False

    def objkey(self, c, i):
        f = c.f
        i = f.strip(i)
        while f.k(i) == "UnaryOperator" and f.x(i)["op"] in ("*", "&") or f.k(i) == "Call" and ((f.callee(i) or {}).get("oo") in ("->", "*") or last((f.callee(i) or {}).get("q", "")) == "get") and f.obj(i) >= 0:
            i = f.strip(f.kids(i)[0] if f.k(i) == "UnaryOperator" else f.obj(i))
        if f.k(i) == "DeclRefExpr":
            v = [y for y in var_inits(f).get(f.x(i)["d"], []) if y is not None]
            if len(v) == 1 and (f.type(f.strip(v[0])) or {}).get("k") in ("ptr", "rec", "ref") and f.k(f.strip(v[0])) in ("DeclRefExpr", "MemberExpr", "UnaryOperator"):
                return self.objkey(c, v[0])
        q = self.p(f, i)
        if q is None:
            return None
        if q.startswith("this."):
            return q
        return c.alias.get(q, (f.usr if q.startswith("v") else "") + "|" + q)

    def refkey(self, c, i, depth=0):
        """the object whose reference an expression is"""
        f = c.f
        i = f.strip(i)
        if f.k(i) == "Construct" and len(f.args(i)) == 1 and depth < 6:
            return self.refkey(c, f.args(i)[0], depth + 1)
        if f.k(i) == "Call" and last((f.callee(i) or {}).get("q", "")) == "GetIndirectReference":
            return self.objkey(c, f.obj(i)) if f.obj(i) >= 0 else "this"
        if f.k(i) == "DeclRefExpr":
            q = self.p(f, i)
            if "ref:" + str(q) in c.alias:
                return c.alias["ref:" + q]
            v = [y for y in var_inits(f).get(f.x(i)["d"], []) if y is not None]
            if len(v) == 1 and depth < 6:
                return self.refkey(c, v[0], depth + 1)
        return None

    def ev(self, c, i, s, depth=0):
        """('pos', id) | ('null',) | ('const', v) | None"""
        f = c.f
        if i is None or i < 0 or depth > 14:
            return None
        k, x = f.k(i), f.x(i)
        v = s.get((f.usr, c.depth, "#%d" % i))
        if v is not None:
            return v
        if k == "Cast" or k.endswith("CastExpr"):
            r = self.ev(c, f.kids(i)[0], s, depth + 1) if f.kids(i) else None
            if r and r[0] == "pos":
                a, b = bits(f.type(f.kids(i)[0])), bits(f.type(i))
                if a and b and b < a and b < 63:
                    self.narrow(c, i)
            return r
        if f.cv(i) is not None:
            return ("const", f.cv(i))
        if k in ("CXXNullPtrLiteralExpr", "GNUNullExpr"):
            return ("null",)
        if k in ("DeclRefExpr", "MemberExpr"):
            q = self.p(f, i)
            if q is None:
                return None
            d = f.decl(i)
            kk = (d["q"],) if k == "MemberExpr" and q.startswith("this.") else (f.usr, c.depth, q)
            r = s.get(kk)
            if r is None and q in c.vals:
                r = c.vals[q]
            if r is not None and k == "DeclRefExpr" and False:
                pass
            return r
        if k == "Construct":
            a = f.args(i)
            if not a and "nullable" in base(f, f.type(i)):
                return ("null",)
            return self.ev(c, a[0], s, depth + 1) if len(a) == 1 else None
        if k in ("ExprWithCleanups", "MaterializeTemporaryExpr", "ParenExpr", "InitList") and len(f.kids(i)) == 1:
            return self.ev(c, f.kids(i)[0], s, depth + 1)
        if k == "Call":
            cal = f.callee(i) or {}
            nm = last(cal.get("q", ""))
            if nm in ("ByteSwap", "move", "value_type", "htobe32", "htobe64") and f.args(i) or nm in ("value", "operator*"):
                src = f.args(i)[0] if f.args(i) else f.obj(i)
                r = self.ev(c, src, s, depth + 1)
                if r and r[0] == "pos":
                    g = self.prog.fns.get(cal.get("u"))
                    a = bits(f.type(f.strip(src)))
                    b = bits(f.ty(cal["p"][0])) if cal.get("p") else None
                    if a and b and b < a:
                        self.narrow(c, i)
                return r
            g = self.target(c, i)
            if g is not None and not g.params and g.cls and (g.cls == self.cls or g.cls in self.prog.bases(self.cls) or g.cls == XREF):
                c2 = Ctx(g, c.depth + 1, frozenset(), {}, {})
                rs = {self.ev(c2, g.kids(r)[0], s, depth + 1) for r in range(len(g.nodes)) if g.k(r) == "ReturnStmt" and g.kids(r)}
                return rs.pop() if len(rs) == 1 else None
        return None

    def narrow(self, c, i):
        f = c.f
        # a comparison of the value against a constant limits it
        for cc, t in conds_at(f, i):
            cc = f.strip(cc) if isinstance(cc, int) else -1
            if cc >= 0 and isinstance(t, bool) and f.k(cc) == "BinaryOperator" and f.x(cc)["op"] in ("<", "<=", ">", ">="):
                a, b = f.kids(cc)
                if set(vars_in(f, i)) & set(vars_in(f, a)) | set(vars_in(f, i)) & set(vars_in(f, b)):
                    return
        self.bad("F1", c, "narrow", i, "a position of the file is cut to %s: larger files get wrong offsets" % (f.type(i) or {}).get("s", "a smaller type"))

    def bad(self, rule, c, what, i, msg):
        self.report(rule, c.f, what, i, msg, self)

    def target(self, c, i):
        f = c.f
        cal = f.callee(i) or {}
        g = self.prog.fns.get(cal.get("u"))
        nm = last(cal.get("q", ""))
        if f.x(i).get("v") or (g is None or g.entry is None):
            # virtual: the concrete cross-reference class decides
            for q in [self.cls] + list(self.prog.bases(self.cls)):
                for h in self.prog.by_q(q + "::" + nm):
                    if h.entry is not None and len(h.params) == len(cal.get("p", [])) and cal.get("cls") in [self.cls] + list(self.prog.bases(self.cls)):
                        return h
        return g if g is not None and g.entry is not None else None

    # ---------------------------------------------------------------- events
    def out(self, s):
        return s.set(here=None)

    def event(self, c, i, kind, s, args=()):
        """one output; kind: hdr obj xref trailer start entry text"""
        self.outs.add((c.f.usr, i))
        a = s.auto
        f = c.f
        if a == "E":
            self.bad("F2", c, "after the end", i, "something is written after the end of the file was written")
            return self.out(s)
        if kind == "hdr":
            if a != "I":
                self.bad("F2", c, "header", i, "the header is written after other parts of the file")
            return self.out(s.set(auto="H"))
        if kind == "xref":
            if a not in ("H", "O") and not (a == "I" and self.inc):
                self.bad("F2", c, "section", i, "the cross-reference section is written in the wrong place")
            return self.out(s.set(auto="X", sec=s.here or ("?", 0)))
        if kind == "trailer":
            if a != "X":
                self.bad("F2", c, "trailer", i, "the trailer does not follow the cross-reference section")
            return self.out(s.set(auto="T0"))
        if kind == "start":
            if a != "T":
                self.bad("F2", c, "startxref", i, "the start offset does not follow the trailer")
            return self.out(s.set(auto="S0"))
        if kind == "number":
            v = [self.ev(c, y, s) for y in args]
            self.ends.add((f.usr, i))
            if not v or v[0] is None or v[0][0] != "pos" or v[0][1] != s.sec:
                self.bad("F3", c, "startxref", i, "the start offset is not the position at which the cross-reference section begins")
            return self.out(s.set(auto="S1"))
        if kind == "eof":
            if a != "S1":
                self.bad("F2", c, "eof", i, "the end of the file is written without the start offset")
            return self.out(s.set(auto="E"))
        if kind == "entry":
            if a != "X":
                self.bad("F2", c, "entry", i, "a cross-reference entry is written outside of the section")
            return self.out(s)
        if a == "I" and not self.inc:
            self.bad("F2", c, "before the header", i, "something is written before the header")
        return self.out(s)

    def obj_event(self, c, i, s):
        f = c.f
        key = self.objkey(c, f.obj(i)) if f.obj(i) >= 0 else None
        self.outs.add((f.usr, i))
        a = s.auto
        if a == "T0":
            # the dictionary after the keyword
            return self.out(s.set(auto="T"))
        if key == "this.m_xrefStreamObj":
            if a not in ("H", "O") and not (a == "I" and self.inc):
                self.bad("F2", c, "section", i, "the cross-reference stream is written in the wrong place")
            d = s.get(("#data",))
            if s.here is None or d != ("pos", s.here):
                self.bad("F3", c, "own entry", i, "the entry of the cross-reference stream itself does not have the position at which the stream is written")
            return self.out(s.set(auto="T", sec=s.here or ("?", 0), env=frozenset(x for x in s.env if x[0] not in (("#data",), ("#patch",)))))
        if a not in ("H", "O") and not (a == "I" and self.inc):
            self.bad("F2", c, "object", i, "an object is written before the header or after the cross-reference section")
        r = {k: v for k, v in s.rec}
        if key is None or key not in r:
            self.bad("F1", c, "recorded", i, "an object is written without recording its position first")
        elif s.here is None or r[key] != s.here:
            self.bad("F1", c, "current", i, "the position that was recorded for the object is no longer the current one when it is written")
        return self.out(s.set(auto="O" if a in "HOI" else a, rec=frozenset(x for x in s.rec if x[0] != key)))

    def record(self, c, i, s):
        f = c.f
        self.recs.add((f.usr, i))
        a = f.args(i)
        key = self.refkey(c, a[0])
        v = self.ev(c, a[1], s)
        at = conds_at(f, i)
        if v and v[0] == "pos":
            if v[1] != s.here:
                self.bad("F1", c, "record", i, "the offset that is recorded is not the current position of the output")
            elif key is None:
                self.bad("F1", c, "record", i, "the object whose position is recorded cannot be followed")
            else:
                return s.set(rec=frozenset(x for x in s.rec if x[0] != key) | {(key, v[1])})
            return s
        if v and v[0] == "null":
            if not self.says(c, at, "IsDirty", False):
                self.bad("F1", c, "record", i, "an object is left out of the section although it may have been modified")
            return s
        if self.says(c, at, "ShouldSkipWrite", True) or self.says(c, at, "IsDirty", False):
            return s
        self.bad("F1", c, "record", i, "the offset that is recorded is not a position of the output")
        return s

    def says(self, c, conds, name, truth):
        f = c.f
        for cc, t in conds:
            if not isinstance(cc, int) or not isinstance(t, bool):
                continue
            cc = f.strip(cc)
            while f.k(cc) == "UnaryOperator" and f.x(cc)["op"] == "!":
                cc, t = f.strip(f.kids(cc)[0]), not t
            d = bool_def(f, cc)
            if d is not None:
                cc = f.strip(d)
                while f.k(cc) == "UnaryOperator" and f.x(cc)["op"] == "!":
                    cc, t = f.strip(f.kids(cc)[0]), not t
            if f.k(cc) == "Call" and last((f.callee(cc) or {}).get("q", "")) == name and t == truth:
                return True
        return False

    # ---------------------------------------------------------------- interpretation
    def call(self, c, s):
        """run a function: set of (state, returned value)"""
        k = (c.key(), s)
        if k in self.memo:
            return self.memo[k]
        if c.f.usr in self.stack or len(self.stack) > 12:
            return {(s, None)}
        self.stack.append(c.f.usr)
        res = self.body(c, s)
        self.stack.pop()
        # locals of the callee are gone
        res = {(r.set(env=frozenset(x for x in r.env if x[0][0] != c.f.usr), fmt=frozenset(x for x in r.fmt if x[0][0] != c.f.usr)), v) for r, v in res}
        self.memo[k] = res
        return res

    def body(self, c, s0):
        f = c.f
        ins = {f.entry: {s0}}
        work = [(f.entry, s0)]
        res = set()
        while work:
            self.n += 1
            if self.n > LIM:
                raise AnalysisError("C11: too many states in " + f.q)
            b, s = work.pop()
            sts = [s]
            for e in f.blocks[b]["e"]:
                new = []
                for st in sts:
                    new += self.elem(c, e, st, res)
                sts = list(dict.fromkeys(new))
            for st in sts:
                if b == f.exit:
                    res.add((st, None))
                for ix, t in enumerate(f.blocks[b]["s"]):
                    if t is None:
                        continue
                    ok = True
                    for cc, tr in edge_atoms(f, b, ix):
                        if isinstance(tr, bool) and self.inc_atom(c, cc) is not None and (self.inc_atom(c, cc) == tr) != self.inc:
                            ok = False
                    if not ok:
                        continue
                    if t == f.exit:
                        if not any(isinstance(e, int) and f.k(e) == "ReturnStmt" for e in f.blocks[b]["e"]) and not self.throws(f, b):
                            res.add((st, None))
                        continue
                    if st not in ins.setdefault(t, set()):
                        ins[t].add(st)
                        work.append((t, st))
        return res

    def throws(self, f, b):
        return any(isinstance(e, int) and f.k(e) == "Throw" for e in f.blocks[b]["e"]) or any(x[0] == b for x in f.tries) or f.blocks[b].get("nr")

    def inc_atom(self, c, cc):
        f = c.f
        cc = f.strip(cc)
        d = bool_def(f, cc)
        if d is not None:
            return self.inc_atom(c, d)
        if f.k(cc) == "UnaryOperator" and f.x(cc)["op"] == "!":
            r = self.inc_atom(c, f.kids(cc)[0])
            return None if r is None else not r
        if f.k(cc) == "MemberExpr" and last((f.decl(cc) or {}).get("q", "")) == "m_IncrementalUpdate":
            return True
        if f.k(cc) == "Call" and last((f.callee(cc) or {}).get("q", "")) in ("GetIncrementalUpdate", "IsIncrementalUpdate"):
            return True
        return None

    def elem(self, c, e, s, res):
        f = c.f
        if not isinstance(e, int):
            return [s]
        k, x = f.k(e), f.x(e)
        if k == "Throw":
            return []
        if k == "ReturnStmt":
            res.add((s, self.ev(c, f.kids(e)[0], s) if f.kids(e) else None))
            return []
        if k == "DeclStmt":
            for d, ini in x["vars"]:
                dd = f.tab.decls[d]
                v = self.ev(c, ini, s) if ini is not None and ini >= 0 else None
                s = s.put((f.usr, c.depth, "v%d:%s" % (d, last(dd["q"]))), v if v and v[0] == "pos" else None)
            return [s]
        if k == "BinaryOperator" and x["op"] == "=":
            return [self.assign(c, f.kids(e)[0], f.kids(e)[1], s)]
        if k == "CompoundAssign" or k == "UnaryOperator" and x["op"] in ("++", "--", "p++", "p--"):
            q = self.p(f, f.kids(e)[0])
            return [s.put((f.usr, c.depth, q), None)] if q else [s]
        if k == "Call":
            return self.docall(c, e, s)
        return [s]

    def assign(self, c, l, r, s):
        f = c.f
        v = self.ev(c, r, s)
        v = v if v and v[0] == "pos" else None
        li = f.strip(l)
        if f.k(li) == "MemberExpr" and last((f.decl(li) or {}).get("q", "")) == "Variant":
            return s.put(("#patch",), v)
        q = self.p(f, li)
        if q is None:
            return s
        d = f.decl(li)
        kk = (d["q"],) if f.k(li) == "MemberExpr" and q.startswith("this.") else (f.usr, c.depth, q)
        return s.put(kk, v)

    def docall(self, c, i, s):
        f = c.f
        cal = f.callee(i)
        if not cal:
            return [s]
        nm, args, obj = last(cal["q"]), f.args(i), f.obj(i)
        if cal.get("oo") == "=" and args and obj >= 0:
            return [self.assign(c, obj, args[0], s)]
        if nm == "GetPosition" and obj >= 0 and self.dev(c, obj):
            if s.here is None:
                pid = (f.usr, i)
                s = s.set(here=pid, env=frozenset(y for y in s.env if y[1] != ("pos", pid)), rec=frozenset((a, ("?", 1) if b == pid else b) for a, b in s.rec))
                if s.sec == pid:
                    s = s.set(sec=("?", 2))
            return [s.put((f.usr, c.depth, "#%d" % i), ("pos", s.here))]
        if nm == "Seek" and obj >= 0 and self.dev(c, obj):
            return [s.set(here=None)]
        if nm in ("AddInUseObject",) and len(args) == 2:
            return [self.record(c, i, s)]
        if nm == "FormatTo" and len(args) >= 2:
            b = self.bufkey(c, args[0])
            lit = self.lit(f, args[1])
            if b:
                return [s.set(fmt=frozenset(y for y in s.fmt if y[0] != b) | {(b, (f.usr, c.depth, i, lit or "?"))})]
            return [s]
        if nm == "SetData" and obj >= 0 and self.xdata(f, obj):
            return [s.put(("#data",), s.get(("#patch",)))]
        # writes to the device
        if obj >= 0 and self.dev(c, obj) and nm in ("Write", "WriteBuffer", "write", "operator<<"):
            lit = self.lit(f, args[0]) if args else None
            fa = ()
            at = (f, c)
            if lit is None and args:
                b = self.bufkey(c, args[0])
                got = [y[1] for y in s.fmt if y[0] == b]
                if got:
                    u, dpt, n, lit = got[0]
                    if u == f.usr:
                        fa = f.args(n)[2:]
                        fa = [y for y in self.flat(f, fa)]
            return [self.text(c, i, lit or "", s, fa)]
        if nm == "Write" and obj >= 0 and (base(f, f.type(f.strip(obj))) == OBJ or base(f, f.type(f.strip(obj))) in self.prog.derived(OBJ)) and any(self.dev(c, a) for a in args):
            return [self.obj_event(c, i, s)]
        g = self.target(c, i)
        bound = [n for n, a in enumerate(args) if self.dev(c, a)]
        fam = g is not None and (g.cls or "") and (g.cls in (XREF, WRITER) or g.cls in self.prog.derived(XREF) or g.cls in self.prog.derived(WRITER))
        if g is not None and (bound and not g.q.startswith("std::") and (fam or g.file == f.file) or fam and g.cls in self.prog.derived(WRITER) and self.uses_field(g)):
            if f.k(f.strip(obj)) != "This" if obj >= 0 else False:
                rt = base(f, f.type(f.strip(obj)))
                if rt == XREF and g.cls in self.prog.derived(XREF) and g.cls != self.cls:
                    return [s]
            devs, alias, vals = set(), {}, {}
            for n, p in enumerate(g.params):
                if n >= len(args):
                    break
                q = "v%d:%s" % (p[0], p[1])
                if n in bound:
                    devs.add(q)
                    continue
                b = base(g, g.ty(p[2]))
                if b == OBJ or b in self.prog.derived(OBJ):
                    kk = self.objkey(c, args[n])
                    if kk:
                        alias[q] = kk
                elif b == "mm::PdfReference":
                    kk = self.refkey(c, args[n])
                    if kk:
                        alias["ref:" + q] = kk
                else:
                    v = self.ev(c, args[n], s)
                    if v and v[0] in ("pos", "null"):
                        vals[q] = v
                    bk = self.bufkey(c, args[n])
                    if bk and "charbuff" in b:
                        alias["buf:" + q] = bk
            c2 = Ctx(g, c.depth + 1, frozenset(devs), alias, vals)
            out = []
            for s2, v in self.call(c2, s):
                out.append(s2.put((f.usr, c.depth, "#%d" % i), v if v and v[0] == "pos" else None))
            return list(dict.fromkeys(out))
        if bound and not cal.get("cm") and nm not in ("GetPosition", "Flush", "GetLength", "Eof"):
            return [self.event(c, i, "text", s)]
        return [s]

    def uses_field(self, g):
        return any(g.k(i) == "MemberExpr" and g.path(i) == "this.m_Device" for i in range(len(g.nodes)))

    def flat(self, f, a):
        out = []
        for y in a:
            out.append(y)
        return out

    def bufkey(self, c, i):
        q = self.p(c.f, i)
        while q is None and c.f.k(c.f.strip(i)) in ("Construct", "Call") and (c.f.args(c.f.strip(i)) or c.f.k(c.f.strip(i)) == "Call" and c.f.obj(c.f.strip(i)) >= 0):
            j = c.f.strip(i)
            i = c.f.args(j)[0] if c.f.args(j) else c.f.obj(j)
            q = self.p(c.f, i)
        if q is None:
            return None
        if q.startswith("this."):
            return (q,)
        if "buf:" + q in c.alias:
            return c.alias["buf:" + q]
        return (c.f.usr, q)

    def lit(self, f, i):
        st = [i]
        while st:
            j = st.pop()
            if j is None or j < 0:
                continue
            if f.k(j) == "StringLiteral":
                return f.x(j).get("s", "")
            if f.k(j) == "Construct":
                st += f.args(j)
            elif f.k(j) == "Call":
                if (f.callee(j) or {}).get("q", "").startswith("std::basic_string_view") or (f.callee(j) or {}).get("oo") == '""':
                    st += f.args(j) + ([f.obj(j)] if f.obj(j) >= 0 else [])
            else:
                st += f.kids(j)
        return None

    def xdata(self, f, o):
        """the stream of the cross-reference stream object"""
        st, seen = [o], set()
        while st:
            j = st.pop()
            if j is None or j < 0 or j in seen:
                continue
            seen.add(j)
            if f.k(j) == "MemberExpr" and last((f.decl(j) or {}).get("q", "")) == "m_xrefStreamObj":
                return True
            st += list(f.kids(j))
            if f.k(j) == "Call" and f.obj(j) >= 0:
                st.append(f.obj(j))
            if f.k(j) == "DeclRefExpr":
                st += [v for v in var_inits(f).get(f.x(j)["d"], []) if v is not None]
        return False

    def text(self, c, i, lit, s, fa):
        if lit.startswith("%PDF-"):
            return self.event(c, i, "hdr", s)
        if lit.startswith("startxref") or s.auto in ("S0", "S1"):
            # keyword, number and end marker may be written together or one by one
            if lit.startswith("startxref"):
                s = self.event(c, i, "start", s)
            if s.auto == "S0" and (fa or lit and "{" in lit):
                s = self.event(c, i, "number", s, fa)
            if "%%EOF" in lit:
                s = self.event(c, i, "eof", s)
            return s.set(here=None)
        if lit.startswith("xref"):
            return self.event(c, i, "xref", s)
        if lit.startswith("trailer"):
            return self.event(c, i, "trailer", s)
        if ":010" in lit:
            return self.event(c, i, "entry", s)
        return self.event(c, i, "text", s)


def run(prog, ctx):
    ctx.rule("F1", "the recorded offset of an object is the position at which it starts being written")
    ctx.rule("F2", "header, objects, cross-reference section, trailer and start offset follow each other")
    ctx.rule("F3", "the start offset is the position of the cross-reference section")
    ctx.rule("F4", "offsets and generations reach the output unchanged")
    ctx.rule("F5", "an incremental update starts at the end and links to the section that was loaded")
    lib = [f for f in prog.fns.values() if f.entry is not None]
    seen = set()

    def report(rule, f, what, i, msg, it):
        k = (rule, f.usr, what, i)
        if k in seen:
            return
        seen.add(k)
        ctx.bad(rule, f.sig(), "%s: %s" % (what, f.q), f.loc(i) if i is not None else f.loc(), msg, ["cross-reference class %s, %s" % (it.cls, "incremental update" if it.inc else "full save")])
    recs, outs, ends = set(), set(), set()
    for cls in [XREF] + sorted(prog.derived(XREF)):
        for inc in (False, True):
            entries = []
            for f in sorted(lib, key=lambda f: f.q):
                if f.cls == WRITER and last(f.q) == "Write":
                    entries.append((f, "I", "E"))
                elif f.cls in prog.derived(WRITER) and not inc:
                    if f.d.get("ctor"):
                        entries.append((f, "I", "H"))
                    elif last(f.q) == "WriteObject":
                        entries.append((f, "H", "O"))
                        entries.append((f, "O", "O"))
                    elif last(f.q) == "Finish":
                        entries.append((f, "H", "E"))
                        entries.append((f, "O", "E"))
            for f, a, want in entries:
                it = Interp(prog, ctx, cls, inc, report)
                devs = frozenset("v%d:%s" % (p[0], p[1]) for p in f.params if base(f, f.ty(p[2])) in DEV)
                c = Ctx(f, 0, devs, {}, {})
                res = it.call(c, S(a))
                recs |= it.recs
                outs |= it.outs
                ends |= it.ends
                for s, v in res:
                    if s.auto != want and not (want == "E" and s.auto == "E"):
                        report("F2", f, "complete from %s" % a, -1 if False else None, "the function returns although only a part of the file structure was written", it)
                    if s.rec:
                        report("F1", f, "pending", None, "an object was recorded but never written", it)
                ctx.ok("F2", "%s as %s, %s: %d steps" % (f.sig(), cls, "incremental" if inc else "full", it.n))
    for u, i in sorted(recs, key=str):
        f = prog.fns[u]
        if not any(k[1] == u and k[3] == i for k in seen):
            ctx.ok("F1", "%s %s" % (f.sig(), f.loc(i)))
    for u, i in sorted(ends, key=str):
        f = prog.fns[u]
        if not any(k[1] == u and k[3] == i for k in seen):
            ctx.ok("F3", "%s %s" % (f.sig(), f.loc(i)))
    for u, i in sorted(outs, key=str):
        f = prog.fns[u]
        if not any(k[1] == u and k[3] == i for k in seen):
            ctx.ok("F2", "%s %s" % (f.sig(), f.loc(i)))
    # every object of every save is written where it is recorded: no other call records positions
    for f in sorted(lib, key=lambda f: f.q):
        for i in f.calls():
            if last((f.callee(i) or {}).get("q", "")) == "AddInUseObject" and (f.usr, i) not in recs and not dead(f, i):
                ctx.bad("F1", f.sig(), "record " + f.q, f.loc(i), "a position is recorded in a function that no save was seen to reach")
    entries_unchanged(prog, ctx, lib)
    updates(prog, ctx, lib)
    ctx.need("F1", 3)
    ctx.need("F2", 15)
    ctx.need("F3", 1)
    ctx.need("F4", 10)
    ctx.need("F5", 4)


def src(f, i, depth=0):
    """('param', decl) | ('member', object path, field) | ('call', name, object path) | None: a value that is passed on unchanged"""
    if i is None or i < 0 or depth > 12:
        return None
    i = f.strip(i)
    k = f.k(i)
    if k in ("Cast", "ExprWithCleanups", "MaterializeTemporaryExpr", "ParenExpr", "InitList") and len(f.kids(i)) == 1:
        return src(f, f.kids(i)[0], depth + 1)
    if k == "UnaryOperator" and f.x(i)["op"] == "*":
        return src(f, f.kids(i)[0], depth + 1)
    if k == "Construct" and len(f.args(i)) == 1:
        return src(f, f.args(i)[0], depth + 1)
    if k == "DeclRefExpr":
        d = f.x(i)["d"]
        if f.tab.decls[d]["k"] == "parm":
            return ("param", d)
        v = [y for y in var_inits(f).get(d, []) if y is not None]
        if len(v) == 1 and not assigned_later(f, d):
            return src(f, v[0], depth + 1)
        return None
    if k == "MemberExpr":
        o = f.kids(i)[0] if f.kids(i) else -1
        return ("member", canon(f, o), last((f.decl(i) or {}).get("q", "")))
    if k == "Call":
        c = f.callee(i) or {}
        nm = last(c.get("q", ""))
        if nm in ("value", "operator*", "ByteSwap", "move", "forward", "GetRawValue") or nm.startswith("operator ") and not f.args(i):
            return src(f, f.args(i)[0] if f.args(i) else f.obj(i), depth + 1)
        if f.obj(i) >= 0 and not f.args(i):
            return ("call", nm, canon(f, f.obj(i)))
    return None


def assigned_later(f, d):
    for i in range(len(f.nodes)):
        if f.k(i) in ("BinaryOperator", "CompoundAssign") and f.x(i)["op"].endswith("=") and f.x(i)["op"] not in ("==", "!=", "<=", ">="):
            l = f.strip(f.kids(i)[0])
            if f.k(l) == "DeclRefExpr" and f.x(l)["d"] == d:
                return True
        if f.k(i) == "UnaryOperator" and f.x(i)["op"] in ("++", "--", "p++", "p--"):
            l = f.strip(f.kids(i)[0])
            if f.k(l) == "DeclRefExpr" and f.x(l)["d"] == d:
                return True
    return False


def canon(f, i, depth=0):
    """a name for the object that an expression denotes: references and single-valued locals are resolved"""
    if i is None or i < 0 or depth > 10:
        return None
    i = f.strip(i)
    k = f.k(i)
    if k == "UnaryOperator" and f.x(i)["op"] in ("*", "&"):
        return canon(f, f.kids(i)[0], depth + 1)
    if k == "Call" and (f.callee(i) or {}).get("oo") in ("->", "*") and (f.obj(i) >= 0 or f.args(i)):
        return canon(f, f.obj(i) if f.obj(i) >= 0 else f.args(i)[0], depth + 1)
    if k == "DeclRefExpr":
        d = f.x(i)["d"]
        t = f.type(i) or {}
        v = [y for y in var_inits(f).get(d, []) if y is not None]
        if f.tab.decls[d]["k"] == "var" and len(v) == 1 and not assigned_later(f, d) and f.ty(f.tab.decls[d]["t"]).get("k") in ("ref", "rref", "ptr"):
            r = canon(f, v[0], depth + 1)
            if r:
                return r
        return "v%d" % d
    if k == "MemberExpr":
        b = canon(f, f.kids(i)[0] if f.kids(i) else -1, depth + 1)
        n = last((f.decl(i) or {}).get("q", ""))
        return "%s.%s" % (b, n) if n and not n.startswith("(") else b
    if k == "This":
        return "this"
    if k == "Construct" and len(f.args(i)) == 1:
        return canon(f, f.args(i)[0], depth + 1)
    if k == "Cast" and f.kids(i):
        return canon(f, f.kids(i)[0], depth + 1)
    return None


def is_offset(f, t):
    b = base(f, t)
    return "nullable<unsigned long" in b or b in ("unsigned long", "unsigned long long")


def narrowed(f, i, depth=0):
    """a cast of i to fewer bits that no comparison limits"""
    st = [i]
    while st:
        j = st.pop()
        if j is None or j < 0:
            continue
        if f.k(j) == "Cast" and f.kids(j):
            a, b = bits(f.type(f.kids(j)[0])), bits(f.type(j))
            if a and b and b < a and a == 64 and not limited(f, j):
                return j
        if f.k(j) == "Call":
            st += f.args(j)
        else:
            st += f.kids(j)
    return None


def limited(f, j):
    me = {canon(f, x) for x in f.subtree(j) if x >= 0 and f.k(x) in ("MemberExpr", "DeclRefExpr")} - {None}
    for cc, t in conds_at(f, j):
        cc = f.strip(cc) if isinstance(cc, int) else -1
        if cc >= 0 and isinstance(t, bool) and f.k(cc) == "BinaryOperator" and f.x(cc)["op"] in ("<", "<=", ">", ">="):
            for x in f.subtree(cc):
                if x >= 0 and f.k(x) in ("MemberExpr", "DeclRefExpr") and canon(f, x) in me:
                    return True
    return False


def entries_unchanged(prog, ctx, lib):
    fam = [XREF] + sorted(prog.derived(XREF))
    own = [q for q in prog.recs if q.startswith(tuple(x + "::" for x in fam))]
    IT = XREF + "::XRefItem"
    for f in sorted(lib, key=lambda f: f.q):
        if f.cls not in fam and f.cls not in own and not f.q.startswith("mm::PdfXRefEntry"):
            continue
        # what is handed on is what came in
        for i in f.calls():
            c = f.callee(i)
            if not c or dead(f, i) or c["q"].startswith("std::"):
                continue
            g = prog.fns.get(c.get("u"))
            item = c["q"].endswith("XRefItem::XRefItem") and len(f.args(i)) == 2
            hand = last(c["q"]) in ("addObject", "InsertItem") or item or g is not None and (g.cls in fam or g.cls in own) and any(base(g, g.ty(p[2])).find("nullable<unsigned long") >= 0 for p in g.params)
            if hand and len(f.args(i)) >= 2 and (f.cls in fam or f.cls in own):
                for n, t in enumerate(c.get("p", [])):
                    if n >= len(f.args(i)) or not is_offset(f, f.ty(t)):
                        continue
                    a = f.args(i)[n]
                    r = src(f, a)
                    null = f.k(f.strip(a)) in ("CXXNullPtrLiteralExpr",) or any(f.k(x) == "CXXNullPtrLiteralExpr" for x in f.subtree(a) if x >= 0) or f.k(f.strip(a)) == "Construct" and not f.args(f.strip(a))
                    ctx.check("F4", null or r is not None and r[0] == "param", f.sig(), "hands the offset on to " + c["q"], f.loc(i), "the recorded offset is not passed on unchanged")
                    if r and r[0] == "param":
                        ref = [src(f, f.args(i)[m]) for m, t2 in enumerate(c.get("p", [])) if base(f, f.ty(t2)) == "mm::PdfReference" and m < len(f.args(i))]
                        ctx.check("F4", all(x and x[0] == "param" for x in ref), f.sig(), "hands the reference on to " + c["q"], f.loc(i), "the offset is stored for another object than the one it was recorded for")
            if c["q"] == "mm::PdfXRefEntry::CreateInUse" and len(f.args(i)) == 2:
                a, b = src(f, f.args(i)[0]), src(f, f.args(i)[1])
                ok = a and b and a[0] == "member" and a[2] == "Offset" and b[0] == "call" and b[1] == "GenerationNumber" and a[1] and b[2] == a[1] + ".Reference"
                ctx.check("F4", bool(ok), f.sig(), "builds an entry from one item", f.loc(i), "the entry does not have the offset and the generation of one and the same object")
                if ok:
                    w = [j for j in f.calls() if last((f.callee(j) or {}).get("q", "")) == "WriteXRefEntry" and i in closure(f, j)]
                    for j in w:
                        refs = [canon(f, y) for y in f.args(j) if base(f, f.type(f.strip(y))) == "mm::PdfReference"]
                        ctx.check("F4", all(r == a[1] + ".Reference" for r in refs), f.sig(), "writes the entry of the object", f.loc(j), "the entry is written for another object")
        # constructors and factories of items and entries store their parameters
        if f.q in (IT + "::XRefItem",) and len(f.params) == 2 or f.q in ("mm::PdfXRefEntry::CreateInUse",):
            st = {}
            for b in f.blocks.values():
                for e in b["e"]:
                    if isinstance(e, list) and e[0] == "init" and e[1]:
                        st[last(e[1])] = src(f, e[2])
                    elif isinstance(e, int) and f.k(e) == "BinaryOperator" and f.x(e)["op"] == "=" and f.k(f.strip(f.kids(e)[0])) == "MemberExpr":
                        st[last((f.decl(f.strip(f.kids(e)[0])) or {}).get("q", ""))] = src(f, f.kids(e)[1])
                    elif isinstance(e, int) and f.k(e) == "Call" and (f.callee(e) or {}).get("oo") == "=" and f.obj(e) >= 0 and f.k(f.strip(f.obj(e))) == "MemberExpr":
                        st[last((f.decl(f.strip(f.obj(e))) or {}).get("q", ""))] = src(f, f.args(e)[0])
            want = {"Reference": 0, "Offset": 1} if f.q.endswith("XRefItem") else {"Offset": 0, "Generation": 1}
            for n, ix in sorted(want.items()):
                ctx.check("F4", st.get(n) == ("param", f.params[ix][0]), f.sig(), "stores " + n, f.loc(), "%s is not stored as it was given" % n)
        # the text and the binary form of an entry
        if last(f.q) == "WriteXRefEntry":
            ent = [p for p in f.params if base(f, f.ty(p[2])) == "mm::PdfXRefEntry"]
            if not ent:
                continue
            inuse = dict(prog.enum("mm::XRefEntryType")["c"]).get("InUse")
            got = []
            for e in range(len(f.nodes)):
                if e not in f.where:
                    continue
                vals = []
                if f.k(e) == "BinaryOperator" and f.x(e)["op"] == "=":
                    vals = [(f.strip(f.kids(e)[0]), v) for v in choices(f, f.kids(e)[1])]
                elif f.k(e) == "DeclStmt":
                    vals = [(d, v) for d, ini in f.x(e)["vars"] if ini is not None and ini >= 0 for v in choices(f, ini)]
                for l, v in vals:
                    l = f.x(l)["d"] if f.k(e) != "DeclStmt" and f.k(l) == "DeclRefExpr" else l if f.k(e) == "DeclStmt" else None
                    r = src(f, v)
                    if r and r[0] == "member" and r[1] == "v%d" % ent[0][0] and r[2] in ("Offset", "ObjectNumber"):
                        got.append((v if v in f.where else e, l, r[2]))
                        bad = (narrowed(f, v) if v in f.where else None) or (narrowed(f, f.kids(e)[1]) if f.k(e) != "DeclStmt" else narrowed(f, [i for d, i in f.x(e)["vars"] if d == l][0])) if r[2] == "Offset" else None
                        ctx.check("F4", bad is None, f.sig(), "the whole %s is written" % r[2], f.loc(e), "the offset of the entry is cut to a smaller type")
            offs = [g for g in got if g[2] == "Offset"]
            ctx.check("F4", bool(offs), f.sig(), "offset of entries in use", f.loc(), "the offset of the entry is not written")
            for e, l, n in got:
                lab = case_of(f, e)
                if lab is not None:
                    ctx.check("F4", (n == "Offset") == (lab == inuse), f.sig(), "kind of entry", f.loc(e), "the entry has the wrong kind of value")
            for i in f.calls():
                if last((f.callee(i) or {}).get("q", "")) == "FormatTo" and len(f.args(i)) == 5:
                    lit = [f.x(x)["s"] for x in f.subtree(f.args(i)[1]) if x >= 0 and f.k(x) == "StringLiteral"] or [""]
                    ctx.check("F4", lit[0] in ("{:010d} {:05d} {} \n", "{:010} {:05} {} \n", "{:010d} {:05d} {}\r\n", "{:010d} {:05d} {} \r"), f.sig(), "format of an entry", f.loc(i), "an entry must have exactly 20 bytes: ten digits, five digits, the kind and a line end of two bytes")
                    a = f.strip(f.args(i)[2])
                    while f.k(a) in ("Cast",) or f.k(a) == "Call" and f.args(a) and last((f.callee(a) or {}).get("q", "")) in ("forward", "move"):
                        a = f.strip(f.kids(a)[0] if f.k(a) == "Cast" else f.args(a)[0])
                    g = src(f, f.args(i)[3])
                    ctx.check("F4", any(l is not None and f.k(a) == "DeclRefExpr" and l == f.x(a)["d"] for e, l, n in offs) or src(f, a) == ("member", "v%d" % ent[0][0], "Offset"), f.sig(), "the offset is the first number", f.loc(i), "the first number of the entry is not its offset")
                    ctx.check("F4", g is not None and g == ("member", "v%d" % ent[0][0], "Generation"), f.sig(), "the generation is the second number", f.loc(i), "the second number of the entry is not its generation")


def choices(f, i):
    """the alternatives of conditional expressions"""
    i = f.strip(i)
    if f.k(i) == "ConditionalOperator":
        return choices(f, f.kids(i)[1]) + choices(f, f.kids(i)[2])
    if f.k(i) == "Call" and f.args(i) and last((f.callee(i) or {}).get("q", "")) == "ByteSwap":
        return choices(f, f.args(i)[0])
    if f.k(i) == "Cast" and f.kids(i):
        return choices(f, f.kids(i)[0])
    return [i]


def closure(f, j):
    out, st = set(), [j]
    while st:
        x = st.pop()
        if x is None or x < 0 or x in out:
            continue
        out.add(x)
        st += list(f.kids(x))
        if f.k(x) in ("Call", "Construct"):
            st += f.args(x)
        if f.k(x) == "DeclRefExpr":
            st += [v for v in var_inits(f).get(f.x(x)["d"], []) if v is not None]
    return out


def case_of(f, e):
    """the value of the case label or comparison under which e runs"""
    for cc, t in conds_at(f, e):
        if isinstance(t, bool) and isinstance(cc, int):
            c = f.strip(cc)
            if f.k(c) == "BinaryOperator" and f.x(c)["op"] in ("==", "!=") and (f.x(c)["op"] == "==") == t:
                for k in f.kids(c):
                    if f.cv(f.strip(k)) is not None:
                        return f.cv(f.strip(k))
        elif not isinstance(t, bool) and isinstance(t, (list, tuple)) and len(t) == 2 and t[0] == "case":
            return f.x(t[1]).get("cv") if f.k(t[1]) == "CaseStmt" else None
    b = f.where[e][0]
    for _ in range(4):
        lab = f.blocks[b].get("lab")
        if lab is not None and lab >= 0 and f.k(lab) == "CaseStmt":
            return f.x(lab).get("cv")
        ps = [p for p in f.preds.get(b, ())]
        if len(ps) != 1:
            return None
        b = ps[0] if not isinstance(ps[0], (list, tuple)) else ps[0][0]
    return None


def updates(prog, ctx, lib):
    append = dict(prog.enum("mm::FileMode")["c"]).get("Append")
    end = dict(prog.enum("mm::SeekDirection")["c"]).get("End")
    upd = set()
    for f in sorted(lib, key=lambda f: f.q):
        if not any((f.callee(i) or {}).get("q") == WRITER + "::SetIncrementalUpdate" for i in f.calls()):
            continue
        upd.add(f.q)

        def isdev(g, i):
            t = base(g, g.type(g.strip(i)))
            return t in DEV or t in prog.derived("mm::OutputStream")

        def gen(g, e):
            if not isinstance(e, int) or g.k(e) != "Call" or not g.callee(e):
                return ()
            c, a = g.callee(e), g.args(e)
            if last(c["q"]) == "Seek" and g.obj(e) >= 0 and isdev(g, g.obj(e)) and len(a) == 2 and g.cv(g.strip(a[0])) == 0 and g.cv(g.strip(a[1])) == end:
                return ["end"]
            if c["q"] == WRITER + "::SetIncrementalUpdate":
                return ["inc"]
            if c["q"] == WRITER + "::SetPrevXRefOffset":
                r = src(g, a[0])
                return ["prev"] if r and r[0] == "member" and r[2] == "m_PrevXRefOffset" or r and r[0] == "param" and g.usr != f.usr else ()
            h = prog.fns.get(c.get("u"))
            if h is not None and h.entry is not None and h.usr != f.usr and h.file == f.file and c["q"] != WRITER + "::Write" and depth[0] < 3:
                depth[0] += 1
                try:
                    return Must_exit(h, gen, kill)
                finally:
                    depth[0] -= 1
            return ()

        def kill(g, e, fact):
            if fact != "end" or not isinstance(e, int) or g.k(e) != "Call":
                return False
            c = g.callee(e) or {}
            if gen(g, e):
                return False
            if g.obj(e) >= 0 and isdev(g, g.obj(e)):
                return last(c.get("q", "")) not in ("GetPosition", "GetLength", "Flush", "Eof", "CanSeek", "Peek")
            return any(isdev(g, a) for a in g.args(e)) and c.get("q") != WRITER + "::Write"
        depth = [0]
        st = states_of(Must(f, gen, kill))
        for i in f.calls():
            if (f.callee(i) or {}).get("q") == WRITER + "::Write" and not dead(f, i):
                s = st.get(f.where.get(i), ())
                ctx.check("F5", "end" in s, f.sig(), "starts at the end", f.loc(i), "the update is not written at the end of the existing file")
                ctx.check("F5", "prev" in s, f.sig(), "links to the loaded section", f.loc(i), "the update does not get the offset of the cross-reference section that was loaded")
                ctx.check("F5", "inc" in s, f.sig(), "is incremental", f.loc(i), "the update is written like a full document")
    for f in sorted(lib, key=lambda f: f.q):
        # files that are updated keep their content
        for i in f.calls():
            c = f.callee(i) or {}
            if c.get("q") in upd and any(base(f, f.ty(t)) in DEV for t in c.get("p", [])):
                for a in f.args(i):
                    a = f.strip(a)
                    if f.k(a) == "DeclRefExpr" and base(f, f.type(a)) == "mm::FileStreamDevice":
                        for v in var_inits(f).get(f.x(a)["d"], []):
                            if v is not None and f.k(f.strip(v)) == "Construct":
                                m = [f.cv(f.strip(y)) for y in f.args(f.strip(v)) if (f.type(f.strip(y)) or {}).get("k") == "enum"]
                                ctx.check("F5", append in m, f.sig(), "appends to the file", f.loc(i), "the file that is updated is opened in a way that discards or overwrites its content")
        # the offset of the loaded section
        for i in range(len(f.nodes)):
            if f.k(i) == "BinaryOperator" and f.x(i)["op"] == "=" and f.k(f.strip(f.kids(i)[0])) == "MemberExpr" and (f.decl(f.strip(f.kids(i)[0])) or {}).get("q", "").endswith("::m_PrevXRefOffset"):
                r = src(f, f.kids(i)[1])
                ok = f.cv(f.strip(f.kids(i)[1])) is not None or r and (r[0] == "call" and r[1] in ("GetXRefOffset", "GetPrevXRefOffset") or r[0] == "param" or r[0] == "member" and r[2] == "m_PrevXRefOffset")
                ctx.check("F5", bool(ok), f.sig(), "keeps the offset of the loaded section", f.loc(i), "the offset that the update links to is not the one of the section that was loaded")
        if last(f.q) == "FillTrailerObject" and f.cls == WRITER:
            adds = [i for i in f.calls() if last((f.callee(i) or {}).get("q", "")).startswith("AddKey") and any(f.x(x).get("s") == "Prev" for x in closure(f, f.args(i)[0]) if f.k(x) == "StringLiteral")]
            ok = False
            for i in adds:
                val = any(f.k(x) == "MemberExpr" and last((f.decl(x) or {}).get("q", "")) == "m_PrevXRefOffset" for x in closure(f, f.args(i)[1]))
                free = all(cond_ok(f, cc) for cc, t in conds_at(f, i) if isinstance(cc, int))
                ok = ok or val and free
            ctx.check("F5", ok, f.sig(), "the trailer links to the previous section", f.loc(adds[0]) if adds else f.loc(), "an update does not link to the previous cross-reference section")


def cond_ok(f, cc):
    names = {last((f.decl(x) or {}).get("q", "")) for x in closure(f, cc) if f.k(x) == "MemberExpr"}
    calls = [x for x in closure(f, cc) if f.k(x) == "Call"]
    return names <= {"m_PrevXRefOffset", "m_rewriteXRefTable", "m_IncrementalUpdate"} and not calls


def Must_exit(h, gen, kill):
    from C10 import Must as M10
    m = M10(h, gen, kill)
    m.run()
    return list(m.out_at_exit() or ())
