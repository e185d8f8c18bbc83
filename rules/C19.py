"""C19: emitted content streams are well-formed.

Abstract interpretation of the text that a function writes into a content stream.  The
literals are taken from the syntax tree and lexed; numbers, escaped names and
encoded strings are symbolic tokens; private helpers are followed; branches on
parameters, locals and the text-mode flag are kept correlated."""
import collections, re
from model import AnalysisError
from exc import Exc

ASSUMPTIONS = [
    "Numbers are finite and PdfStringStream prints a number as one token without exponent (utls::FormatTo).",
    "The text of a caller-supplied dash pattern is a valid array and phase.",
]
TXT = "mm::PdfPainter::m_isTextOpen"
STREAMS = ("mm::PdfStringStream",)
NUM, ESC, DYN, OPQ = "\x01", "\x02", "\x03", "\x04"     # number, escaped name text, unescaped dynamic text, opaque content
FLT = "\x05"                                           # number with a fraction
HEX = "\x06"

PATH = {"m": "nn", "l": "nn", "c": "nnnnnn", "v": "nnnn", "y": "nnnn", "h": "", "re": "nnnn"}
PAINT = {o: "" for o in ("S", "s", "f", "F", "f*", "B", "B*", "b", "b*", "n")}
CLIP = {"W": "", "W*": ""}
SPECIAL = {"q": "", "Q": "", "cm": "nnnnnn"}
GEN = {"w": "n", "J": "i", "j": "i", "M": "n", "d": "D", "ri": "N", "i": "n", "gs": "N"}
COLOR = {"CS": "N", "cs": "N", "G": "n", "g": "n", "RG": "nnn", "rg": "nnn", "K": "nnnn", "k": "nnnn",
         "SC": "+", "sc": "+", "SCN": "*", "scn": "*"}
TSTATE = {"Tc": "n", "Tw": "n", "Tz": "n", "TL": "n", "Tf": "Nn", "Tr": "i", "Ts": "n"}
TSHOW = {"Td": "nn", "TD": "nn", "Tm": "nnnnnn", "T*": "", "Tj": "S", "TJ": "A", "'": "S", '"': "nnS"}
TOBJ = {"BT": "", "ET": ""}
MARK = {"MP": "N", "DP": "Np", "BMC": "N", "BDC": "Np", "EMC": ""}
OTHER = {"sh": "N", "Do": "N"}
OPS = {}
for _t in (PATH, PAINT, CLIP, SPECIAL, GEN, COLOR, TSTATE, TSHOW, TOBJ, MARK, OTHER):
    OPS.update(_t)
COMPS = {"DeviceRGB": 3, "DeviceCMYK": 4, "DeviceGray": 1, "Separation": 1, "Lab": 3}
DEVOP = {"rg": "DeviceRGB", "RG": "DeviceRGB", "k": "DeviceCMYK", "K": "DeviceCMYK", "g": "DeviceGray", "G": "DeviceGray"}
NETS = {"mm::PdfPainter::Save": ((), ("q",)), "mm::PdfPainter::Restore": (("Q",), ()),
        "mm::PdfPainter::BeginText": ((), ("BT",)), "mm::PdfPainter::EndText": (("ET",), ()),
        "mm::PdfPainter::BeginMarkedContext": ((), ("BMC",)), "mm::PdfPainter::EndMarkedContext": (("EMC",), ())}
CLOSES = {"Q": ("q",), "ET": ("BT",), "EMC": ("BMC", "BDC")}
WS = " \t\r\n\f\0"

# text already lexed for one sink
Sink = collections.namedtuple("Sink", "tok ops under nest path hist lead")
# names are valid since they were created, so printing one does not fail
TOTAL = ("mm::PdfName::GetEscapedName",)
EMPTY = Sink("", (), (), (), "?", (), "")
State = collections.namedtuple("State", "sinks env")


def fmt(s):
    return "".join({NUM: "<int>", FLT: "<num>", ESC: "<name>", DYN: "<text>", OPQ: "<content>", HEX: "<hex>"}.get(c, c) for c in s)


class Interp:
    def __init__(self, prog, ctx, ex):
        self.prog, self.ctx, self.ex = prog, ctx, ex
        self.memo, self.found, self.ops_seen = {}, {}, collections.Counter()
        self.emis = collections.Counter()
        self.stack = []
        self.cnt = {}
        self.rel = self.relevant()

    # ---- which functions matter
    def is_stream(self, t):
        return bool(t) and (t.get("r") in STREAMS or "ostringstream" in t.get("c", "") or "outstringstream" in t.get("c", ""))

    def base_t(self, f, t):
        while t and t["k"] in ("ref", "rref", "ptr"):
            t = f.ty(t["e"])
        return t

    def relevant(self):
        out = set()
        for u, f in self.prog.fns.items():
            for i in range(len(f.nodes)):
                if f.k(i) == "MemberExpr":
                    d = f.decl(i)
                    if d and d.get("q") in (TXT, "mm::PdfPainter::m_tmpStream"):
                        out.add(u)
                        break
            else:
                for d in f.params:
                    t = f.ty(d[2])
                    if t and t["k"] == "ref":
                        b = self.base_t(f, t)
                        if self.is_stream(b):
                            out.add(u)
                        elif b and b.get("r") in ("mm::OutputStream", "mm::OutputStreamDevice") and f.file.endswith(("PdfFont.cpp", "PdfPainter.cpp", "PdfContents.cpp")):
                            out.add(u)
        ch = True
        while ch:
            ch = False
            for u in list(out):
                for c in self.prog.callers.get(u, ()):
                    if c not in out and self.prog.fns[c].cls == "mm::PdfPainter":
                        out.add(c)
                        ch = True
        return out

    def bad(self, rule, f, node, msg):
        key = (rule, f.usr, node, msg)
        if key not in self.found:
            self.found[key] = [g.q.split("::")[-1] for g in self.stack]

    # ---- keys of the environment
    def key(self, f, i, env):
        i = f.strip(i)
        if i is None or i < 0:
            return None
        k = f.k(i)
        if k == "DeclRefExpr" or k == "MemberExpr":
            p = f.path(i)
            if p and (p.startswith("v") or p.startswith("this.")):
                return self.pkey(f, p)
        if k == "Call" and not f.args(i):
            c = f.callee(i)
            if c and c.get("oo") is None and f.obj(i) >= 0:
                # a query on an unchanged object
                p = self.key(f, f.obj(i), env) or (self.pkey(f, f.path(f.obj(i))) if f.path(f.obj(i)) else None)
                g = self.prog.fns.get(c["u"])
                if p and (g is None or g.d.get("cm") or g.d.get("cst")):
                    return p + "." + c["q"].split("::")[-1] + "()"
            if c and c.get("oo") in ("->", "*") and f.obj(i) >= 0:
                return self.key(f, f.obj(i), env)
        if k == "UnaryOperator" and f.x(i)["op"] == "*":
            return self.key(f, f.kids(i)[0], env)
        return None

    def pkey(self, f, p):
        if p.startswith("this"):
            return p
        return f.usr + "|" + p

    # ---- values: constants of a key
    def dom(self, env, k):
        return env.get(k)

    def restrict(self, env, k, truth, v):
        """env with (k == v) being truth, or None"""
        d = env.get(k)
        if d is not None and d[0] == "in":
            n = {x for x in d[1] if (x == v) == truth}
            if not n:
                return None
            e = dict(env); e[k] = ("in", frozenset(n)); return e
        if d is not None and d[0] == "ne":
            if truth and v in d[1]:
                return None
            e = dict(env); e[k] = ("in", frozenset([v])) if truth else ("ne", d[1] | {v}); return e
        e = dict(env)
        e[k] = ("in", frozenset([v])) if truth else ("ne", frozenset([v]))
        if d is not None:
            return env
        return e

    def is_bool(self, f, i):
        t = f.type(i)
        return bool(t) and t["k"] == "bool"

    def counter(self, f, i):
        """(key, bound) when i compares the counter of a for loop with a small constant"""
        l, r = f.kids(i)[:2]
        v = f.cv(f.strip(r)) if f.cv(r) is None else f.cv(r)
        p = f.path(f.strip(l))
        if v is None or not 0 <= v <= 32 or not p or not p.startswith("v"):
            return None
        return (self.pkey(f, p), v) if self.pkey(f, p) in self.counters(f) else None

    def counters(self, f):
        if f.usr not in self.cnt:
            out = set()
            for n in range(len(f.nodes)):
                if f.k(n) == "ForStmt" and f.x(n).get("cond", -1) >= 0 and f.x(n).get("inc", -1) >= 0:
                    c, inc = f.strip(f.x(n)["cond"]), f.strip(f.x(n)["inc"])
                    if f.k(c) == "BinaryOperator" and f.k(inc) == "UnaryOperator" and f.x(inc)["op"] in ("++", "--", "p++", "p--"):
                        v = f.cv(f.strip(f.kids(c)[1]))
                        p = f.path(f.strip(f.kids(inc)[0]))
                        if v is not None and 0 <= v <= 32 and p:
                            out.add(self.pkey(f, p))
            self.cnt[f.usr] = out
        return self.cnt[f.usr]

    def extent(self, f, ts):
        """number of iterations of a loop over an array that is not left early"""
        if ts is None or ts < 0 or f.x(ts).get("range") is None:
            return None
        if any(f.k(n) in ("BreakStmt", "GotoStmt") for n in f.subtree(ts)):
            return None
        t = f.type(f.strip(f.x(ts)["range"]))
        while t and t["k"] in ("ref", "rref"):
            t = f.ty(t["e"])
        m = t and re.search(r"\[(\d+)\]$", t.get("c", ""))
        return int(m.group(1)) if m and int(m.group(1)) <= 32 else None

    def branch(self, f, i, env, depth=0):
        """[(truth, env)]"""
        if i is None or i < 0 or depth > 12:
            return [(True, env), (False, env)]
        k, x = f.k(i), f.x(i)
        cv = f.cv(i)
        if cv is not None:
            return [(bool(cv), env)]
        if k == "Cast":
            return self.branch(f, f.kids(i)[0], env, depth + 1)
        if k == "UnaryOperator" and x["op"] == "!":
            return [(not t, e) for t, e in self.branch(f, f.kids(i)[0], env, depth + 1)]
        if k == "BinaryOperator" and x["op"] in ("&&", "||"):
            out = []
            for t, e in self.branch(f, f.kids(i)[0], env, depth + 1):
                if t == (x["op"] == "||"):
                    out.append((t, e))
                else:
                    out += self.branch(f, f.kids(i)[1], e, depth + 1)
            return out
        if k == "ConditionalOperator":
            out = []
            ks = f.kids(i)
            for t, e in self.branch(f, ks[0], env, depth + 1):
                out += self.branch(f, ks[1] if t else ks[2], e, depth + 1)
            return out
        if k == "BinaryOperator" and x["op"] in ("<", ">", "<=", ">=", "!=") and self.counter(f, i):
            kk, bound = self.counter(f, i)
            d = env.get(kk)
            if d is not None and d[0] == "in" and len(d[1]) == 1:
                v = next(iter(d[1]))
                return [({"<": v < bound, ">": v > bound, "<=": v <= bound, ">=": v >= bound, "!=": v != bound}[x["op"]], env)]
        if k == "BinaryOperator" and x["op"] in ("<", ">", "<=", ">="):
            # comparisons of a size that only tell zero from the rest
            a, b = f.kids(i)
            for l, r, op in ((a, b, x["op"]), (b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[x["op"]])):
                v = f.cv(f.strip(r)) if f.cv(r) is None else f.cv(r)
                kk = self.key(f, l, env)
                if kk and (op, v) in ((">", 0), (">=", 1), ("<", 1), ("<=", 0)) and kk.endswith(("size()", "GetLength()", "length()")):
                    out = []
                    for t in (True, False):
                        e = self.restrict(env, kk, t, 0)
                        if e is not None:
                            out.append((t == (op in ("<", "<=")), e))
                    return out
            return [(True, env), (False, env)]
        if k == "BinaryOperator" and x["op"] in ("==", "!="):
            a, b = f.kids(i)
            for l, r in ((a, b), (b, a)):
                v = f.cv(f.strip(r))
                if v is None:
                    v = f.cv(r)
                if v is None and f.k(f.strip(r)) == "CXXNullPtrLiteralExpr":
                    v = 0
                if v is not None and self.is_bool(f, f.strip(l)) and self.key(f, l, env) is None:
                    return [((t == bool(v)) == (x["op"] == "=="), e) for t, e in self.branch(f, l, env, depth + 1)]
                kk = self.key(f, l, env)
                if v is not None and kk:
                    out = []
                    for t in (True, False):
                        e = self.restrict(env, kk, t, v)
                        if e is not None:
                            out.append((t == (x["op"] == "=="), e))
                    return out
            return [(True, env), (False, env)]
        if k == "Call":
            c = f.callee(i)
            g = c and self.prog.fns.get(c["u"])
            if g is not None and g.usr not in self.rel:
                r = self.inline_pred(f, i, g, env, depth)
                if r is not None:
                    return r
        kk = self.key(f, i, env)
        if kk:
            out = []
            d = env.get(kk)
            if d is not None and d[0] == "in" and all(isinstance(v, int) for v in d[1]):
                for t in (True, False):
                    n = frozenset(v for v in d[1] if bool(v) == t)
                    if n:
                        e = dict(env); e[kk] = ("in", n); out.append((t, e))
                return out
            if d is not None and d[0] == "ne":
                e0 = dict(env); e0[kk] = ("in", frozenset([0]))
                return ([] if 0 in d[1] else [(False, e0)]) + [(True, env)]
            if d is None or d[0] in ("in", "ne"):
                e1 = dict(env); e0 = dict(env)
                e1[kk] = ("in", frozenset([1])) if self.is_bool(f, f.strip(i)) else ("ne", frozenset([0]))
                e0[kk] = ("in", frozenset([0]))
                return [(True, e1), (False, e0)]
        return [(True, env), (False, env)]

    def inline_pred(self, f, i, g, env, depth):
        """a helper that only returns an expression of its parameters"""
        if f.obj(i) >= 0 and f.k(f.strip(f.obj(i))) != "This":
            return None
        rets = [n for n in range(len(g.nodes)) if g.k(n) == "ReturnStmt"]
        if len(rets) != 1 or not g.kids(rets[0]) or any(g.k(n) in ("IfStmt", "SwitchStmt", "ForStmt", "WhileStmt", "DoStmt", "DeclStmt", "BinaryOperator") and not (g.k(n) == "BinaryOperator" and g.x(n)["op"] in ("==", "!=", "&&", "||", "<", ">", "<=", ">=")) for n in range(len(g.nodes))):
            return None
        m = {}
        e2 = dict(env)
        for p, a in zip(g.params, f.args(i)):
            pk = self.pkey(g, "v%d:%s" % (p[0], p[1]))
            ak = self.key(f, a, env)
            v = f.cv(f.strip(a)) if f.cv(a) is None else f.cv(a)
            if v is not None:
                e2[pk] = ("in", frozenset([v]))
            elif ak:
                m[pk] = ak
                if ak in env:
                    e2[pk] = env[ak]
        out = []
        for t, e in self.branch(g, g.kids(rets[0])[0], e2, depth + 1):
            r = dict(env)
            for k, v in e.items():
                if k in m:
                    r[m[k]] = v
                elif not k.startswith(g.usr + "|"):
                    r[k] = v
            out.append((t, r))
        return out

    # ---- items: what an expression prints; list of alternatives, each (text, env)
    def items(self, f, i, env, depth=0):
        if i is None or i < 0 or depth > 20:
            return [(DYN, env)]
        k, x = f.k(i), f.x(i)
        if k == "StringLiteral":
            return [(x.get("s", ""), env)]
        t = f.type(i)
        while t and t["k"] in ("ref", "rref"):
            t = f.ty(t["e"])
        if k == "CharacterLiteral":
            return [(chr(f.cv(i) & 255), env)]
        if k in ("Cast", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ParenExpr"):
            if t and t["k"] in ("int", "enum", "bool", "float", "char") and k == "Cast":
                pass
            else:
                return self.items(f, f.kids(i)[0], env, depth + 1)
        kk = self.key(f, i, env)
        if kk and kk in env and env[kk][0] == "item":
            return [(env[kk][1], env)]
        if k == "ConditionalOperator":
            out = []
            ks = f.kids(i)
            for tr, e in self.branch(f, ks[0], env):
                out += self.items(f, ks[1] if tr else ks[2], e, depth + 1)
            return out
        tk = (t or {}).get("k")
        ts = (t or {}).get("c", "").replace("const ", "")
        if tk == "float" or ts in ("double", "float", "long double"):
            return [(FLT, env)]
        if ts in ("char", "signed char", "unsigned char"):
            v = f.cv(i)
            if v is not None:
                return [(chr(v & 255), env)]
            return [(DYN, env)]
        if tk in ("int", "enum", "bool") or ts in ("int", "unsigned int", "long", "unsigned long", "short", "unsigned short", "bool"):
            return [(NUM, env)]
        if k == "DeclRefExpr":
            d = f.decl(i)
            if d and d["q"].split("::")[-1] == "endl" or d and d["q"] == "endl":
                return [("\n", env)]
            if d:
                v = self.prog.vars.get(d.get("u"))
                if v and isinstance(v.get("val"), dict) and "s" in v["val"]:
                    return [(v["val"]["s"], env)]
        if k == "Construct":
            a = f.args(i)
            if a and all(f.k(n) == "CXXDefaultArgExpr" for n in a[1:]):
                return self.items(f, a[0], env, depth + 1)
            if not a:
                return [("", env)]
        if k == "Call":
            c = f.callee(i)
            q = (c or {}).get("q", "")
            if q == "mm::PdfName::GetEscapedName":
                return [(ESC, env)]
            if q.endswith("std::endl") or q.startswith("std::endl"):
                return [("\n", env)]
            if q.startswith("std::") and q.split("::")[-1].startswith("to_string"):
                tt = self.base_t(f, f.type(f.strip(f.args(i)[0])))
                return [((FLT if tt and tt["k"] == "float" else NUM), env)]
            if (c or {}).get("oo") == "+":
                ops = ([f.obj(i)] if f.obj(i) >= 0 else []) + f.args(i)
                out = [("", env)]
                for o in ops:
                    out = [(s + s2, e2) for s, e in out for s2, e2 in self.items(f, o, e, depth + 1)]
                return out
            if q.split("::")[-1] in ("GetString", "str", "TakeString", "take_str") and f.obj(i) >= 0:
                s = self.sink_of(f, f.obj(i), env)
                if s:
                    return [(("sink", s), env)]
            if f.obj(i) >= 0 and (re.match(r"std::.*basic_string.*::(c_str|data)$", q) or "::operator " in q and "basic_string_view" in q):
                return self.items(f, f.obj(i), env, depth + 1)
        if kk and kk in env and env[kk][0] == "content":
            return [(OPQ + env[kk][1], env)]
        return [(DYN, env)]

    # ---- sinks
    def sink_of(self, f, i, env):
        i = f.strip(i)
        while i is not None and i >= 0 and f.k(i) == "Call":
            c = f.callee(i)
            if c and c.get("oo") == "<<":
                i = f.strip(f.obj(i) if f.obj(i) >= 0 else f.args(i)[0])
            elif c and c.get("oo") in ("*", "->") and f.obj(i) >= 0:
                i = f.strip(f.obj(i))
            else:
                return None
        if i is None or i < 0:
            return None
        if f.k(i) == "UnaryOperator" and f.x(i)["op"] in ("*", "&"):
            return self.sink_of(f, f.kids(i)[0], env)
        p = f.path(i)
        if not p:
            return None
        kk = self.pkey(f, p)
        v = env.get(kk)
        if v and v[0] == "sink":
            return v[1]
        if f.k(i) == "MemberExpr":
            d = f.decl(i)
            if d and d.get("q") == "mm::PdfPainter::m_tmpStream":
                return "this.m_tmpStream"
        return None

    # ---- lexing
    def emit(self, f, node, st, sname, text):
        self.emis[f.usr] += 1
        sinks = dict(st.sinks)
        s = sinks.get(sname, EMPTY)
        if isinstance(text, tuple):                      # content of another stream
            o = sinks.get(text[1], EMPTY)
            if text[1].startswith("this.") or sname.startswith("out:"):
                s = self.opaque(f, node, s, "NEW")
            else:
                if s.tok and o.lead and o.lead not in WS + "[]()<>/":
                    self.bad("R1", f, node, "text of another stream is appended to the unfinished token '%s'" % fmt(s.tok))
                s = Sink(o.tok or ("" if o.lead else s.tok), s.ops + o.ops, s.under + o.under if not s.nest else s.under, s.nest + o.nest if not o.under else s.nest, o.path if o.path != "?" else s.path, s.hist + o.hist, s.lead or o.lead)
        elif text.startswith(OPQ):
            s = self.opaque(f, node, s, text[1:])
        else:
            if not s.lead and text:
                s = s._replace(lead=text[0])
            for c in text:
                s = self.char(f, node, s, c, st.env)
                if s is None:
                    return None
        sinks[sname] = s
        return State(sinks, st.env)

    def opaque(self, f, node, s, what):
        if s.tok:
            self.bad("R6", f, node, "existing content is written directly after '%s' without white space" % fmt(s.tok))
        if s.ops:
            self.bad("R1", f, node, "content is written while operands are pending")
        h = s.hist if s.hist.count(what) > 1 else s.hist + (what,)
        # what the painter wrote ends with white space (R1 for every operation)
        return s._replace(tok="" if what == "NEW" else OPQ, hist=h)

    def char(self, f, node, s, c, env):
        t = s.tok
        if t.startswith(OPQ):
            if c in WS:
                return s._replace(tok="")
            self.bad("R6", f, node, "'%s' is written directly after existing content without white space" % fmt(c))
            s = s._replace(tok="")
            t = ""
        if t.startswith("("):
            if c == DYN:
                self.bad("R4", f, node, "dynamic text inside a literal string is not escaped")
            if c == ")":
                return self.operand(f, node, s._replace(tok=""), "S")
            return s
        if t.startswith("<") and not t.startswith("<<"):
            if c == "<" and t == "<":
                return s._replace(tok="", ops=s.ops + (("{", frozenset()),))
            if c == ">":
                return self.operand(f, node, s._replace(tok=""), "S")
            if c == HEX or c in "0123456789abcdefABCDEF" + WS:
                return s._replace(tok=t if t != "<" else "<.")
            self.bad("R1", f, node, "'%s' inside a hexadecimal string" % fmt(c))
            return s
        if c in WS:
            return self.end(f, node, s, env)
        if c in "[](<>/{}%":
            s = self.end(f, node, s, env)
            if c == "/":
                return s._replace(tok="/")
            if c in "(<":
                return s._replace(tok=c)
            if c == "[":
                return s._replace(ops=s.ops + (("[", frozenset()),))
            if c == "]":
                ix = [k for k, o in enumerate(s.ops) if isinstance(o, tuple) and o[0] == "["]
                if not ix:
                    self.bad("R1", f, node, "']' without '['")
                    return s
                kinds = s.ops[ix[-1]][1]
                return s._replace(ops=s.ops[:ix[-1]] + (("A", kinds),))
            if c == ">":
                if s.ops and isinstance(s.ops[-1], tuple) and s.ops[-1][0] == "{":
                    return s._replace(ops=s.ops[:-1] + ("pd",))
                if s.ops and s.ops[-1] == "pd":
                    return s._replace(ops=s.ops[:-1] + ("P",))
                self.bad("R1", f, node, "stray '>'")
                return s
            self.bad("R1", f, node, "delimiter '%s'" % c)
            return s
        if c == ")":
            self.bad("R1", f, node, "stray ')'")
            return s
        if c == DYN:
            if t.startswith("/"):
                self.bad("R4", f, node, "name '%s' is completed with text that is not escaped" % fmt(t))
                return s._replace(tok=t + ESC)
            if t:
                self.bad("R1", f, node, "dynamic text is glued to '%s'" % fmt(t))
            return s._replace(tok=DYN)
        if t == DYN:
            self.bad("R1", f, node, "'%s' is glued to dynamic text" % fmt(c))
            return s
        if c == HEX:
            self.bad("R1", f, node, "encoded text outside of a string")
            return s
        if c == ESC and not t.startswith("/"):
            self.bad("R1", f, node, "a name without its solidus")
            return s._replace(tok="/" + ESC)
        if c in (NUM, FLT) and t and not t.startswith("/"):
            self.bad("R1", f, node, "a number is written directly after '%s' without separator" % fmt(t))
            return s._replace(tok=c)
        if t.endswith((NUM, FLT)) and not t.startswith("/") and c not in (NUM, FLT):
            self.bad("R1", f, node, "'%s' is written directly after a number without separator" % fmt(c))
            return s._replace(tok=c)
        if len(t) > 40:
            return s
        return s._replace(tok=t + c)

    def operand(self, f, node, s, o):
        ops = s.ops
        for k in range(len(ops) - 1, -1, -1):
            if isinstance(ops[k], tuple) and ops[k][0] in ("[", "{"):
                return s._replace(ops=ops[:k] + ((ops[k][0], ops[k][1] | {o[0] if o[0] != "/" else "/"}),))
        if len(ops) >= 12:
            self.bad("R1", f, node, "operands pile up without an operator")
            return s
        return s._replace(ops=ops + (o,))

    def end(self, f, node, s, env):
        t = s.tok
        if not t:
            return s
        s = s._replace(tok="")
        if t.startswith("/"):
            if t == "/":
                self.bad("R1", f, node, "empty name")
            return self.operand(f, node, s, t)
        if t in (NUM,) or re.fullmatch(r"[+-]?\d+", t):
            return self.operand(f, node, s, "i")
        if t == FLT or re.fullmatch(r"[+-]?(\d+\.\d*|\.\d+)", t):
            return self.operand(f, node, s, "n")
        if t == DYN:
            return self.operand(f, node, s, "R")
        return self.operator(f, node, s, t, env)

    def operator(self, f, node, s, op, env):
        spec = OPS.get(op)
        if spec is None:
            self.bad("R1", f, node, "'%s' is not a content stream operator" % fmt(op))
            return s._replace(ops=())
        self.ops_seen[op] += 1
        def show():
            return " ".join(o if isinstance(o, str) else (o[0] if o[0] != "A" else "[...]") for o in s.ops) or "none"
        k = [("A" if isinstance(o, tuple) and o[0] == "A" else o[0] if isinstance(o, str) else "?") for o in s.ops]
        def fits(kind, want):
            return {"n": kind in "ni", "i": kind == "i", "N": kind == "/", "S": kind == "S", "A": kind == "A", "p": kind in "/P"}[want]
        if spec == "D":
            ok = k == ["R"] or (len(k) == 2 and k[0] == "A" and k[1] in "ni" and s.ops[0][1] <= {"n", "i"})
        elif spec == "+":
            ok = len(k) >= 1 and all(x in "ni" for x in k)
        elif spec == "*":
            ok = len(k) >= 1 and all(x in "ni" for x in k[:-1]) and k[-1] in "ni/"
        else:
            ok = len(k) == len(spec) and all(fits(a, b) for a, b in zip(k, spec))
            if op == "TJ" and ok:
                ok = s.ops[0][1] <= {"n", "i", "S"}
        if not ok:
            self.bad("R1", f, node, "operator %s with operands: %s" % (op, fmt(show())))
        if op in ("scn", "SCN", "sc", "SC") and ok:
            csn = s.hist[-1][1] if s.hist and isinstance(s.hist[-1], tuple) else None
            if csn == "/Pattern" and k[-1] != "/":
                self.bad("R1", f, node, "%s without a pattern name in the Pattern colour space" % op)
            if csn is not None and csn != "/Pattern" and k[-1] == "/":
                self.bad("R1", f, node, "%s with a pattern name in another colour space" % op)
            n = len([x for x in k if x in "ni"])
            for key, v in env.items():
                if key.endswith(".GetColorSpace()") and v[0] == "in" and len(v[1]) == 1:
                    nm = self.cs.get(next(iter(v[1])))
                    if nm in COMPS and COMPS[nm] != n:
                        self.bad("R1", f, node, "%s with %d components in a %s colour space (%d prescribed)" % (op, n, nm, COMPS[nm]))
        if op in DEVOP:
            for key, v in env.items():
                if key.endswith(".GetColorSpace()") and v[0] == "in" and len(v[1]) == 1:
                    nm = self.cs.get(next(iter(v[1])))
                    if nm in COMPS and nm != DEVOP[op]:
                        self.bad("R1", f, node, "operator %s for a colour of %s" % (op, nm))
        hist = tuple(h for h in s.hist if not isinstance(h, tuple))
        if op in ("cs", "CS") and k == ["/"]:
            hist = hist + (("cs", s.ops[0]),)
        # nesting
        nest, under = s.nest, s.under
        intext = self.text_open(s, env)
        if op in ("q", "BT", "BMC", "BDC"):
            if op == "BT" and intext is True:
                self.bad("R2", f, node, "BT inside a text object")
            if op == "q" and "BT" in nest:
                self.bad("R2", f, node, "q inside a text object")
            if len(nest) > 12:
                self.bad("R2", f, node, "%s is repeated without being closed" % op)
            else:
                nest = nest + (op,)
        elif op in CLOSES:
            if nest:
                if nest[-1] not in CLOSES[op]:
                    self.bad("R2", f, node, "%s closes %s" % (op, nest[-1]))
                nest = nest[:-1]
            elif len(under) < 12:
                under = under + (op,)
            else:
                self.bad("R2", f, node, "%s without a matching opening operator" % op)
        elif "BT" in nest and (op in PATH or op in PAINT or op in CLIP or op == "cm" or op in OTHER):
            self.bad("R2", f, node, "operator %s inside a text object" % op)
        elif op in TSHOW and intext is False:
            self.bad("R2", f, node, "text operator %s outside a text object" % op)
        # paths
        p = s.path
        if op in PATH:
            if p == "clip":
                self.bad("R2", f, node, "path operator %s between W and the painting operator" % op)
            if op not in ("m", "re") and p == "none":
                self.bad("R2", f, node, "path operator %s without a current point" % op)
            p = "open"
        elif op in PAINT:
            p = "none"
        elif op in CLIP:
            p = "clip"
        else:
            if p in ("open", "clip"):
                self.bad("R2", f, node, "operator %s between path construction and painting" % op)
            p = "none"
        return s._replace(ops=(), nest=nest, under=under, path=p, hist=hist)

    def text_open(self, s, env):
        if "BT" in s.nest:
            return True
        if s.under and "ET" in s.under:
            return False
        v = env.get("text0")
        return bool(next(iter(v[1]))) if v else None

    # ---- interpretation of one function
    def kill(self, env, prefix):
        ks = [k for k in env if k == prefix or k.startswith(prefix + ".")]
        if not ks:
            return env
        env = dict(env)
        for k in ks:
            del env[k]
        return env

    def freeze(self, st):
        return (tuple(sorted(st.sinks.items())), tuple(sorted(st.env.items(), key=lambda kv: kv[0])))

    def thaw(self, z):
        return State(dict(z[0]), dict(z[1]))

    def run_fn(self, f, st):
        """set of frozen states at normal exit"""
        z = (f.usr, self.freeze(st))
        if z in self.memo:
            return self.memo[z]
        if f.usr in [g.usr for g in self.stack] or len(self.stack) > 10:
            raise AnalysisError("recursive drawing helper " + f.q)
        if f.entry is None:
            raise AnalysisError("no body for " + f.q)
        self.stack.append(f)
        ins = {b: set() for b in f.blocks}
        ins[f.entry].add(self.freeze(st))
        work = [(f.entry, self.freeze(st))]
        n = 0
        regions = [(str(d), tb) for d, lo, tb in f.tries if d >= 0]

        def push(b, s):
            z = self.freeze(s)
            if z not in ins[b]:
                ins[b].add(z)
                work.append((b, z))
        while work:
            n += 1
            if n > 60000:
                raise AnalysisError("too many states in " + f.q)
            b, z = work.pop()
            bl = f.blocks[b]
            cur = [self.thaw(z)]
            for e in bl["e"]:
                nxt = []
                if isinstance(e, int) and f.k(e) in ("Call", "Construct", "Throw"):
                    tr = self.ex.enclosing_tries(f, e)
                    for d, tb in regions:
                        if tb in tr:
                            for s in cur:
                                push(d, s)
                for s in cur:
                    nxt += self.elem(f, e, s)
                cur = nxt
                if not cur:
                    break
            if bl.get("nr"):
                continue
            tc, tk, succ = bl.get("tc"), bl.get("tk"), bl["s"]
            for s in cur:
                if tk == "SwitchStmt":
                    self.switch(f, bl, s, push)
                elif tc is not None and tc >= 0 and len(succ) == 2:
                    c = tc
                    ext = self.extent(f, bl.get("ts")) if tk == "CXXForRangeStmt" else None
                    if ext is not None:
                        kk = "@iter" + f.usr + b
                        v = next(iter(s.env.get(kk, ("in", (0,)))[1]))
                        env = dict(s.env); env.pop(kk, None)
                        if v < ext:
                            env[kk] = ("in", frozenset([v + 1]))
                        to = succ[0] if v < ext else succ[1]
                        if to is not None:
                            push(to, State(s.sinks, env))
                        continue
                    # a decomposed && / ||: the operand evaluated in this block decides
                    c = self.deciding(f, b, tc)
                    for t, env in self.branch(f, c, s.env):
                        to = succ[0] if t else succ[1]
                        if to is not None:
                            push(to, self.copied_empty(State(s.sinks, env)))
                else:
                    for t in succ:
                        if t is not None:
                            push(t, s)
        self.stack.pop()
        out = ins.get(f.exit, set())
        self.memo[z if False else (f.usr, self.freeze(st))] = out
        return out

    def deciding(self, f, b, c):
        while c >= 0 and f.k(c) in ("BinaryOperator", "Cast", "ParenExpr"):
            if f.k(c) != "BinaryOperator":
                if f.k(f.kids(c)[0]) == "BinaryOperator" and f.x(f.kids(c)[0])["op"] in ("&&", "||"):
                    c = f.kids(c)[0]
                    continue
                return c
            if f.x(c)["op"] not in ("&&", "||"):
                return c
            c = f.kids(c)[1]
        return c

    def switch(self, f, bl, s, push):
        tc = bl.get("tc")
        kk = self.key(f, tc, s.env)
        cases = set()
        for t in bl["s"]:
            if t is not None:
                lab = f.blocks[t].get("lab")
                if lab is not None and f.k(lab) == "CaseStmt":
                    cases |= set(self.case_values(f, lab))
        for t in bl["s"]:
            if t is None:
                continue
            lab = f.blocks[t].get("lab")
            if lab is not None and f.k(lab) == "CaseStmt":
                for v in self.case_values(f, lab):
                    env = self.restrict(s.env, kk, True, v) if kk else s.env
                    if env is not None:
                        push(t, State(s.sinks, env))
                if self.has_default(f, lab):
                    self.push_default(f, t, s, kk, cases, push)
            else:
                self.push_default(f, t, s, kk, cases, push)

    def push_default(self, f, t, s, kk, cases, push):
        env = s.env
        if kk:
            for v in cases:
                env = self.restrict(env, kk, False, v) if env is not None else None
        if env is not None:
            push(t, State(s.sinks, env))

    def case_values(self, f, lab):
        out = []
        while lab is not None and lab >= 0 and f.k(lab) in ("CaseStmt", "DefaultStmt"):
            if f.k(lab) == "CaseStmt" and f.x(lab).get("cv") is not None:
                out.append(int(f.x(lab)["cv"]))
            ks = f.kids(lab)
            nx = ks[-1] if ks else -1
            lab = nx if nx >= 0 and f.k(nx) in ("CaseStmt", "DefaultStmt") else None
            break
        return out

    def has_default(self, f, lab):
        return False

    def pending(self, st):
        for n, s in st.sinks.items():
            if not n.startswith("out:") and (s.tok and not s.tok.startswith(OPQ) or s.ops):
                return n, s
        return None

    def unfinished(self, p):
        return fmt(" ".join([o if isinstance(o, str) else o[0] for o in p[1].ops] + [p[1].tok]).strip())

    def elem(self, f, e, st):
        if not isinstance(e, int):
            return [st]
        k, x = f.k(e), f.x(e)
        if k == "Throw":
            p = self.pending(st)
            if p and not p[0].startswith(("local:",)):
                self.bad("R3", f, e, "an exception leaves an unfinished operator ('%s') in the content stream" % self.unfinished(p))
            return []
        if k == "Call":
            return self.call(f, e, st)
        if k == "Construct":
            c = f.callee(e)
            p = self.pending(st)
            if c and p and not p[0].startswith("local:") and c["u"] in self.ex.may:
                self.bad("R3", f, e, "the constructor of %s may throw while an unfinished operator ('%s') is in the content stream" % (c["q"].split("::")[-1], self.unfinished(p)))
            return [st]
        if k == "DeclStmt":
            cur = [st]
            for d, init in x.get("vars", []):
                cur = [s2 for s in cur for s2 in self.assign(f, "v%d:%s" % (d, f.tab.decls[d]["q"].split("::")[-1]), f.ty(f.tab.decls[d].get("t", -1)), init, s, decl=True)]
            return cur
        if k in ("BinaryOperator", "CompoundAssignOperator", "CompoundAssign") and x.get("op", "").endswith("=") and x["op"] not in ("==", "!=", "<=", ">="):
            l = f.strip(f.kids(e)[0])
            p = f.path(l)
            if not p:
                return [st]
            if x["op"] == "=":
                return self.assign(f, p, f.type(l), f.kids(e)[1], st)
            return [State(st.sinks, self.kill(st.env, self.pkey(f, p)))]
        if k == "UnaryOperator" and x["op"] in ("++", "--", "p++", "p--"):
            p = f.path(f.strip(f.kids(e)[0]))
            if p and self.pkey(f, p) in self.counters(f):
                d = st.env.get(self.pkey(f, p))
                if d is not None and d[0] == "in" and len(d[1]) == 1:
                    env = dict(st.env)
                    env[self.pkey(f, p)] = ("in", frozenset([next(iter(d[1])) + (1 if "+" in x["op"] else -1)]))
                    return [State(st.sinks, env)]
            return [State(st.sinks, self.kill(st.env, self.pkey(f, p)))] if p else [st]
        return [st]

    def assign(self, f, p, t, init, st, decl=False):
        kk = self.pkey(f, p)
        env = self.kill(st.env, kk)
        if kk == "this.m_isTextOpen":
            pass
        if t is None:
            return [State(st.sinks, env)]
        b = self.base_t(f, t)
        i = f.strip(init) if init is not None and init >= 0 else None
        if t["k"] in ("ref", "rref", "ptr") or (b or {}).get("r") in STREAMS + ("mm::PdfObjectOutputStream",) or self.is_stream(b):
            # alias of a sink, or a new one
            if i is not None and t["k"] in ("ref", "ptr"):
                s = self.sink_of(f, i, st.env)
                if s:
                    env = dict(env); env[kk] = ("sink", s)
                    return [State(st.sinks, env)]
            if t["k"] not in ("ref", "rref", "ptr") and self.is_stream(b) and decl:
                env = dict(env); env[kk] = ("sink", "local:" + kk)
                sinks = dict(st.sinks); sinks["local:" + kk] = EMPTY
                return [State(sinks, env)]
            if (b or {}).get("r") == "mm::PdfObjectOutputStream":
                return self.open_out(f, kk, i, State(st.sinks, env))
        if decl and (b or {}).get("k") == "rec" and t["k"] == "rec" and (i is None or f.k(i) == "Construct" and not f.args(i)):
            # a container starts empty
            env = dict(env)
            env[kk + ".size()"] = ("in", frozenset([0]))
            env[kk + ".empty()"] = ("in", frozenset([1]))
        if i is None:
            return [State(st.sinks, env)]
        v = f.cv(init)
        if v is None:
            v = f.cv(i)
        if v is not None:
            env = dict(env); env[kk] = ("in", frozenset([v]))
            return [State(st.sinks, env)]
        if t["k"] == "bool":
            out = []
            for tr, e2 in self.branch(f, init, env):
                e2 = dict(e2); e2[kk] = ("in", frozenset([int(tr)]))
                out.append(State(st.sinks, e2))
            return out
        ak = self.key(f, i, env)
        if ak and ak in env and env[ak][0] in ("in", "ne", "item", "content"):
            env = dict(env); env[kk] = env[ak]
            return [State(st.sinks, env)]
        c = (b or {}).get("c", "")
        if "basic_string" in c or c.replace("const ", "") == "char":
            out = []
            for tx, e2 in self.items(f, init, env):
                if isinstance(tx, tuple) or tx in (DYN,) or len(tx) > 60:
                    out.append(State(st.sinks, e2))
                else:
                    e2 = dict(e2); e2[kk] = ("item", tx)
                    out.append(State(st.sinks, e2))
            return out
        if f.k(i) == "Construct" and len(f.args(i)) >= 1:
            # a device over a buffer
            a = f.args(i)[0]
            ak = self.key(f, a, env)
            if ak and (b or {}).get("r", "") and b["r"].startswith("mm::") and "Device" in b["r"]:
                env = dict(env); env[kk] = ("over", ak)
        return [State(st.sinks, env)]

    def open_out(self, f, kk, i, st):
        env = dict(st.env)
        sinks = dict(st.sinks)
        name = "out:" + kk
        if i is not None and f.k(i) == "Construct" and len(f.args(i)) == 1:
            i = f.strip(f.args(i)[0])
        if i is None or f.k(i) != "Call" or not (f.callee(i) or {}).get("q", "").endswith("::GetOutputStream"):
            env.pop(kk, None)
            sinks.pop(name, None)
            return [State(sinks, env)]
        app = [a for a in f.args(i) if self.is_bool(f, f.strip(a)) or f.cv(a) is not None]
        empty = ("EMPTY",) if self.known_empty(env) or ("@" + str(i)) in env else ()
        if app and f.cv(app[-1]) == 1:
            sinks[name] = EMPTY._replace(tok=OPQ, hist=("OLD",) + empty)
        else:
            sinks[name] = EMPTY._replace(hist=empty)
        env[kk] = ("sink", name)
        return [State(sinks, env)]

    def known_empty(self, env):
        return any(v == ("in", frozenset([0])) and q.endswith((".GetLength()", ".size()", ".length()")) or v == ("in", frozenset([1])) and q.endswith(".empty()") for q, v in env.items())

    def copied_empty(self, st):
        """the copy of the existing content is known to be empty: so is the content"""
        env = st.env
        for q, v in env.items():
            b = q.rsplit(".", 1)
            if len(b) == 2 and env.get(b[0], ("",))[0] == "content" and self.known_empty({q: v}):
                sinks = {n: (k._replace(hist=k.hist + ("EMPTY",)) if n.startswith("out:") and "EMPTY" not in k.hist else k) for n, k in st.sinks.items()}
                return State(sinks, env)
        return st

    def call(self, f, e, st):
        c = f.callee(e)
        if c is None:
            p = self.pending(st)
            return [st]
        q, oo, args, obj = c["q"], c.get("oo"), f.args(e), f.obj(e)
        nm = q.split("::")[-1]
        env = st.env
        # emission by <<
        if oo == "<<" or (f.x(e).get("op") == "<<"):
            s = self.sink_of(f, obj if obj >= 0 else args[0], env)
            if s:
                it = args[0] if obj >= 0 else args[1]
                return self.put(f, e, st, s, it, self.plain(f, obj if obj >= 0 else args[0]))
            return [st]
        # assignment by operator=
        if oo == "=" and obj >= 0 and args:
            p = f.path(f.strip(obj))
            if p:
                return self.assign(f, p, self.base_t(f, f.type(f.strip(obj))), args[0], st)
            return [st]
        if obj >= 0 and not oo:
            s = self.sink_of(f, obj, env)
            if s:
                if nm in ("Write", "write"):
                    return self.put(f, e, st, s, args[0], False)
                if nm == "Clear":
                    sinks = dict(st.sinks); sinks[s] = EMPTY
                    return [State(sinks, env)]
                return [st]
            if nm in ("append", "push_back", "clear", "insert", "erase", "assign"):
                p = f.path(f.strip(obj))
                if p:
                    kk = self.pkey(f, p)
                    old = env.get(kk)
                    env2 = self.kill(env, kk)
                    if nm == "append" and old and old[0] == "item" and len(args) == 1:
                        out = []
                        for tx, e2 in self.items(f, args[0], env2):
                            if not isinstance(tx, tuple):
                                e2 = dict(e2); e2[kk] = ("item", old[1] + tx)
                            out.append(State(st.sinks, e2))
                        return out
                    return [State(st.sinks, env2)]
        if oo == "+=" and obj >= 0 and args:
            p = f.path(f.strip(obj))
            kk = p and self.pkey(f, p)
            old = kk and env.get(kk)
            if old:
                env2 = self.kill(env, kk)
                out = []
                for tx, e2 in self.items(f, args[0], env2):
                    if old[0] == "item" and not isinstance(tx, tuple) and len(old[1]) < 60:
                        e2 = dict(e2); e2[kk] = ("item", old[1] + tx)
                    out.append(State(st.sinks, e2))
                return out
            return [st]
        # copying existing content
        if nm in ("CopyTo", "copyTo") and args:
            s = self.sink_of(f, args[0], env)
            if s:
                st2 = self.emit(f, e, st, s, OPQ + "OLD")
                return [st2]
            kk = self.key(f, args[0], env)
            if kk:
                while env.get(kk) and env[kk][0] == "over":
                    kk = env[kk][1]
                env2 = dict(self.kill(env, kk)); env2[kk] = ("content", "OLD")
                return [State(st.sinks, env2)]
        g = self.prog.fns.get(c["u"])
        sarg = [a for a in args if self.sink_of(f, a, env)]
        if nm in ("EncodeTo",) and sarg:
            hexa = self.is_hex(f, obj)
            if not hexa:
                self.bad("R1", f, e, "text is written with a filter other than ASCIIHexDecode")
            return [self.emit(f, e, st, self.sink_of(f, sarg[0], env), HEX)]
        lam = nm == "operator()" and g is not None and "lambda" in (g.cls or "(lambda")
        if g is not None and g.entry is not None and (g.usr in self.rel or sarg or lam):
            onthis = obj < 0 or f.k(f.strip(obj)) == "This" or lam
            if onthis and not f.x(e).get("v"):
                return self.inline(f, e, g, st)
            if sarg and not f.x(e).get("v"):
                return self.inline(f, e, g, st, foreign=True)
        # any other call
        if sarg:
            self.bad("R5", f, e, "the content stream is handed to %s, which cannot be followed" % q)
        p = self.pending(st)
        if p and not p[0].startswith("local:") and not ((q.startswith("mm::PdfColor::") or q in TOTAL) and self.item_call(f, e)) and (c["u"] in self.ex.may or c["u"] in self.ex.noret):
            self.bad("R3", f, e, "%s may throw while an unfinished operator ('%s') is in the content stream" % (nm, self.unfinished(p)))
        if c["u"] in self.ex.noret and not f.x(e).get("v"):
            return []
        # arguments passed by reference and objects change
        env2 = env
        if not c.get("cm") and not (g is not None and g.d.get("cm")) and nm not in ("size", "empty", "length", "data", "c_str", "begin", "end"):
            if obj >= 0:
                o = f.strip(obj)
                kk = self.key(f, o, env)
                if kk and not (oo in ("->", "*", "[]")):
                    if nm == "GetOutputStream" and self.known_empty(env):
                        env2 = dict(env2); env2["@" + str(e)] = ("in", frozenset([1]))
                    env2 = self.kill_queries(env2, kk)
        for a, t in zip(args, c.get("p", [])):
            ty = f.ty(t)
            if ty and ty["k"] == "ref" and not ty.get("s", "").startswith("const "):
                kk = self.key(f, a, env)
                if kk and env.get(kk, ("",))[0] != "sink":
                    env2 = self.kill(env2, kk)
        return [State(st.sinks, env2)]

    def kill_queries(self, env, kk):
        ks = [k for k in env if k.startswith(kk + ".")]
        if not ks:
            return env
        env = dict(env)
        for k in ks:
            del env[k]
        return env

    def item_call(self, f, e):
        """the call computes a value that is printed by an enclosing <<"""
        p = f.parent.get(e)
        n = 0
        while p is not None and n < 12:
            if f.k(p) == "Call" and ((f.callee(p) or {}).get("oo") == "<<" or f.x(p).get("op") == "<<"):
                return True
            if f.k(p) in ("CompoundStmt", "DeclStmt", "IfStmt", "ReturnStmt"):
                return False
            p = f.parent.get(p)
            n += 1
        return False

    def plain(self, f, i):
        """the sink is a standard stream, which formats doubles itself"""
        i = f.strip(i)
        while f.k(i) == "Call" and ((f.callee(i) or {}).get("oo") == "<<" or f.x(i).get("op") == "<<"):
            i = f.strip(f.obj(i) if f.obj(i) >= 0 else f.args(i)[0])
        b = self.base_t(f, f.type(i))
        return bool(b) and b.get("r") not in STREAMS

    def is_hex(self, f, obj):
        o = f.strip(obj)
        while o is not None and o >= 0 and f.k(o) == "Call" and (f.callee(o) or {}).get("oo") in ("->", "*"):
            o = f.strip(f.obj(o))
        want = self.hexv
        def lit(i):
            for n in f.subtree(i):
                if f.k(n) == "Call" and (f.callee(n) or {}).get("q") == "mm::PdfFilterFactory::Create":
                    return f.cv(f.args(n)[0]) == want or f.cv(f.strip(f.args(n)[0])) == want
            return False
        if lit(o):
            return True
        from lib import var_inits, var_of
        v = var_of(f, o)
        if v is None:
            return False
        ini = var_inits(f).get(v)
        return ini is not None and any(lit(i) for i in (ini if isinstance(ini, (list, tuple, set)) else [ini]))

    def put(self, f, e, st, sname, it, plain):
        out = []
        for tx, env in self.items(f, it, st.env):
            if plain and isinstance(tx, str) and FLT in tx:
                self.bad("R5", f, e, "a floating point number is printed by a standard stream (exponent, precision)")
            s2 = self.emit(f, e, State(st.sinks, env), sname, tx)
            if s2 is not None:
                out.append(s2)
        return out

    def inline(self, f, e, g, st, foreign=False):
        args = f.args(e)
        env = {}
        back = {}
        for k, v in st.env.items():
            if (k.startswith("this.") and not foreign) or k == "text0":
                env[k] = v
        lam = g.name == "operator()"
        if lam:
            env.update(st.env)
        for p, a in zip(g.params, args):
            pk = self.pkey(g, "v%d:%s" % (p[0], p[1]))
            s = self.sink_of(f, a, st.env)
            if s:
                env[pk] = ("sink", s)
                continue
            v = f.cv(a)
            if v is None:
                v = f.cv(f.strip(a))
            ak = self.key(f, a, st.env)
            t = f.type(f.strip(a))
            if v is not None:
                env[pk] = ("in", frozenset([v]))
            elif ak and ak in st.env and st.env[ak][0] in ("in", "ne", "item"):
                env[pk] = st.env[ak]
            else:
                b = self.base_t(f, t)
                if b and ("basic_string" in b.get("c", "") or b.get("c", "").replace("const ", "").startswith("char")):
                    it = self.items(f, a, st.env)
                    if len(it) == 1 and isinstance(it[0][0], str) and it[0][0] != DYN:
                        env[pk] = ("item", it[0][0])
                elif t and t["k"] == "bool":
                    pass
        outs = []
        for z in self.run_fn(g, State(st.sinks, env)):
            s = self.thaw(z)
            env2 = {k: v for k, v in st.env.items() if foreign or not k.startswith("this.")}
            for k, v in s.env.items():
                if k.startswith("this.") and not foreign:
                    env2[k] = v
                if lam and not k.startswith(g.usr + "|"):
                    env2[k] = v
            sinks = {k: v for k, v in s.sinks.items() if not k.startswith(("local:" + g.usr, "out:" + g.usr))}
            z2 = State(sinks, env2)
            if z2 not in outs:
                outs.append(z2)
        return outs



def words(s):
    return [w for w in re.split(r"[\s]+", s) if w]


def content_literal(s):
    """a literal with white space that contains an operator"""
    return bool(re.search(r"\s", s)) and any(w in OPS for w in words(s))


def local_streams(prog):
    """(function, variables) of local streams that receive content stream text"""
    out = []
    for u, f in sorted(prog.fns.items()):
        loc = set()
        for i in range(len(f.nodes)):
            if f.k(i) == "DeclStmt":
                for d, init in f.x(i).get("vars", []):
                    t = f.ty(f.tab.decls[d].get("t", -1))
                    if t and (t.get("r") in STREAMS or "stringstream" in t.get("c", "")) and t["k"] not in ("ref", "ptr"):
                        loc.add("v%d:%s" % (d, f.tab.decls[d]["q"].split("::")[-1]))
        if loc and any(f.k(i) == "StringLiteral" and content_literal(f.x(i).get("s", "")) for i in range(len(f.nodes))):
            out.append((f, loc))
    return out


def assemblers(prog):
    """functions that write saves around existing content"""
    out = []
    for u, f in sorted(prog.fns.items()):
        for i in f.calls():
            c = f.callee(i)
            if c and c["q"].split("::")[-1] == "Write" and f.k(i) == "Call" and len(f.args(i)) == 1:
                lits = [f.x(n).get("s", "") for n in f.subtree(f.args(i)[0]) if f.k(n) == "StringLiteral"]
                if any(words(l) and set(words(l)) <= {"q", "Q"} for l in lits):
                    out.append(f)
                    break
    return out


def cyclic(f, i):
    """node i is evaluated repeatedly"""
    w = f.where.get(i)
    if w is None:
        return False
    st, seen = [x for x in f.blocks[w[0]]["s"] if x is not None], set()
    while st:
        b = st.pop()
        if b == w[0]:
            return True
        if b not in seen:
            seen.add(b)
            st.extend(x for x in f.blocks[b]["s"] if x is not None)
    return False


def rerun(it, prog, ctx, f, env, what):
    try:
        outs = it.run_fn(f, State({}, env))
    except AnalysisError as ex:
        raise AnalysisError("%s: %s" % (f.q, ex))
    return [it.thaw(z) for z in outs]


def dominates(f, a, b):
    (ba, ia), (bb, ib) = f.where[a], f.where[b]
    if ba == bb:
        return ia < ib
    seen, work = {ba}, [f.entry]
    while work:
        n = work.pop()
        if n in seen or n is None:
            continue
        seen.add(n)
        if n == bb:
            return False
        work += [t for t in f.blocks[n]["s"] if t is not None]
    return True


def reaches(f, a, b):
    (ba, ia), (bb, ib) = f.where[a], f.where[b]
    if ba == bb and ia < ib:
        return True
    seen, work = set(), [t for t in f.blocks[ba]["s"]]
    while work:
        n = work.pop()
        if n in seen or n is None:
            continue
        seen.add(n)
        work += f.blocks[n]["s"]
    return bb in seen


def run(prog, ctx):
    ex = Exc(prog)
    it = Interp(prog, ctx, ex)
    it.cs = {v: n for n, v in prog.enum("mm::PdfColorSpace")["c"]}
    it.hexv = dict(prog.enum("mm::PdfFilterType")["c"])["ASCIIHexDecode"]
    ctx.rule("R1", "every operator is defined by the specification, has exactly its operands, and tokens are separated")
    ctx.rule("R2", "saves, text objects and marked content are balanced and operators are used where they are permitted")
    ctx.rule("R3", "no exception leaves an unfinished operator behind")
    ctx.rule("R4", "names built from run time text are escaped")
    ctx.rule("R5", "numbers are printed by the stream of the library and the stream is not handed to code that cannot be followed")
    ctx.rule("R6", "content that already exists is kept exactly once and separated from what is added")
    done = []
    # 1. drawing operations
    for f in sorted((f for f in prog.fns.values() if f.cls == "mm::PdfPainter"), key=lambda f: f.q):
        if f.usr not in it.rel or f.d.get("ctor") or f.d.get("dtor") or f.entry is None:
            continue
        # private operations are reached through the wrappers of the graphics and text state
        if f.d.get("acc") != 0 and all(prog.fns[c].cls == "mm::PdfPainter" for c in prog.callers.get(f.usr, ())):
            continue
        before = len(it.found)
        paths = 0
        for text in (0, 1):
            env = {"this.m_isTextOpen": ("in", frozenset([text])), "text0": ("in", frozenset([text]))}
            for s in rerun(it, prog, ctx, f, env, "operation"):
                paths += 1
                k = s.sinks.get("this.m_tmpStream", EMPTY)
                if k.tok and not k.tok.startswith(OPQ):
                    it.bad("R1", f, None, "the operation ends without white space after '%s'" % fmt(k.tok))
                if k.ops:
                    it.bad("R1", f, None, "the operation ends with operands but without an operator")
                if k.path == "clip":
                    it.bad("R2", f, None, "the operation ends between W and the painting operator")
                under, nest = NETS.get(f.q, ((), ()))
                if k.hist or k == EMPTY:
                    pass
                if (k.under, k.nest) != (under, nest) and not (k == EMPTY and f.q not in NETS):
                    it.bad("R2", f, None, "net effect of the operation: closes %s, leaves open %s" % (list(k.under) or "nothing", list(k.nest) or "nothing"))
                v = s.env.get("this.m_isTextOpen")
                end = it.text_open(k, {"text0": ("in", frozenset([text]))})
                if v is None or v[1] != frozenset([int(bool(end))]):
                    it.bad("R2", f, None, "m_isTextOpen does not tell whether a text object is open")
        done.append((f, paths))
        if len(it.found) == before:
            ctx.ok("R1", f.sig())
            ctx.ok("R2", f.sig())
    # 2. local streams
    for f, loc in local_streams(prog):
        before = len(it.found)
        outs = rerun(it, prog, ctx, f, {}, "stream")
        for s in outs:
            for n, k in s.sinks.items():
                if not n.startswith("local:" + f.usr):
                    continue
                k = it.end(f, None, k, {})
                if k.ops and not all(isinstance(o, str) for o in k.ops) or (k.ops and k.path != "?"):
                    it.bad("R1", f, None, "the content of %s ends with operands but without an operator" % n.split("|")[-1].split(":")[-1])
                if k.nest or k.under or k.path in ("clip", "open"):
                    it.bad("R2", f, None, "the content of %s ends inside %s" % (n.split("|")[-1].split(":")[-1], list(k.nest + k.under) or "a path"))
        if len(it.found) == before:
            ctx.ok("R1", f.sig())
    # 3. assembly of the content stream
    asm = assemblers(prog)
    for f in asm:
        before = len(it.found)
        outs = rerun(it, prog, ctx, f, {}, "assembly")
        adds = any(f.k(n) == "Call" and (f.callee(n) or {}).get("q") == "mm::PdfStringStream::GetString" for n in range(len(f.nodes)))
        opened = 0
        for s in outs:
            for n, k in s.sinks.items():
                if not n.startswith("out:" + f.usr):
                    continue
                opened += 1
                if not k.tok.startswith(OPQ):
                    k = it.end(f, None, k, {})
                if k.nest or k.under:
                    it.bad("R6", f, None, "the assembled content closes %s and leaves open %s" % (list(k.under) or "nothing", list(k.nest) or "nothing"))
                empty = "EMPTY" in k.hist
                old = k.hist.count("OLD")
                if old > 1 or (old == 0 and not empty):
                    it.bad("R6", f, None, "existing content is written %s" % ("more than once" if old > 1 else "not at all"))
                if adds and k.hist.count("NEW") != 1:
                    it.bad("R6", f, None, "new content is written %d times" % k.hist.count("NEW"))
        if len(it.found) == before:
            ctx.ok("R6", f.sig())
    # 4. concatenation of streams
    for f in sorted(prog.fns.values(), key=lambda f: f.q):
        if f.entry is None or f in asm or not any((f.callee(i) or {}).get("q") == "mm::PdfObjectStream::CopyTo" and cyclic(f, i) for i in f.calls()):
            continue
        i2 = Interp(prog, ctx, ex)
        i2.cs, i2.hexv, i2.rel = it.cs, it.hexv, set()
        env = {}
        for p in f.params:
            b = i2.base_t(f, f.ty(p[2]))
            if b and b.get("r") == "mm::OutputStream":
                env[i2.pkey(f, "v%d:%s" % (p[0], p[1]))] = ("sink", "out:param")
        rerun(i2, prog, ctx, f, env, "concatenation")
        i2.found = {k: v for k, v in i2.found.items() if k[0] == "R6"}
        it.found.update(i2.found)
        if not i2.found:
            ctx.ok("R6", f.sig())
    # 5. content collected from an array is not left in the array when it is added again
    for f in asm:
        for i in f.calls():
            c = f.callee(i) or {}
            arrs = [f.path(f.strip(a)) for a in f.args(i) if (lambda b: b and b.get("r") == "mm::PdfArray")(it.base_t(f, f.type(f.strip(a))))]
            if c.get("q", "").split("::")[-1] not in ("copyTo", "CopyTo") or not arrs or not arrs[0]:
                continue
            arr = arrs[0].lstrip("*")
            on = [j for j in f.calls() if f.obj(j) >= 0 and (f.path(f.strip(f.obj(j))) or "").lstrip("*") == arr and f.where.get(j)]
            clears = [j for j in on if (f.callee(j) or {}).get("q", "").split("::")[-1] in ("Clear", "clear")]
            adds = [j for j in on if (f.callee(j) or {}).get("q", "").split("::")[-1] in ("Add", "AddIndirect", "AddIndirectSafe", "insert", "Insert", "push_back")]
            out = [j for j in f.calls() if (f.callee(j) or {}).get("q", "").endswith("::GetOutputStream") and f.where.get(j)]
            for o in out:
                ctx.check("R6", any(dominates(f, j, o) or dominates(f, o, j) for j in clears) or not reaches(f, i, o), f.sig(), "the collected array is emptied", f.loc(o),
                          "content collected from an array is written to a new stream while the streams it was collected from stay in the array, so it is drawn twice")
    for (rule, usr, node, msg), st in sorted(it.found.items(), key=lambda kv: (kv[0][0], kv[0][1], kv[0][2] or 0)):
        f = prog.fns[usr]
        ctx.bad(rule, f.sig(), msg, f.loc(node) if node is not None else f.loc(), msg, ["called from %s" % s for s in st[:-1]])
    for r in ("R3", "R4", "R5"):
        if not any(k[0] == r for k in it.found):
            ctx.ok(r, "all followed functions", sum(it.emis.values()))
    ctx.notes.append("%d drawing operations, %d emission evaluations, operators seen: %s" % (len(done), sum(it.emis.values()), " ".join(sorted(it.ops_seen))))
    ctx.need("R1", 30)
    ctx.need("R6", 2)
