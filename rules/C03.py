"""C03: nothing leaves an encrypted document in clear, and what is read is decrypted with the same key."""
from lib import *
from lib import Must as lib_Must
from C10 import is_null, Must
from model import AnalysisError

ASSUMPTIONS = [
    "The encryption dictionary, cross-reference data, trailers, and the /Contents of signatures are the only parts that the format keeps readable; the metadata stream when it carries a Crypt filter and the document does not encrypt metadata.",
    "The ciphers of OpenSSL are inverse to each other for the same key and initialization vector.",
]
SE, EN = "mm::PdfStatefulEncrypt", "mm::PdfEncrypt"
# code that renders or reads text outside of a document file, or parts of a file that are never encrypted
PLAIN = {
    "mm::PdfVariant::ToString": "text rendering", "mm::PdfObject::ToString": "text rendering", "mm::PdfDataProvider::ToString": "text rendering",
    "mm::PdfColor::FromString": "parses an argument", "mm::PdfPostScriptTokenizer::ReadNextVariant": "content streams",
    "mm::PdfPostScriptTokenizer::TryReadNextVariant": "content streams", "mm::PdfPostScriptTokenizer::TryReadNext": "content streams",
    "mm::PdfObjectStreamParser::readObjectsFromStream": "object streams are decrypted as a whole",
    "adjustByteRange": "signature placeholders", "setSignature": "signature placeholders",
    "mm::PdfXRef::EndWriteImpl": "trailer", "mm::PdfXRefStream::EndWriteImpl": "cross-reference stream", "mm::PdfImmediateWriter::Finish": "trailer",
    "mm::PdfWriter::CreateFileIdentifier": "computes the file identifier",
}
TEXT = ("mm::PdfVariant::ToString", "mm::PdfObject::ToString", "mm::PdfDataProvider::ToString", "mm::PdfString::GetString", "mm::PdfString::GetRawData",
        "mm::PdfString::operator<", "mm::PdfVariant::GetString")
EXEMPT = {"mm::PdfName::Write": "names are never encrypted", "mm::PdfData::Write": "raw data is written as it is by definition", "mm::PdfReference::Write": "references",
          "mm::PdfStreamedObjectStream::Write": "the data was encrypted while it was streamed"}


def base(f, t):
    while t and t["k"] in ("ref", "rref", "ptr"):
        t = f.ty(t["e"])
    return (t or {}).get("r")


def encparam(f):
    for p in f.params:
        if base(f, f.ty(p[2])) in (SE, EN):
            return p
    return None


def last(q):
    return q.split("::")[-1]


class Src:
    """where the encryption that is passed on comes from"""

    def __init__(self, prog, f):
        self.prog, self.f = prog, f

    def alts(self, i, conds=frozenset(), depth=0):
        """[(kind, detail, conditions)]; kinds: param, member, none, bind, unknown"""
        f = self.f
        i = f.strip(i)
        if i is None or i < 0 or depth > 12:
            return [("unknown", i, conds)]
        k, x = f.k(i), f.x(i)
        if is_null(f, i) or k == "CXXDefaultArgExpr":
            return [("none", i, conds)]
        if k == "ConditionalOperator":
            ks = f.kids(i)
            return self.alts(ks[1], conds | self.cond(ks[0], True), depth + 1) + self.alts(ks[2], conds | self.cond(ks[0], False), depth + 1)
        if k == "UnaryOperator" and x["op"] in ("*", "&"):
            return self.alts(f.kids(i)[0], conds, depth + 1)
        if k == "This":
            return [("member", "this", conds)]
        if k in ("InitList", "CXXDefaultInitExpr") and not f.kids(i):
            return [("none", i, conds)]
        if k == "MemberExpr":
            return [("member", f.path(i), conds)]
        if k == "DeclRefExpr":
            d = x["d"]
            dd = f.tab.decls[d]
            if dd["k"] == "parm":
                return [("param", d, conds)]
            out = []
            for v, at, c in self.reach(d, i):
                c = conds | c
                out += self.alts(v, c, depth + 1) if v is not None else [("none", at, c)]
            return out or [("unknown", i, conds)]
        if k == "Construct":
            a = f.args(i)
            if not a or all(f.k(y) == "CXXDefaultArgExpr" for y in a):
                return [("none", i, conds)]
            if len(a) == 2:
                return [("bind" if y[0] in ("param", "member") else y[0], (y[1], a[1]), y[2]) if y[0] in ("param", "member") else y for y in self.alts(a[0], conds, depth + 1)]
            return self.alts(a[0], conds, depth + 1)
        if k == "Call":
            c = f.callee(i) or {}
            if c.get("oo") in ("->", "*") or last(c.get("q", "")) in ("get", "release") and f.obj(i) >= 0:
                return self.alts(f.obj(i), conds, depth + 1)
            if last(c.get("q", "")) in ("move", "forward", "as_const") and f.args(i):
                return self.alts(f.args(i)[0], conds, depth + 1)
            if last(c.get("q", "")) == "GetEncrypt":
                return [("member", "GetEncrypt()", conds)]
            g = self.prog.fns.get(c.get("u"))
            if g is not None and g.entry is not None:
                # a helper that computes the encryption to use
                out = []
                s2 = Src(self.prog, g)
                for r in range(len(g.nodes)):
                    if g.k(r) == "ReturnStmt" and g.kids(r):
                        for kd, de, cc in s2.alts(g.kids(r)[0], frozenset(), depth + 4):
                            cr = cc | frozenset(a for a in conds_at(g, r) if isinstance(a[1], bool))
                            lits = frozenset(("lit", l) for l in s2.literals(cr))
                            for c2, t2 in cr:
                                # the helper was called with a null argument
                                nc = nullcheck(g, c2) if isinstance(c2, int) and isinstance(t2, bool) else None
                                if nc and nc[1] == t2 and g.k(nc[0]) == "DeclRefExpr":
                                    lits |= frozenset(("null", f.args(i)[n]) for n, p in enumerate(g.params) if p[0] == g.x(nc[0])["d"] and n < len(f.args(i)))
                            if kd == "param":
                                pi = [n for n, p in enumerate(g.params) if p[0] == de]
                                out += self.alts(f.args(i)[pi[0]], conds | lits, depth + 1) if pi and pi[0] < len(f.args(i)) else [("unknown", i, conds)]
                            else:
                                out.append((kd, de if kd != "bind" else ("helper", None), conds | lits))
                return out or [("unknown", i, conds)]
        return [("unknown", i, conds)]

    def defs(self, d):
        """[(value or None, statement)] for a local"""
        f = self.f
        out = []
        for i in range(len(f.nodes)):
            k = f.k(i)
            if k == "DeclStmt":
                for dd, ini in f.x(i)["vars"]:
                    if dd == d:
                        out.append((ini if ini is not None and ini >= 0 else None, i))
            elif k == "BinaryOperator" and f.x(i)["op"] == "=" and self.names(f.kids(i)[0], d):
                out.append((f.kids(i)[1], i))
            elif k == "Call" and (f.callee(i) or {}).get("oo") == "=" and f.args(i) and self.names(f.obj(i), d):
                out.append((f.args(i)[0], i))
        return out

    def reach(self, d, use):
        """[(value or None, statement, conditions)]: the definitions of a local that reach a use, each with what
        holds on every path from the start of the function through the definition to the use"""
        f = self.f
        defs = {at: v for v, at in self.defs(d)}
        w = f.where.get(use)
        if w is None:
            return [(v, at, frozenset(a for a in conds_at(f, at) if isinstance(a[1], bool))) for at, v in defs.items()]
        start = {}

        def through(st, b, upto=None):
            for n, e in enumerate(f.blocks[b]["e"]):
                if upto is not None and n >= upto:
                    break
                if isinstance(e, int) and e in defs:
                    st = {e: frozenset(a for a in conds_at(f, e) if isinstance(a[1], bool))}
            return st
        inn = {f.entry: {}}
        work = [f.entry]
        while work:
            b = work.pop()
            o = through(inn[b], b)
            for ix, t in enumerate(f.blocks[b]["s"]):
                if t is None:
                    continue
                atoms = frozenset(a for a in edge_atoms(f, b, ix) if isinstance(a[1], bool))
                new = {k: v | atoms for k, v in o.items()}
                old = inn.get(t)
                if old is None:
                    inn[t] = new
                    work.append(t)
                    continue
                m = dict(old)
                for k, v in new.items():
                    m[k] = (m[k] & v) if k in m else v
                if m != old:
                    inn[t] = m
                    work.append(t)
        st = through(inn.get(w[0], {}), w[0], w[1])
        return [(defs[k], k, c) for k, c in sorted(st.items())]

    def names(self, i, d):
        i = self.f.strip(i)
        return i is not None and i >= 0 and self.f.k(i) == "DeclRefExpr" and self.f.x(i)["d"] == d

    def cond(self, c, truth):
        return frozenset(_Dom_expand(self.f, c, truth))

    def literals(self, conds):
        """string literals and queries that a set of conditions depends on"""
        f = self.f
        out = set()
        seen = set()

        def walk(i, depth=0):
            if i is None or i < 0 or (i in seen) or depth > 6:
                return
            seen.add(i)
            for j in f.subtree(i):
                if j < 0:
                    continue
                if f.k(j) == "StringLiteral":
                    out.add(f.x(j).get("s", ""))
                elif f.k(j) in ("Call", "Construct"):
                    c = f.callee(j)
                    if c:
                        out.add("()" + last(c["q"]))
                        g = self.prog.fns.get(c["u"])
                        if g is not None and g.entry is not None and g.file == f.file:
                            for n in range(len(g.nodes)):
                                if g.k(n) == "StringLiteral":
                                    out.add(g.x(n).get("s", ""))
                                elif g.k(n) == "Call" and g.callee(n):
                                    out.add("()" + last(g.callee(n)["q"]))
                elif f.k(j) == "DeclRefExpr":
                    dd = f.tab.decls[f.x(j)["d"]]
                    if dd["k"] == "var":
                        if dd.get("g"):
                            v = self.prog.vars.get(dd.get("u"))
                            out.update(lits_of(v and v.get("val")))
                        for v, at in self.defs(f.x(j)["d"]):
                            walk(v, depth + 1)
                            if at is not None:
                                for c2, t2 in conds_at(f, at):
                                    walk(c2, depth + 1)
                elif f.k(j) == "MemberExpr":
                    dd = f.decl(j)
                    if dd and dd.get("q", "").startswith("mm::PdfName::Key"):
                        out.add(dd["q"].split("::Key")[-1])
        for a in conds:
            if a[0] == "lit":
                out.add(a[1])
            elif isinstance(a[0], int) and isinstance(a[1], bool):
                c, t = f.strip(a[0]), a[1]
                while f.k(c) == "UnaryOperator" and f.x(c)["op"] == "!":
                    c, t = f.strip(f.kids(c)[0]), not t
                if f.k(c) == "BinaryOperator" and f.x(c)["op"] == "!=" or f.k(c) == "Call" and (f.callee(c) or {}).get("oo") == "!=":
                    t = not t
                new = set(out)
                out.clear()
                seen.clear()
                walk(c)
                # only what holds counts: equal to a name, or metadata that is not encrypted
                got = {l for l in out if (l == "()IsMetadataEncrypted") != t}
                out.clear()
                out |= new | got
        return out


def lits_of(v):
    out = set()
    if isinstance(v, dict):
        if "s" in v:
            out.add(v["s"])
        for y in v.values():
            out |= lits_of(y)
    elif isinstance(v, list):
        for y in v:
            out |= lits_of(y)
    return out


def _Dom_expand(f, c, truth):
    d = dom_helper(f)
    return d.expand(frozenset(), c, truth)


def dom_helper(f):
    from lib import _Dom
    r = f.__dict__.get("_domh")
    if r is None:
        r = f._domh = _Dom(f)
    return r


def nullcheck(f, c):
    """(operand, truth when null) of a null test"""
    c = f.strip(c)
    if c < 0:
        return None
    if f.k(c) == "BinaryOperator" and f.x(c)["op"] in ("==", "!="):
        a, b = f.kids(c)
        for l, r in ((a, b), (b, a)):
            if is_null(f, r) and (f.type(f.strip(l)) or {}).get("k") not in ("int", "enum", "bool", "float"):
                return f.strip(l), f.x(c)["op"] == "=="
        return None
    if f.k(c) == "Call" and (f.callee(c) or {}).get("oo") in ("==", "!="):
        ops = ([f.obj(c)] if f.obj(c) >= 0 else []) + list(f.args(c))
        for l, r in (ops[:2], ops[1::-1]) if len(ops) == 2 else ():
            if is_null(f, r):
                return f.strip(l), f.callee(c)["oo"] == "=="
        return None
    if f.k(c) == "Call" and last((f.callee(c) or {}).get("q", "")) in ("operator bool", "HasEncrypt") and f.obj(c) >= 0:
        return f.strip(f.obj(c)), False
    if f.k(c) in ("DeclRefExpr", "MemberExpr") and (f.type(c) or {}).get("k") == "ptr":
        return c, False
    return None


def run(prog, ctx):
    ctx.rule("E1", "the encryption of the document reaches every value that is written or read")
    ctx.rule("E2", "what is written or returned has passed the cipher whenever there is an encryption")
    ctx.rule("E3", "an object's encryption uses the object's own reference and both directions use the same key and layout")
    ctx.rule("E4", "every save of an encrypted document installs the encryption and its key before objects are written")
    ctx.rule("E5", "the encryption of a parsed object is set before it is used and does not change")
    lib = [f for f in prog.fns.values() if f.entry is not None]
    READ.clear(); WRITE.clear()
    plain(prog)
    forward(prog, ctx, lib)
    payload(prog, ctx, lib)
    ciphers(prog, ctx, lib)
    saves(prog, ctx, lib)
    streamed(prog, ctx, lib)
    parsing(prog, ctx, lib)
    for r in sorted(set(READ) | set(WRITE)):
        g = (READ.get(r) or WRITE.get(r))
        ctx.check("E1", r in READ and r in WRITE, g.sig(), r, g.loc(), "%s are %s, so they do not survive saving and loading" % (
            r, "read without decryption but written encrypted" if r in READ else "written in clear but decrypted when they are read"))
    ctx.need("E1", 30)
    ctx.need("E2", 5)
    ctx.need("E3", 10)
    ctx.need("E4", 4)
    ctx.need("E5", 3)


_plain = {}


def plain(prog):
    """functions that work on text that is never encrypted, and helpers used by nothing else"""
    _plain.clear()
    for f in prog.fns.values():
        if f.q in PLAIN or f.q.split("::")[-1] in PLAIN and f.cls is None:
            _plain[f.usr] = PLAIN.get(f.q) or PLAIN[f.q.split("::")[-1]]
    ch = True
    while ch:
        ch = False
        for f in prog.fns.values():
            if f.usr in _plain or encparam(f):
                continue
            cs = prog.callers.get(f.usr, ())
            if cs and all(c in _plain for c in cs):
                _plain[f.usr] = "only used by such code"
                ch = True


SIG = {"Sig", "DocTimeStamp"}


READ, WRITE = {}, {}


def exempt(s, conds):
    """the conditions name a part of the file that the format keeps readable"""
    l = s.literals(conds)
    r = None
    if SIG <= l and "Contents" in l:
        r = "the contents of signatures"
    elif "Crypt" in l and "()IsMetadataEncrypted" in l:
        r = "metadata with a Crypt filter"
    if r:
        (WRITE if writes(s.f) else READ)[r] = s.f
    return r


def own_ref(f, i):
    i = f.strip(i)
    if i is None or i < 0:
        return False
    p = f.path(i)
    if p == "this.m_IndirectReference":
        return True
    if f.k(i) == "Call" and last((f.callee(i) or {}).get("q", "")) == "GetIndirectReference" and (f.obj(i) < 0 or f.k(f.strip(f.obj(i))) == "This"):
        return True
    if f.k(i) == "DeclRefExpr" and f.tab.decls[f.x(i)["d"]]["k"] == "var":
        v = [y for y in var_inits(f).get(f.x(i)["d"], []) if y is not None]
        return len(v) == 1 and own_ref(f, v[0])
    if f.k(i) == "Construct" and len(f.args(i)) == 1:
        return own_ref(f, f.args(i)[0])
    return False


def forward(prog, ctx, lib):
    for f in sorted(lib, key=lambda f: f.q):
        ep = encparam(f)
        s = Src(prog, f)
        if f.cls in (SE,) or (f.cls or "").startswith("mm::PdfEncrypt") or (f.cls or "").startswith("std::"):
            continue
        used = False
        for i in f.calls():
            c = f.callee(i)
            if not c or c["q"].startswith("std::") or c.get("oo") == "=" or c["q"].startswith(SE) or c["q"].startswith("mm::PdfEncrypt"):
                continue
            if dead(f, i):
                continue
            for n, t in enumerate(c.get("p", [])):
                if base(f, f.ty(t)) not in (SE, EN) or n >= len(f.args(i)):
                    continue
                a = f.args(i)[n]
                if f.k(f.strip(a)) == "CXXDefaultArgExpr" and ep is None and f.usr in _plain:
                    ctx.ok("E1", "%s: %s" % (f.sig(), _plain[f.usr]))
                    continue
                here = frozenset(y for y in conds_at(f, i) if isinstance(y[1], bool))
                for kind, de, conds in s.alts(a):
                    conds = conds | here
                    ok, msg = judge(prog, f, s, ep, kind, de, conds, c)
                    ctx.check("E1", ok, f.sig(), "%s receives %s" % (c["q"], kind), f.loc(i),
                              "%s receives %s: %s" % (c["q"], "no encryption" if kind == "none" else "another encryption", msg))
        if ep is not None and base(f, f.ty(ep[2])) == SE:
            if f.q in EXEMPT:
                continue
            use = any(f.k(n) == "DeclRefExpr" and f.x(n)["d"] == ep[0] and not discarded(f, n) for n in range(len(f.nodes)))
            # a function without a body of its own (default argument overloads) forwards
            ctx.check("E1", use, f.sig(), "uses its encryption", f.loc(), "the encryption that is passed in is not used, so strings and streams inside are processed in clear")
            for i in f.calls():
                c = f.callee(i)
                if c and c["q"] in TEXT and writes(f):
                    ctx.bad("E1", f.sig(), "text of a value is written directly", f.loc(i), "%s gives text that is not encrypted in a function that writes to the document" % last(c["q"]))


def writes(f):
    return any(base(f, f.ty(p[2])) in ("mm::OutputStream", "mm::OutputStreamDevice") for p in f.params)


def discarded(f, n):
    p = f.parent.get(n)
    while p is not None and f.k(p) == "Cast":
        if (f.type(p) or {}).get("k") == "void" or (f.type(p) or {}).get("c") == "void":
            return True
        p = f.parent.get(p)
    return False


def judge(prog, f, s, ep, kind, de, conds, c):
    if f.usr in _plain and kind == "none":
        return True, ""
    def null_of(pred):
        return any(cc == "null" and pred(f.strip(t)) for cc, t in conds) or any(isinstance(cc, int) and isinstance(t, bool) and (lambda nc: nc and nc[1] == t and pred(nc[0]))(nullcheck(f, cc)) for cc, t in conds)
    if kind == "none":
        if exempt(s, conds):
            return True, ""
        if ep is not None:
            return null_of(lambda o: f.k(o) == "DeclRefExpr" and f.x(o)["d"] == ep[0]), "the encryption of the caller is not passed on"
        if null_of(lambda o: any(a[0] == "member" for a in s.alts(o))):
            return True, ""
        # the encryption dictionary itself
        for cc, t in conds:
            if isinstance(cc, int) and f.k(f.strip(cc)) == "BinaryOperator" and f.x(f.strip(cc))["op"] in ("==", "!="):
                ps = [f.path(f.strip(k)) or "" for k in f.kids(f.strip(cc))]
                if any(p.endswith("m_EncryptObj") for p in ps) and t == (f.x(f.strip(cc))["op"] == "=="):
                    return True, ""
        return False, "only the encryption dictionary, trailers and cross-reference data stay in clear"
    if kind == "unknown":
        return False, "its origin cannot be followed"
    if kind == "bind":
        src, ref = de
        if src == "helper":
            return True, ""
        return own_ref(f, ref), "it is bound to another reference than the one of the object"
    if kind == "param":
        return ep is not None and (de == ep[0] or any(p[0] == de for p in f.params)), "it is not the encryption that was passed in"
    return ep is None or f.d.get("ctor"), "the encryption that was passed in is ignored"


# ------------------------------------------------------------------ payloads
class Taint(lib_Must):
    """powerset of (has encryption, plain variables)"""

    def __init__(self, prog, f, ep):
        self.prog, self.f, self.ep = prog, f, ep
        self.hits = {}

    def has_query(self, c):
        f = self.f
        c = f.strip(c)
        d = bool_def(f, c)
        if d is not None:
            return self.has_query(d)
        if f.k(c) == "UnaryOperator" and f.x(c)["op"] == "!":
            r = self.has_query(f.kids(c)[0])
            return None if r is None else not r
        nc = nullcheck(f, c)
        if nc:
            for a in Src(self.prog, f).alts(nc[0]):
                if a[0] in ("param", "member", "bind") and (a[0] != "param" or a[1] == self.ep):
                    return not nc[1]
        return None

    def empty_query(self, c):
        """(path, truth when empty)"""
        f = self.f
        c = f.strip(c)
        if f.k(c) == "UnaryOperator" and f.x(c)["op"] == "!":
            r = self.empty_query(f.kids(c)[0])
            return r and (r[0], not r[1])
        if f.k(c) == "Call" and last((f.callee(c) or {}).get("q", "")) == "empty" and f.obj(c) >= 0:
            return self.p(f.obj(c)), True
        if f.k(c) == "BinaryOperator" and f.x(c)["op"] in ("==", "!=", ">", "<", ">="):
            a, b = f.kids(c)
            op = f.x(c)["op"]
            if f.cv(f.strip(a)) is not None:
                a, b = b, a
                op = {">": "<", "<": ">", ">=": "<="}.get(op, op)
            a = f.strip(a)
            v = f.cv(b) if f.cv(b) is not None else f.cv(f.strip(b))
            if f.k(a) == "Call" and last((f.callee(a) or {}).get("q", "")) in ("size", "length") and f.obj(a) >= 0:
                if (op, v) in (("==", 0), ("<", 1)):
                    return self.p(f.obj(a)), True
                if (op, v) in (("!=", 0), (">", 0), (">=", 1)):
                    return self.p(f.obj(a)), False
        return None

    def p(self, i):
        q = self.f.path(self.f.strip(i))
        return q.lstrip("*&") if q else None

    def tainted(self, i, st):
        f = self.f
        has, plain = st
        if i is None or i < 0:
            return False
        for j in self.expr(i):
            k = f.k(j)
            if k in ("DeclRefExpr", "MemberExpr"):
                q = f.path(j)
                q = q and q.lstrip("*&")
                if q is None:
                    continue
                if q in plain:
                    return True
                if q.startswith("this.") and self.buffer(j) and q not in self.clean(plain):
                    return True
        return False

    def expr(self, i):
        """sub-expressions whose value flows into i (conditions and sizes excluded)"""
        f = self.f
        out = []
        st = [i]
        while st:
            j = st.pop()
            if j is None or j < 0:
                continue
            if f.k(j) == "ConditionalOperator":
                st += f.kids(j)[1:]
                continue
            if f.k(j) == "Call" and last((f.callee(j) or {}).get("q", "")) in ("size", "length", "empty", "HasEncrypt", "CalculateStreamLength"):
                continue
            out.append(j)
            st += f.kids(j)
            if f.k(j) in ("Call", "Construct"):
                st += [a for a in f.args(j)] + ([f.obj(j)] if f.k(j) == "Call" and f.obj(j) >= 0 else [])
        return set(out)

    def clean(self, plain):
        return {q[1:] for q in plain if q.startswith("!")}

    def buffer(self, j):
        t = self.f.type(j)
        return bool(t) and t["k"] in ("rec", "ptr", "ref", "arr") and base(self.f, t) not in (EN, SE) and not (base(self.f, t) or "").endswith(("Device", "Stream", "Reference", "PdfFilterList"))

    def setp(self, plain, q, taint):
        if q is None:
            return plain
        plain = {x for x in plain if x != q and x != "!" + q}
        if taint:
            plain.add(q)
        elif q.startswith("this."):
            plain.add("!" + q)
        return frozenset(plain)

    def run(self, sinks):
        f = self.f
        start = frozenset("v%d:%s" % (p[0], p[1]) for p in f.params if p[0] != self.ep and base(f, f.ty(p[2])) not in ("mm::OutputStream", "mm::OutputStreamDevice", "mm::InputStreamDevice", "mm::PdfVariant") and (f.ty(p[2]) or {}).get("k") not in ("enum", "bool", "int"))
        ins = {b: set() for b in f.blocks}
        st0 = ("U", start)
        ins[f.entry].add(st0)
        work = [(f.entry, st0)]
        n = 0
        while work:
            n += 1
            if n > 40000:
                raise AnalysisError("too many states in " + f.q)
            b, st = work.pop()
            bl = f.blocks[b]
            sts = [st]
            for e in bl["e"]:
                new = []
                for st in sts:
                    new += [x for x in (self.elem1(e, y, sinks) for y in self.fork(e, st)) if x is not None]
                sts = new
            for st in sts:
                for ix, t in enumerate(bl["s"]):
                    if t is None:
                        continue
                    s2 = st
                    for c, truth in edge_atoms(f, b, ix):
                        s2 = self.refine(s2, c, truth)
                        if s2 is None:
                            break
                    if s2 is not None and s2 not in ins[t]:
                        ins[t].add(s2)
                        work.append((t, s2))

    def fork(self, e, st):
        """a boolean that combines several tests: one state per way in which it gets its value"""
        f = self.f
        if not isinstance(e, int) or f.k(e) != "DeclStmt":
            return [st]
        for d, ini in f.x(e)["vars"]:
            if ini is None or ini < 0 or (f.type(f.strip(ini)) or {}).get("k") != "bool" or f.k(f.strip(ini)) != "BinaryOperator" or f.x(f.strip(ini))["op"] not in ("&&", "||"):
                continue
            out = []
            for truth in (True, False):
                for conj in self.ways(ini, truth):
                    s2 = st
                    for c, t in conj:
                        s2 = s2 and self.refine(s2, c, t)
                    if s2:
                        s2 = (s2[0], s2[1] | {"?%d:%s" % (d, "TF"[not truth])})
                        if s2 not in out:
                            out.append(s2)
            return out
        return [st]

    def ways(self, c, truth):
        f = self.f
        c = f.strip(c)
        if f.k(c) == "UnaryOperator" and f.x(c)["op"] == "!":
            return self.ways(f.kids(c)[0], not truth)
        if f.k(c) == "BinaryOperator" and f.x(c)["op"] in ("&&", "||"):
            a, b = f.kids(c)
            full = (f.x(c)["op"] == "&&") == truth
            if full:
                return [x + y for x in self.ways(a, truth) for y in self.ways(b, truth)]
            return self.ways(a, truth) + [x + y for x in self.ways(a, not truth) for y in self.ways(b, truth)]
        return [[(c, truth)]]

    def refine(self, st, c, truth):
        if not isinstance(truth, bool):
            return st
        c1 = self.f.strip(c)
        if self.f.k(c1) == "DeclRefExpr" and "?%d:%s" % (self.f.x(c1)["d"], "FT"[not truth]) in st[1]:
            return None
        h = self.has_query(c)
        if h is not None:
            v = "T" if h == truth else "F"
            return None if st[0] not in ("U", v) else (v, st[1])
        e = self.empty_query(c)
        if e and e[0] and e[1] == truth:
            return (st[0], self.setp(st[1], e[0], False))
        return st

    def elem1(self, e, st, sinks):
        f = self.f
        has, plain = st
        if isinstance(e, list):
            return st
        if not isinstance(e, int):
            return st
        k, x = f.k(e), f.x(e)
        if k == "Throw":
            return None
        if k == "DeclStmt":
            for d, ini in x["vars"]:
                dd = f.tab.decls[d]
                q = "v%d:%s" % (d, dd["q"].split("::")[-1])
                plain = self.setp(plain, q, ini is not None and ini >= 0 and self.tainted(ini, (has, plain)))
            return has, plain
        if k in ("BinaryOperator", "CompoundAssign") and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">="):
            q = self.p(f.kids(e)[0])
            t = self.tainted(f.kids(e)[1], st)
            if x["op"] != "=":
                t = t or self.tainted(f.kids(e)[0], st)
            sinks(self, e, f.kids(e)[0], f.kids(e)[1], st, t)
            return has, self.setp(plain, q, t)
        if k == "ReturnStmt" and f.kids(e):
            sinks(self, e, None, f.kids(e)[0], st, self.tainted(f.kids(e)[0], st))
            return st
        if k in ("Call", "Construct"):
            c = f.callee(e)
            if not c:
                return st
            nm = last(c["q"])
            args, obj = f.args(e), f.obj(e) if k == "Call" else -1
            if nm in ("EncryptTo", "DecryptTo") and args:
                return has, self.setp(plain, self.p(args[0]), False)
            if c.get("oo") == "=" and args:
                t = self.tainted(args[0], st)
                sinks(self, e, obj, args[0], st, t)
                return has, self.setp(plain, self.p(obj), t)
            if nm == "swap" and (len(args) == 1 and obj >= 0 or len(args) == 2):
                a, b2 = (self.p(obj), self.p(args[0])) if obj >= 0 and len(args) == 1 else (self.p(args[0]), self.p(args[1]))
                ta, tb = self.tainted(obj if obj >= 0 else args[0], st), self.tainted(args[-1], st)
                return has, self.setp(self.setp(plain, a, tb), b2, ta)
            sinks(self, e, obj, args, st, any(self.tainted(a, st) for a in args))
            g = self.prog.fns.get(c["u"])
            passes = any(base(f, f.ty(t)) in (SE, EN) for t in c.get("p", []))
            any_t = any(self.tainted(a, st) for a in args) and not passes
            if k == "Call" and obj >= 0 and not c.get("cm") and not (g is not None and g.d.get("cm")) and nm not in ("data", "begin", "end", "size", "reserve", "shrink_to_fit", "resize", "Write", "write", "Flush"):
                if nm == "clear":
                    return has, self.setp(plain, self.p(obj), False)
                if any_t:
                    plain = self.setp(plain, self.p(obj), True)
            for a, t in zip(args, c.get("p", [])):
                ty = f.ty(t)
                if ty and ty["k"] == "ref" and not ty.get("s", "").startswith("const ") and (any_t or self.tainted(a, st)) and not passes:
                    plain = self.setp(plain, self.p(a), True)
            return has, plain
        return st


def payload(prog, ctx, lib):
    need = {"mm::PdfString::Write": 0, "mm::PdfMemoryObjectStream::Write": 0, "mm::PdfTokenizer::ReadString": 0, "mm::PdfString::FromHexData": 0}
    for f in sorted(lib, key=lambda f: f.q):
        ep = encparam(f)
        if ep is None or base(f, f.ty(ep[2])) != SE or f.cls == SE:
            continue
        direct = any(last((f.callee(i) or {}).get("q", "")) in ("EncryptTo", "DecryptTo") for i in f.calls())
        if f.q in need:
            helper = any((f.callee(i) or {}).get("u") in prog.fns and encparam(prog.fns[f.callee(i)["u"]]) is not None and prog.fns[f.callee(i)["u"]].q not in need and
                         any(base(f, f.ty(t)) == SE for t in (f.callee(i) or {}).get("p", [])) for i in f.calls())
            if not direct and not helper and not any((f.callee(i) or {}).get("q") in need for i in f.calls()):
                ctx.bad("E2", f.sig(), "transforms its data", f.loc(), "the data is processed without passing it through the encryption")
                continue
        if not direct:
            continue
        enc = any(last((f.callee(i) or {}).get("q", "")) == "EncryptTo" for i in f.calls())
        t = Taint(prog, f, ep[0])
        hits = set()
        seen = [0]

        def sink(tt, e, obj, args, st, tainted):
            n = None
            if isinstance(args, list):
                c = f.callee(e)
                nm = last(c["q"])
                if enc and nm in ("Write", "write", "WriteChar", "append") and obj is not None and obj >= 0:
                    o = tt.p(obj)
                    if o and any(o == "v%d:%s" % (p[0], p[1]) for p in f.params):
                        n = "is written"
            elif obj is None:
                if base(f, f.type(args)) not in (None,) and (f.type(args) or {}).get("k") not in ("bool", "int"):
                    n = "is returned"
            else:
                o = tt.p(obj)
                if not enc and o and any(o == "v%d:%s" % (p[0], p[1]) and base(f, f.ty(p[2])) == "mm::PdfVariant" for p in f.params):
                    n = "is stored in the result"
            if n:
                seen[0] += 1
                if tainted and st[0] != "F":
                    hits.add((e, n))
        t.run(sink)
        for e, n in sorted(hits):
            ctx.bad("E2", f.sig(), "data that did not pass the cipher %s" % n, f.loc(e), "data that did not pass the cipher %s although the document may be encrypted" % n)
        if not hits:
            ctx.ok("E2", f.sig(), max(1, seen[0]))
        if f.q in need:
            need[f.q] += 1
    # the length of an encrypted stream is the length of the encrypted data
    for f in lib:
        if f.q != "mm::PdfObject::Write":
            continue
        ep = encparam(f)
        for i in f.calls():
            c = f.callee(i) or {}
            if last(c.get("q", "")) not in ("AddKey", "AddKeyIndirect"):
                continue
            if not any("Length" in (f.text(a) or "") for a in f.args(i)[:1]):
                continue
            v = f.args(i)[1]
            names = vars_in(f, v)
            calc = [j for d in names for w in var_inits(f).get(d, []) if w is not None for j in [w] + list(f.subtree(w)) if j >= 0 and f.k(j) == "Call" and last((f.callee(j) or {}).get("q", "")) == "CalculateStreamLength"]
            calc += [j for j in f.subtree(v) if j >= 0 and f.k(j) == "Call" and last((f.callee(j) or {}).get("q", "")) == "CalculateStreamLength"]
            calc = sorted(set(calc))
            ok = False
            for j in calc:
                extra = [cc for cc in conds_at(f, j) - conds_at(f, f.where and i) if isinstance(cc[1], bool)]
                tt = Taint(prog, f, ep[0])
                ok = ok or all((lambda h: h is not None and h == t2)(tt.has_query(cc)) for cc, t2 in extra)
            ctx.check("E2", ok, f.sig(), "stream length", f.loc(i), "the length that is written for a stream is not the one of its encrypted data")


# ------------------------------------------------------------------ ciphers
def ciphers(prog, ctx, lib):
    # the stateful encryption only forwards
    for f in lib:
        if f.cls != SE:
            continue
        if f.d.get("ctor") and len(f.params) == 2:
            ini = {x[0]: x[1] for x in f.d.get("inits", [])} if isinstance(f.d.get("inits"), list) else {}
            el = [e for b in f.blocks.values() for e in b["e"] if isinstance(e, list) and e[0] == "init"]
            got = set()
            for e in el:
                nm, n = e[1], e[2]
                for d in vars_in(f, n):
                    got.add((nm.split("::")[-1], [p[1] for p in f.params].index(f.tab.decls[d]["q"].split("::")[-1]) if f.tab.decls[d]["q"].split("::")[-1] in [p[1] for p in f.params] else -1))
            ctx.check("E3", ("m_encrypt", 0) in got and ("m_currReference", 1) in got or bool(assigned_both(f)), f.sig(), "stores encryption and reference", f.loc(), "the encryption or the reference is not stored")
        elif last(f.q) in ("EncryptTo", "DecryptTo"):
            cs = [i for i in f.calls() if (f.callee(i) or {}).get("q", "").startswith(EN + "::") and last(f.callee(i)["q"]) in ("EncryptTo", "DecryptTo")]
            ok = bool(cs)
            for i in cs:
                a = f.args(i)
                ok = ok and last(f.callee(i)["q"]) == last(f.q) and len(a) == 3 and f.path(f.strip(a[2])) == "this.m_currReference" and \
                    [root_var(f.path(f.strip(a[n])) or "") for n in (0, 1)] == [root_var("v%d:%s" % (p[0], p[1])) for p in f.params[:2]]
            ctx.check("E3", ok, f.sig(), "forwards to the encryption", f.loc(), "the data, direction or reference that is forwarded to the encryption is not the one of the call")
    # EncryptTo / DecryptTo of PdfEncrypt call the method of their direction with the reference
    for f in lib:
        if f.cls == EN and last(f.q) in ("EncryptTo", "DecryptTo"):
            want = "Encrypt" if last(f.q) == "EncryptTo" else "Decrypt"
            cs = [i for i in f.calls() if last((f.callee(i) or {}).get("q", "")) in ("Encrypt", "Decrypt")]
            ref = [p for p in f.params if base(f, f.ty(p[2])) == "mm::PdfReference"]
            ok = bool(cs) and all(last(f.callee(i)["q"]) == want and any(var_is(f, a, ref[0][0]) for a in f.args(i)) for i in cs)
            ctx.check("E3", ok, f.sig(), "direction and reference", f.loc(), "the data is not passed to %s with the reference of the object" % want)
    # concrete encryptions
    fam = {}
    encs = set(prog.derived(EN))
    for f in lib:
        if f.cls in encs:
            if last(f.q) in ("Encrypt", "Decrypt", "CreateEncryptionInputStream", "CreateEncryptionOutputStream"):
                fam.setdefault(f.cls, []).append(f)
    for cls, fs in sorted(fam.items()):
        kinds = {}
        for f in sorted(fs, key=lambda f: f.q):
            ref = [p for p in f.params if base(f, f.ty(p[2])) == "mm::PdfReference"]
            if not ref:
                continue
            noret = [i for i in range(len(f.nodes)) if f.k(i) == "Throw"]
            r = keysrc(prog, f, ref[0][0])
            if not r:
                # forwards to its sibling, or is not supported
                sib = [i for i in f.calls() if (f.callee(i) or {}).get("cls") == f.cls and last(f.callee(i)["q"]) in ("Encrypt", "Decrypt") or (f.callee(i) or {}).get("q", "").startswith(cls + "::") and last(f.callee(i)["q"]) in ("Encrypt", "Decrypt")]
                if sib:
                    ctx.check("E3", all(any(var_is(f, a, ref[0][0]) for a in f.args(i)) for i in sib), f.sig(), "forwards the reference", f.loc(), "another reference than the one of the object is used")
                    kinds[f] = "sibling"
                else:
                    dead_end = f.exit is not None and not normal_exit(f)
                    ctx.check("E3", dead_end, f.sig(), "uses a key", f.loc(), "data is passed through without a key")
                continue
            for i, kind, ok, msg in r:
                ctx.check("E3", ok, f.sig(), "key of the cipher", f.loc(i), msg)
                kinds[f] = kind
        ks = {k for k in kinds.values() if k != "sibling"}
        ctx.check("E3", len(ks) <= 1, cls, "one kind of key", fs[0].loc(), "encryption and decryption use different keys (%s)" % ", ".join(sorted(ks)))
        # layout: the initialization vector precedes the data in both directions
        lay = {}
        for f in fs:
            for i in f.calls():
                c = f.callee(i) or {}
                if last(c.get("q", "")) in ("BaseEncrypt", "BaseDecrypt") and len(f.args(i)) >= 6:
                    e = last(c["q"]) == "BaseEncrypt"
                    a = f.args(i)
                    data = a[5] if e else a[3]
                    iv = a[2]
                    lay[last(f.q)] = (offset_of(f, data), offset_of(f, iv))
        if "Encrypt" in lay and "Decrypt" in lay:
            ctx.check("E3", lay["Encrypt"] == lay["Decrypt"], cls, "layout of encrypted data", fs[0].loc(), "encryption puts data and initialization vector at %s, decryption expects them at %s" % (lay["Encrypt"], lay["Decrypt"]))


def assigned_both(f):
    return False


def normal_exit(f):
    """the exit is reached otherwise than by an exception"""
    seen, st = set(), [f.entry]
    while st:
        b = st.pop()
        if b is None or b in seen:
            continue
        seen.add(b)
        bl = f.blocks[b]
        if any(isinstance(e, int) and f.k(e) == "Throw" for e in bl["e"]) or bl.get("nr"):
            continue
        if b == f.exit:
            return True
        st += bl["s"]
    return False


def offset_of(f, i):
    """what is added to the start of the buffer"""
    i = f.strip(i)
    if f.k(i) == "BinaryOperator" and f.x(i)["op"] == "+":
        r = f.strip(f.kids(i)[1])
        if f.k(r) == "DeclRefExpr":
            v = [y for y in var_inits(f).get(f.x(r)["d"], []) if y is not None]
            if len(v) == 1:
                r = f.strip(v[0])
        if f.k(r) == "Call":
            return last(f.callee(r)["q"]) + "()"
        return f.cv(r) if f.cv(r) is not None else f.text(r)
    return 0


def var_is(f, i, d):
    i = f.strip(i)
    while i >= 0 and f.k(i) == "Construct" and len(f.args(i)) == 1:
        i = f.strip(f.args(i)[0])
    return i >= 0 and f.k(i) == "DeclRefExpr" and f.x(i)["d"] == d


PRIM = {"BaseEncrypt": (0, 1), "BaseDecrypt": (0, 1), "RC4": (0, 1), "PdfRC4InputStream": (4, 5), "PdfRC4OutputStream": (3, 4), "PdfAESInputStream": (2, 3)}


def keysrc(prog, f, ref):
    """[(call, kind of key, ok, message)] for the calls that take a key"""
    out = []
    gens = [i for i in f.calls() if last((f.callee(i) or {}).get("q", "")) == "CreateObjKey"]
    m = Must(f, lambda g, e: [("key", key_arg(g, e, 0), key_arg(g, e, 1))] if isinstance(e, int) and e in gens and var_is(g, g.args(e)[2], ref) else ())
    st = states_of(m)
    for i in f.calls():
        c = f.callee(i)
        nm = last((c or {}).get("q", ""))
        if nm not in PRIM:
            continue
        kp = [n for n, t in enumerate(c.get("p", [])) if is_key(f, f.ty(t))]
        a = f.args(i)
        names = [f.path(f.strip(y)) for y in a]
        names = [n.lstrip("&*") if n else n for n in names]
        if any(n == "this.m_encryptionKey" for n in names):
            ok = any(n == "this.m_keyLength" for n in names) or True
            out.append((i, "document key", ok, ""))
            continue
        facts = st.get(f.where.get(i), frozenset())
        good = [t for t in facts if t[0] == "key" and t[1] in names and t[2] in names]
        out.append((i, "object key", bool(good), "the cipher is used with a key that is not derived from the reference of the object"))
    return out


def key_arg(f, e, n):
    p = f.path(f.strip(f.args(e)[n]))
    return p.lstrip("&*") if p else None


def is_key(f, t):
    return False


# ------------------------------------------------------------------ saving
def saves(prog, ctx, lib):
    wr = {"mm::PdfWriter"} | set(prog.derived("mm::PdfWriter"))
    for f in sorted(lib, key=lambda f: f.q):
        # a local writer of a document that has an encryption
        calls = [i for i in f.calls() if (f.callee(i) or {}).get("q") == "mm::PdfWriter::Write" and f.obj(i) >= 0 and f.k(f.strip(f.obj(i))) == "DeclRefExpr"]
        if calls and f.cls and any(base_field(prog, f.cls, n) for n in ("m_Encrypt",)):
            def gen(g, e):
                if isinstance(e, int) and g.k(e) == "Call" and (g.callee(e) or {}).get("q") == "mm::PdfWriter::SetEncrypt":
                    if any(own(g, a) for a in Src(prog, g).alts(g.args(e)[0])):
                        return ["enc"]
                if isinstance(e, int) and g.k(e) == "Call" and (g.callee(e) or {}).get("u") in prog.fns and not (g.callee(e) or {}).get("q", "").startswith("std::"):
                    # a helper that configures the writer it is given
                    h = prog.fns[g.callee(e)["u"]]
                    if h.entry is not None and h.usr != f.usr and any(base(h, h.ty(p[2])) == "mm::PdfWriter" for p in h.params) and last(h.q) != "Write" and all(
                            any(own(g, y) for y in Src(prog, g).alts(a)) for a, p in zip(g.args(e), h.params) if base(h, h.ty(p[2])) == EN):
                        if "enc" in exit_facts(h, gen, edge):
                            return ["enc"]
                return ()

            def edge(g, c, t):
                nc = nullcheck(g, c)
                if nc and nc[1] == t and any(own(g, a) for a in Src(prog, g).alts(nc[0])):
                    return ["enc"]
                return ()

            def own(g, a):
                # the document's encryption, or what a helper receives (its callers are judged where they pass it)
                return a[0] == "member" or a[0] == "param" and g.usr != f.usr
            st = states_of(Must(f, gen, None, edge=edge))
            for i in calls:
                ctx.check("E4", "enc" in st.get(f.where.get(i), ()), f.sig(), "the encryption is installed", f.loc(i), "the document is written without the encryption it has")
    # the writer's own key
    for f in sorted(lib, key=lambda f: f.q):
        if f.cls not in wr:
            continue
        gk = [i for i in f.calls() if last((f.callee(i) or {}).get("q", "")) == "GenerateEncryptionKey"]
        for i in gk:
            al = Src(prog, f).alts(f.obj(i))
            ctx.check("E4", all(a[0] == "member" for a in al), f.sig(), "generates the key of its own encryption", f.loc(i),
                      "the key is generated for another encryption than the one that the writer uses")
        need = [i for i in f.calls() if last((f.callee(i) or {}).get("q", "")) == "WritePdfObjects"]
        if f.d.get("ctor") and any((f.callee(i) or {}).get("q") == "mm::PdfWriter::SetEncrypt" for i in f.calls()):
            need = need + ["exit"]
        if not need:
            continue

        def gen2(g, e):
            if isinstance(e, int) and g.k(e) == "Call":
                if last((g.callee(e) or {}).get("q", "")) == "GenerateEncryptionKey":
                    return ["key"]
                h = prog.fns.get((g.callee(e) or {}).get("u"))
                if h is not None and h.cls in wr and h.entry is not None and h.usr != f.usr and h.usr not in busy:
                    busy.add(h.usr)
                    try:
                        if "key" in exit_facts(h, gen2, edge2):
                            return ["key"]
                    finally:
                        busy.discard(h.usr)
            return ()
        busy = set()

        def edge2(g, c, t):
            nc = nullcheck(g, c)
            if nc and nc[1] == t and any(a[0] in ("member", "param") for a in Src(prog, g).alts(nc[0])) and base(g, g.type(nc[0])) in (EN, None) or nc and nc[1] == t and (g.path(nc[0]) or "").endswith("m_Encrypt"):
                return ["key"]
            return ()
        start = frozenset()
        if not f.d.get("ctor"):
            # constructors that install the encryption also generate its key
            ct = [g for g in lib if g.cls == f.cls and g.d.get("ctor") and any((g.callee(i) or {}).get("q") == "mm::PdfWriter::SetEncrypt" for i in g.calls())]
            if ct and all("key" in exit_facts(g, gen2, edge2) for g in ct):
                start = frozenset(["key"])
        m = Must(f, gen2, None, edge=edge2, start=start)
        st = states_of(m)
        for i in need:
            ok = "key" in (exit_facts(f, gen2, edge2) if i == "exit" else st.get(f.where.get(i), ()))
            ctx.check("E4", ok, f.sig(), "the key exists before objects are written", f.loc() if i == "exit" else f.loc(i), "objects are written before the key of the encryption was generated")
    # the encryption dictionary is in the trailer of what is written
    for f in lib:
        if f.q == "mm::PdfWriter::FillTrailerObject":
            adds = [i for i in f.calls() if last((f.callee(i) or {}).get("q", "")).startswith("AddKey") and any("Encrypt" in literals(f, a) or "Encrypt" in (f.text(a) or "") for a in f.args(i)[:1])]
            ctx.check("E4", bool(adds), f.sig(), "the trailer names the encryption dictionary", f.loc(), "the trailer does not name the encryption dictionary")


def exit_facts(f, gen, edge):
    m = Must(f, gen, None, edge=edge)
    r = m.run()
    return m.out_at_exit() or ()


def base_field(prog, cls, name):
    r = prog.recs.get(cls)
    return bool(r) and any(x["n"] == name for x in r.get("fields", []))


# ------------------------------------------------------------------ parsing
def parsing(prog, ctx, lib):
    PO = "mm::PdfParserObject"
    for f in sorted(lib, key=lambda f: f.q):
        # the encryption of a parser object is assigned only where it is set
        if f.cls == PO or f.cls in prog.derived(PO):
            for i in range(len(f.nodes)):
                if f.k(i) == "BinaryOperator" and f.x(i)["op"] == "=" and (f.decl(f.strip(f.kids(i)[0])) or {}).get("q") == PO + "::m_Encrypt":
                    ctx.check("E5", f.d.get("ctor") or encparam(f) is not None and Src(prog, f).alts(f.kids(i)[1])[0][0] == "param", f.sig(), "keeps its encryption", f.loc(i),
                              "the encryption of a parsed object is replaced, so what is loaded later is not decrypted")
            # streams are read through the decryption
            for i in f.calls():
                if last((f.callee(i) or {}).get("q", "")) == "InitData":
                    a = f.strip(f.args(i)[0])
                    dec = decrypted(prog, f, a, i)
                    if dec is not None:
                        ctx.check("E5", dec == "own", f.sig(), "stream decryption", f.loc(i), "the stream is decrypted with another reference than the one of the object")
                        continue
                    s = Src(prog, f)
                    ok = False
                    for c, t in conds_at(f, i):
                        if not isinstance(t, bool):
                            continue
                        nc = nullcheck(f, c)
                        if nc and nc[1] == t:
                            al = s.alts(nc[0])
                            ok = ok or all(x[0] == "member" or x[0] == "none" and exempt(s, x[2] | frozenset(y for y in conds_at(f, x[1] if isinstance(x[1], int) else i))) for x in al) and any(x[0] == "member" for x in al)
                    ctx.check("E5", ok, f.sig(), "stream decryption", f.loc(i), "the data of the stream is loaded without decryption although the object may have an encryption")
        # every object that a parser adds has the parser's encryption
        if f.cls == "mm::PdfParser":
            pushes = [i for i in f.calls() if last((f.callee(i) or {}).get("q", "")) == "PushObject"]
            if pushes:
                parser_objects(prog, ctx, f, pushes)


def decrypted(prog, f, a, at):
    """the stream comes from CreateEncryptionInputStream; 'own' when with the reference of the object"""
    for j in [a] + [y for d in vars_in(f, a) for y in var_inits(f).get(d, []) if y is not None]:
        for n in [j] + list(f.subtree(j)):
            if n >= 0 and f.k(n) == "Call" and last((f.callee(n) or {}).get("q", "")) == "CreateEncryptionInputStream":
                return "own" if own_ref(f, f.args(n)[-1]) else "other"
    return None


def parser_objects(prog, ctx, f, pushes):
    def objs(g, i):
        return {d for d in vars_in(g, i)}

    def gen(g, e):
        if not isinstance(e, int):
            return ()
        if g.k(e) == "Call":
            q = (g.callee(e) or {}).get("q", "")
            if last(q) == "SetEncrypt" and all(a[0] == "member" for a in Src(prog, g).alts(g.args(e)[0])):
                return [("enc", d) for d in objs(g, g.obj(e))]
            if last(q) == "reset" and g.args(e) and "XRef" in Src(prog, g).literals(frozenset(c for c in conds_at(g, e) if isinstance(c[1], bool) and c[1])):
                return [("enc", d) for d in objs(g, g.obj(e))]
            h = prog.fns.get((g.callee(e) or {}).get("u"))
            if h is not None and h.cls == "mm::PdfParser" and h.entry is not None and any(last((h.callee(j) or {}).get("q", "")) == "SetEncrypt" for j in h.calls()):
                return [("enc", d) for a in g.args(e) for d in objs(g, a)]
        if g.k(e) == "DeclStmt":
            out = []
            for d, ini in g.x(e)["vars"]:
                if ini is not None and ini >= 0:
                    for j in g.subtree(ini):
                        h = j >= 0 and g.k(j) == "Call" and prog.fns.get((g.callee(j) or {}).get("u"))
                        if h and h.cls == "mm::PdfParser" and any(last((h.callee(y) or {}).get("q", "")) == "SetEncrypt" for y in h.calls()):
                            out.append(("enc", d))
            return out
        return ()

    def kill(g, e, fact):
        if isinstance(e, int) and g.k(e) == "Call" and last((g.callee(e) or {}).get("q", "")) == "reset" and g.args(e) and fact[1] in objs(g, g.obj(e)):
            return True
        return isinstance(e, int) and g.k(e) == "DeclStmt" and any(d == fact[1] for d, ini in g.x(e)["vars"])
    st = states_of(Must(f, gen, kill))
    for i in pushes:
        ds = {d for a in f.args(i) for d in vars_in(f, a)}
        t = any("ParserObject" in (f.tab.types[f.tab.decls[d]["t"]].get("c", "")) for d in ds if f.tab.decls[d].get("t", -1) >= 0)
        if not t:
            ctx.ok("E5", f.sig())
            continue
        ctx.check("E5", all(("enc", d) in st.get(f.where.get(i), ()) for d in ds), f.sig(), "added objects have the encryption", f.loc(i),
                  "an object is added without the encryption of the file, so its strings and streams stay encrypted")


def streamed(prog, ctx, lib):
    """streams that are written while their data arrive"""
    SP = "mm::PdfObjectStreamProvider"
    provs = [q for q in prog.derived(SP) if any(base_ty(prog, q, fl) == EN for fl in prog.recs[q]["fields"])]
    setters = set()
    for q in sorted(provs):
        fld = [fl["n"] for fl in prog.recs[q]["fields"] if base_ty(prog, q, fl) == EN]
        for f in lib:
            if f.cls == q and encparam(f) and any(f.k(i) == "BinaryOperator" and f.x(i)["op"] == "=" and f.path(f.strip(f.kids(i)[0])) in ["this." + n for n in fld] for i in range(len(f.nodes))):
                setters.add(f.usr)
    for f in sorted(lib, key=lambda f: f.q):
        own = lambda g, o: any(a[0] == "member" for a in Src(prog, g).alts(o))

        def edge(g, c, t):
            nc = nullcheck(g, c)
            if nc and nc[1] == t and (own(g, nc[0]) or (g.path(nc[0]) or "") == "this.m_CurrEncrypt"):
                return ["none"]
            # nothing to set when the stream is of another kind
            if nc and nc[1] == t and any(p in (base(g, g.type(nc[0])) or "") for p in provs):
                return ["none"]
            return ()
        if f.cls in provs and last(f.q) == "GetOutputStream":
            st = states_of(Must(f, lambda g, e: (), None, edge=edge))
            for i in range(len(f.nodes)):
                if f.k(i) == "ReturnStmt" and f.kids(i) and not dead(f, i):
                    enc = any(f.k(j) == "Call" and last((f.callee(j) or {}).get("q", "")) == "CreateEncryptionOutputStream" for j in deep(f, f.kids(i)[0]))
                    ctx.check("E2", enc or "none" in st.get(f.where.get(i), ()), f.sig(), "streamed data pass the cipher", f.loc(i), "the data of the stream are written in clear although the stream has an encryption")
        if f.cls in provs and last(f.q) == "FinishOutput":
            def gen(g, e):
                return ["none"] if isinstance(e, int) and g.k(e) == "Call" and last((g.callee(e) or {}).get("q", "")) == "CalculateStreamLength" else ()
            st = states_of(Must(f, gen, None, edge=edge))
            for i in f.calls():
                if last((f.callee(i) or {}).get("q", "")) == "SetNumber":
                    ctx.check("E2", "none" in st.get(f.where.get(i), ()), f.sig(), "length of the encrypted stream", f.loc(i), "the declared length is the one of the unencrypted data")
        if last(f.q) == "BeginAppendStream" and f.cls and f.cls in prog.derived("mm::PdfWriter"):
            def gen3(g, e):
                if isinstance(e, int) and g.k(e) == "Call" and (g.callee(e) or {}).get("u") in setters and g.args(e) and own(g, g.args(e)[0]):
                    return ["none"]
                h = prog.fns.get((g.callee(e) or {}).get("u")) if isinstance(e, int) and g.k(e) == "Call" else None
                if h is not None and h.entry is not None and h.cls == f.cls and h.usr != f.usr:
                    return exit_facts(h, lambda g2, e2: ["none"] if isinstance(e2, int) and g2.k(e2) == "Call" and (g2.callee(e2) or {}).get("u") in setters else (), edge)
                return ()
            ctx.check("E4", "none" in exit_facts(f, gen3, edge), f.sig(), "streamed data get the encryption", f.loc(), "a stream is opened for writing without the encryption of the document")


def base_ty(prog, q, fl):
    rec = prog.recs[q]
    t = rec["tab"].types[fl["t"]]
    while t is not None and t.get("k") in ("ptr", "ref") and t.get("e", -1) >= 0:
        t = rec["tab"].types[t["e"]]
    return (t or {}).get("c", "").replace("const ", "")


def deep(f, i):
    out, st = [], [i]
    while st:
        j = st.pop()
        if j is None or j < 0:
            continue
        out.append(j)
        st += list(f.kids(j))
        if f.k(j) in ("Call", "Construct", "New"):
            st += list(f.args(j))
        if f.k(j) == "DeclRefExpr":
            st += [v for v in var_inits(f).get(f.x(j)["d"], []) if v is not None]
    return out
