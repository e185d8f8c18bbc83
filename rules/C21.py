"""C21: read-only operations do not modify the document."""
from lib import *
import re

ASSUMPTIONS = [
    "The document is the graph of PdfObject, PdfDictionary, PdfArray, PdfVariant, PdfObjectStream and PdfIndirectObjectList values; caches kept in other objects (lists of pages, fields, annotations, fonts, metadata) are not part of it.",
    "Loading an object or a stream on demand (PdfObject::DelayedLoad, DelayedLoadStream) fills in what the file says and is not a modification.",
    "A value being read by the tokenizer is not owned by an object yet, so that it cannot mark one; objects of a streamed document are never loaded on demand.",
    "A modification is followed through pointers, references, iterators and objects that wrap a document object; values held in containers of library classes are followed as far as the expression that names them.",
]
WRITE = "mm::PdfObject::Write"
CORE = {
    "mm::PdfObject": {"m_Variant", "m_IndirectReference", "m_IsDirty", "m_Stream"},
    "mm::PdfDictionary": {"m_Map"},
    "mm::PdfArray": {"m_Objects"},
    "mm::PdfIndirectObjectList": {"m_Objects", "m_FreeObjects", "m_unavailableObjects", "m_ObjectCount", "m_objectStreams", "m_CanReuseObjectNumbers"},
    "mm::PdfObjectStream": {"m_Filters", "m_Provider"},
}
VALUE = re.compile(r"^(?:const )?(?:mm::Pdf(?:Object|Dictionary|Array|Variant|Name|String|Reference|Rect|Date|Color|Version|Filter\w*|PageTreeRoot)|std::(?!unique_ptr|shared_ptr|__\w*ptr|__normal_iterator|_Rb_tree|__detail|reverse_iterator|optional|pair|map|vector|set).*|mm::nullable<.*)$")
DOCP = re.compile(r"const mm::Pdf(?:Object|Dictionary|Array|Variant|ObjectStream|IndirectObjectList|Document|MemDocument|StreamedDocument|Page|Annotation|Field|Font|DictionaryElement|ArrayElement|Element|AcroForm|Catalog|Info|Metadata|Resources|Contents|XObject|XObjectForm|Image|NameTree|Outlines|OutlineItem|Destination|Action|FileSpec) [&*]$")
PLAIN = re.compile(r"^(?:char|unsigned \w+|signed \w+|int|long|double|float|bool|wchar_t|mm::Pdf(?:Name|String|Reference|Rect|Date|Color|Filter\w*)|std::basic_string.*|mm::PdfIndirectObjectList::ObserverList)$")
BARRIER = re.compile(r"mm::PdfObject::(?:DelayedLoad|DelayedLoadStream|EnableDelayedLoading\w*|DelayedLoadImpl|DelayedLoadStreamImpl)$|mm::PdfParserObject::|mm::PdfObjectStreamParser|mm::PdfXRefStreamParserObject::|mm::PdfParser::")
CORE["mm::PdfVariant"] = {"m_Data", "m_DataType"}
FIELDS = {c + "::" + f for c, fs in CORE.items() for f in fs}
PURE = {"begin", "end", "cbegin", "cend", "rbegin", "rend", "find", "at", "operator[]", "front", "back", "data", "get", "operator*", "operator->", "lower_bound", "upper_bound", "equal_range", "size", "empty", "c_str", "value", "has_value", "operator bool", "count", "base", "first", "second"}


WRITERS = re.compile(r"OrCreate|Output|ForAppending|PdfFontManager::|SubstituteFont|PdfXRef\w*::|Writer::")
UNOWNED = re.compile(r"mm::Pdf\w*Tokenizer::|mm::PdfStreamedObjectStream::")
LOADING = re.compile(r"mm::PdfObject::(?:DelayedLoad|DelayedLoadStream|DelayedLoadImpl|DelayedLoadStreamImpl)$|mm::PdfParserObject::|mm::PdfXRefStreamParserObject::DelayedLoad")


def unfiltered(f, i):
    """dominated by the stream having no filters"""
    for c, tr in conds_at(f, i):
        for j in f.subtree(c):
            if j >= 0 and f.k(j) == "Call" and f.callee(j) and f.callee(j)["q"].endswith("::GetFilters"):
                c2 = f.strip(c)
                if f.k(c2) == "BinaryOperator" and f.x(c2)["op"] in ("==", "!="):
                    return (f.x(c2)["op"] == "==") == tr
                if f.k(c2) == "BinaryOperator" and f.x(c2)["op"] == ">":
                    return not tr
                if f.k(c2) == "Call":
                    return tr
    return False


class Mut:
    def __init__(self, prog, barrier, fields=None, skip=None):
        self.prog = prog
        self.fields = fields or FIELDS
        self.skip = skip
        self.barrier = barrier
        self.sum = {}          # usr -> set of roots: 'this', int (param index), 'g'
        self.why = {}          # (usr, root) -> (node, callee usr or None)
        self.cache = {}
        self.solve()

    # ---- roots of an expression --------------------------------------------
    def ptype(self, t):
        """can a value of this type lead to document objects it does not own?"""
        if not t:
            return False
        k = t.get("k")
        if k in ("ptr", "ref"):
            c = re.sub(r"\bconst\b|[&*]| +$", "", t.get("c") or "").strip()
            return not PLAIN.match(c)
        if k != "rec":
            return False
        c = t.get("c") or ""
        if VALUE.match(c):
            return False
        return True

    def roots(self, f, e, seen=None):
        seen = set() if seen is None else seen
        while e is not None and e >= 0 and f.k(e) != "Construct" and f.kids(e) and f.strip(e) != e:
            if f.k(e) == "Construct": break
            e = f.kids(e)[0]
        if e is None or e < 0:
            return set()
        k = f.k(e)
        if k in ("CXXThisExpr", "This", "ThisExpr"):
            return {"this"}
        if k == "DeclRefExpr":
            d = f.x(e)["d"]
            return self.var(f, d, seen)
        if k in ("MemberExpr",):
            ks = f.kids(e)
            q = (f.decl(e) or {}).get("q") or ""
            if q.rsplit("::", 1)[0] not in CORE:
                # a value held by an object that is not part of the document
                t = f.ty(f.type(e)) if not isinstance(f.type(e), dict) else f.type(e)
                if t and t.get("k") == "rec" and VALUE.match(t.get("c") or ""):
                    return set()
            return self.roots(f, ks[0], seen) if ks else {"this"}
        if k in ("Call", "Construct"):
            t = f.ty(f.type(e)) if not isinstance(f.type(e), dict) else f.type(e)
            d = f.callee(e)
            if k == "Call" and d and d.get("t") is not None:
                t = f.tab.types[d["t"]]
            if k == "Construct" or not self.ptype(t):
                if not self.ptype(t):
                    return set()
            out = set()
            if k == "Call" and f.obj(e) is not None and f.obj(e) >= 0:
                out |= self.roots(f, f.obj(e), seen)
                if d and d["q"].startswith(("std::", "__gnu")):
                    return out
            for a in f.args(e):
                at = f.ty(f.type(a)) if not isinstance(f.type(a), dict) else f.type(a)
                if a >= 0 and self.lv(f, a, at):
                    out |= self.roots(f, a, seen)
            return out
        out = set()
        for c in f.kids(e):
            if c >= 0:
                out |= self.roots(f, c, seen)
        return out

    def lv(self, f, a, t):
        """argument that may carry a pointer: not a plain number or text"""
        c = (t or {}).get("c") or ""
        k = (t or {}).get("k")
        if k in ("int", "bool", "float", "enum", "real"):
            return False
        if re.search(r"basic_string|char", c) and "Pdf" not in c:
            return False
        if PLAIN.match(re.sub(r"\bconst\b|[&*]", "", c).strip()):
            return False
        return True

    def var(self, f, d, seen):
        if d in seen:
            return set()
        seen.add(d)
        dd = f.tab.decls[d]
        t = f.ty(dd["t"]) if dd.get("t") is not None else None
        if dd["k"] == "parm":
            for n, p in enumerate(f.params):
                if p[0] == d:
                    if t and t.get("k") in ("ptr", "ref") or self.ptype(t):
                        return {n}
                    return set()
            return set()                # lambda capture and the like
        if dd["k"] in ("var", "bind", "binding"):
            if dd.get("g") or dd.get("st") and False:
                return {"g"}
            if not self.ptype(t):
                return set()
            out = set()
            for i in var_inits(f).get(d, []):
                out |= self.roots(f, i, seen)
            return out
        return set()

    # ---- sinks -------------------------------------------------------------
    def field_in(self, f, e):
        """does the lvalue expression name a document field (by value path)?"""
        e = f.strip(e)
        while e is not None and e >= 0:
            if f.k(e) == "MemberExpr":
                q = (f.decl(e) or {}).get("q")
                if q in self.fields:
                    return True
                ks = f.kids(e)
                if not ks: return False
                e = f.strip(ks[0]); continue
            if f.k(e) in ("ArraySubscript", "ArraySubscriptExpr"):
                e = f.strip(f.kids(e)[0]); continue
            if f.k(e) == "Call" and f.callee(e) and f.callee(e)["q"].startswith("std::") and f.callee(e)["q"].split("::")[-1] in PURE:
                o = f.obj(e)
                if o is None or o < 0:
                    o = f.args(e)[0] if f.args(e) else None
                if o is None: return False
                e = f.strip(o); continue
            return False
        return False

    def local(self, f):
        if f.d.get("ctor") and f.cls in CORE or f.d.get("dtor"):
            return
        for i, n in enumerate(f.nodes):
            k = n[0]
            if k in ("BinaryOperator", "CompoundAssign") and (k == "CompoundAssign" or n[4]["op"] == "=") or k == "UnaryOperator" and n[4].get("op") in ("++", "--", "p++", "p--"):
                l = n[3][0]
                if self.skip and self.skip(f, i):
                    continue
                if self.field_in(f, l):
                    yield i, self.roots(f, l)
            elif k == "Call":
                d = f.callee(i)
                if d and d["q"].startswith(("std::", "__gnu")) and not d.get("cm"):
                    nm = d["q"].split("::")[-1]
                    o = f.obj(i)
                    if o is not None and o >= 0 and (nm not in PURE or nm == "operator[]" and re.search(r"map", d["q"])) and self.field_in(f, o):
                        yield i, self.roots(f, o)
                    elif (o is None or o < 0) and nm in ("swap", "sort", "move", "operator=") and nm != "move":
                        for a in f.args(i):
                            if self.field_in(f, a):
                                yield i, self.roots(f, a)

    # ---- fixpoint ----------------------------------------------------------
    def solve(self):
        fns = [f for f in self.prog.fns.values() if f.body is not None]
        sites = {}
        callers = {}
        for f in fns:
            self.sum[f.usr] = set()
        work = []
        for f in fns:
            if self.barrier(f):
                continue
            for i, rs in self.local(f):
                c = self.cond(f, i)
                for r in rs:
                    if (r, c) not in self.sum[f.usr]:
                        self.sum[f.usr].add((r, c)); self.why[(f.usr, (r, c))] = (i, None)
            ss = []
            for i in f.calls():
                ts = [u for u in self.prog.targets(f, i) if u in self.sum]
                if ts:
                    ss.append((i, ts))
                    for u in ts:
                        callers.setdefault(u, set()).add(f.usr)
            sites[f.usr] = ss
            if self.sum[f.usr]:
                work.append(f.usr)
        todo = set(work)
        while todo:
            u = todo.pop()
            for c in callers.get(u, ()):
                f = self.prog.fns[c]
                if self.barrier(f):
                    continue
                ch = False
                for i, ts in sites[c]:
                    if u not in ts:
                        continue
                    for r in list(self.sum[u]):
                        for x in self.maps(f, i, u, r):
                            if x not in self.sum[c]:
                                self.sum[c].add(x); self.why[(c, x)] = (i, (u, r)); ch = True
                if ch:
                    todo.add(c)

    def cond(self, f, i):
        """(k, truth): the node is only reached when the bool parameter k has this value"""
        prm = {p[0]: n for n, p in enumerate(f.params)}
        for c, tr in sorted(conds_at(f, i)):
            c = f.strip(c)
            while f.k(c) == "UnaryOperator" and f.x(c)["op"] == "!":
                c = f.strip(f.kids(c)[0]); tr = not tr
            if f.k(c) == "DeclRefExpr" and f.x(c)["d"] in prm and (f.ty(f.tab.decls[f.x(c)["d"]]["t"]) or {}).get("k") == "bool" and f.x(c)["d"] not in var_inits(f):
                return (prm[f.x(c)["d"]], tr)
        return None

    def maps(self, f, i, u, rc):
        key = (f.usr, i, u, rc)
        if key in self.cache:
            return self.cache[key]
        r, c = rc
        own = self.cond(f, i)
        if c is not None:
            a = f.args(i)
            if c[0] < len(a) and a[c[0]] >= 0:
                v = f.cv(f.strip(a[c[0]]))
                if v is not None:
                    if bool(v) != c[1]:
                        self.cache[key] = set()
                        return set()
                elif own is None:
                    e = f.strip(a[c[0]])
                    if f.k(e) == "DeclRefExpr":
                        for n, p in enumerate(f.params):
                            if p[0] == f.x(e)["d"] and p[0] not in var_inits(f):
                                own = (n, c[1])
        out = self.cache[key] = {(x, own) for x in self.maps0(f, i, u, r)}
        return out

    def maps0(self, f, i, u, r):
        g = self.prog.fns[u]
        out = set()
        if r == "g":
            out = {"g"}
        elif r == "this":
            if g.d.get("ctor"):
                # a wrapper object is what it wraps
                if g.cls not in CORE and "Document" not in g.cls:
                    for a in f.args(i):
                        if a >= 0: out |= self.roots(f, a)
            else:
                o = f.obj(i)
                if o is not None and o >= 0:
                    out = self.roots(f, o)
                elif f.cls == g.cls or True:
                    out = {"this"} if not f.d.get("st") and (o is None or o < 0) and f.k(i) == "Call" and g.cls else set()
                if f.args(i) and (o is None or o < 0) and f.x(i).get("op"):
                    out = self.roots(f, f.args(i)[0])
        else:
            a = f.args(i)
            n = r
            if n < len(a) and a[n] >= 0:
                out = self.roots(f, a[n])
        return out

    def trace(self, u, r, n=8):
        out = []
        while (u, r) in self.why and n:
            n -= 1
            i, nx = self.why[(u, r)]
            f = self.prog.fns[u]
            out.append("%s %s: %s" % (f.loc(i), f.q, f.text(i)[:90] if callable(getattr(f, "text", None)) else ""))
            if nx is None: break
            u, r = nx
        return out


def run(prog, ctx):
    R1 = ctx.rule("const-operations", "A public member function declared const, or a function taking a document object by reference or pointer to const, does not reach - through its object, that parameter, what they point to or const_cast - a statement that changes a document value or marks it modified (effect summaries over the call graph; values built locally are not the document).")
    M = Mut(prog, lambda f: bool(BARRIER.match(f.q) or f.q == WRITE))
    n = 0
    for f in sorted(prog.fns.values(), key=lambda f: f.q):
        if f.body is None or not f.q.startswith("mm::") or f.d.get("dtor"):
            continue
        # an effect which the caller has to ask for with a flag (create = true) is not a read-only use
        full = M.sum.get(f.usr, set())
        s = {r: (r, c) for r, c in full if c is None or not c[1]}
        if f.d.get("cm") and f.d.get("acc") in (None, "public", 0):
            n += 1
            ctx.check(R1, "this" not in s, f.sig(), "object", f.loc(), "the function is declared read-only but may change the document", "this" in s and M.trace(f.usr, s["this"]))
        if f.d.get("ctor"):
            continue                    # creates an object of its own in the document
        for k, p in enumerate(f.params):
            t = f.ty(p[2])
            c = (t or {}).get("c") or ""
            if t and t["k"] in ("ref", "ptr") and re.match(r"const mm::Pdf\w+ [&*]$", c) and DOCP.match(c):
                ctx.check(R1, k not in s, f.sig(), p[1], f.loc(), "the parameter is passed as read-only but the function may change it", k in s and M.trace(f.usr, s[k]))
    R2 = ctx.rule("getters", "A function named Get, Has, Is, Find, TryGet, MustGet or MustFind does not change a document value either, unless its name says that it creates (GetOrCreate), that it opens something for writing (output stream, stream for appending) or it imports a font.")
    for f in sorted(prog.fns.values(), key=lambda f: f.q):
        if f.body is None or f.d.get("cm") or not re.match(r"(?:mm::Pdf\w+::)(?:Get|Has|Is|Find|TryGet|MustGet|MustFind)(?=[A-Z])", f.q) or WRITERS.search(f.q):
            continue
        s = {r: (r, c) for r, c in M.sum.get(f.usr, set()) if c is None or not c[1]}
        ctx.check(R2, "this" not in s, f.sig(), "object", f.loc(), "a getter may change the document", "this" in s and M.trace(f.usr, s["this"]))
    R3 = ctx.rule("loading-is-not-dirtying", "Loading an object or its stream on demand does not mark an object as modified (no statement that sets the mark is reached from it through the object).")
    D = Mut(prog, lambda f: bool(UNOWNED.match(f.q)), {"mm::PdfObject::m_IsDirty"},
            lambda f, i: f.k(i) != "BinaryOperator" or f.cv(f.strip(f.kids(i)[1])) == 0)
    ctx.notes.append("%d functions may mark an object as modified" % sum(1 for s in D.sum.values() if s))
    for f in sorted(prog.fns.values(), key=lambda f: f.q):
        if f.body is None or not LOADING.match(f.q):
            continue
        s = {r: (r, c) for r, c in D.sum.get(f.usr, set())}
        ctx.check(R3, "this" not in s, f.sig(), "modification mark", f.loc(), "loading on demand may mark the object as modified", "this" in s and D.trace(f.usr, s["this"]))
    R4 = ctx.rule("writing-an-object", "Writing an object changes nothing of it but what the written form needs: an unfiltered stream is replaced by its compressed form, its /Length is recorded without a modification mark, and the mark is cleared.")
    todo, seen = [f for f in prog.fns.values() if f.q == WRITE and f.body is not None], set()
    W = Mut(prog, lambda f: bool(BARRIER.match(f.q)))
    while todo:
        f = todo.pop()
        if f.usr in seen:
            continue
        seen.add(f.usr)
        for i, rs in W.local(f):
            if "this" in rs:
                ctx.bad(R4, f.sig(), f.text(i)[:60], f.loc(i), "writing an object changes it")
        for i in f.calls():
            for u in prog.targets(f, i):
                if u not in W.sum or not any(r == "this" for e in W.sum[u] for r, c in W.maps(f, i, u, e)):
                    continue
                g = prog.fns[u]
                if g.cls == "mm::PdfObject" and g.d.get("acc") not in (None, 0) and g.q.split("::")[-1] not in ("ResetDirty",) or g.q == WRITE:
                    todo.append(g)
                    continue
                ok = g.q in ("mm::PdfObject::ResetDirty", "mm::PdfObject::resetDirty", "mm::PdfDataContainer::ResetDirty")
                if g.q == "mm::PdfObjectStream::MoveFrom":
                    ok = unfiltered(f, i)
                if g.q == "mm::PdfDictionary::AddKey":
                    a = f.args(i)
                    key = any(f.k(j) == "DeclRefExpr" and f.tab.decls[f.x(j)["d"]].get("q", "").endswith("KeyLength") or f.k(j) == "MemberExpr" and (f.decl(j) or {}).get("q", "").endswith("KeyLength") or f.k(j) == "StringLiteral" and f.x(j).get("s") == "Length" for j in f.subtree(a[0]) if j >= 0)
                    ok = key and len(a) > 2 and f.cv(f.strip(a[2])) not in (0, None)
                ctx.check(R4, ok, f.sig(), f.text(i)[:60], f.loc(i), "writing an object changes it through %s" % g.q)
    ctx.need(R2, 60); ctx.need(R3, 4); ctx.need(R4, 3)
    ctx.need(R1, 300)
