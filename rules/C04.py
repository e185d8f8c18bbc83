"""C04: every change of an object marks it as modified; the mark is taken away only by loading and saving."""
from proto import *
from model import AnalysisError
import C06

ASSUMPTIONS = [
    "Callers change elements of a container only through PdfObject and container operations (the storage itself is private).",
    "A change made through an operation of a nested object or stream marks that object, whose own operations are obligations of this rule.",
]
DC, OBJ, STR, LST = "mm::PdfDataContainer", "mm::PdfObject", "mm::PdfObjectStream", "mm::PdfIndirectObjectList"
SEQ_MUT = {"emplace", "emplace_back", "emplace_front", "insert", "push_back", "push_front", "resize", "assign", "swap", "operator=", "splice", "merge", "sort", "erase", "clear", "pop_back", "pop_front", "remove", "remove_if", "reverse", "unique",
           "try_emplace", "insert_or_assign", "emplace_hint", "extract"}
MAP_MUT = SEQ_MUT | {"operator[]"}
ALGO = {"std::swap", "std::sort", "std::stable_sort", "std::reverse", "std::rotate", "std::remove", "std::remove_if", "std::unique", "std::fill", "std::generate", "std::copy", "std::move_backward", "std::iter_swap", "std::shuffle"}
PROV_MUT = {"TryMoveFrom", "TryCopyFrom", "Clear", "GetOutputStream", "SetData", "InitData"}


def member(f, i):
    while i is not None and i >= 0 and f.k(i) in ("Cast", "Paren"):
        i = f.kids(i)[0]
    return i


def mem_q(f, i):
    i = f.strip(i)
    if i >= 0 and f.k(i) == "MemberExpr" and f.decl(i):
        return f.decl(i)["q"]
    return None


def base_is_this(f, i):
    i = f.strip(i)
    return not f.kids(i) or (f.path(f.kids(i)[0]) or "this").lstrip("*") == "this"


class Marks:
    """which calls mark the object of the current function"""

    def __init__(self, prog, classes, direct):
        self.prog, self.classes, self.direct = prog, classes, direct
        self.always = set()
        ch = True
        while ch:
            ch = False
            for u, f in prog.fns.items():
                if u in self.always or f.cls not in classes or f.entry is None or f.d.get("ctor"):
                    continue
                if any(self(f, e) for b in f.blocks.values() for e in b["e"]) and C06.passes_from(f, f.entry, 0, self):
                    self.always.add(u); ch = True

    def __call__(self, f, e):
        if not isinstance(e, int) or f.k(e) != "Call":
            return False
        if self.direct(f, e):
            return True
        t = self.prog.targets(f, e)
        return bool(t) and t <= self.always and (f.path(f.obj(e)) or "this").lstrip("*&") == "this"


def run(prog, ctx):
    R1 = ctx.rule("container-marked", "Every path on which an operation of an array or dictionary changed its storage marks the container as modified.")
    R2 = ctx.rule("value-marked", "Every path on which an operation of an object replaced or changed its value or gave it a stream marks the object as modified.")
    R3 = ctx.rule("stream-marked", "Every path on which an operation of a stream changes its data or filters marks the owning object as modified.")
    R4 = ctx.rule("mark-arrives", "Marking a container or nested object reaches the enclosing indirect object, whose mark is set.")
    R5 = ctx.rule("reset-only", "The mark is taken away only after the object has been written or before it has been loaded.")
    R6 = ctx.rule("written", "An incremental save leaves out only objects that are not marked.")
    R7 = ctx.rule("new-objects", "Every object added to a document other than by the parser is marked.")
    R8 = ctx.rule("unmarked-entry", "The operations that change a value without marking it are used only where the file being read or the length being written is filled in.")
    conts = prog.derived(DC)
    store = {}
    for c in conts:
        for fd in prog.recs[c]["fields"]:
            t = prog.recs[c]["tab"].types[fd["t"]]
            cs = t.get("c") or t["s"]
            if re.search(r"<[^*]*mm::PdfObject\b(?! ?\*)", cs) and "Iterable" not in cs:
                store["%s::%s" % (c, fd["n"])] = "map" if t.get("r", "").endswith("map") else "seq"
    if len(store) < 2:
        raise AnalysisError("container storage not found")
    isthis = lambda f, i: (f.path(i) if i is not None and i >= 0 else "this" or "").lstrip("*&") == "this" if (i is None or i < 0 or f.path(i)) else False
    q_is = lambda f, e, *qs: isinstance(e, int) and f.k(e) == "Call" and (f.callee(e) or {}).get("q") in qs
    # -- containers
    mark_c = Marks(prog, conts | {DC}, lambda f, e: q_is(f, e, DC + "::SetDirty") and isthis(f, f.obj(e)) or q_is(f, e, OBJ + "::SetDirty", OBJ + "::setDirty") and (f.path(f.obj(e)) or "").lstrip("*&") == "this.m_Owner" and f.cls == DC)

    def events_c(f):
        for i, n in enumerate(f.nodes):
            if n[0] != "MemberExpr" or not f.decl(i) or f.decl(i)["q"] not in store or not base_is_this(f, i):
                continue
            kind = store[f.decl(i)["q"]]
            p = up(f, i)
            if p is None:
                continue
            if f.k(p) == "Call" and f.strip(f.obj(p)) == i:
                op = f.callee(p)["q"].split("::")[-1] if f.callee(p) else "?"
                if op in (MAP_MUT if kind == "map" else SEQ_MUT):
                    yield p, op
            elif f.k(p) == "BinaryOperator" and f.x(p)["op"] == "=" and f.strip(f.kids(p)[0]) == i:
                yield p, "operator="
            elif f.k(p) == "Call" and i in [f.strip(a) for a in f.args(p)] and f.callee(p) and f.callee(p)["q"].split("<")[0] in ALGO:
                yield p, f.callee(p)["q"].split("<")[0]
        for i in f.calls():
            d = f.callee(i)
            if d and d["q"].split("<")[0] in ALGO:
                # an algorithm over iterators of the storage
                if any(j >= 0 and f.k(j) == "MemberExpr" and f.decl(j) and f.decl(j)["q"] in store and base_is_this(f, j) for a in f.args(i) for j in f.subtree(a) if f.strip(a) != j):
                    yield i, d["q"].split("<")[0]

    # -- objects
    objs = {OBJ} | prog.derived(OBJ)
    hooks = set()
    for q in ("::DelayedLoadImpl", "::DelayedLoadStreamImpl"):
        for f in prog.by_q(OBJ + q):
            hooks |= {f.usr} | prog.all_overriders(f.usr)
    loading = C06.prog_this_reach(prog, hooks, objs)
    # an object that will be loaded again has no change to lose: see the rule on discarding
    mark_o = Marks(prog, objs, lambda f, e: q_is(f, e, OBJ + "::SetDirty", OBJ + "::setDirty", OBJ + "::EnableDelayedLoading") and isthis(f, f.obj(e)))

    def events_o(f):
        if f.usr in loading:
            return
        for i, n in enumerate(f.nodes):
            if n[0] != "MemberExpr" or not f.decl(i):
                continue
            q = f.decl(i)["q"]
            if q not in (OBJ + "::m_Variant", OBJ + "::m_Stream") or not base_is_this(f, i):
                continue
            p = up(f, i)
            if p is None or f.k(p) not in ("Call", "BinaryOperator"):
                continue
            if f.k(p) == "BinaryOperator":
                if f.x(p)["op"] == "=" and f.strip(f.kids(p)[0]) == i:
                    yield p, "operator="
                continue
            d = f.callee(p)
            if not d:
                continue
            op = d["q"].split("::")[-1]
            if f.strip(f.obj(p)) == i:
                if q.endswith("m_Stream"):
                    if op in ("operator=", "reset", "swap", "release"):
                        yield p, "m_Stream " + op
                elif op == "operator=" or not d.get("cm") and not d.get("st") and op.startswith("Set"):
                    yield p, "m_Variant " + op
                elif op in ("GetDictionary", "GetArray"):
                    # a change made through the container itself marks it, except by the private unmarked entry
                    pass
            elif i in [f.strip(a) for a in f.args(p)]:
                k = [f.strip(a) for a in f.args(p)].index(i)
                qq = d["q"].split("<")[0]
                if qq in ("std::move", "std::forward"):
                    continue
                prm = d.get("p") or []
                t = f.ty(prm[k]) if k < len(prm) else None
                if qq == "std::swap" or t and t["k"] == "ref" and not t["s"].startswith("const "):
                    yield p, "m_Variant passed to " + qq

    unmarked = group(prog, ctx, R2, R8, objs, events_o, mark_o, {OBJ + "::m_Variant": 1}, "the object is not marked as modified", exempt=loading)
    ctx.need(R2, 4)
    group(prog, ctx, R1, R8, conts, events_c, mark_c, store, "the container is not marked as modified", unmarked=unmarked)
    ctx.need(R1, 8)
    # -- streams
    mark_s = Marks(prog, {STR}, lambda f, e: q_is(f, e, OBJ + "::SetDirty", OBJ + "::setDirty") and (f.path(f.obj(e)) or "").lstrip("*&") == "this.m_Parent")
    OUT = "mm::PdfObjectOutputStream"

    def events_s(f):
        for i, n in enumerate(f.nodes):
            if n[0] == "Construct" and (f.callee(i) or {}).get("q", "").startswith(OUT + "::PdfObjectOutputStream") and f.args(i) and isthis(f, f.args(i)[0]):
                yield i, "opened for writing"
            if n[0] != "MemberExpr" or not f.decl(i) or not base_is_this(f, i):
                continue
            q = f.decl(i)["q"]
            if q not in (STR + "::m_Provider", STR + "::m_Filters"):
                continue
            p = up(f, i)
            if p is None:
                continue
            if f.k(p) == "Call" and f.callee(p):
                op = f.callee(p)["q"].split("::")[-1]
                if q.endswith("m_Filters"):
                    if f.strip(f.obj(p)) == i and op in SEQ_MUT:
                        yield p, "m_Filters " + op
                elif f.strip(f.obj(p)) == i:
                    if op in ("operator->", "operator*"):
                        pp = up(f, p)
                        if pp is not None and f.k(pp) == "Call" and f.strip(f.obj(pp)) == p and f.callee(pp) and f.callee(pp)["q"].split("::")[-1] in PROV_MUT and not f.callee(pp).get("cm"):
                            yield pp, "m_Provider " + f.callee(pp)["q"].split("::")[-1]
                    elif op in ("operator=", "reset", "swap"):
                        yield p, "m_Provider " + op

    group(prog, ctx, R3, R8, {STR}, events_s, mark_s, {}, "the owner of the stream is not marked as modified")
    ctx.need(R3, 3)
    # -- R4
    def must(q, stop, cut, msg):
        fs = [f for f in prog.by_q(q) if f.entry is not None]
        if not fs:
            raise AnalysisError("no " + q)
        for f in fs:
            ctx.check(R4, C06.passes_from(f, f.entry, 0, stop, cut), f.sig(), "passes on", f.loc(), msg)

    def nullcut(name):
        return cut_if(lambda f, c, t: null_of(f, c) == (name, t))
    must(DC + "::SetDirty", lambda f, e: q_is(f, e, OBJ + "::SetDirty") and (f.path(f.obj(e)) or "").lstrip("*&") == "this.m_Owner", nullcut("this.m_Owner"), "a path does not mark the owner of the container")
    must(OBJ + "::SetDirty", lambda f, e: q_is(f, e, OBJ + "::setDirty") and isthis(f, f.obj(e)) or stores_true(f, e) or q_is(f, e, DC + "::SetDirty") and (f.path(f.obj(e)) or "").lstrip("*&") == "this.m_Parent", nullcut("this.m_Parent"), "a path marks neither the object nor its parent")
    must(OBJ + "::setDirty", stores_true, None, "the mark is not set")
    for f in prog.by_q(OBJ + "::SetDirty"):
        # the own mark is set exactly when the object is indirect
        for b in f.blocks.values():
            for e in b["e"]:
                if q_is(f, e, OBJ + "::setDirty") or stores_true(f, e):
                    cs = conds_at(f, e)
                    ok = not any(indirect(f, c) is not None and indirect(f, c) != t for c, t in cs if c is not None and c >= 0)
                    ctx.check(R4, ok, f.sig(), "own mark", f.loc(e), "the own mark is set for an object that is not indirect only")
                if q_is(f, e, DC + "::SetDirty"):
                    cs = conds_at(f, e)
                    ok = not any(indirect(f, c) is not None and indirect(f, c) == t for c, t in cs if c is not None and c >= 0)
                    ctx.check(R4, ok, f.sig(), "parent mark", f.loc(e), "an indirect object marks its parent instead of itself")
    for f in prog.by_q(OBJ + "::IsDirty"):
        if f.entry is None:
            continue
        rs = [i for i, n in enumerate(f.nodes) if n[0] == "ReturnStmt"]
        ctx.check(R4, rs and all((f.path(f.kids(i)[0]) or "") == "this.m_IsDirty" for i in rs), f.sig(), "answer", f.loc(), "does not answer with the mark")
    ctx.need(R4, 4)
    # -- R5
    resetters = {OBJ + "::resetDirty", OBJ + "::ResetDirty", DC + "::ResetDirty", DC + "::ResetDirtyInternal"} | {c + "::ResetDirtyInternal" for c in conts}
    for u, f in sorted(prog.fns.items()):
        if f.entry is None:
            continue
        for i, n in enumerate(f.nodes):
            if n[0] == "BinaryOperator" and n[4]["op"] == "=" and mem_q(f, n[3][0]) == OBJ + "::m_IsDirty":
                v = f.cv(n[3][1])
                ok = v == 1 or f.q in resetters or f.d.get("ctor")
                ctx.check(R5, ok, f.sig(), "m_IsDirty", f.loc(i), "the mark is taken away here")
        for i in f.calls():
            d = f.callee(i)
            if d and d["q"] == OBJ + "::EnableDelayedLoading" and not f.d.get("ctor"):
                # forgetting what was loaded
                if f.d.get("acc", 0) == 0:
                    may = can_reach(f, i, cut_if(lambda fn, c, t: q_is(fn, fn.strip(c), OBJ + "::IsDirty") and not t or bool_param(fn, c) is not None and t))
                    ctx.check(R5, not may, f.sig(), "discard", f.loc(i), "an object that is marked as modified is discarded without being asked to")
            if not d or f.k(i) != "Call" or d["q"] not in resetters or f.q in resetters:
                continue
            if f.d.get("ctor"):
                ctx.ok(R5, "%s: %s in a constructor" % (f.loc(i), d["q"])); continue
            wr = lambda fn, e: isinstance(e, int) and fn.k(e) == "Call" and (fn.callee(e) or {}).get("q", "").endswith("::Write") and "m_Variant" in fn.text(fn.obj(e))
            st = states_of(Must(f, lambda fn, e: [("w",)] if wr(fn, e) else ()))
            s = st.get(f.where.get(i))
            stream_ok = True
            if f.q == OBJ + "::Write":
                # nothing is written afterwards
                w2 = [e for e in f.calls() if f.k(e) == "Call" and (f.callee(e) or {}).get("q") in (STR + "::Write", "mm::PdfVariant::Write")]
                stream_ok = not any(reaches(f, i, e) for e in w2)
            ctx.check(R5, f.cls in objs and s is not None and ("w",) in s and stream_ok and isthis(f, strip_cast(f, f.obj(i))), f.sig(), d["q"].split("::")[-1], f.loc(i), "the mark is taken away of an object that has not been written completely")
    ctx.need(R5, 2)
    # -- R6
    n6 = 0
    for u, f in sorted(prog.fns.items()):
        if f.entry is None or not f.cls or not (f.cls == "mm::PdfWriter" or f.cls in prog.derived("mm::PdfWriter")):
            continue
        ws = [i for i in f.calls() if q_is(f, i, OBJ + "::Write")]
        for i in ws:
            w = f.where.get(i)
            if w is None or not C06.in_loop(f, w[0]):
                continue
            n6 += 1
            bad = skip_without(f, i)
            ctx.check(R6, bad is None, f.sig(), "object written", f.loc(i), "an object can be left out although it is marked as modified%s" % ("" if not bad or bad < 0 else " (condition at %s)" % f.loc(bad)))
    ctx.need(R6, 1)
    # -- R7
    NEW = {LST + "::PushObject"}
    PARSE = ("mm::PdfParser", "mm::PdfObjectStreamParser")
    # private helpers of the list hand the requirement to their callers
    todo, seen = list(NEW), set(NEW)
    while todo:
        q = todo.pop()
        for u, f in sorted(prog.fns.items()):
            if f.entry is None:
                continue
            for i in f.calls():
                d = f.callee(i)
                if not d or d["q"] != q or f.k(i) != "Call":
                    continue
                if f.cls in PARSE or f.cls and any(f.cls in prog.derived(c) for c in PARSE):
                    ctx.ok(R7, "%s: loaded" % f.loc(i)); continue
                arg = f.path(f.args(i)[0]) if f.args(i) else None
                p = (arg or "").lstrip("*&")
                st = states_of(Must(f, lambda fn, e: [("d",)] if q_is(fn, e, OBJ + "::setDirty") and (fn.path(fn.obj(e)) or "").lstrip("*&") == p else ()))
                s = st.get(f.where.get(i))
                good = s is not None and ("d",) in s or passes(f, i, lambda fn, e: q_is(fn, e, OBJ + "::setDirty") and (fn.path(fn.obj(e)) or "").lstrip("*&") == p)
                if not good and f.cls == LST and f.d.get("acc", 0) != 0 and f.q not in seen:
                    seen.add(f.q); todo.append(f.q); continue
                if not good and f.cls == LST and f.q in seen:
                    continue
                ctx.check(R7, good, f.sig(), d["q"].split("::")[-1], f.loc(i), "the object added is not marked as modified")
    for f in prog.by_q(LST + "::ReplaceObject"):
        if f.entry is not None:
            ps = [p for p in [q for q in Proto(prog, lambda a, b: ()).params(f)] if p]
            ok = C06.passes_entry(f, lambda fn, e: q_is(fn, e, OBJ + "::setDirty"))
            ctx.check(R7, ok, f.sig(), "replacement", f.loc(), "the object put in place of another one is not marked as modified")
    ctx.need(R7, 5)


def can_reach(f, i, cut):
    """some path from the entry reaches node i without taking an edge left out"""
    w = f.where.get(i)
    if w is None:
        return False
    st, seen = [f.entry], {f.entry}
    while st:
        b = st.pop()
        if b == w[0]:
            return True
        for ix, s in enumerate(f.blocks[b]["s"]):
            if s is not None and s not in seen and not cut(f, b, ix):
                seen.add(s); st.append(s)
    return False


def strip_cast(f, i):
    i = f.strip(i)
    while i >= 0 and f.k(i) in ("Cast", "Paren", "ExplicitCast"):
        i = f.strip(f.kids(i)[0])
    return i


def stores_true(f, e):
    return isinstance(e, int) and f.k(e) == "BinaryOperator" and f.x(e)["op"] == "=" and mem_q(f, f.kids(e)[0]) == OBJ + "::m_IsDirty" and f.cv(f.kids(e)[1]) == 1


def indirect(f, c):
    """truth the condition has for an indirect object"""
    s = f.strip(c)
    neg = False
    while f.k(s) == "UnaryOperator" and f.x(s)["op"] == "!":
        neg = not neg
        s = f.strip(f.kids(s)[0])
    if f.k(s) == "Call" and (f.callee(s) or {}).get("q", "").endswith("::IsIndirect"):
        return not neg
    return None


def up(f, i):
    p = f.parent.get(i)
    while p is not None and f.k(p) in ("Cast", "Paren", "Materialize"):
        p = f.parent.get(p)
    return p


def reaches(f, a, b):
    wa, wb = f.where.get(a), f.where.get(b)
    if wa is None or wb is None:
        return False
    if wa[0] == wb[0] and wb[1] > wa[1]:
        return True
    st, seen = list(f.blocks[wa[0]]["s"]), set()
    while st:
        x = st.pop()
        if x is None or x in seen:
            continue
        if x == wb[0]:
            return True
        seen.add(x); st.extend(f.blocks[x]["s"])
    return False


def null_of(f, c):
    """(path, truth of the condition when the pointer is null)"""
    s = f.strip(c)
    k = f.kids(s)
    if f.k(s) == "BinaryOperator" and f.x(s)["op"] in ("==", "!="):
        for x, y in ((k[0], k[1]), (k[1], k[0])):
            if "nullptr" in f.text(y) or f.cv(y) == 0:
                return (f.path(x) or "").lstrip("*&"), f.x(s)["op"] == "=="
    return (f.path(s) or "").lstrip("*&"), False


def skip_without(f, i):
    """a round of the loop that avoids the write and is not decided by the mark or the table of free entries"""
    b0 = f.where[i][0]
    hs = [h for h, v in f.blocks.items() if v.get("tk") in ("CXXForRangeStmt", "ForStmt", "WhileStmt", "DoStmt") and b0 in loop_body(f, h, b0)]
    if not hs:
        return None
    h = min(hs, key=lambda x: len(loop_body(f, x, b0)))
    body = loop_body(f, h, b0)

    def okay(fn, c, t):
        s = fn.strip(c)
        n = (fn.callee(s) or {}).get("q", "").split("::")[-1] if fn.k(s) == "Call" else ""
        return n == "IsDirty" and not t or n == "ShouldSkipWrite" and t
    cut = cut_if(okay)
    st, seen = [h], set()
    while st:
        b = st.pop()
        for ix, s in enumerate(f.blocks[b]["s"]):
            if s is None or s not in body or s == b0 or cut(f, b, ix):
                continue
            if s == h:
                c = f.blocks[b].get("tc")
                return c if c is not None else -1
            if s not in seen:
                seen.add(s); st.append(s)
    return None


def loop_body(f, h, b):
    """blocks on a cycle through h"""
    fwd, st = set(), [h]
    while st:
        x = st.pop()
        for s in f.blocks[x]["s"]:
            if s is not None and s not in fwd:
                fwd.add(s); st.append(s)
    bwd, st = set(), [h]
    while st:
        x = st.pop()
        for s in f.preds.get(x, ()):
            if s not in bwd:
                bwd.add(s); st.append(s)
    return fwd & bwd


class Before(Must):
    """marked on every path, possibly under the assumption that a boolean parameter has a value"""

    def __init__(self, f, mark, assume):
        super().__init__(f, lambda fn, e: [("m",)] if mark(fn, e) else ())
        self.assume = assume

    def edge(self, s, c, truth, b):
        if self.assume and bool_param(self.fn, c) == self.assume[0] and truth != self.assume[1]:
            return None
        return s


def group(prog, ctx, R, R8, classes, events, mark, store, msg, exempt=(), unmarked=()):
    """every event is marked before or after on every path; what private helpers leave open moves to their callers"""
    pend = {}
    boolp = {}

    def edge_cut(f, ev, assume=None):
        """edges on which nothing was changed"""
        var = None
        p = f.parent.get(ev)
        while p is not None and f.k(p) != "DeclStmt":
            p = f.parent.get(p)
        if p is not None:
            for d, init in f.x(p)["vars"]:
                if init >= 0 and ev in f.subtree(init):
                    var = "v%d:%s" % (d, f.tab.decls[d]["q"].split("::")[-1])
        if f.k(ev) == "Call" and f.callee(ev):
            for k, want in boolp.get(f.callee(ev)["u"], {}).items():
                a = f.args(ev)
                if k < len(a) and (f.cv(a[k]) is None or (f.cv(a[k]) != 0) == want):
                    var = None  # nothing is marked for what is replaced, either

        def nothing(fn, c, t):
            s = fn.strip(c)
            # nothing was inserted: the operation that follows marks
            if var and (fn.path(s) or "") == var + ".second":
                return not t
            if fn.k(s) == "BinaryOperator" and fn.x(s)["op"] in ("==", "!="):
                k = fn.kids(s)
                if (size_of_store(fn, k[0], store) or size_of_store(fn, k[1], store)) and fn.cv(k[0]) is None and fn.cv(k[1]) is None:
                    return t == (fn.x(s)["op"] == "==")
            bp = bool_param(fn, s)
            if assume and bp == assume[0]:
                return t != assume[1]
            return False
        return cut_if(nothing)

    def open_events(f, assume=None):
        for ev, what in list(events(f)) + [(i, "%s (leaves its object unmarked)" % f.callee(i)["q"].split("::")[-1]) for i in f.calls() if pend_call(f, i)]:
            st = states_of(Before(f, mark, assume))
            w = f.where.get(ev)
            if w and w not in st:
                continue
            s = st.get(w) if w else None
            if s is not None and ("m",) in s:
                yield ev, what, True; continue
            ok = C06.passes_from(f, w[0], w[1] + 1, mark, edge_cut(f, ev, assume)) if w else True
            yield ev, what, ok

    def pend_call(f, i):
        d = f.callee(i)
        if not d or f.k(i) != "Call" or d["u"] not in pend:
            return False
        if (f.path(f.obj(i)) or "this").lstrip("*&") != "this":
            return False
        return not marks_by_arg(f, i, d["u"])

    def marks_by_arg(f, i, u):
        """the helper marks by itself when called with this argument"""
        for k, want in boolp.get(u, {}).items():
            a = f.args(i)
            if k < len(a) and f.cv(a[k]) is not None:
                return (f.cv(a[k]) != 0) != want
        return False
    for u, f in sorted(prog.fns.items()):
        if f.cls in classes and f.entry is not None:
            for i in f.calls():
                if f.k(i) == "Call" and prog.targets(f, i) & set(unmarked):
                    for c, t in conds_at(f, i):
                        if c is not None and c >= 0 and bool_param(f, c) is not None:
                            boolp.setdefault(u, {})[bool_param(f, c)] = t
    done = {}
    for rnd in range(6):
        ch = False
        for u, f in sorted(prog.fns.items()):
            if f.cls not in classes or f.entry is None or f.d.get("ctor") or f.d.get("dtor") or u in exempt:
                continue
            res = list(open_events(f))
            done[u] = res
            if any(not ok for _, _, ok in res) and f.d.get("acc", 0) != 0 and u not in pend:
                pend[u] = True; ch = True
                # a boolean parameter may decide whether the helper marks: its unmarked value
                for k, prm in enumerate(f.params):
                    t = f.ty(prm[2]) if len(prm) > 2 else None
                    if t and t["k"] == "bool":
                        r = {v: all(ok for _, _, ok in open_events(f, (k, v))) for v in (True, False)}
                        if r[True] != r[False]:
                            boolp.setdefault(u, {})[k] = not r[True]
        if not ch:
            break
    for u, res in sorted(done.items()):
        f = prog.fns[u]
        for ev, what, ok in res:
            if ok or u not in pend:
                ctx.check(R, ok, f.sig(), what, f.loc(ev), "%s: %s on every path" % (what, msg))
    # calls from other classes (friends) or on other objects to helpers that leave their object unmarked
    for u in sorted(pend):
        h = prog.fns[u]
        for c in sorted(prog.callers.get(u, ())):
            f = prog.fns.get(c)
            if f is None or f.entry is None:
                continue
            for i in f.calls():
                if u not in prog.targets(f, i):
                    continue
                onthis = (f.path(f.obj(i)) or "this").lstrip("*&") == "this"
                if onthis and f.cls in classes and c not in exempt and not f.d.get("ctor"):
                    continue
                ctx.check(R8, unmarked_ok(prog, f, i, h, exempt), f.sig(), h.name, f.loc(i), "%s changes a value here without marking its object as modified" % h.name)
    return pend


def bool_param(f, s):
    s = f.strip(s)
    if f.k(s) != "DeclRefExpr":
        return None
    for k, p in enumerate(f.params):
        if p[0] == f.x(s)["d"]:
            return k
    return None


def size_of_store(f, i, store):
    """the size of the storage, now or kept in a variable"""
    i = f.strip(i)
    if i < 0:
        return False
    if f.k(i) == "Call" and (f.callee(i) or {}).get("q", "").endswith("::size") and mem_q(f, f.obj(i)) in store:
        return True
    d = var_of(f, i)
    if d is not None:
        ini = var_inits(f).get(d, [])
        return bool(ini) and all(f.strip(x) != i and size_of_store(f, x, store) for x in ini)
    return False


def unmarked_ok(prog, f, i, h, exempt):
    q = h.q
    if f.usr in exempt or f.d.get("ctor") or f.d.get("dtor"):
        return True
    nm = h.name
    # value being read, not part of a document yet
    if f.cls == "mm::PdfTokenizer":
        return True
    # loading
    if f.cls in ("mm::PdfParserObject", "mm::PdfXRefStreamParserObject"):
        return True
    # length of the stream being written
    if f.q == "mm::PdfObject::Write" and any("KeyLength" in f.text(a) for a in f.args(i)):
        return True
    cs = conds_at(f, i)
    for c, t in cs:
        if c is None or c < 0:
            continue
        b = bool_param(f, c)
        if b is not None and t is True and re.search("dirty", f.params[b][1] or "", re.I):
            return True
    # a new object that was just created
    o = f.strip(f.obj(i))
    d = var_of(f, o) if o >= 0 else None
    return False
