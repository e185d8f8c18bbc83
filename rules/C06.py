"""C06: what is stored in a container or list is linked to its owner."""
from proto import *
from model import AnalysisError

ASSUMPTIONS = [
    "Elements of a container are reached by callers only through references and iterators to PdfObject, whose assignment keeps the ownership of the element assigned to.",
    "Moving or copying a PdfObject yields one without an owner (what its constructors do), so storage that may be relocated has to be linked again.",
]
DC = "mm::PdfDataContainer"
GROW_SEQ = {"emplace", "emplace_back", "insert", "push_back", "resize", "reserve", "assign", "shrink_to_fit", "swap", "operator=", "emplace_front", "push_front", "splice", "merge", "sort"}
GROW_MAP = {"emplace", "try_emplace", "insert", "insert_or_assign", "operator[]", "emplace_hint", "operator="}
REPL_MAP = {"swap", "operator=", "merge"}
HARMLESS = {"erase", "clear", "pop_back", "pop_front", "begin", "end", "rbegin", "rend", "cbegin", "cend", "find", "size", "empty", "front", "back", "at", "capacity", "data", "count", "lower_bound", "upper_bound", "equal_range", "operator==", "operator!=", "max_size", "operator[]", "extract", "crbegin", "crend"}


def run(prog, ctx):
    R1 = ctx.rule("relinked", "After every operation on the storage of an array or dictionary that adds, replaces or relocates objects, every path links what it affects: all elements when the storage was replaced or may have been relocated, the added element otherwise.")
    R2 = ctx.rule("links-all", "Linking the elements of a container visits every element and sets the container as its parent.")
    R3 = ctx.rule("chain", "Setting the owner of a container, the parent or the document of an object hands the link on to everything below it.")
    R4 = ctx.rule("value-owner", "Every path that gives an object a new value that may be a container links that container to the object.")
    R5 = ctx.rule("stream-owner", "Every path that hands a stream from one object to another links the stream to its new owner.")
    R6 = ctx.rule("list-member", "Every object that is stored in the list of indirect objects is given the document first or afterwards on every path.")
    conts = prog.derived(DC)
    if not conts:
        raise AnalysisError("no data containers")
    store = {}
    for c in conts:
        for fd in prog.recs[c]["fields"]:
            t = prog.recs[c]["tab"].types[fd["t"]]
            cs = t.get("c") or t["s"]
            if re.search(r"<[^*]*mm::PdfObject\b(?! ?\*)", cs) and "Iterable" not in cs:
                store["%s::%s" % (c, fd["n"])] = "map" if t.get("r", "").endswith("map") else "seq"
    if len(store) < 2:
        raise AnalysisError("container storage not found: %s" % store)
    linkall = set()
    for f in prog.by_q(DC + "::setChildrenParent"):
        linkall |= {f.usr}
    for f in prog.fns.values():
        if f.name == "setChildrenParent" and f.cls in conts:
            linkall.add(f.usr)
    if not linkall:
        raise AnalysisError("no setChildrenParent")
    setparent = {f.usr for f in prog.by_q("mm::PdfObject::SetParent")}
    # functions that always link all elements of this
    def linker(f, e):
        """element e links all elements of the container"""
        return isinstance(e, int) and f.k(e) == "Call" and bool(prog.targets(f, e)) and prog.targets(f, e) <= linkall_c and (f.path(f.obj(e)) or "").lstrip("*") == "this"
    linkall_c = set(linkall) | {f.usr for f in prog.fns.values() if f.q == DC + "::setChildrenParent"}
    for f in prog.fns.values():
        if f.cls in conts or f.cls == DC:
            for i in f.calls():
                for t in [f.callee(i)] if f.callee(i) else []:
                    if t["q"] == DC + "::setChildrenParent":
                        linkall_c.add(t["u"])
    ch = True
    while ch:
        ch = False
        for u, f in prog.fns.items():
            if u in linkall_c or f.cls not in conts and f.cls != DC or f.entry is None:
                continue
            sites = [i for i in f.calls() if linker(f, i)]
            if sites and passes_entry(f, lambda fn, e: linker(fn, e)):
                linkall_c.add(u); ch = True

    def parent_of_elem(f, e):
        return isinstance(e, int) and f.k(e) == "Call" and bool(prog.targets(f, e) & setparent) and f.args(e) and (f.path(f.args(e)[0]) or "").lstrip("*&") == "this"

    def guarded(f, e):
        """the link of the single element runs only where the storage kept its place"""
        return any("capacity" in f.text(c) and f.k(f.strip(c)) == "BinaryOperator" and t == (f.x(f.strip(c))["op"] == "==") for c, t in conds_at(f, e) if c is not None and c >= 0)
    for u, f in sorted(prog.fns.items()):
        if f.entry is None:
            continue
        for b in f.blocks.values():
            for e in b["e"]:
                if isinstance(e, list) and e[0] == "init" and e[1]:
                    q = "%s::%s" % (f.cls, e[1])
                    if q in store and f.d.get("ctor") and e[2] is not None and e[2] >= 0 and from_elsewhere(f, e[2]):
                        okay = passes(f, e[2], linker) if e[2] in f.where else passes_entry(f, linker)
                        ctx.check(R1, okay, f.sig(), "%s initialised" % e[1], f.loc(e[2]), "a path leaves the constructor with elements that are not linked to the container")
        for i, n in enumerate(f.nodes):
            if n[0] != "MemberExpr" or not f.decl(i) or f.decl(i)["q"] not in store:
                continue
            kind = store[f.decl(i)["q"]]
            nm = f.decl(i)["q"].split("::")[-1]
            p = f.parent.get(i)
            while p is not None and f.k(p) == "Cast":
                p = f.parent.get(p)
            if p is None:
                continue
            op = None
            if f.k(p) == "Call" and f.strip(f.obj(p)) == i:
                op = f.callee(p)["q"].split("::")[-1] if f.callee(p) else "?"
            elif f.k(p) == "BinaryOperator" and f.x(p)["op"] == "=" and f.strip(f.kids(p)[0]) == i:
                op = "operator="
            elif f.k(p) == "Call" and i in [f.strip(a) for a in f.args(p)]:
                op = "passed to " + (f.callee(p)["q"].split("<")[0] if f.callee(p) else "?")
                if f.callee(p) and (f.callee(p)["q"].split("<")[0].endswith(("operator==", "operator!=", "std::move", "std::forward")) or f.callee(p).get("oo") in ("==", "!=", "=")):
                    continue
                prm = f.callee(p).get("p") if f.callee(p) else None
                k = [f.strip(a) for a in f.args(p)].index(i)
                if prm and k < len(prm) and f.ty(prm[k]) and f.ty(prm[k])["k"] == "ref" and f.ty(prm[k])["s"].startswith("const "):
                    continue
            elif f.k(p) == "Call":
                continue
            else:
                continue
            base = (f.path(f.kids(i)[0]) if f.kids(i) else "this") or "?"
            if base.lstrip("*") != "this":
                if op in HARMLESS or op.startswith("passed to std::"):
                    continue
                ctx.check(R1, False, f.sig(), nm + " " + op, f.loc(p), "the storage of another container is changed without linking its elements"); continue
            if kind == "seq":
                if op in HARMLESS and op not in GROW_SEQ:
                    continue
                ok = passes(f, p, lambda fn, e: linker(fn, e) or parent_of_elem(fn, e) and guarded(fn, e))
                why = "elements may be relocated or added"
            else:
                if op in HARMLESS and op not in GROW_MAP:
                    continue
                if op == "operator[]" or op in GROW_MAP and op not in REPL_MAP:
                    w = f.where.get(p)
                    ok = w is not None and passes_from(f, w[0], w[1] + 1, lambda fn, e: linker(fn, e) or parent_of_elem(fn, e), not_inserted(f, p))
                else:
                    ok = passes(f, p, linker)
                why = "elements are added or replaced"
            if not ok and f.d.get("acc", 0) != 0 and not f.d.get("ctor"):
                ok = callers_link(prog, f, linker, parent_of_elem if kind == "map" else None)
            ctx.check(R1, ok, f.sig(), nm + " " + op, f.loc(p), "%s of %s: %s and a path to the end of the function does not link them to the container" % (op, nm, why))
    ctx.need(R1, 10)
    # R2
    for u in sorted(linkall):
        f = prog.fns.get(u)
        if f is None or f.entry is None:
            continue
        mem = [q for q in store if q.startswith(f.cls + "::")]
        ok = False
        for i in f.calls():
            if not parent_of_elem(f, i):
                continue
            w = f.where.get(i)
            # the loop body always runs it, and the loop is over the whole storage
            conds = [c for c, t in conds_at(f, i) if c is not None and c >= 0 and not loop_cond(f, c)]
            whole = any(f.k(j) == "MemberExpr" and f.decl(j) and f.decl(j)["q"] in mem for j in range(len(f.nodes)))
            if not conds and whole and w and in_loop(f, w[0]) and whole_range(f, mem):
                ok = True
        ctx.check(R2, ok, f.sig(), "setChildrenParent", f.loc(), "not every element of the container is linked")
    ctx.need(R2, 2)
    # R3
    req = [
        (DC + "::SetOwner", lambda f: passes_entry(f, linker), "the elements of the container are not linked"),
        (DC + "::SetOwner", lambda f: passes_entry(f, lambda fn, e: stores_to(fn, e, DC + "::m_Owner")), "the owner is not stored"),
        ("mm::PdfObject::SetParent", lambda f: passes_entry(f, lambda fn, e: stores_to(fn, e, "mm::PdfObject::m_Parent")), "the parent is not stored"),
        ("mm::PdfObject::SetParent", lambda f: passes_entry(f, lambda fn, e: calls_q(prog, fn, e, "mm::PdfObject::SetDocument")), "the document is not handed on"),
        ("mm::PdfObject::SetDocument", lambda f: passes_unless_equal(f, "m_Document", lambda fn, e: stores_to(fn, e, "mm::PdfObject::m_Document")), "the document is not stored"),
        ("mm::PdfObject::SetDocument", lambda f: passes_unless_equal(f, "m_Document", lambda fn, e: calls_q(prog, fn, e, "mm::PdfObject::SetVariantOwner")), "the document is not handed on to the elements of a container"),
    ]
    for q, t, msg in req:
        fs = prog.by_q(q)
        if not fs:
            raise AnalysisError("no " + q)
        for f in fs:
            if f.entry is not None:
                ctx.check(R3, t(f), f.sig(), msg, f.loc(), msg + " on every path")
    for f in prog.by_q("mm::PdfObject::SetVariantOwner"):
        own = [i for i in f.calls() if calls_q(prog, f, i, DC + "::SetOwner")]
        kinds = set()
        for i in own:
            t = f.type(f.obj(i)) or {}
            o = f.text(f.obj(i)) + str(t.get("r"))
            kinds |= {c for c in conts if c in o or c.split("::Pdf")[-1] in o}
            okarg = f.args(i) and (f.path(f.args(i)[0]) or "").lstrip("*&") == "this"
            ctx.check(R3, bool(okarg), f.sig(), "SetOwner", f.loc(i), "the value is linked to another object")
        ctx.check(R3, {c for c in conts} <= kinds, f.sig(), "kinds", f.loc(), "containers of type %s are not linked to the object" % ", ".join(sorted(conts - kinds)))
    ctx.need(R3, 8)
    # R4
    VAL = "mm::PdfObject::m_Variant"
    hooks = set()
    for f in prog.by_q("mm::PdfObject::DelayedLoadImpl"):
        hooks |= {f.usr} | prog.all_overriders(f.usr)
    objs = {"mm::PdfObject"} | prog.derived("mm::PdfObject")

    def vowner(f, e):
        if calls_q(prog, f, e, "mm::PdfObject::SetVariantOwner") and (f.path(f.obj(e)) or "").lstrip("*") == "this":
            return True
        return calls_q(prog, f, e, DC + "::SetOwner") and VAL.split("::")[-1] in f.text(f.obj(e)) and f.args(e) and (f.path(f.args(e)[0]) or "").lstrip("*&") == "this"
    vset = closure(prog, objs, vowner)
    isv = lambda f, e: vowner(f, e) or isinstance(e, int) and f.k(e) == "Call" and bool(prog.targets(f, e)) and prog.targets(f, e) <= vset and (f.path(f.obj(e)) or "").lstrip("*") == "this"
    inhook = prog_this_reach(prog, hooks, objs)
    for u, f in sorted(prog.fns.items()):
        if f.entry is None or f.cls not in objs:
            continue
        for b in f.blocks.values():
            for e in b["e"]:
                if isinstance(e, list) and e[0] == "init" and e[1] == "m_Variant" and f.cls == "mm::PdfObject":
                    t = f.type(e[2]) if e[2] is not None and e[2] >= 0 else None
                    src = ctor_arg_type(f, e[2])
                    if src and not maybe_container(src, conts):
                        ctx.ok(R4, "%s: scalar" % f.loc(e[2])); continue
                    if src is None:
                        continue
                    ctx.check(R4, passes(f, e[2], isv) if e[2] in f.where else passes_entry(f, isv), f.sig(), "m_Variant", f.loc(e[2]), "the new value is not linked to the object on every path")
        for i, n in enumerate(f.nodes):
            if n[0] != "MemberExpr" or not f.decl(i) or f.decl(i)["q"] != VAL:
                continue
            base = (f.path(f.kids(i)[0]) if f.kids(i) else "this") or "?"
            if base.lstrip("*") != "this":
                continue
            p = f.parent.get(i)
            while p is not None and f.k(p) == "Cast":
                p = f.parent.get(p)
            if p is None or f.k(p) != "Call":
                continue
            d = f.callee(p)
            if not d:
                continue
            op = d["q"].split("::")[-1]
            args = [f.strip(a) for a in f.args(p)]
            if f.strip(f.obj(p)) == i:
                if op != "operator=":
                    continue
            elif i in args:
                if d["q"].split("<")[0] == "std::swap":
                    pass
                else:
                    k = args.index(i)
                    prm = d.get("p") or []
                    t = f.ty(prm[k]) if k < len(prm) else None
                    if not t or t["k"] != "ref" or t["s"].startswith("const ") or d["q"].split("<")[0] in ("std::move", "std::forward"):
                        continue
            else:
                continue
            if op == "operator=" and no_container(f, args[0] if args else -1, conts):
                ctx.ok(R4, "%s: not a container" % f.loc(p)); continue
            ok = passes(f, p, isv) or u in inhook
            ctx.check(R4, ok, f.sig(), "m_Variant " + op, f.loc(p), "the new value is not linked to the object on every path")
    ctx.need(R4, 10)
    # R5
    for u, f in sorted(prog.fns.items()):
        if f.entry is None:
            continue
        for b in f.blocks.values():
            for e in b["e"]:
                hit = None
                if isinstance(e, int) and f.k(e) == "Call" and (f.callee(e) or {}).get("oo") == "=":
                    l = f.strip(f.obj(e))
                    if l >= 0 and f.k(l) == "MemberExpr" and f.decl(l)["q"] == "mm::PdfObject::m_Stream":
                        r = [j for j in f.subtree(f.args(e)[0]) if j >= 0 and f.k(j) == "MemberExpr" and f.decl(j) and f.decl(j)["q"] == "mm::PdfObject::m_Stream"]
                        if r:
                            hit = e
                elif isinstance(e, list) and e[0] == "init" and e[1] == "m_Stream" and f.cls == "mm::PdfObject" and e[2] is not None and e[2] >= 0 and f.d.get("ctor"):
                    r = [j for j in f.subtree(e[2]) if j >= 0 and f.k(j) == "MemberExpr" and f.decl(j) and f.decl(j)["q"] == "mm::PdfObject::m_Stream"]
                    if r:
                        hit = e[2]
                elif isinstance(e, int) and f.k(e) == "Call" and ((f.callee(e) or {}).get("q", "").split("<")[0] == "std::swap" or (f.callee(e) or {}).get("q", "").endswith("unique_ptr::swap")):
                    if any(j >= 0 and f.k(j) == "MemberExpr" and f.decl(j) and f.decl(j)["q"] == "mm::PdfObject::m_Stream" for j in f.subtree(e)):
                        hit = e
                if hit is None:
                    continue
                def linked(fn, x):
                    return stores_to(fn, x, "mm::PdfObjectStream::m_Parent")
                def nullcut(fn, x):
                    return linked(fn, x)
                ok = passes_null(f, hit, linked)
                ctx.check(R5, ok, f.sig(), "m_Stream", f.loc(hit), "the stream taken over from another object still names that object as its owner")
    ctx.need(R5, 1)
    # R6
    L = "mm::PdfIndirectObjectList"
    sd = lambda f, e: calls_q(prog, f, e, "mm::PdfObject::SetDocument")
    for u, f in sorted(prog.fns.items()):
        if f.cls != L or f.entry is None:
            continue
        for i in f.calls():
            d = f.callee(i)
            if f.k(i) != "Call" or not d or f.obj(i) < 0:
                continue
            o = f.strip(f.obj(i))
            op = d["q"].split("::")[-1]
            if f.k(o) == "MemberExpr" and f.decl(o) and f.decl(o)["q"] == L + "::m_Objects" and op in ("insert", "emplace", "emplace_hint", "operator="):
                ctx.check(R6, given_doc(prog, f, i, sd, set()), f.sig(), "m_Objects " + op, f.loc(i), "the object stored in the list was not given the document")
    ctx.need(R6, 2)


def not_inserted(f, ev):
    """edges on which the insertion found the key taken: the element there keeps its owner"""
    q = nearest(f, ev, lambda x: f.k(x) == "DeclStmt")
    var = None
    if q is not None:
        for d, init in f.x(q)["vars"]:
            if init >= 0 and ev in f.subtree(init):
                var = "v%d:%s" % (d, f.tab.decls[d]["q"].split("::")[-1])
    return cut_if(lambda fn, c, t: var is not None and not t and (fn.path(fn.strip(c)) or "") == var + ".second")


def from_elsewhere(f, n):
    """the initialiser copies or moves existing elements"""
    return any(f.k(j) == "DeclRefExpr" and f.decl(j)["k"] == "parm" for j in f.subtree(n) if j >= 0)


def passes_entry(f, stop):
    """every normal path through f meets stop"""
    return passes_from(f, f.entry, 0, stop)


def passes_from(f, b, k, stop, cut=None):
    st, seen = [(b, k)], {b}
    while st:
        b, k = st.pop()
        v = f.blocks[b]
        if any(stop(f, e) or isinstance(e, int) and f.k(e) == "Throw" for e in v["e"][k:]) or v.get("nr"):
            continue
        if b == f.exit:
            return False
        for ix, s in enumerate(v["s"]):
            if s is None or s in seen or cut and cut(f, b, ix):
                continue
            seen.add(s); st.append((s, 0))
    return True


def passes_null(f, i, stop):
    """as passes, ignoring the branches on which the stream taken over is null"""
    def cut(fn, b, ix):
        c = fn.blocks[b].get("tc")
        if c is None or c < 0 or "m_Stream" not in fn.text(c) and "tream" not in fn.text(c):
            return False
        s = fn.strip(c)
        op = fn.x(s).get("op") if fn.k(s) == "BinaryOperator" else (fn.callee(s) or {}).get("oo") if fn.k(s) == "Call" else None
        if op == "!=" or op is None:
            return ix == 1
        if op == "==":
            return ix == 0
        return False
    w = f.where.get(i)
    if w is None:
        return passes_from(f, f.entry, 0, stop, cut)
    return passes_from(f, w[0], w[1] + 1, stop, cut)


def passes_unless_equal(f, name, stop):
    def cut(fn, b, ix):
        c = fn.blocks[b].get("tc")
        if c is None or c < 0 or name not in fn.text(c):
            return False
        s = fn.strip(c)
        op = fn.x(s).get("op") if fn.k(s) == "BinaryOperator" else None
        return op == "==" and ix == 0 or op == "!=" and ix == 1
    return passes_from(f, f.entry, 0, stop, cut)


def stores_to(f, e, q):
    if not isinstance(e, int) or f.k(e) != "BinaryOperator" or f.x(e)["op"] != "=":
        return False
    l = f.strip(f.kids(e)[0])
    return f.k(l) == "MemberExpr" and f.decl(l) and f.decl(l)["q"] == q


def calls_q(prog, f, e, q):
    return isinstance(e, int) and f.k(e) == "Call" and (f.callee(e) or {}).get("q") == q


def in_loop(f, b):
    st, seen = list(f.blocks[b]["s"]), set()
    while st:
        x = st.pop()
        if x is None or x in seen:
            continue
        if x == b:
            return True
        seen.add(x); st.extend(f.blocks[x]["s"])
    return False


def loop_cond(f, c):
    w = [b for b, v in f.blocks.items() if v.get("tc") == c and v.get("tk") in ("CXXForRangeStmt", "ForStmt", "WhileStmt", "DoStmt")]
    return bool(w)


def whole_range(f, mem):
    """the loop starts at the first element and ends at the last one"""
    if any(v.get("tk") == "CXXForRangeStmt" for v in f.blocks.values()):
        return True
    t = [f.callee(i)["q"].split("::")[-1] for i in f.calls() if f.callee(i)]
    return ("begin" in t and "end" in t) or "size" in t or any("for_each" in x for x in t)


def closure(prog, classes, base):
    """functions of these classes that do it on every path"""
    out = set()
    ch = True
    while ch:
        ch = False
        for u, f in prog.fns.items():
            if u in out or f.cls not in classes or f.entry is None:
                continue
            st = lambda fn, e: base(fn, e) or isinstance(e, int) and fn.k(e) == "Call" and bool(prog.targets(fn, e)) and prog.targets(fn, e) <= out and (fn.path(fn.obj(e)) or "").lstrip("*") == "this"
            if passes_entry(f, st) and any(st(f, e) for b in f.blocks.values() for e in b["e"]):
                out.add(u); ch = True
    return out


def prog_this_reach(prog, roots, classes):
    seen, st = set(roots), list(roots)
    while st:
        f = prog.fns.get(st.pop())
        if f is None:
            continue
        for i in f.calls():
            if f.k(i) == "Call" and (f.path(f.obj(i)) or "").lstrip("*") == "this":
                for t in prog.targets(f, i):
                    if t not in seen and t in prog.fns and prog.fns[t].cls in classes:
                        seen.add(t); st.append(t)
    # reached from nowhere else
    ok = set(seen)
    ch = True
    while ch:
        ch = False
        for u in list(ok):
            if u in roots:
                continue
            if any(c not in ok for c in prog.callers.get(u, ())):
                ok.discard(u); ch = True
    return ok


def ctor_arg_type(f, n):
    n = f.strip(n) if n is not None and n >= 0 else -1
    if n < 0:
        return None
    if f.k(n) == "Construct":
        a = f.args(n) or f.kids(n)
        if not a:
            return None
        return f.type(f.strip(a[0])) or f.type(a[0])
    return f.type(n)


def maybe_container(t, conts):
    if t["k"] in ("int", "flt", "bool", "enum"):
        return False
    c = t.get("c") or t["s"]
    return any(x in c for x in conts) or "mm::PdfVariant" in c or "mm::PdfObject" in c


def callers_link(prog, f, linker, single):
    cs = [c for c in prog.callers.get(f.usr, ()) if c in prog.fns]
    if not cs:
        return False
    for c in cs:
        g = prog.fns[c]
        for i in g.calls():
            if f.usr in prog.targets(g, i):
                if not passes(g, i, lambda fn, e: linker(fn, e) or single is not None and single(fn, e)):
                    return False
    return True


def given_doc(prog, f, i, sd, seen):
    """SetDocument before or after node i on every path, here or in every caller of a private helper"""
    st = states_of(Must(f, lambda fn, e: [("doc",)] if sd(fn, e) else ()))
    s = st.get(f.where.get(i))
    if s is not None and ("doc",) in s or passes(f, i, sd):
        return True
    if f.d.get("acc", 0) == 0 or f.usr in seen:
        return False
    seen = seen | {f.usr}
    n = 0
    for c in prog.callers.get(f.usr, ()):
        g = prog.fns.get(c)
        if g is None:
            continue
        for j in g.calls():
            if f.usr in prog.targets(g, j):
                n += 1
                if not given_doc(prog, g, j, sd, seen):
                    return False
    return n > 0


def no_container(f, a, conts):
    """the value is built without one"""
    if a < 0:
        return False
    for j in f.subtree(a):
        if f.k(j) == "Construct" and "PdfVariant" in (f.type(j) or {}).get("s", ""):
            x = f.args(j) or f.kids(j)
            if not x:
                return True
            t = f.type(f.strip(x[0])) or f.type(x[0])
            if t and "PdfVariant" not in (t.get("c") or t["s"]):
                return not maybe_container(t, conts)
    return False
