"""C05: objects loaded on demand are complete before their value or stream is used."""
from proto import *
from model import AnalysisError

ASSUMPTIONS = [
    "The value and the stream of an object are reached only through the members holding them; derived parser objects read the file in their overrides of the loading hooks.",
]
VAL, STR = "mm::PdfObject::m_Variant", "mm::PdfObject::m_Stream"
FV, FS = "mm::PdfObject::m_IsDelayedLoadDone", "mm::PdfObject::m_IsDelayedLoadStreamDone"
IMPL = {"mm::PdfObject::DelayedLoadImpl": "V", "mm::PdfObject::DelayedLoadStreamImpl": "S"}
MEM = {VAL: "V", STR: "S"}


def store(f, e, q):
    """(object path, rhs node) when element e assigns member q"""
    if not isinstance(e, int):
        return None
    k = f.k(e)
    if k == "BinaryOperator" and f.x(e)["op"] == "=":
        l, r = f.kids(e)[0], f.kids(e)[1]
    elif k == "Call" and (f.callee(e) or {}).get("oo") == "=":
        l, r = f.obj(e), f.args(e)[0] if f.args(e) else -1
    elif k == "Call" and (f.callee(e) or {}).get("q", "").split("<")[0] == "std::swap" and len(f.args(e)) == 2:
        a, b = (f.strip(x) for x in f.args(e))
        for l, r in ((a, b), (b, a)):
            if f.k(l) == "MemberExpr" and f.decl(l)["q"] == q:
                return base(f, l), r
        return None
    else:
        return None
    l = f.strip(l)
    if l is None or l < 0 or f.k(l) != "MemberExpr" or f.decl(l)["q"] != q:
        return None
    return base(f, l), r


def base(f, m):
    ks = f.kids(m)
    p = f.path(ks[0]) if ks else "this"
    return p


def run(prog, ctx):
    R1 = ctx.rule("loaded-before-use", "Every access to an object's value happens after DelayedLoad, and every access to its stream after DelayedLoadStream, was completed for the same object on every path - in the accessing function, by a function it called before, or in every caller of a private helper; or the object is under construction, is being loaded by its own hook, or is entirely overwritten and then marked as loaded.")
    R2 = ctx.rule("marked-after-load", "An object is marked as loaded only after its loading hook completed, or after its value/stream was entirely replaced, or while it is constructed.")
    R3 = ctx.rule("no-reentry", "The loading hooks never call, on the object being loaded, an operation that loads it on demand.")
    R4 = ctx.rule("owner-after-load", "After an object was loaded, the value read is linked to the object before the load completes.")
    for q in (VAL, STR, FV, FS):
        r = prog.recs.get("mm::PdfObject")
        if r is None or q.split("::")[-1] not in [x["n"] for x in r["fields"]]:
            raise AnalysisError("PdfObject no longer has " + q)
    hooks = {}
    for q, k in IMPL.items():
        fs = prog.by_q(q)
        if not fs:
            raise AnalysisError("no " + q)
        for f in fs:
            for u in {f.usr} | prog.all_overriders(f.usr):
                hooks[u] = k
    objs = {"mm::PdfObject"} | prog.derived("mm::PdfObject")

    def flag(f, e, truth=True):
        for q, k in ((FV, "V"), (FS, "S")):
            s = store(f, e, q)
            if s and s[0] and s[1] >= 0 and (f.cv(s[1]) == (1 if truth else 0)):
                yield k, P.norm(f, s[0])

    def direct(f, e):
        out = list(flag(f, e))
        if isinstance(e, int) and f.k(e) == "Call":
            pass
        return out

    def kill(f, e, fact):
        for k, p in flag(f, e, False):
            if (k, p) == fact:
                return True
        if isinstance(e, int) and f.k(e) == "Call":
            d = f.callee(e)
            if d and d["u"] in unload and f.obj(e) >= 0 and P.norm(f, f.path(f.obj(e))) == fact[1] and fact[0] in unload[d["u"]]:
                return True
        return False
    unload = {}
    P = Proto(prog, direct, kill)
    # functions that mark their own object as not loaded
    for u, f in P.fns.items():
        if f.cls not in objs:
            continue
        ks = {k for b in f.blocks.values() for e in b["e"] for k, p in flag(f, e, False) if p == "this"}
        if ks:
            unload[u] = ks
    # while a hook runs, what it fills is its own business; a test of the flag
    for u, k in hooks.items():
        P.start[u] = frozenset({("V", "this")} | ({("S", "this")} if k == "S" else set()))
    # "if (flag) return" : the flag being set proves the fact
    def edgefacts(f, c, truth):
        if truth and c is not None and c >= 0:
            c2 = f.strip(c)
            if f.k(c2) == "MemberExpr" and f.decl(c2)["q"] in (FV, FS):
                yield ("V" if f.decl(c2)["q"] == FV else "S"), P.norm(f, base(f, c2))
            if f.k(c2) == "Call" and (f.callee(c2) or {}).get("q") == "mm::PdfObject::IsDelayedLoadDone":
                yield "V", P.norm(f, f.path(f.obj(c2)))
    orig = Must
    def mk(f):
        return orig(f, P.gen, P.killed, start=P.start.get(f.usr, frozenset()), edge=lambda fn, c, t: list(edgefacts(fn, c, t)))
    def summary(f):
        st = P.start.get(f.usr, frozenset())
        if not st and not P.interesting(f):
            return frozenset()
        fl = mk(f); fl.run()
        out = fl.out_at_exit()
        ok = {"this"} | set(P.params(f)) - {None}
        return frozenset(x for x in out or () if PAT.match(x[1]) and PAT.match(x[1]).group(1) in ok)
    def at(f):
        r = P._st.get(f.usr)
        if r is None:
            r = P._st[f.usr] = states_of(mk(f))
        return r
    P.summary, P.at = summary, at
    P.solve()

    # --- R2: where the marks are set
    for u, f in sorted(P.fns.items()):
        for b in f.blocks.values():
            for e in b["e"]:
                for k, p in flag(f, e):
                    what = "value" if k == "V" else "stream"
                    okay = f.d.get("ctor") or ctor_only(prog, u, set())
                    if not okay:
                        def done(fn, x, k=k, p=p):
                            if isinstance(x, int) and fn.k(x) == "Call":
                                d = fn.callee(x)
                                if d and hooks.get(d["u"]) == k and P.norm(fn, fn.path(fn.obj(x))) == p:
                                    return [("done", p)]
                            for q, kk in MEM.items():
                                s = store(fn, x, q)
                                if s and kk == k and P.norm(fn, s[0]) == p:
                                    return [("done", p)]
                            for n, t in P.targets(fn, x):
                                if (k, t) in fill:
                                    m = P.mapping(fn, n, t)
                                    for a in fill[(k, t)]:
                                        if m.get(a) == p:
                                            return [("done", p)]
                            return ()
                        fill = fillers(prog, P, f, k, hooks)
                        s = states_of(Must(f, done)).get(f.where.get(e))
                        okay = s is None or ("done", p) in s
                    ctx.check(R2, okay, f.sig(), "mark " + what, f.loc(e), "the %s is marked as loaded on a path on which it was neither read from the file nor replaced" % what)
    # --- R1
    req, why = {}, {}
    work = []
    def need(f, i, k, p, note):
        """an access at node i needs (k, p)"""
        p = P.norm(f, p)
        if p is None:
            return False
        if P.holds(f, i, (k, p)):
            return True
        # entirely overwritten and then marked
        if passes(f, i, lambda fn, e: (k, p) in set(flag(fn, e))) and (k == "S" or overwrites(f, i)):
            return True
        # released and then marked as not loaded
        def forgets(fn, e):
            if isinstance(e, int) and fn.k(e) == "Call":
                d = fn.callee(e)
                return d and k in unload.get(d["u"], ()) and P.norm(fn, fn.path(fn.obj(e))) == p
            return (k, p) in set(flag(fn, e, False))
        if passes(f, i, forgets):
            return True
        if P.own(f, p) and PAT.match(p).end() == len(p):
            if f.d.get("ctor") and p == "this":
                return True
            if private(prog, f):
                key = (f.usr, k, p)
                if key not in req:
                    req[key] = (i, note); work.append(key)
                return True
        return False
    def overwrites(f, i):
        for e in [i] + parents(f, i):
            if f.k(e) == "Call" and (f.callee(e) or {}).get("q", "").split("<")[0] in ("std::swap", "mm::PdfVariant::swap"):
                return True
            s = store(f, e, VAL)
            if s and f.strip(f.kids(e)[0] if f.k(e) != "Call" else f.obj(e)) == i:
                return True
        return False
    n = 0
    for u, f in sorted(P.fns.items()):
        if f.q == "mm::PdfObject::SetVariantOwner":
            continue
        for i, nd in enumerate(f.nodes):
            if nd[0] != "MemberExpr":
                continue
            d = f.decl(i)
            if not d or d["q"] not in MEM:
                continue
            n += 1
            k = MEM[d["q"]]
            p = base(f, i)
            what = "value" if k == "V" else "stream"
            if p is None:
                ctx.check(R1, False, f.sig(), what, f.loc(i), "access to the %s of an object that cannot be identified" % what); continue
            ok = bool(f.kids(i)) and byvalue(f, f.kids(i)[0]) or need(f, i, k, p, None)
            ctx.check(R1, ok, f.sig(), what, f.loc(i), "the %s of '%s' is accessed on a path on which it may not have been loaded from the file yet" % (what, show(p)))
    done = set()
    while work:
        key = work.pop()
        if key in done:
            continue
        done.add(key)
        u, k, p = key
        g = P.fns[u]
        sites = 0
        for c in sorted(prog.callers.get(u, ())):
            f = P.fns.get(c)
            if f is None:
                continue
            for i in f.calls():
                if u not in prog.targets(f, i):
                    continue
                sites += 1
                m = P.mapping(f, i, u)
                a = m.get(p)
                what = "value" if k == "V" else "stream"
                act = f.obj(i) if p == "this" and f.k(i) == "Call" else None
                ps = P.params(g)
                if p in ps and ps.index(p) < len(f.args(i)):
                    act = f.args(i)[ps.index(p)]
                ok = act is not None and byvalue(f, act) or a is not None and need(f, i, k, a, key)
                tr = ["%s: %s" % (g.loc(req[key][0]), g.text(req[key][0]))]
                kk = req[key][1]
                while kk:
                    tr.append("%s: %s" % (P.fns[kk[0]].loc(req[kk][0]), P.fns[kk[0]].text(req[kk][0]))); kk = req[kk][1]
                ctx.check(R1, ok, f.sig(), "%s via %s" % (what, g.name), f.loc(i), "%s uses the %s of '%s', which may not have been loaded from the file yet" % (g.name, what, show(a)), tr)
    ctx.need(R1, 60); ctx.need(R2, 6)
    for u, f in sorted(P.fns.items()):
        for i in f.calls():
            d = f.callee(i)
            if f.k(i) == "Call" and d and d["u"] in unload:
                p = P.norm(f, f.path(f.obj(i)))
                ctx.check(R2, p == "this" and f.cls in objs and f.cls != "mm::PdfObject", f.sig(), "mark as not loaded", f.loc(i), "only an object that knows how to load itself may be marked as not loaded")
    # --- R3: re-entry
    loads = {k: set() for k in "VS"}
    for k in "VS":
        qs = [u for u in hooks if hooks[u] == k and P.fns.get(u) and P.fns[u].q in IMPL] or [u for u in hooks if hooks[u] == k]
        s = loads[k]
        ch = True
        while ch:
            ch = False
            for u, f in P.fns.items():
                if u in s or f.cls not in objs:
                    continue
                for i in f.calls():
                    if f.k(i) != "Call" or f.path(f.obj(i)) not in ("this", "*this"):
                        continue
                    ts = prog.targets(f, i)
                    if any(hooks.get(t) == k for t in ts) or ts & s:
                        s.add(u); ch = True; break
    nh = 0
    for u, k in sorted(hooks.items()):
        f = P.fns.get(u)
        if f is None:
            continue
        seen, st = {u}, [(u, ())]
        while st:
            v, tr = st.pop()
            g = P.fns.get(v)
            if g is None:
                continue
            for i in g.calls():
                if g.k(i) != "Call" or (P.norm(g, g.path(g.obj(i))) != "this"):
                    continue
                for t in prog.targets(g, i):
                    bad = t in loads[k] or (hooks.get(t) == k and False)
                    if bad:
                        nh += 1
                        ctx.check(R3, False, g.sig(), prog.fns[t].name, g.loc(i), "%s is called on the object while it is being loaded, and loads it again" % prog.fns[t].name, [f.loc() + ": " + f.sig()] + list(tr))
                    elif t not in seen and t in P.fns and (P.fns[t].cls in objs):
                        seen.add(t); st.append((t, tr + (g.loc(i) + ": " + g.text(i)[:80],)))
        nh += 1
        ctx.ok(R3, "%s: %s and %d functions it calls on the object" % (f.loc(), f.sig(), len(seen) - 1))
    ctx.need(R3, 4)
    # --- R4: DelayedLoad links the value
    own = {f.usr for f in prog.by_q("mm::PdfObject::SetVariantOwner")}
    for u, f in sorted(P.fns.items()):
        for i in f.calls():
            if f.k(i) == "Call" and any(hooks.get(t) == "V" for t in prog.targets(f, i)):
                ctx.check(R4, passes(f, i, lambda fn, e: isinstance(e, int) and fn.k(e) == "Call" and bool(prog.targets(fn, e) & own)), f.sig(), "SetVariantOwner", f.loc(i), "the value just loaded is not linked to its object on every path")
    ctx.need(R4, 1)


def parents(f, i):
    out, p = [], f.parent.get(i)
    while p is not None:
        out.append(p); p = f.parent.get(p)
    return out


ELEM = re.compile(r"(vector|deque|list|map|pair|unordered_map)<[^*]*mm::PdfObject\b(?! ?\*)")


def byvalue(f, i, depth=0):
    """the expression denotes an object stored by value, whose class never loads on demand"""
    i = f.strip(i)
    if i is None or i < 0 or depth > 6:
        return False
    k = f.k(i)
    if k == "Construct":
        return (f.type(i) or {}).get("r") == "mm::PdfObject"
    if k == "Call" and (f.callee(i) or {}).get("q") in ("std::move", "std::forward"):
        return byvalue(f, f.args(i)[0], depth + 1)
    isobj = lambda t: t and t["k"] == "rec" and t.get("r") == "mm::PdfObject"
    if k == "DeclRefExpr":
        d = f.decl(i)
        if d["k"] != "var":
            return False
        t = f.ty(d.get("t"))
        if isobj(t):
            return True
        if t and t["k"] == "ref":
            return byvalue(f, init_of(f, f.x(i)["d"]), depth + 1)
        return False
    if k == "MemberExpr":
        d = f.decl(i)
        return d["k"] != "fn" and isobj(f.ty(d.get("t")))
    if k == "Call":
        o = f.obj(i)
        if o >= 0 and (f.callee(i) or {}).get("oo") in ("*", "[]") or (f.callee(i) or {}).get("q", "").endswith(("::back", "::front", "::at")):
            t = f.type(o) if o >= 0 else None
            return bool(t and ELEM.search(t.get("c") or t.get("s") or ""))
    return False


def show(p):
    return re.sub(r"v\d+:", "", p or "?")


def private(prog, f):
    """callable only from inside the library's own classes, and never through another name"""
    return f.d.get("acc", 0) != 0 and not f.d.get("virt")


def ctor_only(prog, u, seen):
    if u in seen:
        return True
    seen.add(u)
    f = prog.fns[u]
    if f.d.get("ctor"):
        return True
    if f.d.get("acc", 0) == 0:
        return False
    cs = [c for c in prog.callers.get(u, ()) if c in prog.fns]
    return bool(cs) and all(ctor_only(prog, c, seen) for c in cs)


def fillers(prog, P, f, k, hooks):
    """functions that assign the member of kind k of their this/parameter on some path"""
    q = VAL if k == "V" else STR
    out = {}
    ch = True
    cache = f.prog if False else None
    while ch:
        ch = False
        for u, g in P.fns.items():
            if g.cls is None or not g.cls.startswith("mm::Pdf"):
                continue
            for b in g.blocks.values():
                for e in b["e"]:
                    s = store(g, e, q)
                    ps = set()
                    if s:
                        ps.add(P.norm(g, s[0]))
                    elif isinstance(e, int) and g.k(e) == "Call":
                        d = g.callee(e)
                        if d and d["q"].endswith("::reset") and q == STR:
                            o = g.strip(g.obj(e))
                            if o >= 0 and g.k(o) == "MemberExpr" and g.decl(o)["q"] == STR:
                                ps.add(P.norm(g, base(g, o)))
                        for n, t in P.targets(g, e):
                            if (k, t) in out:
                                m = P.mapping(g, n, t)
                                ps |= {m.get(a) for a in out[(k, t)]}
                    ps = {p for p in ps if p and P.own(g, p) and PAT.match(p).end() == len(p)}
                    cur = out.get((k, u), set())
                    if ps - cur:
                        out[(k, u)] = cur | ps; ch = True
    return out
