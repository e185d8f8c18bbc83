"""C10: a stream is never read and written at the same time, and always released."""
from proto import *
from lib import Must as lib_Must
from exc import Exc
from C05 import private, parents
from C06 import passes_entry
from model import AnalysisError

ASSUMPTIONS = [
    "The data of a stream is reached only through the provider member of PdfObjectStream; moving a standard container or smart pointer does not throw.",
    "The destructor of a stream handle runs once for every handle that was completely constructed (language rule).",
]
S = "mm::PdfObjectStream"
LOCK, PROV = S + "::m_locked", S + "::m_Provider"
HARMLESS = {"Init", "GetLength", "IsLengthHandled"}
FIL = "mm::PdfFilter"
OUT = FIL + "::m_OutputStream"


def mem(f, i, q):
    """node i is (after casts and smart pointer operators) a member q: object path, else None"""
    i = f.strip(i)
    if i is None or i < 0 or f.k(i) != "MemberExpr" or (f.decl(i) or {}).get("q") != q:
        return None
    ks = f.kids(i)
    return f.path(ks[0]) if ks else "this"


def assigned(f, e, q):
    """(object path, value node) when e assigns member q"""
    if not isinstance(e, int):
        return None
    if f.k(e) == "BinaryOperator" and f.x(e)["op"] == "=":
        p = mem(f, f.kids(e)[0], q)
        return None if p is None else (p, f.kids(e)[1])
    if f.k(e) == "Call" and (f.callee(e) or {}).get("oo") == "=" and f.args(e):
        p = mem(f, f.obj(e), q)
        return None if p is None else (p, f.args(e)[0])
    return None


def is_null(f, i):
    i = f.strip(i)
    while i >= 0 and f.k(i) in ("Construct", "InitList") and len(f.kids(i)) == 1:
        i = f.strip(f.kids(i)[0])
    return i >= 0 and (f.k(i) in ("Null", "CXXNullPtrLiteralExpr", "GNUNullExpr") or f.text(i).strip() in ("nullptr", "NULL") or f.cv(i) == 0 and f.k(i) == "IntegerLiteral")


def pointee(t, tab=None):
    t = (t or {}).get("c") or (t or {}).get("s") or ""
    return t


class Must(lib_Must):
    """facts on paths that complete normally"""
    def elem(self, s, e):
        if isinstance(e, int) and self.fn.k(e) == "Throw":
            return None
        return super().elem(s, e)

    def run(self):
        # an exception that no handler takes is not a normal exit
        fn = self.fn
        old = []
        for d, lo, tb in fn.tries:
            v = fn.blocks.get(str(d))
            if v is not None and fn.exit in v["s"]:
                old.append((v, v["s"])); v["s"] = [x for x in v["s"] if x != fn.exit]
        try:
            return super().run()
        finally:
            for v, s in old:
                v["s"] = s


class Locks(Proto):
    """facts: closed X - no handle of stream X is open; rel X - the lock of X was released; fin m - output member m was finished"""

    def __init__(self, prog, handles):
        super().__init__(prog, self.direct_, self.kill_)
        self.handles = handles

    def isptr(self, f, i):
        return super().isptr(f, i)

    def handle_made(self, f, e):
        """stream paths for which element e creates an open handle"""
        if not isinstance(e, int) or f.k(e) not in ("Call", "Construct"):
            return ()
        t = f.type(e) or {}
        if t.get("r") not in self.handles:
            return ()
        if f.k(e) == "Construct":
            return [self.norm(f, f.path(a)) for a in f.args(e) if (f.type(a) or {}).get("r") == S]
        d = f.callee(e) or {}
        if d.get("cls") == S or d.get("q", "").startswith(S + "::"):
            return [self.norm(f, f.path(f.obj(e)))]
        return ()

    def direct_(self, f, e):
        out = []
        s = assigned(f, e, LOCK)
        if s and f.cv(s[1]) == 0:
            p = self.norm(f, s[0])
            out += [("closed", p), ("rel", p)]
        if isinstance(e, int):
            for q in self.outs:
                a = assigned(f, e, q)
                if a and is_null(f, a[1]):
                    out.append(("fin", self.norm(f, a[0]) + "." + q.split("::")[-1]))
                if f.k(e) == "Call" and f.callee(e) and f.callee(e)["q"].endswith("::reset") and f.obj(e) >= 0 and (not f.args(e) or is_null(f, f.args(e)[0]) or f.k(f.args(e)[0]) == "CXXDefaultArgExpr"):
                    p = mem(f, f.obj(e), q)
                    if p:
                        out.append(("fin", self.norm(f, p) + "." + q.split("::")[-1]))
        if isinstance(e, list) and e[0] == "dtor":
            for h, p in self.local_handles(f).items():
                if h == e[1] and p:
                    out.append(("closed", p))
        return out

    def local_handles(self, f):
        r = self.__dict__.setdefault("_lh", {}).get(f.usr)
        if r is None:
            r = {}
            for i, n in enumerate(f.nodes):
                if n[0] == "DeclStmt":
                    for d, init in n[4]["vars"]:
                        if init >= 0 and "t" in f.tab.decls[d] and (f.ty(f.tab.decls[d]["t"]) or {}).get("r") in self.handles:
                            ps = self.handle_made(f, f.strip(init))
                            if ps:
                                r[d] = ps[0]
            self._lh[f.usr] = r
        return r

    def kill_(self, f, e, fact):
        if fact[0] != "closed":
            return False
        s = assigned(f, e, LOCK)
        if s and f.cv(s[1]) != 0 and self.norm(f, s[0]) == fact[1]:
            return True
        return fact[1] in self.handle_made(f, e)

    def killed(self, f, e, fact):
        if fact[0] in ("rel", "fin"):
            return False
        return super().killed(f, e, fact)

    def edge(self, f, c, truth):
        if c is None or c < 0:
            return ()
        c2 = f.strip(c)
        neg = False
        while f.k(c2) == "UnaryOperator" and f.x(c2)["op"] == "!":
            c2 = f.strip(f.kids(c2)[0]); neg = not neg
        t = truth != neg
        p = mem(f, c2, LOCK)
        if p is not None:
            return [("closed", self.norm(f, p))] if not t else ()
        # without a stream there is nothing to release
        p = null_atom(f, c2)
        if p and p[1] == t:
            return [("rel", self.norm(f, p[0])), ("closed", self.norm(f, p[0]))]
        return ()

    def mk(self, f):
        return Must(f, self.gen, self.killed, start=self.start.get(f.usr, frozenset()), edge=lambda fn, c, t: list(self.edge(fn, c, t)))

    def interesting(self, f):
        if super().interesting(f):
            return True
        return any(n[0] == "MemberExpr" and (f.decl(i) or {}).get("q") == LOCK for i, n in enumerate(f.nodes))

    def summary(self, f):
        if not self.interesting(f):
            return frozenset()
        fl = self.mk(f); fl.run()
        ok = {"this"} | set(self.params(f)) - {None}
        return frozenset(x for x in fl.out_at_exit() or () if x[1] and PAT.match(x[1]) and PAT.match(x[1]).group(1) in ok)

    def at(self, f):
        r = self._st.get(f.usr)
        if r is None:
            r = self._st[f.usr] = states_of(self.mk(f))
        return r


def null_atom(f, c):
    """(path, truth with which it is null) for a null test"""
    c = f.strip(c)
    k = f.k(c)
    if k in ("BinaryOperator", "Call"):
        op = f.x(c).get("op") if k == "BinaryOperator" else {"==": "==", "!=": "!="}.get((f.callee(c) or {}).get("oo"))
        if op in ("==", "!="):
            ks = f.kids(c) if k == "BinaryOperator" else ([f.obj(c)] if f.obj(c) is not None and f.obj(c) >= 0 else []) + list(f.args(c))
            if len(ks) == 2:
                for a, b in (ks, ks[::-1]):
                    if is_null(f, b) and f.path(a):
                        return f.path(a), op == "=="
        return None
    if k == "UnaryOperator" and f.x(c)["op"] == "!":
        r = null_atom(f, f.kids(c)[0])
        return r and (r[0], not r[1])
    t = f.type(c)
    if k in ("MemberExpr", "DeclRefExpr") and t and t["k"] == "ptr":
        return f.path(c), False
    return None


def run(prog, ctx):
    R1 = ctx.rule("closed-before-access", "Every access to the data of a stream (reading, writing, clearing, copying or moving its provider) happens on paths on which the stream was found not locked, since the last handle on it was created - in the accessing function, in one it called before, or in every caller of a private helper.")
    R2 = ctx.rule("locked-by-complete-handles", "The lock is only set at the very end of the constructor of a stream handle, after which nothing may fail; it is only released by handles, and the destructor of a handle releases it on every path on which the handle refers to a stream.")
    R2m = ctx.rule("moved-handles", "Moving a handle moves every member and leaves the source without a stream; handles cannot be copied.")
    R3 = ctx.rule("finished-before-release", "The output of a handle is finished before the stream is released.")
    R4 = ctx.rule("operation-ended", "A filter starts an operation only while none is in progress; no operation is left in progress by a failure, however it is reported, and ending an operation leaves none in progress.")
    R5 = ctx.rule("begin-end", "Every started filter operation is ended: on every path of the function that starts it, or by the object that holds the filter.")
    R6 = ctx.rule("fresh-state", "State that a filter carries from one block to the next is set anew by the function starting an operation, whatever happened to the previous one.")
    rec = prog.recs.get(S)
    if rec is None or not {"m_locked", "m_Provider"} <= {x["n"] for x in rec["fields"]}:
        raise AnalysisError("PdfObjectStream no longer has m_locked / m_Provider")
    ex = Exc(prog)
    # handle classes: they hold a pointer to a stream and mention its lock
    handles = set()
    for u, f in prog.fns.items():
        if f.cls and f.cls != S and any(n[0] == "MemberExpr" and (f.decl(i) or {}).get("q") == LOCK for i, n in enumerate(f.nodes)):
            handles.add(f.cls)
    if len(handles) < 2:
        for q, r in prog.recs.items():
            if any(sp(r, x) == S + " *" for x in r["fields"]) and ("mm::OutputStream" in prog.bases(q) or "mm::InputStream" in prog.bases(q)):
                handles.add(q)
    ctx.notes.append("stream handles: " + ", ".join(sorted(handles)))
    P = Locks(prog, handles)
    P.outs = [q + "::" + x["n"] for q in handles for x in prog.recs[q]["fields"] if re.search(r"unique_ptr<(mm::)?OutputStream", sp(prog.recs[q], x))]
    P.solve()
    lockers = streams(prog, ctx, P, ex, handles, R1, R2)
    moved(prog, ctx, P, handles, R2m, R3)
    filters(prog, ctx, ex, R4, R5, R6)


def sp(rec, x):
    t = rec["tab"].types[x["t"]]
    return (t.get("c") or t["s"])


def streams(prog, ctx, P, ex, handles, R1, R2):
    # --- R1
    acc = []
    for u, f in sorted(P.fns.items()):
        for i, n in enumerate(f.nodes):
            if n[0] != "MemberExpr" or (f.decl(i) or {}).get("q") != PROV or f.where is None or dead(f, i):
                continue
            p = mem(f, i, PROV)
            use = i
            for a in parents(f, i):
                k = f.k(a)
                if k in ("Cast", "Paren", "ImplicitCastExpr") or k == "Call" and (f.callee(a) or {}).get("oo") in ("->", "*") or k == "Call" and f.obj(a) == use and f.callee(a)["q"].endswith("::get") or k == "UnaryOperator" and f.x(a)["op"] in ("*", "&"):
                    use = a; continue
                break
            a = f.parent.get(use)
            if a is not None and f.k(a) == "Call" and f.obj(a) == use:
                d = f.callee(a) or {}
                if d.get("q", "").split("::")[-1] in HARMLESS:
                    ctx.ok(R1, "%s: %s: %s does not touch the data" % (f.loc(i), f.sig(), d["q"].split("::")[-1]))
                    continue
                if d.get("q", "").split("::")[-1] in ("swap", "reset", "release", "operator="):
                    acc.append((f, i, p, "replacing the data")); continue
            if a is not None and f.k(a) == "ReturnStmt" and f.name == "GetProvider":
                continue
            if a is not None and null_atom(f, a):
                continue
            what = (f.callee(a) or {}).get("q", "").split("::")[-1] if a is not None and f.k(a) == "Call" else "using the provider"
            acc.append((f, i, p, what))
        # through the accessor
        for i in f.calls():
            if f.k(i) == "Call" and (f.callee(i) or {}).get("q") == S + "::GetProvider":
                use, a = i, f.parent.get(i)
                while a is not None and (f.k(a) in ("Cast", "Paren") or f.k(a) == "UnaryOperator" and f.x(a)["op"] in ("*", "&")):
                    use, a = a, f.parent.get(a)
                if a is not None and f.k(a) == "Call" and f.obj(a) == use:
                    q = (f.callee(a) or {}).get("q", "")
                    n = q.split("::")[-1]
                    if n in {m.name for m in prog.fns.values() if m.cls == "mm::PdfObjectStreamProvider"} | {"GetInputStream", "GetOutputStream", "TryCopyFrom", "TryMoveFrom", "Write", "Clear"} and n not in HARMLESS:
                        acc.append((f, i, f.path(f.obj(i)), n))
    req, why, work = {}, {}, []

    def loading(f):
        """the stream of an object that is just being read from the file"""
        seen, st = set(), [f.usr]
        while st:
            u = st.pop()
            if u in seen:
                continue
            seen.add(u)
            g = prog.fns.get(u)
            if g is None:
                return False
            if g.name == "DelayedLoadStreamImpl":
                continue
            cs = prog.callers.get(u, ())
            if not cs or not private(prog, g):
                return False
            st.extend(cs)
        return True

    def need(f, i, p, note):
        p = P.norm(f, p)
        if p is None:
            return False
        if P.holds(f, i, ("closed", p)):
            return True
        m = PAT.match(p)
        if m and m.end() == len(p) and P.own(f, p):
            if f.d.get("ctor") and p == "this" and f.cls == S:
                return True
            if private(prog, f) or f.d.get("ctor") and f.cls in handles and f.d.get("acc", 0) != 0:
                k = (f.usr, p)
                if k not in req:
                    req[k] = note; work.append(k)
                return True
        if not (m and m.end() == len(p)) and loading(f):
            return True
        return False
    for f, i, p, what in acc:
        okay = need(f, i, p, [])
        ctx.check(R1, okay, f.sig(), what, f.loc(i), "the data of the stream is accessed (%s) on a path on which it was not made sure that no read or write operation is in progress" % what)
    while work:
        u, p = work.pop()
        g = prog.fns[u]
        cs = sorted(c for c in prog.callers.get(u, ()) if c in prog.fns)
        for c in cs:
            f = prog.fns[c]
            nodes = [n for n, t in prog.edges(f) if t == u and n is not None]
            for n in nodes:
                if n < 0 or dead(f, n):
                    continue
                m = P.mapping(f, n, u)
                a = m.get(p)
                ok = need(f, n, a, req[(u, p)])
                ctx.check(R1, ok, f.sig(), g.name, f.loc(n), "%s needs a stream without read or write operation in progress, which is not made sure on every path to this call" % g.sig())
    ctx.need(R1, 12)
    # --- R2: where the lock is set
    sites = []
    setters = {}          # helper -> its this/param path locked
    todo = []
    for u, f in sorted(P.fns.items()):
        for b in f.blocks.values():
            for e in b["e"]:
                s = assigned(f, e, LOCK)
                if s and f.cv(s[1]) != 0:
                    todo.append((f, e))
                elif s:
                    ctx.check(R2, f.cls in handles or only_from(prog, u, handles, set()), f.sig(), "m_locked = false", f.loc(e), "the lock of a stream is released by something else than the handle that holds it")
        # handed out: address or reference of the flag
        for i, n in enumerate(f.nodes):
            if n[0] == "MemberExpr" and (f.decl(i) or {}).get("q") == LOCK and not dead(f, i):
                j = f.parent.get(i)
                if j is not None and f.k(j) == "UnaryOperator" and f.x(j)["op"] == "&":
                    ctx.check(R2, False, f.sig(), "&m_locked", f.loc(i), "the lock flag is handed out")
    seen = set()
    while todo:
        f, e = todo.pop()
        if (f.usr, e) in seen:
            continue
        seen.add((f.usr, e))
        if f.d.get("ctor") and f.cls in handles:
            b = throwing_after(prog, ex, f, e)
            ctx.check(R2, b is None, f.sig(), "m_locked = true", f.loc(e), "the lock is set and then the constructor can still fail (%s), after which no destructor releases it" % (f.loc(b) + ": " + f.text(b)[:60] if b is not None else ""))
            continue
        if f.cls in handles | {S} and private(prog, f) and throwing_after(prog, ex, f, e) is None:
            cs = [prog.fns[c] for c in prog.callers.get(f.usr, ()) if c in prog.fns]
            if cs and all(c.cls in handles | {S} for c in cs):
                for c in cs:
                    for n, t in prog.edges(c):
                        if t == f.usr and n is not None and n >= 0:
                            todo.append((c, n))
                continue
        ctx.check(R2, False, f.sig(), "m_locked = true", f.loc(e), "a stream is locked by something else than the constructor of a handle")
    # every handle ctor that takes a stream locks it
    for u, f in sorted(P.fns.items()):
        if f.d.get("ctor") and f.cls in handles and not f.d.get("mc") and not f.d.get("cc") and not f.d.get("imp"):
            t = [p for p in f.params if (f.ty(p[2]) or {}).get("k") == "ref" and (f.ty(f.ty(p[2])["e"]) or {}).get("r") == S]
            if not t:
                continue

            def locks(fn, e, depth=0):
                s = assigned(fn, e, LOCK)
                if s and fn.cv(s[1]) not in (0, None):
                    return True
                n = e[2] if isinstance(e, list) and e[0] == "init" and e[1] == "" else e
                if isinstance(n, int) and n >= 0 and fn.k(n) in ("Call", "Construct") and depth < 4:
                    ts = [prog.fns[x] for x in prog.targets(fn, n) if x in prog.fns]
                    return bool(ts) and all(g.cls in handles | {S} and g.entry is not None and passes_entry(g, lambda h, y: locks(h, y, depth + 1)) for g in ts)
                return False
            ctx.check(R2, passes_entry(f, locks), f.sig(), "handle constructor", f.loc(), "a handle is created without locking the stream on some path")
    # every destructor releases
    for h in sorted(handles):
        ds = [f for f in P.fns.values() if f.cls == h and f.d.get("dtor")]
        ptr = [x["n"] for x in prog.recs[h]["fields"] if sp(prog.recs[h], x).replace("class ", "") == S + " *"]
        if not ptr:
            raise AnalysisError("%s holds no pointer to a stream" % h)
        if not ds:
            ctx.check(R2, False, h, "destructor", h, "the handle class has no destructor releasing the stream")
        for f in ds:
            for m in ptr:
                out = P.summary(f)
                ctx.check(R2, ("rel", "this." + m) in out, f.sig(), "destructor", f.loc(), "the destructor of the handle does not release the stream on every path on which it has one")
    ctx.need(R2, 8)


def only_from(prog, u, handles, seen):
    if u in seen:
        return True
    seen.add(u)
    f = prog.fns.get(u)
    if f is None or f.cls != S or not private(prog, f):
        return f is not None and f.cls in handles
    cs = prog.callers.get(u, ())
    return bool(cs) and all(only_from(prog, c, handles, seen) for c in cs)


def throwing_after(prog, ex, f, e):
    """a node reachable after element e that may fail"""
    b, ix = f.where[e]
    st, seen = [(b, ix + 1)], set()
    while st:
        b, k = st.pop()
        for x in f.blocks[b]["e"][k:]:
            n = x if isinstance(x, int) else x[2] if x[0] == "init" else None
            if n is not None and n >= 0 and fails(prog, ex, f, n):
                return n
        for s in f.blocks[b]["s"]:
            if s is not None and s in f.blocks and s not in seen:
                seen.add(s); st.append((s, 0))
    return None


def fails(prog, ex, f, n):
    """node n itself may throw"""
    k = f.k(n)
    if k == "Throw":
        return True
    if k == "New":
        return True
    if k not in ("Call", "Construct"):
        return False
    if f.x(n).get("v") and not (f.callee(n) or {}).get("ne"):
        ts = prog.targets(f, n)
        return True if not ts else any(t in ex.may or t not in prog.fns for t in ts) or True
    ts = prog.targets(f, n)
    if any(t in ex.may for t in ts):
        return True
    d = f.callee(n) or {}
    if k == "Call" and d.get("q", "").startswith("std::") and not re.search(r"::(swap|move|get|operator->|operator\*|operator bool|size|empty|data|begin|end|forward|has_value|release|reset|min|max)$", d["q"].split("<")[0] + "::" + d["q"].split("::")[-1]):
        return d.get("oo") not in ("==", "!=", "*", "->", "=")
    return False


def moved(prog, ctx, P, handles, R, R3):
    for h in sorted(handles):
        rec = prog.recs[h]
        fields = [x["n"] for x in rec["fields"]]
        ptr = next(x["n"] for x in rec["fields"] if sp(rec, x).replace("class ", "") == S + " *")
        mv = [f for f in prog.fns.values() if f.cls == h and (f.d.get("mc") or f.name == "operator=" and f.params and (f.ty(f.params[0][2]) or {}).get("k") == "rref")]
        for f in mv:
            kind = "move constructor" if f.d.get("mc") else "move assignment"
            if f.entry is None or f.d.get("imp") or f.d.get("def"):
                ctx.check(R, False, f.sig(), kind, f.loc(), "the generated %s leaves the source with its stream, which is then released twice" % kind)
                continue
            rhs = "v%d:%s" % (f.params[0][0], f.params[0][1])
            # all members are handed over
            for x in fields:
                def both(fn, e, x=x):
                    n = e[2] if isinstance(e, list) and e[0] == "init" else e
                    if isinstance(e, list) and e[0] == "init" and e[1] == "":
                        return n is not None and n >= 0 and fn.k(n) == "Construct" and ((fn.callee(n) or {}).get("mc") or any(t in prog.fns and prog.fns[t].d.get("mc") for t in prog.targets(fn, n)))
                    if n is None or not isinstance(n, int) or n < 0:
                        return False
                    ps = {fn.path(j) for j in fn.subtree(n) if j >= 0 and fn.k(j) == "MemberExpr"}
                    src = rhs + "." + x in ps
                    if isinstance(e, list) and e[0] == "init":
                        return e[1] == x and src
                    if fn.k(n) == "Call" and not (fn.callee(n) or {}).get("oo"):
                        # helper taking the whole source
                        for t in prog.targets(fn, n):
                            g = prog.fns.get(t)
                            if g is not None and g.cls == h and g.entry is not None and len(g.params) == 1 and (fn.path(fn.args(n)[0]) or "").lstrip("*&") == rhs:
                                r2 = "v%d:%s" % (g.params[0][0], g.params[0][1])
                                return passes_entry(g, lambda gg, y: isinstance(y, int) and {"this." + x, r2 + "." + x} <= {gg.path(j) for j in gg.subtree(y) if j >= 0 and gg.k(j) == "MemberExpr"})
                    return src and "this." + x in ps and fn.k(n) in ("Call", "BinaryOperator")
                ctx.check(R, passes_entry(f, lambda fn, e: both(fn, e) or selfmove(fn, e)) or self_guard(f), f.sig(), x, f.loc(), "the %s does not hand over member %s on every path" % (kind, x))

            def emptied(fn, e):
                n = e[2] if isinstance(e, list) and e[0] == "init" else e
                if n is None or not isinstance(n, int) or n < 0:
                    return False
                if isinstance(e, list) and e[0] == "init" and e[1] == "" and fn.k(n) == "Construct":
                    return any(t in prog.fns and prog.fns[t].d.get("mc") for t in prog.targets(fn, n))
                for j in [n] + [y for y in fn.subtree(n) if y >= 0]:
                    if fn.k(j) == "Call":
                        q = (fn.callee(j) or {}).get("q", "").split("<")[0]
                        ps = [(fn.path(a) or "") for a in fn.args(j)]
                        if q in ("utls::move", "mm::utls::move", "std::exchange", "std::swap") and rhs + "." + ptr in ps:
                            return True
                        if q.split("::")[-1] == "swap" and rhs + "." + ptr in ps:
                            return True
                        for t in prog.targets(fn, j):
                            g = prog.fns.get(t)
                            if g is not None and g.cls == h and g.entry is not None and len(g.params) == 1 and rhs in [x.lstrip("*&") for x in ps]:
                                r2 = "v%d:%s" % (g.params[0][0], g.params[0][1])
                                if passes_entry(g, lambda gg, y: isinstance(y, int) and gg.k(y) in ("Call", "BinaryOperator") and r2 + "." + ptr in {gg.path(z) for z in gg.subtree(y) if z >= 0} and (gg.k(y) != "BinaryOperator" or is_null(gg, gg.kids(y)[1]))):
                                    return True
                    if fn.k(j) == "BinaryOperator" and fn.x(j)["op"] == "=" and fn.path(fn.kids(j)[0]) == rhs + "." + ptr:
                        v = var_of(fn, fn.kids(j)[1])
                        if is_null(fn, fn.kids(j)[1]) or v is not None and any(fn.path(a) == "this." + ptr for a in var_inits(fn).get(v, [])):
                            return True
                return False
            ctx.check(R, passes_entry(f, emptied) or self_guard(f), f.sig(), "source of " + kind, f.loc(), "the %s leaves the source referring to the stream" % kind)
            # what the target held before is not dropped
            if not f.d.get("mc"):
                def kept(fn, e):
                    if not isinstance(e, int) or e < 0:
                        return False
                    if fn.k(e) == "Call" and "swap" in (fn.callee(e) or {}).get("q", "").split("<")[0].split("::")[-1] and "this." + ptr in [fn.path(a) for a in fn.args(e)]:
                        return True
                    if fn.k(e) == "BinaryOperator" and fn.x(e)["op"] == "=" and fn.path(fn.kids(e)[0]) == rhs + "." + ptr:
                        v = var_of(fn, fn.kids(e)[1])
                        if v is not None and any(fn.path(a) == "this." + ptr for a in var_inits(fn).get(v, [])):
                            return True
                    for n, t in P.targets(fn, e):
                        g = prog.fns.get(t)
                        if g is not None and (("rel", "this." + ptr) in P.ens.get(t, ()) or g.cls == h and any(g.k(c) == "Call" and "swap" in (g.callee(c) or {}).get("q", "").split("<")[0].split("::")[-1] and "this." + ptr in [g.path(a) for a in g.args(c)] for c in g.calls())):
                            return True
                    return ("rel", "this." + ptr) in set(P.direct_(fn, e))
                ctx.check(R, passes_entry(f, kept) or self_guard(f), f.sig(), "previous stream", f.loc(), "the stream the handle referred to before is neither released nor handed to the source")
        cc = [f for f in prog.fns.values() if f.cls == h and f.d.get("cc") and not f.d.get("del")]
        for f in cc:
            ctx.check(R, False, f.sig(), "copy constructor", f.loc(), "a handle can be copied: its lock would be released twice")
        if not any(x for x in rec["fields"] if "unique_ptr" in sp(rec, x)) and not cc:
            ctx.check(R, False, h, "copyable", h, "the handle has no member that prevents copying")
        # --- R3
        for f in prog.fns.values():
            if f.cls == h and f.d.get("dtor") and f.entry is not None:
                for q in P.outs:
                    if not q.startswith(h + "::"):
                        continue
                    m = q.split("::")[-1]
                    stt = P.at(f)
                    for b, v in f.blocks.items():
                        for ix, e in enumerate(v["e"]):
                            g = set(P.gen(f, e))
                            if ("rel", "this." + ptr) in g:
                                s = stt.get((b, ix))
                                ok = s is None or ("fin", "this." + m) in s or ("fin", "this." + m) in g and not any(k == "rel" for k, _ in P.direct_(f, e))
                                ctx.check(R3, ok, f.sig(), "release", f.loc(e if isinstance(e, int) else None), "the stream is released before its output (%s) is finished" % m)
    ctx.need(R, 8)
    ctx.need(R3, 1)


def selfmove(fn, e):
    return False


def self_guard(f):
    return False


# ---------------------------------------------------------------- filters
def filters(prog, ctx, ex, R4, R5, R6):
    rec = prog.recs.get(FIL)
    if rec is None or "m_OutputStream" not in [x["n"] for x in rec["fields"]]:
        raise AnalysisError("PdfFilter no longer has m_OutputStream")
    cls = {FIL} | prog.derived(FIL)
    hooks = {}
    for f in prog.fns.values():
        if f.cls == FIL and re.match(r"(Begin|End)?(Encode|Decode)(Block)?Impl$", f.name):
            for u in {f.usr} | prog.all_overriders(f.usr):
                hooks[u] = f.name
    names = set(hooks.values())
    declared = {"BeginEncodeImpl", "EncodeBlockImpl", "EndEncodeImpl", "BeginDecodeImpl", "DecodeBlockImpl", "EndDecodeImpl"}

    def hook(f, i):
        if f.k(i) != "Call":
            return None
        q = (f.callee(i) or {}).get("q", "").split("::")
        return q[-1] if q[-1] in declared and "::".join(q[:-1]) in cls else None

    def nullstore(f, e):
        s = assigned(f, e, OUT)
        return None if s is None or (s[0] or "").lstrip("*") != "this" else is_null(f, s[1])

    fns = [f for f in prog.fns.values() if f.cls == FIL and f.entry is not None]
    nuls = set()                  # functions that end the operation before anything in them may fail

    def gen(f, e):
        s = nullstore(f, e)
        if s:
            return ["N"]
        if isinstance(e, int) and f.k(e) == "Call" and (f.path(f.obj(e)) or "").lstrip("*") == "this" if isinstance(e, int) and f.k(e) == "Call" and f.obj(e) is not None and f.obj(e) >= 0 else False:
            ts = prog.targets(f, e)
            if ts and ts <= nuls:
                return ["N"]
        return ()

    def kill(f, e, x):
        s = nullstore(f, e)
        return s is False

    def edge(f, c, truth):
        p = null_atom(f, c) if c is not None and c >= 0 else None
        return ["N"] if p and (p[0] or "").replace("*", "") == "this.m_OutputStream" and p[1] == truth else ()

    def throwing(f, n):
        """element n may leave the function by an exception"""
        if not isinstance(n, int):
            return False
        k = f.k(n)
        if k == "Throw":
            return True
        if k != "Call":
            return False
        if hook(f, n):
            return True
        return fails(prog, ex, f, n)

    def covered(f, n, depth=0):
        """an exception at n is met by a handler for everything that ends the operation"""
        for tb in ex.enclosing_tries(f, n):
            hs = ex.handlers(f, tb)
            for h in hs:
                ct = f.x(h).get("ct", -1)
                body = h
                w = ex._sub(f, h)
                first = None
                # entry block of the handler
                hb = [b for b, v in f.blocks.items() if v.get("lab") == h]
                okay = bool(hb) and all(from_block(f, b, gen, lambda g, e: throwing(g, e)) for b in hb)
                if not okay:
                    return False
                if ct is None or ct < 0:
                    return True
        return False
    ch = True
    while ch:
        ch = False
        for f in fns:
            if f.usr in nuls or f.d.get("ctor") or f.d.get("dtor"):
                continue
            fl = Must(f, gen, kill, edge=edge)
            st = states_of(fl)
            out = fl.out_at_exit()
            if not any(gen(f, e) for b in f.blocks.values() for e in b["e"]):
                continue
            if "N" in (normal_exit(f, fl) or ()):
                ok = True
                for (b, ix), s in st.items():
                    e = f.blocks[b]["e"][ix]
                    if isinstance(e, int) and throwing(f, e) and "N" not in s and not (gen(f, e)) and not covered(f, e):
                        ok = False
                if ok:
                    nuls.add(f.usr); ch = True
    begins = set()
    for f in sorted(fns, key=lambda f: f.loc()):
        if f.d.get("ctor") or f.d.get("dtor"):
            continue
        hk = [(i, hook(f, i)) for i in f.calls() if hook(f, i)]
        stores = [e for b in f.blocks.values() for e in b["e"] if nullstore(f, e) is False]
        if not hk and not stores:
            continue
        st = states_of(Must(f, gen, kill, edge=edge))
        after = None
        for e in stores:
            begins.add(f.usr)
            s = st.get(f.where[e])
            ctx.check(R4, s is None or "N" in s, f.sig(), "start", f.loc(e), "an operation is started although one may still be in progress")
            after = (after or set()) | reach_after(f, e)
        private_ = f.d.get("acc", 0) != 0
        for b, v in f.blocks.items():
            for ix, e in enumerate(v["e"]):
                if not throwing(f, e) or (b, ix) not in st:
                    continue
                if after is not None and (b, ix) not in after:
                    continue                       # nothing was started by this call yet
                if "N" in st[(b, ix)] or gen(f, e):
                    ctx.ok(R4, "%s: %s: no operation in progress at %s" % (f.loc(e), f.sig(), f.text(e)[:50]))
                    continue
                if private_ and not stores:
                    # a helper: its callers answer for it
                    continue
                ctx.check(R4, covered(f, e), f.sig(), (hook(f, e) or (f.callee(e) or {}).get("q", "throw").split("::")[-1]) if f.k(e) != "Throw" else "throw", f.loc(e), "a failure here leaves the operation of the filter in progress: no handler for every kind of failure ends it")
        if any(n.startswith("End") for i, n in hk):
            fl = Must(f, gen, kill, edge=edge); fl.run()
            ctx.check(R4, "N" in (normal_exit(f, fl) or ()), f.sig(), "end", f.loc(), "ending an operation leaves it in progress on some path")
        # blocks are processed only while an operation is in progress
        for i, n in hk:
            if n.startswith("Begin") or private_:
                continue
            def run_edge(fn, c, truth):
                p = null_atom(fn, c) if c is not None and c >= 0 else None
                return ["P"] if p and (p[0] or "").replace("*", "") == "this.m_OutputStream" and p[1] != truth else ()
            s2 = states_of(Must(f, lambda fn, e: (), edge=run_edge)).get(f.where.get(i))
            ctx.check(R4, s2 is None or "P" in s2, f.sig(), n, f.loc(i), "%s is called without an operation in progress" % n)
    ctx.need(R4, 10)
    # --- R5
    pub = {}
    for f in fns:
        m = re.match(r"(Begin|End)(Encode|Decode)$", f.name)
        if m:
            pub[f.usr] = m.groups()
    nb = 0
    for u, f in sorted(prog.fns.items()):
        if f.entry is None:
            continue
        for i in f.calls():
            d = f.callee(i) if f.k(i) == "Call" else None
            if not d or pub.get(d["u"], ("", ""))[0] != "Begin" or dead(f, i):
                continue
            nb += 1
            kind = pub[d["u"]][1]
            rp = recv(f, i)
            def ends(fn, e, rp=rp):
                if not isinstance(e, int) or fn.k(e) != "Call":
                    return False
                d2 = fn.callee(e)
                return bool(d2) and pub.get(d2["u"]) == ("End", kind) and recv(fn, e) == rp
            if passes(f, i, ends):
                ctx.ok(R5, "%s: %s ends the %s operation on every path" % (f.loc(i), f.sig(), kind)); continue
            okay = False
            if rp and rp.startswith("this.") and f.cls:
                for g in prog.fns.values():
                    if g.cls == f.cls and g.entry is not None and (g.d.get("dtor") or g.name == "flush"):
                        if g.d.get("dtor") and passes_entry(g, lambda fn, e: ends(fn, e) or any(t in prog.fns and prog.fns[t].cls == f.cls and passes_entry(prog.fns[t], ends) for t in (prog.targets(fn, e) if isinstance(e, int) and fn.k(e) == "Call" else ()))):
                            okay = True
                        if g.name == "flush" and not g.d.get("dtor"):
                            okay = okay or ended_unless_failed(prog, g, ends, f.cls)
            ctx.check(R5, okay, f.sig(), "Begin" + kind, f.loc(i), "a %s operation is started, but not ended on every path, nor by the destructor or the flushing of the object that holds the filter" % kind.lower())
    ctx.need(R5, 4)
    # --- R6
    nf = 0
    for c in sorted(prog.derived(FIL)):
        r = prog.recs.get(c)
        own = [f for f in prog.fns.values() if f.cls == c and f.entry is not None]
        byname = {f.name: f for f in own}
        arr = {x["n"] for x in r["fields"] if r["tab"].types[x["t"]]["k"] == "arr" or sp(r, x).endswith("]")}
        for kind in ("Encode", "Decode"):
            blk = [byname[n] for n in (kind + "BlockImpl", "End" + kind + "Impl") if n in byname]
            if not blk:
                continue
            used = {}
            for f in blk:
                for fld, (g, i) in fields_modified(prog, f, c).items():
                    used.setdefault(fld, (g, i))
            beg = byname.get("Begin" + kind + "Impl")
            have = sets_all(prog, beg, c) if beg is not None else frozenset()
            for fld, (g, i) in sorted(used.items()):
                if fld in arr:
                    continue
                if not carried(prog, blk, c, fld):
                    ctx.ok(R6, "%s::%s: always set before it is used" % (c, fld)); continue
                nf += 1
                ctx.check(R6, fld in have, c, "%s (%s)" % (fld, kind.lower()), g.loc(i), "%s is carried over from one block to the next but not set when a new operation starts (%s)" % (fld, "Begin" + kind + "Impl" + ("" if beg is not None else " is not overridden")))
    ctx.need(R6, 6)


def recv(f, i):
    o = f.obj(i)
    if o is None or o < 0:
        return "this"
    o = f.strip(o)
    while o >= 0 and f.k(o) == "Call" and (f.callee(o) or {}).get("oo") in ("->", "*"):
        o = f.strip(f.obj(o))
    p = (f.path(o) or "").lstrip("*&") or None
    v = var_of(f, o)
    if v is not None:
        # a local name for the filter
        ini = var_inits(f).get(v, [])
        t = f.ty(f.tab.decls[v].get("t")) if "t" in f.tab.decls[v] else None
        if len(ini) == 1 and t and t["k"] in ("ref", "ptr"):
            j = f.strip(ini[0])
            while j >= 0 and (f.k(j) == "Call" and ((f.callee(j) or {}).get("oo") in ("->", "*") or (f.callee(j) or {}).get("q", "").endswith("::get")) or f.k(j) == "UnaryOperator" and f.x(j)["op"] in ("*", "&")):
                j = f.strip(f.obj(j) if f.k(j) == "Call" else f.kids(j)[0])
            q = (f.path(j) or "").lstrip("*&") if j >= 0 else None
            if q:
                return q
    return p


def ended_unless_failed(prog, g, ends, cls):
    """flush reaches the end of the operation unless a flag recording a failure is set"""
    hits = [e for b in g.blocks.values() for e in b["e"] if ends(g, e)]
    if hits:
        return all(_flags_only(prog, g, e) for e in hits[:1])
    for e in (e for b in g.blocks.values() for e in b["e"]):
        if isinstance(e, int) and g.k(e) == "Call":
            for t in prog.targets(g, e):
                h = prog.fns.get(t)
                if h is not None and h.cls == cls and h is not g and h.entry is not None and any(ends(h, y) for b in h.blocks.values() for y in b["e"]) and _flags_only(prog, g, e):
                    return True
    return False


def _flags_only(prog, g, e):
    for c, t in conds_at(g, e):
        c = g.strip(c)
        while g.k(c) == "UnaryOperator" and g.x(c)["op"] == "!":
            c = g.strip(g.kids(c)[0]); t = not t
        ty = g.type(c) or {}
        if g.k(c) == "MemberExpr" and ty.get("k") == "bool":
            # the flag still has the value it was created with
            ini = {h.cv(x[2]) for h in prog.fns.values() if h.cls == g.cls and h.d.get("ctor") and h.entry is not None for b in h.blocks.values() for x in b["e"] if isinstance(x, list) and x[0] == "init" and x[1] == g.decl(c)["q"].split("::")[-1] and x[2] is not None}
            if ini and ini != {1 if t else 0}:
                return False
        elif not null_atom(g, c):
            return False
    return True


def normal_exit(f, fl):
    """facts at the exit on paths that complete normally"""
    fl.run()
    return fl.out_at_exit()


def reach_after(f, e):
    b, ix = f.where[e]
    out = {(b, k) for k in range(ix + 1, len(f.blocks[b]["e"]))}
    st, seen = list(f.blocks[b]["s"]), set()
    while st:
        x = st.pop()
        if x is None or x in seen or x not in f.blocks:
            continue
        seen.add(x)
        out |= {(x, k) for k in range(len(f.blocks[x]["e"]))}
        st.extend(f.blocks[x]["s"])
    for d, lo, tb in f.tries:
        if d >= 0:
            x = str(d)
            if x in f.blocks and x not in seen:
                pass
    return out


def from_block(f, b0, gen, throwing):
    """from block b0 the operation is ended before anything may fail and before the exit"""
    st, seen = [b0], set()
    while st:
        b = st.pop()
        if b in seen or b is None or b not in f.blocks:
            continue
        seen.add(b)
        hit = False
        for e in f.blocks[b]["e"]:
            if gen(f, e):
                hit = True; break
            if throwing(f, e):
                return False
        if hit:
            continue
        if b == f.exit:
            return False
        st.extend(f.blocks[b]["s"])
    return True


def this_fields(f, i):
    """first field of this named by expression i"""
    p = f.path(i)
    m = re.match(r"[*&]*this\.(\w+)", p or "")
    return m.group(1) if m else None


def field_writes(prog, f, e):
    """fields of this that element e itself may modify -> set"""
    out = set()
    if isinstance(e, list):
        return out
    k = f.k(e)
    if k == "CompoundAssign" or k == "BinaryOperator" and f.x(e)["op"].endswith("=") and f.x(e)["op"] not in ("==", "!=", "<=", ">="):
        x = this_fields(f, f.kids(e)[0])
        if x:
            out.add(x)
    elif k == "UnaryOperator" and f.x(e)["op"] in ("++", "--", "p++", "p--"):
        x = this_fields(f, f.kids(e)[0])
        if x:
            out.add(x)
    elif k == "Call":
        d = f.callee(e) or {}
        o = f.obj(e)
        if o is not None and o >= 0 and not d.get("cm") and d.get("k") != "var":
            t = f.type(o)
            x = this_fields(f, o)
            if x and f.decl(f.strip(o)) and f.k(f.strip(o)) == "MemberExpr" and (t or {}).get("k") == "rec" and not d.get("q", "").split("::")[-1] in ("begin", "end", "operator[]", "operator->", "operator*", "get", "at", "back", "front", "data", "size"):
                out.add(x)
        ps = d.get("p") or []
        for a, pt in zip(f.args(e), ps):
            t = f.ty(pt) if isinstance(pt, int) else None
            if t and t["k"] in ("ref", "ptr", "rref"):
                el = f.ty(t["e"]) if "e" in t else None
                if not (el and "const" in (el.get("s") or "")):
                    x = this_fields(f, a)
                    # only the field itself or its address
                    if x and (t["k"] != "ptr" or (f.path(a) or "").startswith("&")):
                        out.add(x)
    return out


def fields_modified(prog, f, c, seen=None):
    seen = seen if seen is not None else set()
    out = {}
    if f.usr in seen:
        return out
    seen.add(f.usr)
    for b in f.blocks.values():
        for e in b["e"]:
            for x in field_writes(prog, f, e):
                out.setdefault(x, (f, e))
            if isinstance(e, int) and f.k(e) == "Call" and (recv(f, e) == "this"):
                for t in prog.targets(f, e):
                    g = prog.fns.get(t)
                    if g is not None and g.cls == c and g.entry is not None:
                        for x, y in fields_modified(prog, g, c, seen).items():
                            out.setdefault(x, y)
    return out


def sets_all(prog, f, c, depth=0):
    """fields assigned on every normal path through f"""
    def gen(fn, e):
        out = set(field_writes(prog, fn, e))
        if isinstance(e, int) and fn.k(e) == "Call" and recv(fn, e) == "this" and depth < 3:
            for t in prog.targets(fn, e):
                g = prog.fns.get(t)
                if g is not None and g.cls == c and g.entry is not None and g is not fn:
                    out |= sets_all(prog, g, c, depth + 1)
        return out
    fl = Must(f, gen); fl.run()
    return frozenset(normal_exit(f, fl) or ())


def carried(prog, blk, c, fld):
    """some read of the field is not preceded by a store in the same call"""
    for f in blk:
        if exposed(prog, f, c, fld, frozenset()):
            return True
    return False


def exposed(prog, f, c, fld, seen):
    if f.usr in seen:
        return False
    def gen(fn, e):
        if isinstance(e, int) and fn.k(e) == "BinaryOperator" and fn.x(e)["op"] == "=" and fn.path(fn.kids(e)[0]) == "this." + fld:
            return ["W"]
        return ()
    st = states_of(Must(f, gen))
    for i, n in enumerate(f.nodes):
        if n[0] == "MemberExpr" and this_fields(f, i) == fld and f.path(i) == "this." + fld:
            j, p = i, f.parent.get(i)
            if p is not None and f.k(p) == "BinaryOperator" and f.x(p)["op"] == "=" and f.kids(p)[0] == i:
                continue
            w = f.where.get(i)
            a = i
            while w is None and a is not None:
                a = f.parent.get(a); w = f.where.get(a)
            s = st.get(w)
            if s is not None and "W" not in s:
                return True
    for i in f.calls():
        if f.k(i) == "Call" and recv(f, i) == "this":
            s = st.get(f.where.get(i))
            if s is not None and "W" in s:
                continue
            for t in prog.targets(f, i):
                g = prog.fns.get(t)
                if g is not None and g.cls == c and g.entry is not None and exposed(prog, g, c, fld, seen | {f.usr}):
                    return True
    return False
