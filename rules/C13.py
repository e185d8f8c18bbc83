"""C13: state shared between documents is only changed under synchronisation."""
from effects import *

ASSUMPTIONS = [
    "The process-wide settings documented as such are configured before threads are started: " +
    "PdfEncrypt::SetEnabledEncryptionAlgorithms, RecursionGuard::SetMaxRecursionDepth, PdfParser::SetMaxObjectCount, PdfFontManager::SetFontConfigWrapper, PdfCommon::SetLogMessageCallback and SetMaxLoggingSeverity.",
    "OpenSSL, zlib, libxml2, libjpeg, libpng and libtiff are re-entrant for distinct handles; FreeType needs a lock around creation and release of faces of one library object (its documentation), fontconfig's configuration is created under the lock of PdfFontManager.",
    "A function handed a lock object declared in an enclosing scope holds that lock; which mutex guards which variable is checked per variable (all locked writes of one variable must name the same mutex).",
]

SETTERS = {"mm::PdfEncrypt::SetEnabledEncryptionAlgorithms", "utls::RecursionGuard::SetMaxRecursionDepth", "mm::PdfParser::SetMaxObjectCount",
           "mm::PdfFontManager::SetFontConfigWrapper", "mm::PdfCommon::SetLogMessageCallback", "mm::PdfCommon::SetMaxLoggingSeverity"}

SYNC = re.compile(r"\b(?:std::)?(?:atomic(?:_flag|_bool|_int|_uint|_size_t|_ulong)?\b|atomic<|mutex\b|recursive_mutex\b|shared_mutex\b|once_flag\b|condition_variable\b|timed_mutex\b)")

UNSAFE = {n: "uses a static buffer or process-wide state" for n in """localtime gmtime asctime ctime rand srand random srandom drand48 srand48
 strtok strerror setlocale putenv setenv unsetenv tmpnam tempnam readdir getpwnam getpwuid getgrnam getgrgid gethostbyname inet_ntoa
 ttyname getlogin crypt ecvt fcvt gcvt l64a basename dirname wcstombs mblen mbtowc wctomb umask chdir hcreate hsearch signal""".split()}
UNSAFE.update({"std::" + n: v for n, v in list(UNSAFE.items())})
HOOKS = {"TIFFSetErrorHandler", "TIFFSetWarningHandler", "TIFFSetErrorHandlerExt", "TIFFSetWarningHandlerExt", "xmlSetGenericErrorFunc",
         "xmlSetStructuredErrorFunc", "xmlKeepBlanksDefault", "xmlSubstituteEntitiesDefault", "xmlThrDefSetGenericErrorFunc", "CRYPTO_set_mem_functions",
         "FcConfigSetCurrent", "xmlMemSetup", "xmlGcMemSetup", "xmlIndentTreeOutput"}
FACE = {"FT_New_Face", "FT_Open_Face", "FT_New_Memory_Face", "FT_Done_Face"}


def base_global(prog, f, i):
    """declaration of the static-storage variable an lvalue is (part of), or None"""
    while i is not None and i >= 0:
        k = f.k(i)
        if k == "DeclRefExpr":
            d = f.decl(i)
            return d if d.get("u") in prog.vars else None
        if k == "MemberExpr":
            d = f.decl(i)
            if d.get("u") in prog.vars:
                return d
            i = f.kids(i)[0] if f.kids(i) else -1
        elif k in ("Cast", "ArraySubscriptExpr", "Paren", "MaterializeTemporary"):
            i = f.kids(i)[0]
        elif k == "UnaryOperator" and f.x(i)["op"] in ("*", "&"):
            i = f.kids(i)[0]
        elif k == "Call" and f.callee(i) and f.callee(i).get("oo") in ("[]", "->", "*"):
            i = f.obj(i) if f.obj(i) >= 0 else f.args(i)[0]
        elif k == "Call" and f.callee(i) and PASS_STD.match(f.callee(i)["q"]) and f.args(i):
            i = f.args(i)[0]
        elif k == "Call" and f.callee(i) and f.obj(i) >= 0 and ELEM_STD.search(f.callee(i)["q"]) and f.callee(i)["u"] not in prog.fns:
            i = f.obj(i)
        else:
            return None
    return None


class Rule:
    def __init__(self, prog, ctx):
        self.ctx, self.p = ctx, prog
        self.E = Effects(self.p, lambda f: f.name in ("DelayedLoad", "DelayedLoadStream", "LogMessage") or f.file.endswith("PdfError.cpp"))
        self.mutex = collections.defaultdict(set)
        self.callers = collections.defaultdict(list)
        for u, f in self.p.fns.items():
            for i in f.calls():
                for t in self.p.targets(f, i):
                    self.callers[t].append((f, i))
            for i, n in enumerate(f.nodes):
                if n[0] in ("DeclRefExpr",):
                    d = f.decl(i)
                    if d and d.get("k") in ("fn", "method", "Function", "CXXMethod"):
                        pass
        self._al = {}

    # -------------------------------------------------- locks
    def sync_type(self, v_tab, tid):
        t = v_tab.types[tid] if tid is not None and tid >= 0 else None
        return t is not None and SYNC.search((t.get("r") or "") + " " + (t.get("s") or ""))

    def locks_of(self, f, i):
        """names of the mutexes locked at node i, by a lock object of an enclosing scope"""
        out = set()
        for j, n in enumerate(f.nodes):
            if n[0] != "DeclStmt" or j >= i:
                continue
            for dd, init in n[4]["vars"]:
                t = f.ty(f.tab.decls[dd].get("t")) or {}
                if LOCKS.match(t.get("r", "") or "") or LOCKS.match(t.get("s", "") or ""):
                    sc = f.parent.get(j)
                    q = i
                    while q is not None and q != sc:
                        q = f.parent.get(q)
                    if q == sc:
                        nm = "?"
                        for k in f.subtree(init if isinstance(init, int) and init >= 0 else j):
                            if f.k(k) in ("DeclRefExpr", "MemberExpr"):
                                d = f.decl(k)
                                if d and d.get("u") in self.p.vars:
                                    nm = d.get("q") or d["u"]
                            if f.k(k) == "Call" and f.callee(k) and "utex" in f.callee(k)["q"]:
                                nm = f.callee(k)["q"]
                        out.add(nm)
        return out

    def always_locked(self, u, depth=0, seen=()):
        """every call of u happens under a lock (or in a static initialiser)"""
        if u in self._al:
            return self._al[u]
        if depth > 4 or u in seen:
            return False
        cs = self.callers.get(u, [])
        r = bool(cs) and all(self.protected(f, i, depth + 1, seen + (u,)) for f, i in cs)
        if depth == 0:
            self._al[u] = r
        return r

    def protected(self, f, i, depth=0, seen=()):
        if self.E.locked(f, i) or self.in_static_init(f, i) or self.in_call_once(f):
            return True
        if f.d.get("acc") in (0, None) and f.cls and not f.d.get("lam"):
            return False            # public: callable without the lock
        return self.always_locked(f.usr, depth, seen)

    def in_static_init(self, f, i):
        """node i belongs to the initialiser of a function-local static of f, or f is
        a lambda/constructor used only there"""
        c = f.__dict__.get("_sinit")
        if c is None:
            c = f._sinit = set()
            for j, n in enumerate(f.nodes):
                if n[0] == "DeclStmt":
                    for dd, init in n[4]["vars"]:
                        d = f.tab.decls[dd]
                        if (d.get("u") in self.p.vars) and isinstance(init, int) and init >= 0:
                            c.update(f.subtree(init))
        return i in c or self.only_static_init(f)

    def only_static_init(self, f):
        c = f.__dict__.get("_osi")
        if c is None:
            c = f._osi = False
            for g in ([f] if f.q.endswith(")") or "lambda" in f.usr or "@" in f.usr else []):
                pass
            # lambda body: find the enclosing function whose static initialiser contains the lambda
            for u, g in self.p.fns.items():
                if g is f:
                    continue
                for j in self.static_inits(g):
                    if g.k(j) == "LambdaExpr" and self.lambda_usr(g, j) == f.usr:
                        f._osi = True
                        return True
            c = f._osi
        return c

    def static_inits(self, g):
        self.in_static_init_cache(g)
        return g._sinit

    def in_static_init_cache(self, g):
        if "_sinit" not in g.__dict__:
            g._sinit = set()
            for j, n in enumerate(g.nodes):
                if n[0] == "DeclStmt":
                    for dd, init in n[4]["vars"]:
                        d = g.tab.decls[dd]
                        if d.get("u") in self.p.vars and isinstance(init, int) and init >= 0:
                            g._sinit.update(g.subtree(init))

    def lambda_usr(self, g, j):
        x = g.x(j)
        d = g.callee(j)
        return d["u"] if d else None

    def in_call_once(self, f):
        return False

    # -------------------------------------------------- rules
    def run(self):
        ctx, p = self.ctx, self.p
        r1 = ctx.rule("R1", "a variable of static storage duration that can change is thread-local, atomic, a mutex, or changed only by its initialiser, under a lock or in a documented process-wide setter")
        for f in p.fns.values():
            for i, d in self.global_writes(f):
                v = p.vars[d["u"]]
                q = v.get("q") or d.get("q")
                if v.get("tls") or self.sync_type(v["tab"], v["t"]):
                    ctx.ok(r1, "%s %s" % (f.q, q)); continue
                own = f.q in SETTERS or f.q.split("(")[0] in SETTERS
                if own or self.in_static_init(f, i):
                    ctx.ok(r1, "%s %s" % (f.q, q)); continue
                if self.protected(f, i):
                    for m in self.locks_of(f, i):
                        self.mutex[q].add((m, f.loc(i)))
                    ctx.ok(r1, "%s %s under lock" % (f.q, q)); continue
                ctx.bad(r1, f.q, "write of " + q, f.loc(i), "the static variable %s is changed here without a lock, so that two threads using different documents race on it" % q, [f.text(i)[:120]])
        for q, ms in self.mutex.items():
            names = {m for m, l in ms if m != "?"}
            ctx.check(r1, len(names) <= 1, q, "mutexes of " + q, sorted(ms)[0][1], "the static variable %s is guarded by different mutexes: %s" % (q, ", ".join(sorted(names))))
        r2 = ctx.rule("R2", "no function of the C library or of a third-party library that works on process-wide state is used without synchronisation")
        for f in p.fns.values():
            for i, n in enumerate(f.nodes):
                d = None
                if n[0] == "DeclRefExpr" and i in f.parent:
                    d = f.decl(i)       # the function is named other than as a callee
                elif n[0] == "Call":
                    d = f.callee(i)
                if not d or not d.get("q"):
                    continue
                q = d["q"]
                nm = q[2:] if q.startswith("::") else q
                if nm in UNSAFE:
                    ctx.bad(r2, f.q, nm, f.loc(i), "%s %s; two threads working on different documents interfere" % (nm, UNSAFE[nm]), [])
                elif nm in HOOKS:
                    ctx.check(r2, self.in_static_init(f, i), f.q, nm, f.loc(i), "%s replaces a process-wide handler outside a one-time initialiser, while another thread may be using it" % nm)
                elif nm in FACE:
                    ctx.check(r2, self.protected(f, i), f.q, nm, f.loc(i), "%s changes the shared FreeType library object without holding its lock" % nm)
                elif f.k(i) == "Call":
                    ctx.ok(r2, nm)
        self.shared_classes()
        ctx.need(r1, 5)
        ctx.need(r2, 1000)

    def global_writes(self, f):
        p = self.p
        for i, els in self.E.writes(f):
            for e in els:
                if e[0].startswith("g:") and e[0][2:] in p.vars and not e[2]:
                    v = p.vars[e[0][2:]]
                    if not v.get("const") and base_global(p, f, f.kids(i)[0] if f.kids(i) else -1) is None and f.k(i) not in ("Call", "Construct"):
                        yield i, {"u": e[0][2:], "q": v.get("q")}
        for i, n in enumerate(f.nodes):
            k = n[0]
            if k == "CompoundAssign" or (k == "BinaryOperator" and n[4]["op"] == "="):
                d = base_global(p, f, n[3][0])
                if d: yield i, d
            elif k == "UnaryOperator" and ("++" in n[4]["op"] or "--" in n[4]["op"]):
                d = base_global(p, f, n[3][0])
                if d: yield i, d
            elif k == "UnaryOperator" and n[4]["op"] == "&":
                pass
            elif k == "Delete" and n[3]:
                d = base_global(p, f, n[3][0])
                if d: yield i, d
            elif k in ("Call", "Construct"):
                c = f.callee(i)
                if not c: continue
                o = f.obj(i)
                if k == "Call" and o >= 0 and not c.get("cm") and not c.get("st"):
                    d = base_global(p, f, o)
                    if d and not (PURE_STD.search(c["q"]) and c["u"] not in p.fns and not (c["q"].endswith("operator[]") and MAPLIKE.match(c["q"]))):
                        if c["u"] not in p.fns or any(e[0] == "this" for e in self.E.mod.get(c["u"], ())):
                            yield i, d
                ps = c.get("p", [])
                tab = c.get("_tab") or f.tab
                for a, pt in zip(f.args(i), ps):
                    t = tab.types[pt] if pt is not None and pt >= 0 else None
                    if not t or t["k"] not in ("ref", "ptr"):
                        continue
                    e = tab.types[t["e"]] if t.get("e") is not None and t["e"] >= 0 else {}
                    if e.get("q") or e.get("k") == "func" or PASS_STD.match(c["q"]):
                        continue
                    d = base_global(p, f, a)
                    if not d:
                        continue
                    v = p.vars[d["u"]]
                    if v.get("const") or self.sync_type(v["tab"], v["t"]):
                        continue
                    vt = v["tab"].types[v["t"]]
                    if t["k"] == "ptr" and vt["k"] == "ptr" and f.k(f.strip(a)) != "UnaryOperator":
                        continue        # the pointer's value is passed, not the variable
                    ix = list(f.args(i)).index(a)
                    if c["u"] in p.fns and not any(x[0] == "p%d" % ix for x in self.E.mod.get(c["u"], ())):
                        continue
                    yield i, d

    def shared_classes(self):
        ctx, p, E = self.ctx, self.p, self.E
        r3 = ctx.rule("R3", "an object reachable from a static variable (shared encodings, standard font metrics) is not changed by its member functions after construction, except under a lock")
        shared = {}
        for u, v in p.vars.items():
            if v.get("tls"):
                continue
            t = v["tab"].types[v["t"]]
            names = set(re.findall(r"mm::\w+", (t.get("r") or "") + " " + (t.get("s") or "") + " " + (t.get("c") or "")))
            # dynamic class of what is stored: types constructed in the initialiser
            src = v["tab"]
            for q in names:
                if q in p.recs:
                    shared.setdefault(q, v.get("q"))
        for f in p.fns.values():
            for j in self.static_inits(f):
                if f.k(j) in ("Construct", "New"):
                    c = f.callee(j)
                    cl = c.get("cls") if c else None
                    if cl and cl.startswith("mm::"):
                        shared.setdefault(cl, f.q)
                if f.k(j) == "Call" and f.callee(j):
                    for ta in re.findall(r"mm::\w+", f.callee(j)["q"] + " " + str((f.type(j) or {}).get("c"))):
                        if ta in p.recs:
                            shared.setdefault(ta, f.q)
        # value types copied out of their table, and objects whose state is guarded elsewhere
        skip = {c for c in shared if c in ("mm::PdfObject", "mm::PdfVariant", "mm::PdfName", "mm::PdfString", "mm::PdfReference", "mm::PdfArray", "mm::PdfDictionary", "mm::PdfEncoding")}
        for C in sorted(set(shared) - skip):
            subs = [C]
            cl = [C] + sorted(p.bases(C))
            # methods that can run on an instance whose dynamic type is C
            meths = {}
            for u, f in p.fns.items():
                if f.cls in cl and not f.d.get("ctor") and not f.d.get("dtor") and not f.d.get("st"):
                    ov = [x for x in p.all_overriders(u) if x != u and x in p.fns and p.fns[x].cls in cl and (p.fns[x].cls == C or p.fns[x].cls in p.derived(f.cls))]
                    if ov:
                        continue        # replaced in C
                    meths[u] = f
            for u, f in sorted(meths.items(), key=lambda z: (z[1].q, z[0])):
                w = []
                for i, els in E.writes(f):
                    for e in els:
                        if e[0] == "this" and e[1] and not self.sync_field(e):
                            w.append((i, e))
                for i in f.calls():
                    c = f.callee(i)
                    o = f.obj(i)
                    if not c or o < 0 or c["u"] not in p.fns:
                        continue
                    g = p.fns[c["u"]]
                    if g.cls in cl and f.k(f.strip(o)) == "This":
                        continue
                    for e in E.resolve(f, o):
                        if e[0] == "this" and e[1] and not e[2] and any(x[0] == "this" for x in E.mod.get(c["u"], ())):
                            w.append((i, e))
                bad = [(i, e) for i, e in w if not self.protected(f, i)]
                pub = f.d.get("acc") in (0, None)
                if not bad:
                    ctx.ok(r3, "%s on %s" % (f.q, C)); continue
                mut = [(i, e) for i, e in bad]
                # non-const public mutators are not reachable through the const handles that are handed out
                if not f.d.get("cm") and not self.const_reach(u, meths):
                    ctx.ok(r3, "%s (non-const; instances are handed out as const)" % f.q); continue
                i, e = bad[0]
                ctx.bad(r3, f.q, "write of %s" % e[3].replace("mm::", ""), f.loc(i), "%s changes field %s of an object shared between all documents (class %s) without a lock" % (f.q, e[1], C), [f.text(i)[:120]])
        ctx.need(r3, 60)
        self.lazy_reads(shared, skip)

    def lazy_reads(self, shared, skip):
        """R4: what is filled in lazily under a lock is read under the lock or after the filling call"""
        ctx, p, E = self.ctx, self.p, self.E
        r4 = ctx.rule("R4", "a field of a shared object or a static variable that is filled in lazily under a lock is read only under that lock, or after a call that performs the locked initialisation on every path")
        guarded = collections.defaultdict(set)      # field leaf / static -> writers
        for C in sorted(set(shared) - skip):
            cl = {C} | set(p.bases(C))
            for u, f in p.fns.items():
                if f.cls in cl and not f.d.get("ctor") and not f.d.get("dtor"):
                    for i, els in E.writes(f):
                        for e in els:
                            if e[0] == "this" and e[1] and not e[2] and e[3].rsplit("::", 1)[0] in cl and self.protected(f, i):
                                guarded[("f", e[3])].add(u)
        for f in p.fns.values():
            for i, d in self.global_writes(f):
                v = p.vars[d["u"]]
                if v.get("tls") or self.sync_type(v["tab"], v["t"]) or f.q in SETTERS or self.in_static_init(f, i):
                    continue
                if self.protected(f, i):
                    guarded[("g", d["u"])].add(f.usr)
        fld = {x[1] for x in guarded if x[0] == "f"}
        glob = {x[1] for x in guarded if x[0] == "g"}
        for f in p.fns.values():
            if f.d.get("ctor") or f.d.get("dtor") or f.q in SETTERS:
                continue
            flow = None
            for i, n in enumerate(f.nodes):
                key = None
                if n[0] == "MemberExpr":
                    d = f.decl(i)
                    key = ("f", d.get("q")) if d.get("q") in fld else ("g", d["u"]) if d.get("u") in glob else None
                elif n[0] == "DeclRefExpr":
                    d = f.decl(i)
                    key = ("g", d["u"]) if d.get("u") in glob else None
                if key is None:
                    continue
                if self.protected(f, i) or f.usr in guarded[key] and self.always_locked(f.usr):
                    ctx.ok(r4, "%s: %s under lock" % (f.q, key[1])); continue
                ini = self.initialisers(guarded[key])
                if flow is None:
                    flow = {}
                if key not in flow:
                    flow[key] = states_of(Must(f, lambda f, e, ini=ini: {"i"} if isinstance(e, int) and f.k(e) == "Call" and any(t in ini for t in p.targets(f, e)) else set()))
                st = flow[key]
                s = self.state_at(f, st, i)
                ctx.check(r4, s is None or "i" in s, f.q, "read of " + str(d.get("q")).replace("mm::", ""), f.loc(i),
                          "%s is filled in lazily under a lock by %s, but read here without that lock and without having run the initialisation" % (d.get("q"), p.fns[sorted(guarded[key])[0]].q))
        ctx.need(r4, 5)

    def initialisers(self, writers):
        """functions that run one of the writers on every path to their return"""
        ini = set(writers)
        for rnd in range(3):
            for u in list(ini):
                for g, i in self.callers.get(u, ()):
                    if g.usr in ini or g.usr in writers:
                        continue
                    fl = Must(g, lambda g, e: {"i"} if isinstance(e, int) and g.k(e) == "Call" and any(t in ini for t in self.p.targets(g, e)) else set())
                    fl.run()
                    o = fl.out_at_exit()
                    if o is not None and "i" in o:
                        ini.add(g.usr)
        return ini

    def state_at(self, f, st, i):
        q = i
        while q is not None and q not in f.where:
            q = f.parent.get(q)
        return st.get(f.where[q]) if q is not None else frozenset()

    def sync_field(self, e):
        return False

    def const_reach(self, u, meths):
        """may a const member function of the shared class end up in u (through const_cast)?"""
        seen, todo = set(), [u]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            f = self.p.fns[x]
            if f.d.get("cm"):
                return True
            for g, i in self.callers.get(x, ()):
                if g.usr in meths and not self.protected(g, i):
                    o = g.obj(i)
                    if o < 0 or any(y[0] == "this" for y in self.E.resolve(g, o)):
                        todo.append(g.usr)
        return False


def run(prog, ctx):
    Rule(prog, ctx).run()
