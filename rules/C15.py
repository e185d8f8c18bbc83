"""C15: handles of external libraries and raw memory are released exactly once on every exit."""
from lib import *
from exc import Exc

ASSUMPTIONS = [
    "Exhaustion of memory (std::bad_alloc) and longjmp out of an external library other than into the function's own setjmp are not considered as exits.",
    "jpeg_destroy_* may be called twice on the same object (documented by libjpeg); png_destroy_read_struct, TIFFClose, fclose and the other release functions may not.",
]

# acquiring function -> (kind, 'ret' or index of the argument that receives/holds the handle, as address or object)
ACQ = {
    "png_create_read_struct": ("png", "ret"), "png_create_write_struct": ("png", "ret"),
    "TIFFOpen": ("tiff", "ret"), "TIFFClientOpen": ("tiff", "ret"), "TIFFFdOpen": ("tiff", "ret"),
    "fopen": ("file", "ret"), "std::fopen": ("file", "ret"), "fdopen": ("file", "ret"),
    "FcPatternBuild": ("fcpattern", "ret"), "FcPatternCreate": ("fcpattern", "ret"), "FcNameParse": ("fcpattern", "ret"), "FcPatternDuplicate": ("fcpattern", "ret"), "FcFontMatch": ("fcpattern", "ret"),
    "FcFontList": ("fcset", "ret"), "FcFontSort": ("fcset", "ret"), "FcObjectSetBuild": ("fcobj", "ret"), "FcObjectSetCreate": ("fcobj", "ret"), "FcConfigCreate": ("fcconfig", "ret"), "FcInitLoadConfigAndFonts": ("fcconfig", "ret"),
    "xmlNewDoc": ("xmldoc", "ret"), "xmlReadMemory": ("xmldoc", "ret"), "xmlParseMemory": ("xmldoc", "ret"), "xmlCopyDoc": ("xmldoc", "ret"), "xmlReadDoc": ("xmldoc", "ret"), "xmlReadFile": ("xmldoc", "ret"),
    "xmlSaveToIO": ("xmlsave", "ret"), "xmlSaveToBuffer": ("xmlsave", "ret"), "xmlNodeGetContent": ("xmlmem", "ret"), "xmlGetProp": ("xmlmem", "ret"), "xmlGetNsProp": ("xmlmem", "ret"), "xmlGetNoNsProp": ("xmlmem", "ret"), "xmlStrdup": ("xmlmem", "ret"),
    "xmlBufferCreate": ("xmlbuf", "ret"), "xmlXPathNewContext": ("xpath", "ret"),
    "EVP_CIPHER_CTX_new": ("evpc", "ret"), "EVP_MD_CTX_new": ("evpm", "ret"), "BIO_new": ("bio", "ret"),
    "malloc": ("mem", "ret"), "calloc": ("mem", "ret"), "std::malloc": ("mem", "ret"), "std::calloc": ("mem", "ret"), "strdup": ("mem", "ret"),
    "jpeg_CreateDecompress": ("jpegd", 0), "jpeg_CreateCompress": ("jpegc", 0),
    "stringprep_profile": ("idn", 1), "FT_New_Face": ("ftface", 3), "FT_Open_Face": ("ftface", 3), "FT_New_Memory_Face": ("ftface", 4), "FT_Init_FreeType": ("ftlib", 0),
    "deflateInit_": ("deflate", 0), "deflateInit2_": ("deflate", 0), "inflateInit_": ("inflate", 0), "inflateInit2_": ("inflate", 0),
}
REL = {
    "png_destroy_read_struct": ("png", 0), "png_destroy_write_struct": ("png", 0), "TIFFClose": ("tiff", 0), "TIFFCleanup": ("tiff", 0), "fclose": ("file", 0), "std::fclose": ("file", 0),
    "FcPatternDestroy": ("fcpattern", 0), "FcFontSetDestroy": ("fcset", 0), "FcObjectSetDestroy": ("fcobj", 0), "FcConfigDestroy": ("fcconfig", 0),
    "xmlFreeDoc": ("xmldoc", 0), "xmlSaveClose": ("xmlsave", 0), "xmlFree": ("xmlmem", 0), "xmlBufferFree": ("xmlbuf", 0), "xmlXPathFreeContext": ("xpath", 0),
    "EVP_CIPHER_CTX_free": ("evpc", 0), "EVP_MD_CTX_free": ("evpm", 0), "BIO_free": ("bio", 0), "free": ("mem", 0), "std::free": ("mem", 0),
    "jpeg_destroy_decompress": ("jpegd", 0), "jpeg_destroy_compress": ("jpegc", 0), "jpeg_destroy": ("jpegd", 0),
    "idn_free": ("idn", 0), "FT_Done_Face": ("ftface", 0), "FT_Done_FreeType": ("ftlib", 0), "deflateEnd": ("deflate", 0), "inflateEnd": ("inflate", 0),
}
TWICE_OK = {"jpegd", "jpegc"}
HANDLE_T = re.compile(r"\b(?:png_struct|png_struct_def|TIFF|tiff|_IO_FILE|FILE|_FcPattern|FcPattern|_xmlDoc|xmlDoc|jpeg_decompress_struct|jpeg_compress_struct|jpeg_common_struct|FT_FaceRec_|evp_cipher_ctx_st|_xmlSaveCtxt|xmlSaveCtxt)\b")
N, B, H, REL_, E = "none", "borrowed", "held", "released", "handed over"


def canon(t): return t["c"] if t else ""


class Rules:
    def __init__(self, prog):
        self.prog, self.exc = prog, Exc(prog)
        self.sum, self.busy, self.taken = {}, set(), {}

    # --- names
    def callee_name(self, f, i):
        c = f.callee(i)
        if c:
            return c["q"]
        t = f.text(i)
        m = re.match(r"^\(?\*?(\w+)\)?\(", t)
        return m.group(1) if m else ""

    def norm(self, f, i, depth=0):
        """path of a handle expression without address-of/dereference, through local aliases"""
        if i is None or i < 0 or depth > 6:
            return None
        i = f.strip(i)
        while i >= 0 and f.k(i) in ("Cast", "Paren"):
            i = f.strip(f.kids(i)[0])
        if i < 0:
            return None
        d = var_of(f, i)
        if d is not None and f.tab.decls[d]["k"] == "var":
            ini = var_inits(f).get(d, [])
            if len(ini) == 1:
                j = f.strip(ini[0])
                while j >= 0 and f.k(j) in ("Cast", "Paren"):
                    j = f.strip(f.kids(j)[0])
                if j >= 0 and f.k(j) == "DeclRefExpr" and f.tab.decls[f.x(j)["d"]]["k"] in ("parm", "var") and f.x(j)["d"] != d:
                    return self.norm(f, j, depth + 1)
        p = f.path(i)
        return p.lstrip("*&") if p and not p.startswith("#") else None

    def acquired(self, f, i):
        """(kind, path) when node i acquires a handle into a variable or member; path None if the result is dropped or consumed on the spot"""
        k = f.k(i)
        if k == "New":
            kind, how = ("array" if f.x(i).get("arr") else "object"), "ret"
        elif k == "Call":
            q = self.callee_name(f, i)
            c = f.callee(i)
            a = ACQ.get(q)
            if a is None and c and c["u"] in self.prog.fns:
                a = self.returns_handle(c["u"])
            if a is None:
                return None
            kind, how = a
            if how != "ret":
                args = f.args(i)
                return (kind, self.norm(f, args[how]), i) if how < len(args) else None
        else:
            return None
        p = f.parent.get(i)
        while p is not None and f.k(p) in ("Cast", "Paren", "ExprWithCleanups"):
            p = f.parent.get(p)
        if p is None:
            return (kind, None, i)
        if f.k(p) == "BinaryOperator" and f.x(p)["op"] == "=":
            return (kind, self.norm(f, f.kids(p)[0]), p)
        if f.k(p) == "DeclStmt":
            for d, init in f.x(p)["vars"]:
                if init >= 0 and i in f.subtree(init):
                    t = f.ty(f.tab.decls[d].get("t")) or {}
                    if t.get("k") == "ptr" or canon(t).rstrip().endswith("*"):
                        return (kind, "v%d:%s" % (d, f.tab.decls[d].get("n") or f.tab.decls[d].get("q")), p)
                    return (kind, "", p)
        return (kind, "", p)      # consumed by the enclosing expression

    def returns_handle(self, u):
        """library function whose result is a fresh external handle"""
        if u in self.taken:
            return self.taken[u]
        self.taken[u] = None
        g = self.prog.fns[u]
        r = None
        for j, n in enumerate(g.nodes):
            if n[0] == "ReturnStmt" and n[3]:
                e = g.strip(n[3][0])
                while e >= 0 and g.k(e) in ("Cast", "Paren"):
                    e = g.strip(g.kids(e)[0])
                if e >= 0 and g.k(e) == "Call":
                    q = self.callee_name(g, e)
                    if q in ACQ and ACQ[q][1] == "ret":
                        r = ACQ[q]
                if e >= 0 and g.k(e) == "DeclRefExpr":
                    d = g.x(e)["d"]
                    for ini in var_inits(g).get(d, []):
                        s = g.strip(ini)
                        if s >= 0 and g.k(s) == "Call" and ACQ.get(self.callee_name(g, s), ("", 0))[1] == "ret":
                            r = ACQ[self.callee_name(g, s)]
        self.taken[u] = r
        return r

    def may_throw(self, f, i):
        k = f.k(i)
        if k == "Throw":
            return True
        if k in ("Call", "Construct", "New"):
            for t in self.prog.targets(f, i) if k != "New" else ():
                u = t if isinstance(t, str) else getattr(t, "usr", None)
                if u in self.exc.may:
                    return True
            c = f.callee(i)
            return bool(c) and c["u"] in self.exc.may
        return False

    def caught(self, f, i):
        """an error raised at i enters a handler of this function"""
        for tb in self.exc.enclosing_tries(f, i):
            for h in self.exc.handlers(f, tb):
                if self.exc.catches(f, h, "mm::PdfError"):
                    return True
        return False

    def is_new(self, kind): return kind in ("object", "array")

    def effect(self, f, e, kind, path):
        """what element e does with the handle: list of 'release' / 'take' / 'use' / ('sum', summary)"""
        k = f.k(e)
        out = []
        if k == "Delete":
            if self.is_new(kind) and self.norm(f, f.kids(e)[0]) == path:
                out.append("release")
            return out
        if k == "ReturnStmt":
            if f.kids(e) and self.norm(f, f.kids(e)[0]) == path:
                out.append("take")
            return out
        if k == "BinaryOperator" and f.x(e)["op"] == "=":
            l, r = f.kids(e)
            if self.norm(f, r) == path and self.norm(f, l) != path:
                lp = self.norm(f, l) or ""
                d = var_of(f, l)
                if d is None or f.tab.decls[d]["k"] != "var":
                    out.append("take")
                else:
                    out.append("take")
            return out
        if k == "DeclStmt":
            for d, init in f.x(e)["vars"]:
                if init >= 0 and f.k(f.strip(init)) == "DeclRefExpr" and self.norm(f, init) == path and len(var_inits(f).get(d, [])) > 1:
                    out.append("take")
            return out
        if k not in ("Call", "Construct"):
            return out
        q = self.callee_name(f, e)
        args = f.args(e)
        if q in REL:
            rk, n = REL[q]
            if (rk == kind or kind == "any" or {rk, kind} <= {"jpegd", "jpegc"}) and n < len(args) and self.norm(f, args[n]) == path:
                return ["release"]
        c = f.callee(e)
        for n, a in enumerate(args):
            if a is None or a < 0 or self.norm(f, a) != path:
                continue
            s = f.strip(a)
            if f.k(s) == "Call":
                continue
            if c and c["u"] in self.prog.fns and self.prog.fns[c["u"]].entry is not None:
                g = self.prog.fns[c["u"]]
                if n < len(g.params):
                    out.append(("sum", self.summary(g, n, kind)))
                    continue
            if c and re.search(r"(unique_ptr|shared_ptr)<.*>::(unique_ptr|shared_ptr|reset)$|::reset$", c["q"]):
                out.append("take")
            elif c and re.search(r"::(push_back|emplace_back|insert|emplace|push_front)$", c["q"]):
                out.append("take")
            elif self.is_new(kind) and not ((f.type(a) or {}).get("k") in ("ptr",)):
                out.append("use")
            else:
                out.append("use")
        o = f.obj(e)
        if o is not None and o >= 0 and self.norm(f, o) == path:
            out.append("use")
        return out

    def summary(self, g, n, kind):
        """effect of library function g on its n-th parameter: (states at normal exit, states when it throws)"""
        key = (g.usr, n, kind)
        if key in self.sum:
            return self.sum[key]
        self.sum[key] = (frozenset([B]), frozenset([B]))
        d, name, t = g.params[n]
        path = "v%d:%s" % (d, name)
        fl = Track(self, g, kind, path, None, frozenset([B]))
        fl.run()
        fl.finish()
        r = (frozenset(fl.normal) or frozenset([B]), frozenset(fl.thrown) or frozenset([B]))
        self.sum[key] = r
        self.details = getattr(self, "details", {})
        self.details[key] = fl
        return r


class Track(Flow):
    """possible states of one handle"""

    def __init__(self, rules, fn, kind, path, site, start):
        super().__init__(fn)
        self.r, self.kind, self.path, self.site, self.start = rules, kind, path, site, start
        self.problems, self.normal, self.thrown, self.where_thrown = [], set(), set(), {}
        self.final = False

    def init(self): return self.start
    def join(self, a, b): return a | b

    def apply(self, s, e, throwing=False):
        fn = self.fn
        if not isinstance(e, int):
            return s
        if e == self.site:
            return frozenset([H]) if not throwing else s
        for ef in self.r.effect(fn, e, self.kind, self.path):
            if ef == "release":
                if REL_ in s and self.kind not in TWICE_OK and self.final:
                    self.problems.append((e, "is released a second time"))
                s = frozenset(REL_ if x in (H, B, REL_) else x for x in s)
            elif ef == "take":
                if REL_ in s and self.final:
                    self.problems.append((e, "is used after it was released"))
                s = frozenset(E if x in (H, B) else x for x in s)
            elif ef == "use":
                if REL_ in s and self.final:
                    self.problems.append((e, "is used after it was released"))
            else:
                post = ef[1][1 if throwing else 0]
                if REL_ in s and self.final and not throwing:
                    if (REL_ in post and self.kind not in TWICE_OK):
                        self.problems.append((e, "is released a second time"))
                    else:
                        self.problems.append((e, "is used after it was released"))
                if post != frozenset([B]):
                    s = frozenset(y for x in s for y in ([x] if x not in (H, B) else [x if p == B else p for p in post]))
        return s

    def elem(self, s, e):
        if s is None:
            return s
        fn = self.fn
        if self.final and isinstance(e, int) and self.r.may_throw(fn, e) and not self.r.caught(fn, e):
            t = self.apply(s, e, True)
            for x in t:
                self.thrown.add(x)
                self.where_thrown.setdefault(x, e)
        if isinstance(e, int) and fn.k(e) == "Throw":
            return None
        if isinstance(e, int) and fn.k(e) == "Call" and fn.callee(e) and fn.callee(e)["u"] in self.r.exc.noret:
            return None
        return self.apply(s, e)

    def exc(self, s, e):
        if isinstance(e, int) and not self.r.may_throw(self.fn, e):
            # handlers are only entered from elements that can throw
            return None
        return self.apply(s, e, True) if isinstance(e, int) else s

    def edge(self, s, c, truth, b):
        """the handle is known to be null"""
        fn = self.fn
        i = fn.strip(c)
        if i < 0:
            return s
        k = fn.k(i)
        null = None
        if k == "BinaryOperator" and fn.x(i)["op"] in ("==", "!="):
            a, b2 = fn.kids(i)
            for p, q in ((a, b2), (b2, a)):
                if self.isnull(q) and self.mine(p):
                    null = truth == (fn.x(i)["op"] == "==")
        elif self.mine(i) and k not in ("Call",):
            null = not truth
        # status of the acquiring call
        elif self.site is not None and self.r_status(i) is not None:
            null = self.r_status(i) == truth
        if null is None and self.site is not None:
            st = self.r_status(i)
            if st is not None:
                null = st == truth
        if null is True:
            return frozenset(N if x in (H, B) else x for x in s)
        if null is False:
            return frozenset(x for x in s if x != N) or None
        return s

    def r_status(self, i):
        """truth value of condition i that means the acquisition failed (for calls returning a status)"""
        fn = self.fn
        if fn.k(self.site) != "Call" or ACQ.get(self.r.callee_name(fn, self.site), ("", "ret"))[1] == "ret":
            return None
        def sub(y):
            y = fn.strip(y)
            if y == self.site:
                return True
            d = var_of(fn, y)
            return d is not None and any(self.site in fn.subtree(z) for z in var_inits(fn).get(d, []) if z >= 0)
        k = fn.k(i)
        if k == "BinaryOperator" and fn.x(i)["op"] in ("==", "!="):
            a, b = fn.kids(i)
            for p, q in ((a, b), (b, a)):
                if sub(p) and fn.cv(q) == 0:
                    return fn.x(i)["op"] == "!="
        if sub(i) and k != "BinaryOperator":
            return True
        return None

    def isnull(self, q):
        fn = self.fn
        s = fn.strip(q)
        return fn.cv(q) == 0 or fn.k(s) == "CXXNullPtrLiteralExpr" or fn.text(s) in ("nullptr", "NULL", "0")

    def mine(self, i):
        fn = self.fn
        i = fn.strip(i)
        if fn.k(i) == "BinaryOperator" and fn.x(i)["op"] == "=":
            i = fn.kids(i)[0]
        return self.r.norm(fn, i) == self.path

    def finish(self):
        """second pass over the fixed point: report problems and collect exit states"""
        self.final = True
        for b, s in list(self.ins.items()):
            if s is None:
                continue
            v = self.fn.blocks[b]
            for e in v["e"]:
                s = self.elem(s, e)
                if s is None:
                    break
        s = self.ins.get(self.fn.exit)
        if s:
            self.normal |= set(s)


def run(prog, ctx):
    R1, R2, R3, R4, R5 = "released-once", "consistent-callee", "owned-member", "not-dropped", "owner-not-copied"
    ctx.rule(R1, "For every local handle: on every path to a normal exit and on every escape of a library error it is released, or handed to an owner, exactly once, and never used afterwards (typestate dataflow with exceptional exits; effects of library functions on handles passed to them by summaries).")
    ctx.rule(R2, "A library function given a handle either releases it on every path of a kind (return, error) or on none.")
    ctx.rule(R3, "A handle kept in a member is released by the destructor of the class on every path, and the constructor that obtained it cannot fail afterwards.")
    ctx.rule(R4, "The result of an acquisition is never dropped.")
    ctx.rule(R5, "A class whose destructor releases a handle member is not implicitly copyable.")
    rules = Rules(prog)
    members = {}
    for f in sorted(prog.fns.values(), key=lambda f: f.usr):
        if f.entry is None:
            continue
        for i, nd in enumerate(f.nodes):
            if nd[0] not in ("Call", "New"):
                continue
            a = rules.acquired(f, i)
            if a is None:
                continue
            kind, path, at = a
            if path is None:
                ctx.check(R4, False, f.sig(), f.text(i)[:60], f.loc(i), "the acquired handle is dropped")
                continue
            if path == "":
                # consumed by the enclosing expression
                p = f.parent.get(i)
                while p is not None and f.k(p) in ("Cast", "Paren", "ExprWithCleanups", "MaterializeTemporaryExpr"):
                    p = f.parent.get(p)
                ok = p is not None and f.k(p) in ("Call", "Construct", "ReturnStmt", "ConditionalOperator", "InitListExpr", "DeclStmt", "BinaryOperator")
                ctx.check(R4, ok, f.sig(), f.text(i)[:60], f.loc(i), "the acquired handle is dropped")
                continue
            if path.startswith("this.") or not re.match(r"^v\d+:", path):
                if path.startswith("this.") and not rules.is_new(kind):
                    members.setdefault((f.cls, path[5:].split(".")[0], kind), []).append((f, i, at))
                continue
            site = i
            # an assignment to a parameter or through a pointer hands the handle to the caller
            d = int(re.match(r"^v(\d+):", path).group(1))
            if f.tab.decls[d]["k"] == "parm" and ((f.ty(f.tab.decls[d].get("t")) or {}).get("k") in ("ref", "ptr")):
                ctx.ok(R1)
                continue
            if f.tab.decls[d].get("st") or f.tab.decls[d].get("sl"):
                continue
            if "." in path:
                continue
            fl = Track(rules, f, kind, path, site, frozenset([N]))
            fl.run()
            fl.finish()
            name = path.split(":")[1]
            for e, w in fl.problems:
                ctx.check(R1, False, f.sig(), "%s %s" % (name, f.text(e)[:50]), f.loc(e), "'%s', acquired at line %d, %s" % (name, f.line_of(i), w))
            leak = H in fl.normal
            ctx.check(R1, not leak, f.sig(), "%s = %s" % (name, f.text(i)[:50]), f.loc(i), "'%s' is not released on a path to the end of the function" % name)
            t = fl.where_thrown.get(H)
            ctx.check(R1, t is None, f.sig(), "%s = %s (error)" % (name, f.text(i)[:50]), f.loc(t if t is not None else i), "'%s', acquired at line %d, is not released when '%s' raises an error" % (name, f.line_of(i), f.text(t)[:60] if t is not None else ""))
    # functions that receive a handle
    for f in sorted(prog.fns.values(), key=lambda f: f.usr):
        if f.entry is None or f.d.get("imp"):
            continue
        for n, (d, name, t) in enumerate(f.params):
            c = canon(f.ty(t))
            rel = any(nd[0] == "Call" and rules.callee_name(f, i) in REL and len(f.args(i)) > REL[rules.callee_name(f, i)][1] and rules.norm(f, f.args(i)[REL[rules.callee_name(f, i)][1]]) == "v%d:%s" % (d, name) for i, nd in enumerate(f.nodes))
            if not rel and not HANDLE_T.search(c):
                continue
            nrm, thr = rules.summary(f, n, "any")
            fl = rules.details.get((f.usr, n, "any"))
            for e, w in (fl.problems if fl else ()):
                ctx.check(R1, False, f.sig(), "%s %s" % (name, f.text(e)[:50]), f.loc(e), "'%s' %s" % (name, w))
            ctx.check(R2, not (B in nrm and REL_ in nrm), f.sig(), name + " (return)", f.loc(), "the handle '%s' is released on some paths to the end of the function only" % name)
            bad = B in thr and REL_ in thr
            ctx.check(R2, not bad, f.sig(), name + " (error)", f.loc(fl.where_thrown.get(B)) if bad and fl else f.loc(), "the handle '%s' is released before some errors and not before others%s" % (name, ": not before '%s'" % f.text(fl.where_thrown[B])[:50] if bad and fl else ""))
    # members
    for (cls, m, kind), sites in sorted(members.items(), key=str):
        f, i, at = sites[0]
        rels = {q for q, (k, _) in REL.items() if k == kind}
        dt = [g for g in prog.fns.values() if g.cls == cls and g.d.get("dtor") and g.entry is not None]

        def releases(g, depth=0):
            def gen(fn, e):
                if not isinstance(e, int) or fn.k(e) != "Call":
                    return ()
                q = rules.callee_name(fn, e)
                if q in rels and any((rules.norm(fn, a) or "").startswith("this." + m) for a in fn.args(e) if a >= 0):
                    return [1]
                c = fn.callee(e)
                if depth < 2 and c and c["u"] in prog.fns and prog.fns[c["u"]].cls == cls and prog.fns[c["u"]].entry is not None and releases(prog.fns[c["u"]], depth + 1):
                    return [1]
                return ()

            def edge(fn, c, truth):
                s = fn.strip(c)
                if fn.k(s) == "BinaryOperator" and fn.x(s)["op"] in ("==", "!=") and any((rules.norm(fn, y) or "") == "this." + m for y in fn.kids(s)):
                    return [1] if truth == (fn.x(s)["op"] == "==") else ()
                if (rules.norm(fn, s) or "") == "this." + m and fn.k(s) != "Call":
                    return [1] if not truth else ()
                return ()
            fl = Must(g, gen, edge=edge)
            fl.run()
            return bool(fl.out_at_exit())
        if kind in ("deflate", "inflate"):
            # the stream is opened by Begin and closed by End or by failure
            continue
        ok = bool(dt) and all(releases(g) for g in dt)
        ctx.check(R3, ok, cls, m, f.loc(i), "the handle in member '%s' is not released by the destructor on every path" % m)
        r = prog.recs.get(cls, {})
        copy = [g for g in prog.fns.values() if g.cls == cls and g.d.get("ctor") and g.d.get("cc") and g.d.get("imp")]
        ctx.check(R5, not copy, cls, m, f.loc(i), "objects of the class are copied member by member although the destructor releases '%s'" % m)
        for g, j, at2 in sites:
            if not g.d.get("ctor"):
                continue
            # an error raised by the constructor after the acquisition leaks it
            fl = Track(rules, g, kind, "this." + m, j, frozenset([N]))
            fl.run(); fl.finish()
            t = fl.where_thrown.get(H)
            ctx.check(R3, t is None, g.sig(), m + " (error)", g.loc(t if t is not None else j), "'%s' is not released when '%s' raises an error in the constructor" % (m, g.text(t)[:60] if t is not None else ""))
    ctx.need(R1, 30)
    ctx.need(R3, 3)
