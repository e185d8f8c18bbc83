"""C14: failures reach the caller as library errors."""
from exc import *

ASSUMPTIONS = [
    "Exhaustion of memory (std::bad_alloc, std::length_error of a container) and misuse of an empty nullable by the caller are not failures of a library call.",
    "Malformed UTF-8 handed in by the caller is reported by the bundled UTF-8 library with its own exception; only exceptions the library raises itself or provokes on document data are covered.",
    "A switch over an enumeration receives one of its enumerators: the throwing default branch of such a switch is unreachable.",
]
PE = "mm::PdfError"
THIRD = ("private/utfcpp_extensions.h", "common/nullable.h", "private/date/", "private/utf8")
# error codes the documented recoveries of the parser tolerate
RECOVER = {"NoNumber", "InvalidXRef", "UnexpectedEOF", "NoTrailer"}


def third(f):
    return f.file.replace("pdfmm/", "").startswith(THIRD) or f.q.startswith(("utf8::", "date::", "cmn::nullable"))


def run(prog, ctx):
    X = Exc(prog)
    R1, R2, R3, R4, R5 = "error-type", "handler", "recovered-codes", "destructor", "std-precondition"
    ctx.rule(R1, "Every throw expression in the library raises mm::PdfError or rethrows.")
    ctx.rule(R2, "A handler that can finish normally does so only behind a test of the caught error or of a configured tolerance whose other branch throws; all other handlers end in a throw on every path. Handlers in destructors may swallow.")
    ctx.rule(R3, "Recovery handlers tolerate only the error codes of malformed cross-reference data.")
    ctx.rule(R4, "No function that may let a library error escape is called from a destructor or a noexcept function outside a handler that stops it.")
    ctx.rule(R5, "Standard library operations that throw on a bad key or position (at, substr, erase, insert, replace with positions, std::sto*, throwing std::filesystem queries) run only after their precondition was tested.")
    for f in prog.fns.values():
        if third(f):
            continue
        for i, n in enumerate(f.nodes):
            if n[0] == "Throw":
                if not f.kids(i):
                    ctx.ok(R1, "%s: rethrow" % f.loc(i)); continue
                r = (f.type(f.kids(i)[0]) or {}).get("r")
                t = r or (f.type(f.kids(i)[0]) or {}).get("s", "?")
                ok = r == PE or (r and PE in prog.bases(r))
                if not ok and r and not X.escapes(f, i, r):
                    ok = True
                ctx.check(R1, ok, f.sig(), "throw " + t, f.loc(i), "throws %s, which callers of the library do not expect" % t)
            elif n[0] == "CXXCatchStmt":
                handler(prog, X, ctx, f, i)
        if f.entry is None:
            continue
        noexc = f.d.get("dtor") or (f.d.get("nx") is True)
        if noexc:
            bad = None
            for i, t in prog.edges(f):
                if i is not None and f.k(i) != "LambdaExpr" and t in may(prog, X) and X.escapes(f, i, PE):
                    bad = (i, t); break
            ctx.check(R4, bad is None, f.sig(), "destructor", f.loc(bad[0]) if bad else f.loc(),
                      "a library error can leave this destructor (std::terminate)", trace_of(prog, X, *((f.usr,) + bad)) if bad else ())
        std_calls(prog, X, ctx, f)
    ctx.need(R1, 300); ctx.need(R2, 25); ctx.need(R4, 35); ctx.need(R5, 10)


_m = {}


def may(prog, X):
    """as Exc.may, ignoring throwing default branches of enumeration switches"""
    if "m" in _m:
        return _m["m"]
    res, work = {}, []
    for u, f in prog.fns.items():
        for i, n in enumerate(f.nodes):
            if n[0] == "Throw" and f.kids(i) and X.escapes(f, i, PE) and not enum_default(f, i):
                res[u] = (i, None); work.append(u); break
    while work:
        u = work.pop()
        for c in prog.callers.get(u, ()):
            if c in res:
                continue
            f = prog.fns[c]
            for i, t in prog.edges(f):
                if t == u and i is not None and f.k(i) != "LambdaExpr" and X.escapes(f, i, PE):
                    res[c] = (i, u); work.append(c); break
    _m["m"] = res
    return res


def enum_default(f, i):
    w = f.where.get(i)
    if not w:
        return False
    st, seen = [w[0]], set()
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        l = f.blocks[b].get("lab")
        if isinstance(l, int) and l >= 0 and f.k(l) == "DefaultStmt":
            sw = [p for p in f.preds[b] if f.blocks[p].get("tk") == "SwitchStmt"]
            for p in sw:
                c = f.blocks[p].get("tc")
                if c is not None and c >= 0:
                    c2 = c
                    while c2 >= 0:
                        if (f.type(c2) or {}).get("k") == "enum":
                            return True
                        c2 = f.kids(c2)[0] if f.k(c2) == "Cast" else -1
            return False
        if l is not None and isinstance(l, int) and l >= 0:
            return False
        ps = f.preds[b]
        if len(ps) != 1:
            return False
        st.append(ps[0])
    return False


def trace_of(prog, X, u, i, t):
    out = ["%s: %s" % (prog.fns[u].loc(i), prog.fns[u].text(i)[:100])]
    m = may(prog, X)
    n = 0
    while t and n < 12:
        j, nx = m[t]
        out.append("%s: %s" % (prog.fns[t].loc(j), "throw" if nx is None else prog.fns[t].text(j)[:100]))
        t = nx; n += 1
    return out


def handler(prog, X, ctx, f, h):
    if f.d.get("dtor"):
        ctx.ok(R2_, "%s: handler in destructor" % f.loc(h)); return
    hb = handler_blocks(f).get(h)
    if hb is None:
        return
    inside = X._sub(f, h)
    lo, hi = min(inside), h
    exc = f.x(h).get("d")
    # helper predicates evaluated inside the handler on the exception / flags
    def discriminates(c):
        for j in f.subtree(c):
            if j < 0:
                continue
            k = f.k(j)
            if k == "DeclRefExpr" and exc is not None and f.x(j)["d"] == exc:
                return True
            if k == "MemberExpr" and (f.type(j) or {}).get("k") == "bool" and (f.path(j) or "").startswith("this."):
                return True
            if k == "DeclRefExpr" and f.decl(j)["k"] == "parm" and (f.type(j) or {}).get("k") == "bool":
                return True
            if k == "DeclRefExpr" and f.decl(j)["k"] in ("var", "parm") and j != c:
                pass
            if k == "DeclRefExpr" and f.decl(j)["k"] == "var":
                for e in var_inits(f).get(f.x(j)["d"], ()):
                    if e != c and e in inside and discriminates(e):
                        return True
        return False

    def inregion(b):
        els = [e if isinstance(e, int) else (e[2] if e[0] == "init" else None) for e in f.blocks[b]["e"]]
        els = [e for e in els if e is not None and not (f.k(e) == 'DeclRefExpr' and e > h)]
        return all(e in inside for e in els) if els else None

    # blocks of the handler
    region, st = set(), [hb]
    outs = set()
    while st:
        b = st.pop()
        if b in region or b in outs:
            continue
        r = inregion(b)
        if (r is False or b == f.exit) and b != hb:
            outs.add(b); continue
        region.add(b)
        if X.stops(f, b):
            continue
        st.extend(s for s in f.blocks[b]["s"] if s is not None)

    def normal_from(b0, cut=frozenset()):
        st, seen = [b0], set()
        while st:
            b = st.pop()
            if b in seen:
                continue
            seen.add(b)
            if b in outs:
                return True
            if X.stops(f, b):
                continue
            for s in f.blocks[b]["s"]:
                if s is not None and (b, s) not in cut:
                    st.append(s)
        return False
    name = f.sig()
    if not normal_from(hb):
        ctx.ok(R2_, "%s: handler always throws" % f.loc(h)); return
    cut, used = set(), []
    for b in region:
        v = f.blocks[b]
        tc = v.get("tc")
        if tc is None or tc < 0 or not discriminates(tc):
            continue
        ss = [s for s in v["s"] if s is not None]
        if len(ss) >= 2:
            nf = [normal_from(s) for s in ss]
            if not all(nf):
                cut |= {(b, s) for s, t in zip(ss, nf) if t}
                used.append(tc)
    # short-circuit chains: a || b || c - every branch block of the chain leads
    # to the same accepting block; cut edges into it from discriminating blocks
    ch = True
    while ch:
        ch = False
        for b in region:
            v = f.blocks[b]
            tc = v.get("tc")
            if tc is None or tc < 0 or not discriminates(tc):
                continue
            for s in v["s"]:
                if s is not None and (b, s) not in cut and normal_from(s, frozenset()) and any(not normal_from(o, frozenset(cut)) for o in v["s"] if o is not None and o != s):
                    cut.add((b, s)); used.append(tc); ch = True
    okay = not normal_from(hb, frozenset(cut))
    ctx.check(R2_, okay, name, "catch", f.loc(h), "this handler can swallow the error: it finishes normally on a path that tests neither the error nor a configured tolerance")
    codes = set()
    for c in inside:
        if f.k(c) == "DeclRefExpr" and f.decl(c)["k"] == "enumc" and "PdfErrorCode::" in f.decl(c)["q"]:
            # enumerators compared, not those raised
            p = nearest(f, c, lambda p: f.k(p) in ("Throw",))
            if p is None:
                codes.add(f.decl(c)["q"].split("::")[-1])
    bad = codes - RECOVER
    ctx.check("recovered-codes", not bad, name, "catch", f.loc(h), "the recovery tolerates error code(s) %s, which do not denote malformed cross-reference data" % ", ".join(sorted(bad)))


R2_ = "handler"
POS = re.compile(r"^std::(?:__cxx11::)?basic_string(_view)?<.*>::(substr|erase|insert|replace|copy|compare)$")
AT = re.compile(r"^std::.*::at$")
FS = re.compile(r"^std::filesystem::(exists|file_size|is_directory|is_regular_file|status|canonical|absolute|copy|copy_file|remove|remove_all|rename|create_director\w+|temp_directory_path|current_path|last_write_time|space|equivalent)$")
STO = re.compile(r"^std::(?:__cxx11::)?sto(?:i|l|ul|ll|ull|f|d|ld)$")


def std_calls(prog, X, ctx, f):
    for i in f.calls():
        d = f.callee(i)
        if not d or not d["q"].startswith("std::") or f.k(i) != "Call":
            continue
        q = d["q"]
        if FS.match(q):
            ec = any((f.ty(p) or {}).get("k") == "ref" and "error_code" in (f.ty(p) or {}).get("s", "") for p in d.get("p", []))
            ctx.check("std-precondition", ec or not X.escapes(f, i, "std::filesystem::filesystem_error"), f.sig(), q, f.loc(i), "%s throws a standard exception when the query fails; use the error_code overload" % q)
        elif STO.match(q):
            ctx.check("std-precondition", not X.escapes(f, i, "std::invalid_argument"), f.sig(), q, f.loc(i), "%s throws a standard exception on malformed text" % q)
        elif AT.match(q):
            guard(prog, X, ctx, f, i, f.obj(i), f.args(i)[0], q)
        elif POS.match(q) and f.args(i):
            t = f.type(f.args(i)[0])
            if not t or t["k"] != "int":
                continue
            guard(prog, X, ctx, f, i, f.obj(i), f.args(i)[0], q)


def subtracts(f, e):
    """the expression takes something other than another measure off a length"""
    for j in f.subtree(e):
        if j >= 0 and f.k(j) == "BinaryOperator" and f.x(j)["op"] == "-":
            return True
    return False


def guard(prog, X, ctx, f, i, obj, pos, q):
    short_q = q.split("<")[0].split("::")[-1] + "::" + q.split("::")[-1]
    ok = f.cv(pos) == 0 or not X.escapes(f, i, "std::out_of_range")
    if not ok:
        op = (f.path(f.strip(obj)) or "").lstrip("*&")
        pv = vars_in(f, pos)
        pp = paths_in(f, pos)
        # the position is measured on the container itself
        vi = var_inits(f)
        if any(p.startswith(op + ".") for p in pp if op) and not subtracts(f, pos):
            ok = True
        if not ok:
            for v in pv:
                ms = [e for e in vi.get(v, ()) if op and any(p == op or p.startswith(op + ".") for p in paths_in(f, e))]
                if ms and not any(subtracts(f, e) for e in ms):
                    ok = True
        if not ok:
            for c, truth in conds_at(f, i):
                if c is None or c < 0:
                    continue
                cp, cvs = paths_in(f, c), vars_in(f, c)
                if (op and any(p == op or p.startswith(op + ".") for p in cp)) or (pv & cvs and not isinstance(truth, tuple)):
                    ok = True; break
                # a status computed from the container beforehand
                for v in cvs:
                    if any(op and any(p == op or p.startswith(op + ".") for p in paths_in(f, e)) for e in vi.get(v, ())):
                        ok = True
    ctx.check("std-precondition", ok, f.sig(), short_q, f.loc(i), "%s throws a standard exception when the position or key '%s' is out of range, which nothing before it excludes" % (f.text(i)[:80], f.text(pos)[:60]))
