"""C26: the characters of a view are never handed to something that looks for a terminating zero."""
from lib import *

ASSUMPTIONS = [
    "An external function whose parameter is a character pointer without a length or end parameter following it (or preceding a size) reads up to a terminating zero.",
]

VIEW = re.compile(r"^(?:const )?(?:std::basic_string_view<|std::experimental|tcb::span<(?:const )?(?:unsigned )?char[,>]|mm::charbuff_t<|std::vector<(?:unsigned )?char\b|std::array<(?:const )?(?:unsigned )?char\b)")
CHARP = re.compile(r"^(?:const )?(?:unsigned |signed )?char(?: const)? ?\*(?: ?const)?(?: ?&)?$|^const (?:xmlChar|FcChar8|FT_Byte|Bytef?) ?\*")
INTT = re.compile(r"^(?:const )?(?:unsigned |signed )?(?:int|long|short|long long|size_t|std::size_t|unsigned)(?: int)?(?: const)?$|^const (?:int|long)|size_type$|streamsize$")


def canon(t):
    return t["c"] if t else ""


class Prov:
    def __init__(self, prog):
        self.prog, self.memo = prog, {}

    def literal_view(self, f, i, depth=0):
        """view expression over string literals only"""
        i = f.strip(i)
        if i < 0 or depth > 4:
            return False
        k = f.k(i)
        if k == "StringLiteral":
            return True
        if k in ("Construct", "Cast", "InitListExpr"):
            a = f.args(i) if k == "Construct" else f.kids(i)
            a = [x for x in a if x >= 0 and f.k(x) != "CXXDefaultArgExpr"]
            return not a or self.literal_view(f, a[0], depth + 1)
        if k == "Call":
            c = f.callee(i)
            if c and (c["q"].endswith('operator""sv') or c.get("oo") == '""'):
                return True
            ts = [self.prog.fns[c["u"]]] if c and c["u"] in self.prog.fns else []
            return bool(ts) and all(self.lit_fn(g, depth) for g in ts)
        if k == "ConditionalOperator":
            return all(self.literal_view(f, x, depth + 1) for x in f.kids(i)[1:])
        if k == "DeclRefExpr":
            d = f.x(i)["d"]
            dd = f.tab.decls[d]
            if dd["k"] == "var" and d in var_inits(f):
                return all(self.literal_view(f, x, depth + 1) for x in var_inits(f)[d])
            v = self.prog.vars.get(dd.get("u"))
            return bool(v) and isinstance(v.get("val"), dict) and "s" in str(v["val"]) and v.get("const", True) and "string_view" in str(v.get("t", "string_view"))
        return False

    def lit_fn(self, g, depth):
        r = [j for j, n in enumerate(g.nodes) if n[0] == "ReturnStmt" and n[3]]
        return bool(r) and all(self.literal_view(g, g.kids(j)[0], depth + 1) for j in r)

    def source(self, f, i, depth=0):
        """the view whose characters the pointer expression i designates (node), or None"""
        i = f.strip(i)
        if i is None or i < 0 or depth > 8:
            return None
        k, t, ln, kids, x = f.nodes[i]
        if k == "Call":
            c = f.callee(i)
            o = f.obj(i)
            if c and o >= 0 and c["q"].split("::")[-1] in ("data", "begin", "cbegin", "end", "cend") and VIEW.match(canon(f.type(o)).replace("const ", "", 1) if canon(f.type(o)).startswith("const ") else canon(f.type(o))):
                return None if self.literal_view(f, o) else o
            return None
        if k in ("Cast", "Paren"):
            return self.source(f, kids[0], depth + 1) if kids else None
        if k == "BinaryOperator" and x["op"] in ("+", "-"):
            if not (f.type(i) or {}).get("c", "").rstrip("const ").endswith("*"):
                return None
            for y in kids:
                r = self.source(f, y, depth + 1)
                if r is not None:
                    return r
            return None
        if k == "UnaryOperator":
            if x["op"] in ("++", "--", "p++", "p--"):
                return self.source(f, kids[0], depth + 1)
            if x["op"] == "&":
                y = f.strip(kids[0])
                if f.k(y) == "ArraySubscriptExpr":
                    return self.source(f, f.kids(y)[0], depth + 1)
                if f.k(y) == "Call" and (f.callee(y) or {}).get("oo") == "[]":
                    o = f.obj(y)
                    o = o if o >= 0 else (f.args(y) or [-1])[0]
                    return o if o >= 0 and VIEW.match(canon(f.type(o)).replace("const ", "", 1)) else None
                if f.k(y) == "Call" and (f.callee(y) or {}).get("q", "").split("::")[-1] == "front":
                    o = f.obj(y)
                    return o if o >= 0 and VIEW.match(canon(f.type(o)).replace("const ", "", 1)) else None
            return None
        if k == "ConditionalOperator":
            for y in kids[1:]:
                r = self.source(f, y, depth + 1)
                if r is not None:
                    return r
            return None
        if k == "DeclRefExpr":
            d = x["d"]
            dd = f.tab.decls[d]
            if dd["k"] == "var":
                key = (f.usr, d)
                if key not in self.memo:
                    self.memo[key] = None
                    for y in var_inits(f).get(d, []):
                        r = self.source(f, y, depth + 1)
                        if r is not None:
                            self.memo[key] = r
                            break
                return self.memo[key]
        return None


# external functions whose text parameter is followed by its length as a plain int
LENGTH_TAKING = {"xmlReadMemory", "xmlParseMemory", "xmlCtxtReadMemory", "EVP_DigestUpdate", "BIO_new_mem_buf", "FT_New_Memory_Face", "xmlStrndup"}


def run(prog, ctx):
    R1, R2, R3 = "pointer-with-length", "bounded-scan", "stored-pointer"
    ctx.rule(R1, "Wherever the character pointer of a view, span or buffer is passed on, the receiving function takes a length or an end pointer along with it, or is a library function that reads a fixed number of characters; it is never converted to a string, view, name or string stream without a length.")
    ctx.rule(R2, "A local pointer into a view is dereferenced only where it has been compared with the end of the view or a remaining length (dominating condition), or at an offset whose length was checked.")
    ctx.rule(R3, "The character pointer of a view is never stored in or returned as a bare character pointer.")
    P = Prov(prog)
    need, visiting = {}, set()

    def scans(g, n):
        """why the n-th parameter (a bare character pointer) of library function g must be zero-terminated, or None"""
        key = (g.usr, n)
        if key in need:
            return need[key]
        need[key] = None
        d = g.params[n][0]
        r = uses(g, lambda i: rooted(g, i, d), "parameter")
        need[key] = r
        return r

    def rooted(g, i, d):
        i = g.strip(i)
        if i < 0:
            return False
        k, t, ln, kids, x = g.nodes[i]
        if k == "DeclRefExpr":
            return x["d"] == d
        if k in ("Cast", "Paren"):
            return bool(kids) and rooted(g, kids[0], d)
        if k == "UnaryOperator" and x["op"] in ("++", "--", "p++", "p--"):
            return rooted(g, kids[0], d)
        if k == "BinaryOperator" and x["op"] in ("+", "-") and canon(g.type(i)).endswith("*"):
            return any(rooted(g, y, d) for y in kids)
        return False

    def ptypes(c, f, i):
        """parameter type spellings of the called function"""
        tab = c["_tab"] if "_tab" in c else f.tab
        return [canon(tab.types[p]) if isinstance(p, int) and p >= 0 else "" for p in c.get("p", [])]

    def offset(f, i):
        """(pointer variable, constant offset) of a pointer expression"""
        i = f.strip(i)
        k, t, ln, kids, x = f.nodes[i] if i >= 0 else ("", 0, 0, [], {})
        if k == "DeclRefExpr":
            return x["d"], 0
        if k in ("Cast", "Paren"):
            return offset(f, kids[0])
        if k == "UnaryOperator" and x["op"] in ("++", "p++", "--", "p--"):
            return offset(f, kids[0])
        if k == "BinaryOperator" and x["op"] in ("+", "-"):
            v, o = offset(f, kids[0])
            c = f.cv(kids[1])
            if v is not None and isinstance(c, int):
                return v, o + (c if x["op"] == "+" else -c)
        return None, 0

    def bounded_deref(f, j, ptr):
        """dereference of a pointer at node j is controlled by an end pointer or a length"""
        pv, po = offset(f, ptr)
        for c, t in conds_at(f, j):
            if c is None or c < 0:
                continue
            for y in f.subtree(c):
                if y < 0 or f.k(y) != "BinaryOperator":
                    continue
                op = f.x(y)["op"]
                if op not in ("<", "<=", ">", ">=", "!=", "==", "-"):
                    continue
                a, b = f.kids(y)
                ta, tb = canon(f.type(a)), canon(f.type(b))
                if ta.rstrip("const ").endswith("*") and tb.rstrip("const ").endswith("*"):
                    if "nullptr" in (f.text(a), f.text(b)) or f.cv(a) is not None or f.cv(b) is not None:
                        continue
                    for z in (a, b):
                        v, o = offset(f, z)
                        if v is not None and v == pv and (o >= po or po <= 0):
                            return True
                    if pv is None:
                        return True
                elif op != "-" and (integral(f, a) or integral(f, b)):
                    return True
            s = f.strip(c)
            if f.k(s) == "Call" and (f.callee(s) or {}).get("oo") in ("!=", "==", "<"):
                return True
            if integral(f, s):
                return True
        return False

    def dname(g, n):
        p = g.params[n] if n < len(g.params) else None
        return p[1] if p else ""

    def same_text(f, a, y):
        u, v = P.source(f, a), P.source(f, y)
        return u is not None and v is not None and f.path(u) is not None and f.path(u) == f.path(v)

    def pointer_var(f, y):
        """an end pointer: a variable or parameter that is a position in a text"""
        y = f.strip(y)
        if f.k(y) != "DeclRefExpr":
            return False
        return f.tab.decls[f.x(y)["d"]]["k"] in ("var", "parm") and not literals(f, y)

    def integral(f, i):
        """an integer quantity that is not itself a character read through a pointer"""
        s = i
        while s >= 0 and f.k(s) in ("Cast", "Paren"):
            s = f.kids(s)[0]
        if s < 0 or f.cv(s) is not None:
            return False
        t = canon(f.type(s)).replace("const ", "")
        if not (INTT.match(t) or t in ("unsigned int", "unsigned long", "int", "long")):
            return False
        return f.k(s) in ("DeclRefExpr", "MemberExpr", "UnaryOperator", "BinaryOperator") or f.k(s) == "Call" and (f.callee(s) or {}).get("q", "").split("::")[-1] in ("size", "length")

    def receiver(f, i, a, isview):
        """problem with passing pointer argument a to call/construct i, or None"""
        c = f.callee(i)
        if c is None:
            return None
        args = f.args(i)
        n = args.index(a)
        ps = ptypes(c, f, i)
        q = c["q"]
        g = prog.fns.get(c["u"])
        if q.startswith("utf8::unchecked::"):
            return None if bounded_deref(f, i, a) else "%s reads on until the character is complete" % q
        if f.k(i) == "Call" and c.get("oo"):
            if c["oo"] in ("[]", "-", "()"):
                return None
        pt = ps[n] if n < len(ps) else "..."
        if pt == "...":
            if "printf" in q or "sscanf" in q:
                return "%s reads it up to a terminating zero" % q
            return None
        if not CHARP.match(pt) or "const" not in pt:
            return None
        # a length right after, or another position in the same text
        own = g is not None and "/src/pdfmm/" in "/" + (g.loc() or "")
        nxt = ps[n + 1] if n + 1 < len(ps) else None
        if nxt and INTT.match(nxt.replace("const ", "")) and (g is None and (nxt.replace("const ", "") == "unsigned long" or q in LENGTH_TAKING) or
                                                              g is not None and not own or own and re.search(r"size|len|count|width|rows?$", dname(g, n + 1), re.I)):
            return None
        if q in ("std::from_chars", "std::to_chars") or re.match(r"^std::(copy|find|find_if|equal|search|count|transform|all_of|any_of|distance)$", q):
            return None
        for m, y in enumerate(args):
            if m != n and y >= 0 and m < len(ps) and CHARP.match(ps[m]) and (same_text(f, a, y) or pointer_var(f, y)):
                return None
        if g is not None and g.entry is not None and n < len(g.params):
            w = scans(g, n)
            return "%s %s" % (g.q.replace("mm::", ""), w) if w else None
        if g is not None and g.entry is None and not g.d.get("def", 1):
            return None
        return "%s reads it up to a terminating zero" % q

    def uses(f, is_ptr, what):
        """first use of a pointer that relies on a terminating zero"""
        par = f.parent
        for i, nd in enumerate(f.nodes):
            if nd[0] in ("Call", "Construct"):
                for a in f.args(i):
                    if a >= 0 and is_ptr(a):
                        w = receiver(f, i, a, False)
                        if w:
                            return "passes it on: " + w
            elif nd[0] == "UnaryOperator" and nd[4]["op"] == "*" and is_ptr(nd[3][0]):
                if not written(f, i) and not bounded_deref(f, i, nd[3][0]):
                    return "reads characters without knowing the end"
        return None

    def written(f, i):
        p = f.parent.get(i)
        return p is not None and f.k(p) == "BinaryOperator" and f.x(p)["op"] == "=" and f.kids(p)[0] == i

    for f in sorted(prog.fns.values(), key=lambda f: f.usr):
        if f.d.get("imp"):
            continue
        for i, nd in enumerate(f.nodes):
            k = nd[0]
            if k in ("Call", "Construct"):
                for a in f.args(i):
                    if a < 0 or not re.search(r"char", canon(f.type(a))) or not canon(f.type(a)).rstrip("const& ").endswith("*"):
                        continue
                    v = P.source(f, a)
                    if v is None or dead(f, i):
                        continue
                    w = receiver(f, i, a, True)
                    ctx.check(R1, w is None, f.sig(), "%s in %s" % (f.text(a)[:40], f.text(i)[:50]), f.loc(i), "the characters of '%s' are not zero-terminated, but %s" % (f.text(v)[:30], w))
            elif k == "UnaryOperator" and nd[4]["op"] == "*":
                y = f.strip(nd[3][0])
                if f.k(y) not in ("DeclRefExpr", "UnaryOperator", "BinaryOperator"):
                    continue
                v = P.source(f, y)
                if v is None or written(f, i) or dead(f, i):
                    continue
                ctx.check(R2, bounded_deref(f, i, y), f.sig(), f.text(i)[:40], f.loc(i), "'%s' points into the view '%s' and is read without having been compared with its end" % (f.text(y), f.text(v)[:30]))
            elif k == "ReturnStmt" and nd[3] and CHARP.match(canon(f.type(nd[3][0])) or "-"):
                v = P.source(f, nd[3][0])
                if v is not None and "iterator" not in f.q and f.name not in ("begin", "end", "data", "cbegin", "cend"):
                    ctx.check(R3, False, f.sig(), f.text(nd[3][0])[:40], f.loc(i), "returns the characters of the view '%s' as a bare pointer" % f.text(v)[:30])
            elif k == "BinaryOperator" and nd[4]["op"] == "=":
                t = f.strip(nd[3][0])
                if f.k(t) == "MemberExpr" and CHARP.match(canon(f.type(t))):
                    v = P.source(f, nd[3][1])
                    ctx.check(R3, v is None or "string_view" not in canon(f.type(v)), f.sig(), f.text(i)[:50], f.loc(i), "stores the characters of the view as a bare pointer")
    ctx.need(R1, 40)
