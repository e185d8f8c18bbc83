"""C25: nothing is used after it was moved away or its storage was released.

One may-dataflow per function body. U1: an object that was handed to an rvalue parameter by std::move is not read again on any path before it gets a new value, and the same call does not read it in another argument. U2: a local iterator, reference, pointer or view that was taken from the elements of a container is not used on any path after an operation that invalidates it; methods of this code base are summarised by the member containers they change and the members they return pointers into, so that an operation hidden in a helper counts. U3: a reference, pointer or view is not returned into a local variable's storage, and a view is not bound to a temporary that dies at the end of the statement. A local pointer that was deleted counts as invalidated."""
from lib import *
from model import AnalysisError
import re

ASSUMPTIONS = [
    "Two access paths of one function that are spelled differently (after following references to what they are bound to) denote different containers.",
    "A function that gets an object by non-const reference may give it a new value; the calls that read a moved-from argument through such a parameter are not reported.",
]

VEC = ("std::vector<", "std::basic_string<", "std::deque<", "mm::charbuff", "charbuff")
NODE = ("std::map<", "std::set<", "std::list<", "std::multimap<", "std::multiset<", "std::unordered_map<", "std::unordered_set<", "std::unordered_multimap<")
PTR = ("std::unique_ptr<",)
SPTR = ("std::shared_ptr<",)
VEC_INV = {"push_back", "emplace_back", "insert", "erase", "clear", "resize", "reserve", "assign", "append", "emplace", "shrink_to_fit", "pop_back", "push_front", "emplace_front", "pop_front", "operator=", "operator+=", "replace"}
NODE_INV = {"erase", "clear", "operator=", "pop_back", "pop_front"}
PTR_INV = {"reset", "operator="}
INV = {"vec": VEC_INV, "node": NODE_INV, "ptr": PTR_INV, "sptr": set()}
GIVES = {"begin", "end", "cbegin", "cend", "rbegin", "rend", "find", "lower_bound", "upper_bound", "at", "operator[]", "front", "back", "data", "c_str",
         "operator basic_string_view", "get", "operator*", "operator->", "insert", "emplace", "emplace_back", "erase", "equal_range"}
REINIT = {"clear", "reset", "assign", "operator=", "swap", "resize", "emplace"}
TEST = {"operator bool"}
LIM = 400


def last(q):
    return q.split("::")[-1] if "operator" not in q else q[q.rindex("operator"):].strip()


def cn(t):
    c = (t or {}).get("c", "")
    for p in ("const ", "class ", "struct "):
        if c.startswith(p):
            c = c[len(p):]
    return c


def deref(f, t):
    while t is not None and t.get("k") in ("ref", "rref") and t.get("e", -1) is not None and t.get("e", -1) >= 0:
        t = f.ty(t["e"])
    return t


def fam(q):
    if q.startswith(VEC):
        return "vec"
    if q.startswith(NODE):
        return "node"
    if q.startswith(PTR):
        return "ptr"
    if q.startswith(SPTR):
        return "sptr"
    return None


def isview(f, t):
    """values of the type refer to storage that they do not own"""
    if t is None:
        return False
    if t["k"] in ("ref", "rref", "ptr"):
        return True
    c = cn(t)
    return c.startswith("std::basic_string_view") or "span<" in c[:24] or "_iterator<" in c[:60] or c.startswith(("std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator", "std::reverse_iterator", "std::_List_"))


def owner(f, t):
    return t is not None and t["k"] == "rec" and fam(cn(t)) is not None


class Loans:
    def __init__(self, prog, ctx):
        self.prog, self.ctx = prog, ctx
        self.inv, self.ret = {}, {}
        self.busy = set()

    # --- access paths -------------------------------------------------
    def alias(self, f):
        a = f.__dict__.get("_c25a")
        if a is None:
            a = f._c25a = {}
            inits = {}
            for i, n in enumerate(f.nodes):
                if n[0] == "DeclStmt":
                    for d, ini in n[4]["vars"]:
                        inits.setdefault(d, []).append(ini)
            for d, l in inits.items():
                dd = f.tab.decls[d]
                t = f.ty(dd["t"]) if isinstance(dd.get("t"), int) else None
                if len(l) == 1 and l[0] >= 0 and t is not None and t["k"] in ("ref", "rref"):
                    p = f.path(l[0])
                    if p and "(" not in p.replace("()", "") and not self.cursor(f, p):
                        a["v%d:%s" % (d, dd["q"].split("::")[-1])] = p
        return a

    def cursor(self, f, p):
        """the path goes through a variable that may move on to another element"""
        for d in re.findall(r"v(\d+):", p):
            t = decl_type(f, int(d))
            if t is not None and t["k"] not in ("ref", "rref") and isview(f, t):
                return True
        return False

    def canon(self, f, p):
        if p is None:
            return None
        a = self.alias(f)
        for _ in range(6):
            p = p.replace("*this", "this").replace("*&", "")
            if p.startswith("&"):
                p = p[1:]
            m = re.search(r"v\d+:\w+", p)
            if not m or m.group(0) not in a:
                break
            q = a[m.group(0)]
            if m.group(0) in q:
                break
            p = p.replace(m.group(0), q.lstrip("&"), 1)
        return p

    def place(self, f, i):
        return self.canon(f, f.path(i)) if i is not None and i >= 0 else None

    # --- summaries ----------------------------------------------------
    def body(self, ce):
        u = ce.get("u")
        f = self.prog.fns.get(u)
        return f if f is not None and f.entry is not None else None

    def changes(self, f, depth=0):
        """{(this-relative or parameter-relative path, family, operation)} that running f may invalidate"""
        if f.usr in self.inv:
            return self.inv[f.usr]
        if depth > 5 or f.usr in self.busy:
            return frozenset()
        self.busy.add(f.usr)
        r = set()
        pn = {"v%d:%s" % (p[0] if isinstance(p[0], int) else -1, ""): 0 for p in ()}
        for c in f.calls():
            for (p, fm, op, key, itv) in self.events(f, c, depth + 1):
                if self.lazy(f, c, p):
                    continue
                if p == "this" or p.startswith("this."):
                    r.add((p, fm, op))
                else:
                    k = self.param(f, p)
                    if k is not None:
                        r.add(("#%d%s" % (k[0], k[1]), fm, op))
        self.busy.discard(f.usr)
        r = frozenset(r)
        if depth == 0 or not self.busy:
            self.inv[f.usr] = r
        return r

    def lazy(self, f, c, p):
        """the change happens only the first time: under a test that this member, or the one it is filled with, has no value yet"""
        if not p.startswith("this."):
            return False
        for cond, truth in conds_at(f, c):
            if not isinstance(truth, bool):
                continue
            t = f.text(cond)
            for j in f.subtree(cond):
                if j >= 0 and f.k(j) == "MemberExpr" and (f.path(j) or "").replace("*this", "this").startswith("this."):
                    i = f.strip(cond)
                    if "nullptr" in t or "null" in t or "has_value" in t or isview(f, f.type(f.strip(j))) or "unique_ptr" in cn(f.type(f.strip(j))):
                        return True
        return False

    def param(self, f, p):
        for k, pr in enumerate(f.params):
            d = pr[0]
            nm = "v%d:" % d
            if p.startswith(nm):
                m = re.match(r"v\d+:\w+", p)
                t = f.ty(f.tab.decls[d]["t"]) if isinstance(f.tab.decls[d].get("t"), int) else None
                if t is not None and t["k"] in ("ref", "rref"):
                    return k, p[m.end():]
        return None

    def subst(self, f, c, rel):
        """a summary's path in terms of the call c of f"""
        if rel.startswith("#"):
            m = re.match(r"#(\d+)(.*)", rel)
            a = f.args(c)
            k = int(m.group(1))
            p = self.place(f, a[k]) if k < len(a) else None
            return p + m.group(2) if p else None
        o = f.obj(c)
        p = self.place(f, o) if o is not None and o >= 0 else None
        if p is None:
            return None
        # o->m() and o.m()
        if p.startswith("*"):
            p = p[1:]
        return p + rel[4:]

    def events(self, f, c, depth=0):
        """[(place, family, operation, text of the key, iterator variable)] for a call"""
        ce = f.callee(c)
        if not ce:
            return ()
        memo = f.__dict__.setdefault("_c25e", {})
        if c in memo:
            return memo[c]
        q = ce["q"]
        out = []
        o = f.obj(c)
        nm = last(q)
        a = f.args(c)
        if f.k(c) == "Call":
            t = deref(f, f.type(o)) if o is not None and o >= 0 else None
            fm = fam(q) or (fam(cn(t)) if t is not None else None)
            if fm and o is not None and o >= 0:
                if nm in INV[fm]:
                    p = self.place(f, o)
                    if p is not None:
                        key = f.text(a[0]) if a else ""
                        itv = None
                        if a:
                            itv = self.only_var(f, a[0])
                        stay = nm in ("push_back", "emplace_back", "push_front", "emplace_front") and cn(t).startswith("std::deque") or \
                            nm in ("push_back", "emplace_back", "append", "resize", "reserve") and self.reserved(f, p, c)
                        if not stay:
                            out.append((p, fm, nm, key, itv))
            elif q in ("std::swap",):
                pass
            else:
                b = self.body(ce)
                if b is not None and b is not f:
                    held = "unique_ptr<" in cn(f.type(c)) and f.k(f.parent.get(c, c)) not in ("CompoundStmt", "IfStmt", "ForStmt", "WhileStmt", "CXXForRangeStmt", "CaseStmt")
                    for rel, fm2, op in self.changes(b, depth):
                        p = self.subst(f, c, rel)
                        if p is not None and not (held and fm2 == "node"):
                            out.append((p, fm2, op, f.text(a[0]) if a else "", self.only_var(f, a[0]) if a else None))
        if depth == 0 or not self.busy:
            memo[c] = tuple(out)
        return tuple(out)

    def reserved(self, f, p, c):
        """room was made for the elements of this container beforehand"""
        for j in f.calls():
            if j != c and f.line_of(j) <= f.line_of(c) and f.k(j) == "Call" and f.obj(j) is not None and f.obj(j) >= 0 and last((f.callee(j) or {}).get("q", "")) == "reserve" and self.place(f, f.obj(j)) == p:
                return True
        return False

    def only_var(self, f, i):
        while i is not None and i >= 0:
            i = f.strip(i)
            if f.k(i) == "DeclRefExpr":
                return f.x(i)["d"]
            if f.k(i) == "Construct" and len(f.args(i)) == 1:
                i = f.args(i)[0]
                continue
            return None
        return None

    def returns(self, f, depth=0):
        """{(relative path, family)} whose elements f's result may point into"""
        if f.usr in self.ret:
            return self.ret[f.usr]
        if depth > 4 or ("r", f.usr) in self.busy:
            return frozenset()
        self.busy.add(("r", f.usr))
        r = set()
        for i, n in enumerate(f.nodes):
            if n[0] == "ReturnStmt" and n[3]:
                if isview(f, f.ty(f.d["t"])) and f.cls and ("this",) in self.stored(f, n[3][0], depth + 1):
                    r.add(("this", "obj"))
                for (p, fm, key, dep) in self.origin(f, n[3][0], frozenset(), depth + 1):
                    if p.startswith("this"):
                        r.add((p, fm))
                    else:
                        k = self.param(f, p)
                        if k is not None:
                            r.add(("#%d%s" % k, fm))
        self.busy.discard(("r", f.usr))
        r = frozenset(r)
        if depth == 0 or not self.busy:
            self.ret[f.usr] = r
        return r

    # --- what does a value point into ---------------------------------
    def origin(self, f, i, s, depth=0):
        """{(place, family, key text, variable it was derived from)}: elements of `place`; family 'obj' is the object itself"""
        i = f.strip(i) if i is not None and i >= 0 else None
        if i is None or i < 0 or depth > 12:
            return set()
        k = f.k(i)
        if k == "DeclRefExpr":
            d = f.x(i)["d"]
            r = {(p, fm, key, d) for (tag, v, p, fm, key, dep) in (x for x in s if x[0] == "L") if v == d}
            return r
        if k == "UnaryOperator":
            op = f.x(i)["op"]
            if op == "&":
                return self.origin(f, f.kids(i)[0], s, depth + 1)
            if op == "*" or "++" in op or "--" in op or op.startswith("p"):
                return self.origin(f, f.kids(i)[0], s, depth + 1)
            return set()
        if k == "MemberExpr":
            return self.origin(f, f.kids(i)[0], s, depth + 1) if f.kids(i) else set()
        if k == "ConditionalOperator":
            r = set()
            for j in f.kids(i)[1:]:
                r |= self.origin(f, j, s, depth + 1)
            return r
        if k == "ArraySubscriptExpr" or k == "BinaryOperator" and f.x(i)["op"] in ("+", "-"):
            t = f.type(f.kids(i)[0])
            return self.origin(f, f.kids(i)[0], s, depth + 1) if t and t["k"] == "ptr" else set()
        if k == "BinaryOperator" and f.x(i)["op"] in ("=", ","):
            return self.origin(f, f.kids(i)[-1], s, depth + 1)
        if k == "Construct":
            a = f.args(i)
            if len(a) >= 1 and isview(f, f.type(i)):
                t = deref(f, f.type(a[0]))
                if owner(f, t) and fam(cn(t)) == "vec":
                    p = self.place(f, a[0])
                    return {(p, "vec", "", None)} if p is not None else set()
                return self.origin(f, a[0], s, depth + 1)
            return set()
        if k == "Call":
            ce = f.callee(i)
            if not ce:
                return set()
            q, nm = ce["q"], last(ce["q"])
            o, a = f.obj(i), f.args(i)
            t = f.type(i)
            isv = isview(f, t) or f.x(i).get("lv")
            if o is not None and o >= 0:
                ot = deref(f, f.type(o))
                fm = fam(q) or fam(cn(ot))
                if fm:
                    if nm in GIVES and isv:
                        p = self.place(f, o)
                        if nm in ("insert", "erase", "emplace") and fm == "node":
                            pass
                        key = f.text(a[0]) if a and nm in ("find", "at", "operator[]") else "begin" if nm in ("begin", "cbegin", "front", "data", "c_str") else ""
                        return {(p, fm, key, None)} if p is not None else set()
                    return set()
                if isview(f, ot) and ot["k"] == "rec":
                    # an operation on an iterator, view or pointer
                    return self.origin(f, o, s, depth + 1) if isv else set()
            elif ce.get("oo") and a and isv:
                return self.origin(f, a[0], s, depth + 1)      # it + n and the like
            if q in ("std::move", "std::forward", "std::next", "std::prev", "std::lower_bound", "std::upper_bound", "std::find", "std::find_if", "std::advance", "std::remove", "std::remove_if", "std::as_const") and a:
                return self.origin(f, a[0], s, depth + 1)
            b = self.body(ce)
            if b is not None and isv:
                r = set()
                for rel, fm in self.returns(b, depth + 1):
                    p = self.subst(f, i, rel)
                    if p is not None:
                        r.add((p, fm, f.text(a[0]) if a else "", None))
                if o is not None and o >= 0 and not r:
                    pass
                return r
        return set()

    def bound(self, f, t, ini, s):
        """what a new variable of type t points into; copying a pointer or view out of a container copies the value"""
        if t is None or not isview(f, t):
            return set()
        j = f.strip(ini)
        while f.k(j) == "Construct" and len(f.args(j)) == 1:
            j = f.strip(f.args(j)[0])
        if t["k"] not in ("ref", "rref") and f.k(j) in ("Call", "MemberExpr", "ArraySubscriptExpr", "UnaryOperator") and f.x(j).get("lv") and isview(f, f.type(j)):
            op = f.x(j).get("op", "") if f.k(j) == "UnaryOperator" else (f.callee(j) or {}).get("oo", "") if f.k(j) == "Call" else ""
            if "++" not in op and "--" not in op and op not in ("=", "+=", "-="):
                return set()
        return self.origin(f, ini, s)

    # --- whose storage does a value refer to ---------------------------
    def stored(self, f, i, depth=0):
        """{('var', decl) | ('this',) | ('temp', node)} and whether the value is that very object"""
        i = f.strip(i) if i is not None and i >= 0 else None
        if i is None or i < 0 or depth > 12:
            return set()
        k, x = f.k(i), f.x(i)
        if k == "This":
            return {("this",)}
        if k == "DeclRefExpr":
            d = x["d"]
            if f.tab.decls[d]["k"] not in ("var", "parm") or not local(f, d):
                return set()
            t = decl_type(f, d)
            if t is None:
                return set()
            if isview(f, t):
                l = [n[1] for m in f.nodes if m[0] == "DeclStmt" for n in m[4]["vars"] if n[0] == d]
                w = var_inits(f).get(d, [])
                return self.stored(f, l[0], depth + 1) if len(l) == 1 and len(w) == 1 and l[0] >= 0 else set()
            return {("var", d)} if t["k"] in ("rec", "arr") else set()
        if k == "MemberExpr":
            if not f.kids(i):
                return {("this",)}
            b = f.strip(f.kids(i)[0])
            if isview(f, f.type(i)):
                return set()
            if x.get("ar") and f.k(b) != "This" and not (f.k(b) == "Call" and (f.callee(b) or {}).get("oo") == "->"):
                return set()
            return self.stored(f, b, depth + 1)
        if k == "UnaryOperator":
            return self.stored(f, f.kids(i)[0], depth + 1) if x["op"] in ("*", "&") and (x["op"] == "&" or f.k(f.strip(f.kids(i)[0])) == "This") else set()
        if k == "ConditionalOperator":
            r = set()
            for j in f.kids(i)[1:]:
                r |= self.stored(f, j, depth + 1)
            return r
        if k == "Construct":
            a = f.args(i)
            if isview(f, f.type(i)):
                return self.stored(f, a[0], depth + 1) if len(a) >= 1 and (owner(f, deref(f, f.type(a[0]))) or isview(f, f.type(a[0]))) else set()
            if len(a) == 1 and (f.callee(i) or {}).get("cls") and cn(f.type(i)) == cn(deref(f, f.type(a[0]))):
                return set() if f.x(f.strip(a[0])).get("lv") else self.stored(f, a[0], depth + 1) or {("temp", i)}
            t = f.type(i)
            return {("temp", i)} if t and t["k"] == "rec" else set()
        if k == "Call":
            ce = f.callee(i)
            if not ce:
                return set()
            nm, o, a = last(ce["q"]), f.obj(i), f.args(i)
            t = f.type(i)
            v = x.get("lv") or isview(f, t)
            if not v:
                return {("temp", i)} if t and t["k"] == "rec" else set()
            if x.get("lv") and isview(f, t):
                return set()
            if o is not None and o >= 0:
                ot = deref(f, f.type(o))
                if fam(ce["q"]) or fam(cn(ot)):
                    r = self.stored(f, o, depth + 1) if nm in GIVES and nm not in ("end", "cend") else set()
                    return r & {("this",)} if (fam(ce["q"]) or fam(cn(ot))) == "sptr" or cn(ot).startswith("std::shared_ptr") else r
                b = self.body(ce)
                if b is not None and any(r == "this" or r.startswith("this.") for r, _ in self.returns(b, depth)):
                    return self.stored(f, o, depth + 1)
            elif ce["q"] in ("std::move", "std::forward", "std::as_const") and a:
                return self.stored(f, a[0], depth + 1)
        return set()


def decl_type(f, d):
    t = f.tab.decls[d].get("t")
    return f.ty(t) if isinstance(t, int) else None


def local(f, d):
    x = f.tab.decls[d]
    return x["k"] in ("var", "parm") and not x.get("g") and not x.get("s")


class Flow25(May):
    def __init__(self, f, L):
        self.L = L
        st = set()
        for pr in f.params:
            t = deref(f, decl_type(f, pr[0]))
            if t is not None and t["k"] == "rec" and isview(f, t) and "iterator" in cn(t):
                st.add(("L", pr[0], "?%d" % pr[0], "any", "", None))
        super().__init__(f, lambda *a: (), start=frozenset(st))

    def elem(self, s, e):
        f, L = self.fn, self.L
        if not isinstance(e, int):
            if e[0] == "dtor":
                d = e[1]
                nm = "v%d:" % d
                gone = {("X", x[1], -1) for x in s if x[0] == "L" and x[2].startswith(nm) and x[3] in ("vec", "node", "ptr") and not L.cursor(f, x[2]) and f.ty(f.tab.decls[d]["t"])["k"] == "rec" and not ("M", x[2]) in {y[:2] for y in s}}
                return frozenset(x for x in s if not (x[0] in "LX" and x[1] == d or x[0] == "M" and x[1].startswith(nm))) | {g for g in gone if g[1] != d}
            return s
        k = f.k(e)
        if k == "UnaryOperator" and ("++" in f.x(e)["op"] or "--" in f.x(e)["op"]):
            return self.step(s, f.kids(e)[0])
        if k == "CompoundAssign":
            return self.step(s, f.kids(e)[0])
        if k == "Delete":
            d = var_of(f, f.kids(e)[0]) if f.kids(e) else None
            return s | {("X", d, e)} if d is not None else s
        if k == "DeclStmt":
            for d, ini in f.x(e)["vars"]:
                t = decl_type(f, d)
                s2 = frozenset(x for x in s if not (x[0] in "LX" and x[1] == d or x[0] == "M" and re.match(r"v%d:" % d, x[1])))
                if ini >= 0 and isview(f, t):
                    s2 |= {("L", d, p, fm, key, dep) for p, fm, key, dep in L.bound(f, t, ini, s)}
                s = s2
            return s
        if k == "BinaryOperator" and f.x(e)["op"] == "=":
            return self.assign(s, f.kids(e)[0], f.kids(e)[1])
        if k in ("Call", "Construct"):
            return self.call(s, e)
        if k == "LambdaExpr":
            return s
        return s

    def assign(self, s, lhs, rhs):
        f, L = self.fn, self.L
        d = var_of(f, lhs)
        o = L.bound(f, decl_type(f, d), rhs, s) if d is not None and rhs >= 0 else ()
        p = L.place(f, lhs)
        if d is not None and isview(f, decl_type(f, d)) and decl_type(f, d)["k"] not in ("ref", "rref"):
            s = frozenset(x for x in s if not (x[0] in "LX" and x[1] == d))
            s |= {("L", d, q, fm, key, dep) for q, fm, key, dep in o}
        return self.fresh(s, p)

    def step(self, s, i):
        d = var_of(self.fn, i)
        if d is None:
            return s
        r = "v%d:" % d
        return frozenset(("L", d, x[2], x[3], "", x[5]) if x[0] == "L" and x[1] == d else x for x in s if not (x[0] == "M" and r in x[1]))

    def fresh(self, s, p):
        if p is None:
            return s
        return frozenset(x for x in s if not (x[0] == "M" and (x[1] == p or x[1].startswith(p + "."))))

    def call(self, s, e):
        f, L = self.fn, self.L
        ce = f.callee(e)
        if not ce:
            return s
        nm = last(ce["q"])
        o, a = f.obj(e), f.args(e)
        for (p, fm, op, key, itv) in L.events(f, e):
            new = set()
            for x in s:
                if x[0] == "L" and op == "erase" and itv is not None and (x[1] == itv or x[5] == itv):
                    new.add(("X", x[1], e))
                    continue
                if x[0] != "L" or x[3] != fm or x[2] != p:
                    continue
                if fm == "vec" and op in ("erase", "pop_back", "push_back") and x[4] == "begin" and itv != x[1] and not (op == "push_back") and "begin()" != key.split(".")[-1]:
                    continue
                if fm == "node" and op == "erase":
                    if not (itv == x[1] or itv is not None and x[5] == itv or x[4] and x[4] == key):
                        continue
                new.add(("X", x[1], e))
            s |= new
        if ce.get("oo") == "=" and o is not None and o >= 0:
            t = deref(f, f.type(o))
            p = L.place(f, o)
            if p is not None and t is not None and t["k"] == "rec" and not isview(f, t) and not L.cursor(f, p):
                s |= {("X", x[1], e) for x in s if x[0] == "L" and x[2].startswith(p + ".")}
        # moved-from arguments
        pars = [f.ty(t) for t in ce.get("p", ())]
        for k, ar in enumerate(a):
            pt = pars[k] if k < len(pars) else None
            mv = self.moved(ar)
            if mv is not None and pt is not None and pt["k"] == "rref":
                p = L.place(f, mv)
                if p is not None and not trivial(f, f.type(mv)) and nm != "try_emplace":
                    s |= {("M", p, e)}
            elif pt is not None and pt["k"] in ("ref",) and not (f.ty(pt["e"]) or {}).get("c", "").startswith("const "):
                s = self.fresh(s, L.place(f, ar))
            elif pt is not None and pt["k"] == "ptr":
                s = self.fresh(s, L.place(f, ar))
        if f.k(e) == "Call" and o is not None and o >= 0:
            p = L.place(f, o)
            if ce.get("oo") in ("++", "--", "+=", "-="):
                s = self.step(s, o)
            elif ce.get("oo") == "=":
                src = a[0] if a else -1
                s = self.assign(s, o, src) if self.moved(src) is None else self.assign(s, o, -1) if L.place(f, self.moved(src)) != p else s
            elif nm in REINIT:
                s = self.fresh(s, p)
            elif not ce.get("cm"):
                if p and (p == "this"):
                    s = frozenset(x for x in s if not (x[0] == "M" and x[1].startswith("this.")))
        return s

    def moved(self, i):
        """the operand if i is std::move(operand)"""
        f = self.fn
        if i is None or i < 0:
            return None
        i = f.strip(i)
        if f.k(i) == "Call":
            ce = f.callee(i)
            if ce and ce["q"] == "std::move" and len(f.args(i)) == 1:
                return f.args(i)[0]
        return None


def trivial(f, t):
    t = deref(f, t)
    if t is None or t["k"] != "rec":
        return True
    c = cn(t)
    return isview(f, t) or c in ("mm::PdfReference", "mm::PdfRect")


def tracked(f, i, n):
    """a local flag that is set where n happens decides whether i is reached"""
    for cond, truth in conds_at(f, i):
        for d in vars_in(f, cond):
            if decl_type(f, d) is None or decl_type(f, d)["k"] not in ("bool", "int", "enum", "ptr"):
                continue
            for j, m in enumerate(f.nodes):
                if m[0] == "BinaryOperator" and m[4]["op"] == "=" and var_of(f, m[3][0]) == d and j in f.where and n in f.where and f.where[j][0] == f.where[n][0]:
                    return True
    return False


def lhs_of_assign(f, i):
    p = f.parent.get(i)
    while p is not None and f.k(p) == "Cast":
        i, p = p, f.parent.get(p)
    if p is None:
        return False
    if f.k(p) == "BinaryOperator" and f.x(p)["op"] == "=":
        return f.strip(f.kids(p)[0]) == f.strip(i)
    if f.k(p) == "Call":
        ce = f.callee(p)
        if ce and f.obj(p) is not None and f.obj(p) >= 0 and f.strip(f.obj(p)) == f.strip(i) and (ce.get("oo") == "=" or last(ce["q"]) in REINIT):
            return True
    return False


def reads(f, i):
    """is the place only named: target of an assignment, argument of std::move's re-initialiser, tested smart pointer, non-const out argument"""
    p = f.parent.get(i)
    while p is not None and f.k(p) == "Cast":
        i, p = p, f.parent.get(p)
    if lhs_of_assign(f, i):
        return False
    if p is not None and f.k(p) in ("Call", "Construct"):
        ce = f.callee(p)
        if ce:
            a = f.args(p)
            for k, ar in enumerate(a):
                if f.strip(ar) == f.strip(i) and k < len(ce.get("p", ())):
                    pt = f.ty(ce["p"][k])
                    if pt["k"] == "ref" and not (f.ty(pt["e"]) or {}).get("c", "").startswith("const ") and not ce.get("oo"):
                        return False
            t = deref(f, f.type(i))
            if cn(t).startswith(("std::unique_ptr", "std::shared_ptr")) and (last(ce["q"]) in TEST or ce.get("oo") in ("==", "!=")):
                return False
    return True


def whole(f, ini, n):
    """the initialiser is the temporary itself, whose life is extended"""
    i = f.strip(ini)
    while i != n and f.k(i) == "Construct" and len(f.args(i)) == 1:
        i = f.strip(f.args(i)[0])
    while i != n and f.k(i) in ("MemberExpr", "ConditionalOperator") and f.kids(i):
        i = f.strip(f.kids(i)[0])
    return i == n or f.k(i) == "Construct"


def sharing(f, n):
    """a copy of something that is alive elsewhere and shares its storage"""
    return False


def run(prog, ctx):
    ctx.rule("U1", "moved-from objects get a new value before they are read")
    ctx.rule("U2", "iterators, references, pointers and views are not used after the container changed")
    ctx.rule("U3", "nothing refers to the storage of a local variable or a temporary that is gone")
    L = Loans(prog, ctx)
    nm = nl = nr = 0
    for f in prog.fns.values():
        if f.entry is None or not f.blocks:
            continue
        fl = Flow25(f, L)
        st = states_of(fl)
        for (b, ix), s in st.items():
            e = f.blocks[b]["e"][ix]
            if not isinstance(e, int) or s is None:
                continue
            k = f.k(e)
            if k in ("DeclRefExpr", "MemberExpr", "This"):
                if k == "DeclRefExpr":
                    d = f.x(e)["d"]
                    for x in s:
                        if x[0] == "X" and x[1] == d and not lhs_of_assign(f, e) and not tracked(f, e, x[2]):
                            ctx.bad("U2", f.q, "%s after %s" % (f.text(e), f.text(x[2])[:60] if x[2] >= 0 else "scope"), f.loc(e),
                                    "%s may have been invalidated by %s (line %s) and is used again" % (f.text(e), f.text(x[2])[:80], f.line_of(x[2])) if x[2] >= 0 else "%s refers to a local variable that is gone" % f.text(e))
                p = L.place(f, e)
                if p:
                    for x in s:
                        if x[0] == "M" and (p == x[1] or p.startswith(x[1] + ".")) and reads(f, e) and not tracked(f, e, x[2]):
                            # the innermost expression naming the moved path only once
                            ctx.bad("U1", f.q, "%s after move" % p.split(":")[-1], f.loc(e),
                                    "%s was moved away at line %s and is read again before it gets a new value" % (f.text(e), f.line_of(x[2])))
            if k in ("Call", "Construct"):
                ce = f.callee(e)
                if ce and ce["q"] == "std::move":
                    nm += 1
                a = f.args(e)
                for n, ar in enumerate(a):
                    c = f.strip(ar)
                    if f.k(c) != "Construct" or len(f.args(c)) != 1 or fl.moved(f.args(c)[0]) is None:
                        continue
                    mv = fl.moved(f.args(c)[0])
                    cp = f.ty((f.callee(c) or {}).get("p", [-1])[0]) if (f.callee(c) or {}).get("p") else None
                    p = L.place(f, mv)
                    if p is None or cp is None or cp["k"] != "rref" or trivial(f, f.type(mv)):
                        continue
                    for n2, ar2 in enumerate(a):
                        if n2 == n or k == "Construct" and n2 < n:
                            continue
                        for j in f.subtree(ar2):
                            if j >= 0 and f.k(j) in ("DeclRefExpr", "MemberExpr") and L.place(f, j) == p and reads(f, j):
                                ctx.bad("U1", f.q, "%s in the call that moves it" % f.text(j), f.loc(e), "%s is moved into one argument of the call and read in another, in no particular order" % f.text(j))
            if k == "DeclStmt":
                nl += sum(1 for d, ini in f.x(e)["vars"] if ini >= 0 and isview(f, decl_type(f, d)) and L.origin(f, ini, s))
                for d, ini in f.x(e)["vars"]:
                    t = decl_type(f, d)
                    if ini < 0 or not isview(f, t):
                        continue
                    nr += 1
                    direct = t["k"] in ("ref", "rref")
                    for r in L.stored(f, ini):
                        if r[0] == "temp" and not (direct and whole(f, ini, r[1])) and not sharing(f, r[1]):
                            ctx.bad("U3", f.q, "%s = %s" % (f.tab.decls[d]["q"], f.text(ini)[:60]), f.loc(e), "the temporary %s is gone after this statement" % f.text(r[1])[:80])
            if k == "Call" and (f.callee(e) or {}).get("oo") == "=" or k == "BinaryOperator" and f.x(e)["op"] == "=":
                l, r_ = (f.obj(e), f.args(e)[0]) if k == "Call" and f.args(e) else f.kids(e)[:2] if k != "Call" else (None, None)
                d = var_of(f, l) if l is not None and l >= 0 else None
                if d is not None and isview(f, decl_type(f, d)) and decl_type(f, d)["k"] not in ("ref", "rref"):
                    nr += 1
                    for r in L.stored(f, r_):
                        if r[0] == "temp" and not sharing(f, r[1]):
                            ctx.bad("U3", f.q, "%s = %s" % (f.text(l), f.text(r_)[:60]), f.loc(e), "the temporary %s is gone after this statement" % f.text(r[1])[:80])
            if k == "ReturnStmt" and f.kids(e) and f.d["k"] == "fn" and isview(f, f.ty(f.d["t"])):
                nr += 1
                for r in L.stored(f, f.kids(e)[0]):
                    if r[0] == "var" and not any(x[0] == "M" and x[1].startswith("v%d:" % r[1]) for x in s) or r[0] == "temp" and not sharing(f, r[1]):
                        ctx.bad("U3", f.q, "return %s" % f.text(f.kids(e)[0])[:60], f.loc(e),
                                "the result refers to %s, which is gone when the function returns" % (f.tab.decls[r[1]]["q"] if r[0] == "var" else f.text(r[1])[:80]))
    ctx.ok("U1", "std::move in %d places" % nm, nm)
    ctx.ok("U2", "variables that point into a container: %d" % nl, nl)
    ctx.ok("U3", "references, pointers and views that are bound, assigned or returned: %d" % nr, nr)
    ctx.need("U1", 50)
    ctx.need("U2", 200)
    ctx.need("U3", 1000)
