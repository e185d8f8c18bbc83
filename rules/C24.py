"""C24: orderings are strict weak orderings that agree with equality; searched sequences are sorted; hashes agree with equality."""
import itertools
from boolfn import *
import boolfn, peval

ALG2 = {"lower_bound", "upper_bound", "equal_range", "binary_search"}      # position 3: comparator
ALG1 = {"sort", "stable_sort", "is_sorted"}
NOTSORTED = {"push_back", "emplace_back", "push_front", "emplace_front", "insert", "emplace"}


PRIMARY = {"PdfReference": [".m_ObjectNo", ""], "PdfObject": [".m_IndirectReference"], "XRefItem": [".Reference"], "PdfXRefBlock": [".First"], "Difference": [".Code"]}


KEPT = ("PdfXRef::m_blocks", "PdfXRefBlock::Items", "PdfXRefBlock::FreeItems")


def targs(c):
    """class template name and arguments of a canonical type"""
    m = re.match(r"^(?:const )?([\w:]+)<(.*)>$", c.strip())
    if not m:
        return None, []
    out, depth, cur = [], 0, ""
    for ch in m.group(2):
        if ch in "<(":
            depth += 1
        elif ch in ">)":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip()); cur = ""
        else:
            cur += ch
    out.append(cur.strip())
    return m.group(1), out


class Ord(Ev):
    """adds lexicographic comparison of tuples and three-way comparisons to the decision diagrams"""

    def parts(self, f, i):
        i = f.strip(i)
        while f.k(i) in ("Construct", "Cast", "Materialize", "ExprWithCleanups", "Paren") and len(f.args(i) if f.k(i) == "Construct" else f.kids(i)) == 1:
            i = f.strip((f.args(i) if f.k(i) == "Construct" else f.kids(i))[0])
        if f.k(i) == "Call" and (f.callee(i) or {}).get("q", "").split("<")[0] in ("std::tie", "std::make_pair", "std::make_tuple", "std::forward_as_tuple"):
            return f.args(i)
        return None

    def three(self, f, i):
        """operands of a three-way comparison"""
        i = f.strip(i)
        if f.k(i) != "Call" or not f.callee(i):
            return None
        q = f.callee(i)["q"].split("<")[0]
        n = q.split("::")[-1]
        a = f.args(i)
        if n == "compare" and q.startswith("std::") and f.obj(i) is not None and f.obj(i) >= 0 and len(a) == 1:
            return f.obj(i), a[0]
        if n == "strcmp" and len(a) == 2:
            return a[0], a[1]
        return None

    def lex(self, f, A, B, env, kt, kf, d, last):
        """A < B (last: value when all parts are equal)"""
        if not A:
            return kt(env) if last else kf(env)
        x, y = self.term(f, A[0], env, d), self.term(f, B[0], env, d)
        t = kt(env)
        return self.mk(lt(x, y), t, self.mk(eq(x, y), self.lex(f, A[1:], B[1:], env, kt, kf, d, last), kf(env)))

    def cond(self, f, i, env, kt, kf, d):
        if i is not None:
            j = f.strip(i)
            while f.k(j) in ("Paren", "Cast", "ExprWithCleanups") and f.kids(j):
                j = f.strip(f.kids(j)[0])
            ops, oo = None, None
            if f.k(j) == "BinaryOperator" and f.x(j)["op"] in ("==", "!=", "<", ">", "<=", ">="):
                ops, oo = f.kids(j), f.x(j)["op"]
            elif f.k(j) == "Call":
                oo = (f.callee(j) or {}).get("oo") or f.x(j).get("op")
                ops = ([f.obj(j)] if f.obj(j) is not None and f.obj(j) >= 0 else []) + f.args(j)
                q = (f.callee(j) or {}).get("q", "")
                if q.startswith(("std::less", "std::greater")) and len(f.args(j)) == 2:
                    ops = f.args(j); oo = "<" if "less" in q else ">"
            if oo in ("==", "!=", "<", ">", "<=", ">=") and ops and len(ops) == 2:
                A, B = self.parts(f, ops[0]), self.parts(f, ops[1])
                if A is not None and B is not None and len(A) == len(B):
                    if oo in ("<", ">="):
                        return self.lex(f, A, B, env, *((kt, kf) if oo == "<" else (kf, kt)), d, False)
                    if oo in (">", "<="):
                        return self.lex(f, B, A, env, *((kt, kf) if oo == ">" else (kf, kt)), d, False)
                    at = [eq(self.term(f, a, env, d), self.term(f, b, env, d)) for a, b in zip(A, B)]
                    t, u = (kt(env), kf(env)) if oo == "==" else (kf(env), kt(env))
                    for x in reversed(at):
                        t = self.mk(x, t, u)
                    return t
                for a, b, o in ((ops[0], ops[1], oo), (ops[1], ops[0], {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(oo, oo))):
                    th = self.three(f, a)
                    if th and f.cv(b) == 0:
                        x, y = self.term(f, th[0], env, d), self.term(f, th[1], env, d)
                        t, u = kt(env), kf(env)
                        return {"==": lambda: self.mk(eq(x, y), t, u), "!=": lambda: self.mk(eq(x, y), u, t), "<": lambda: self.mk(lt(x, y), t, u),
                                ">": lambda: self.mk(lt(y, x), t, u), "<=": lambda: self.mk(lt(y, x), u, t), ">=": lambda: self.mk(lt(x, y), u, t)}[o]()
        return super().cond(f, i, env, kt, kf, d)


def side(t):
    """(object, access path) of a term, or a constant"""
    if re.match(r"#-?\d+$", t):
        return "#", int(t[1:])
    l, r = re.search(r"\bLHS\b", t), re.search(r"\bRHS\b", t)
    if l and r:
        raise Unsup("term over both operands: " + t)
    if not l and not r:
        return "g", t
    return ("LHS" if l else "RHS"), re.sub(r"\b(LHS|RHS)\b", "$", t)


class Model:
    """finite models of a comparison: every leaf takes the values 0..n"""

    def __init__(self, trees, names=None):
        self.leaves, self.consts, self.bools = [], set(), set()
        for T in trees:
            for a in atoms(T):
                for t in a[1:]:
                    s, p = side(t)
                    if s == "#":
                        self.consts.add(p)
                    elif s == "g":
                        raise Unsup("depends on " + t)
                    elif p == "&$":
                        pass
                    elif p not in self.leaves:
                        self.leaves.append(p)
                    if a[0] == "p":
                        self.bools.add(p)
        n = 2 if len(self.leaves) >= 3 else 3
        if len(self.leaves) > 4:
            raise Unsup("too many parts")
        dom = sorted(set(range(n)) | self.consts)[:5]
        self.values = list(itertools.product(*[(0, 1) if l in self.bools else dom for l in self.leaves]))

        self.deps = [(i, j) for i, l in enumerate(self.leaves) for j, k in enumerate(self.leaves) if k.startswith(l + ".")]

    def fits(self, *objs):
        """equal parts have equal members"""
        return not self.deps or all(a[i] != b[i] or a[j] == b[j] for a in objs for b in objs for i, j in self.deps)

    def get(self, t, env):
        s, p = side(t)
        if s == "#":
            return p
        v, ident = env[s]
        if p == "&$":
            return ident
        return v[self.leaves.index(p)]

    def run(self, T, l, r):
        """value for objects l and r, each (values, identity)"""
        env = {"LHS": l, "RHS": r}
        while isinstance(T, tuple):
            a = T[1]
            if a[0] == "p":
                b = bool(self.get(a[1], env))
            else:
                x, y = self.get(a[1], env), self.get(a[2], env)
                b = x == y if a[0] == "eq" else x < y
            T = T[2] if b else T[3]
        return T

    def show(self, v):
        return "{%s}" % ", ".join("%s=%s" % (l.replace("$.", "").replace("$", "value"), x) for l, x in zip(self.leaves, v))


def tree(prog, f):
    names = ["LHS", "RHS"]
    if f.cls and not f.d.get("st") and len(f.params) == 2:
        names = ["THIS", "LHS", "RHS"]
    return Ord(prog).function(f, names)


def weak(T):
    """first violation of the strict weak ordering laws"""
    m = Model([T])
    V = m.values
    table = {}
    for a in V:
        for b in V:
            if not m.fits(a, b):
                table[a, b, False] = "X"
                continue
            for same in ((True, False) if a == b else (False,)):
                table[a, b, same] = m.run(T, (a, 0), (b, 0 if same else 1))
    lt_ = lambda a, b: table[a, b, False]
    for a in V:
        for same in (True, False):
            if table[a, a, same] is True:
                return "a value is ordered before %s: %s" % ("itself" if same else "an equal one", m.show(a)), m
    for a in V:
        for b in V:
            if lt_(a, b) is True and lt_(b, a) is True:
                return "two values are each ordered before the other: %s and %s" % (m.show(a), m.show(b)), m
    for a in V:
        for b in V:
            if lt_(a, b) is True:
                for c in V:
                    if lt_(b, c) is True and lt_(a, c) is False and m.fits(a, b, c):
                        return "not transitive: %s, %s, %s" % (m.show(a), m.show(b), m.show(c)), m
            elif lt_(a, b) is False and lt_(b, a) is False:
                for c in V:
                    if lt_(b, c) is False and lt_(c, b) is False and (lt_(a, c) is True or lt_(c, a) is True) and m.fits(a, b, c):
                        return "not transitive for unordered values: %s, %s, %s" % (m.show(a), m.show(b), m.show(c)), m
    return None, m


def elem(t):
    c = t["c"]
    return re.sub(r"\bconst\b|[&*]", "", c).strip()


def run(prog, ctx):
    R1, R2, R3, R4, R5, R6, R7, R8 = "strict-weak-order", "order-matches-equality", "orders-agree", "hash-matches-equality", "searched-table-sorted", "sequence-stays-sorted", "ascending-order", "tree-search-agrees"
    ctx.rule(R1, "Every comparison used for ordering is irreflexive, asymmetric and transitive, and so is its incomparability.")
    ctx.rule(R2, "Values used as keys of ordered containers are unordered exactly when they are equal.")
    ctx.rule(R3, "Comparisons of a key with an element, or of different representations of the key, agree with the comparison of elements.")
    ctx.rule(R4, "Values that compare equal have the same hash; an equality used by a hash table is an equivalence relation.")
    ctx.rule(R5, "A constant table searched by bisection is strictly sorted by the ordering of the search.")
    ctx.rule(R6, "A sequence that is searched by bisection or kept sorted gets new elements only at their place, or is sorted again.")
    ctx.rule(R7, "References, objects, free numbers, cross-reference entries and blocks are ordered by ascending object number, differences by ascending code: what is written relies on it.")
    ctx.rule(R8, "All functions that walk a binary search tree go to the same side for the same comparison of keys, and to different sides for opposite ones.")
    defs = {}
    for f in prog.fns.values():
        if f.entry is not None and f.tab is not None:
            defs.setdefault(f.q, []).append(f)

    # ---- which functions are orderings
    order, equal, hashes = {}, {}, {}
    rt = lambda f: (f.ty(f.d["t"]) if isinstance(f.d.get("t"), int) else None)
    arity = lambda f: len(f.params) + (1 if f.cls and not f.d.get("st") and "operator()" not in f.q else 0)
    short = lambda f: f.q.split("::")[-1]
    uses = {}       # functor class / function usr -> how
    keys = []       # ordered containers: (key type, comparator type, where)
    htabs = []
    searches = []   # (f, call, algorithm name)
    for f in prog.fns.values():
        if f.entry is None:
            continue
        for c in f.calls():
            cal = f.callee(c)
            if not cal:
                continue
            q = cal["q"].split("<")[0]
            if q.startswith("std::") and q.split("::")[-1] in ALG1 | ALG2:
                searches.append((f, c, q.split("::")[-1]))
                a = f.args(c)
                k = 2 if q.split("::")[-1] in ALG1 else 3
                if len(a) > k:
                    cmp = f.strip(a[k])
                    while f.k(cmp) in ("Cast", "UnaryOperator", "Paren") and f.kids(cmp):
                        cmp = f.strip(f.kids(cmp)[0])
                    d = f.decl(cmp) if f.k(cmp) == "DeclRefExpr" else None
                    if d and d.get("u") in prog.fns:
                        uses[d["u"]] = "order"
                    t = f.type(a[k])
                    if t:
                        uses[elem(t)] = "order"
            for a in f.args(c):
                s = f.strip(a)
                while f.k(s) in ("Cast", "UnaryOperator", "Paren") and f.kids(s):
                    s = f.strip(f.kids(s)[0])
                if f.k(s) == "DeclRefExpr" and f.decl(s) and f.decl(s).get("u") in prog.fns and q.startswith(("std::set", "std::map", "std::multi")):
                    uses[f.decl(s)["u"]] = "order"
        for n in f.where:
            if f.k(n) == "Construct":
                t = f.type(n)
                if t and re.match(r"(std::)(set|map|multiset|multimap)<", t["c"]):
                    for a in f.args(n):
                        s = f.strip(a)
                        while f.k(s) in ("Cast", "UnaryOperator", "Paren") and f.kids(s):
                            s = f.strip(f.kids(s)[0])
                        if f.k(s) == "DeclRefExpr" and f.decl(s) and f.decl(s).get("u") in prog.fns:
                            uses[f.decl(s)["u"]] = "order"

    def container(c, where):
        n, a = targs(c)
        if n in ("std::unique_ptr", "std::shared_ptr", "std::vector", "std::optional", "std::deque"):
            for x in a[:1]:
                container(x, where)
        elif n in ("std::map", "std::set", "std::multimap", "std::multiset"):
            k = 2 if "map" in n else 1
            keys.append((a[0], a[k] if len(a) > k else None, where))
            if len(a) > k:
                uses[a[k]] = "order"
        elif n in ("std::unordered_map", "std::unordered_set"):
            k = 2 if "map" in n else 1
            htabs.append((a[0], a[k] if len(a) > k else None, a[k + 1] if len(a) > k + 1 else None, where))
            if len(a) > k + 1:
                uses[a[k + 1]] = "equal"
    for r in prog.recs.values():
        for fl in r.get("fields", []) or r.get("f", []):
            container(r["tab"].types[fl["t"]]["c"], "%s::%s" % (r.get("q"), fl["n"]))
    for v in prog.vars.values():
        pass

    for f in sorted(prog.fns.values(), key=lambda f: f.sig()):
        if f.entry is None:
            continue
        n = short(f)
        if n == "operator<" and arity(f) == 2:
            order[f.usr] = f
        elif n == "operator==" and arity(f) == 2:
            equal[f.usr] = f
        elif f.q.endswith("operator()") and len(f.params) == 2:
            cls = f.q.rsplit("::", 1)[0]
            how = next((h for u, h in uses.items() if u == cls or u.split("::")[-1] == cls.split("::")[-1] or u.startswith("(lambda") and f.cls == u), None)
            if how:
                (order if how == "order" else equal)[f.usr] = f
        elif f.usr in uses:
            order[f.usr] = f
        if f.q.endswith("operator()") and len(f.params) == 1 and ("hash<" in f.q or f.q.startswith("std::hash")):
            hashes[f.usr] = f
        elif f.q.endswith("operator()") and len(f.params) == 1 and any(h and h.split("::")[-1] == f.q.split("::")[-2] for _, h, _, _ in htabs):
            hashes[f.usr] = f

    def types2(f):
        ts = [elem(f.ty(p[2])) for p in f.params]
        if f.cls and not f.d.get("st") and len(f.params) == 1:
            ts.insert(0, f.cls if isinstance(f.cls, str) else f.q.rsplit("::", 1)[0])
        return ts

    trees = {}
    unsup = []
    for u, f in list(order.items()) + list(equal.items()):
        try:
            trees[u] = tree(prog, f)
        except Unsup as e:
            unsup.append("%s (%s)" % (f.sig(), e))

    # ---- laws
    homog = {}
    for u, f in sorted(order.items(), key=lambda z: z[1].sig()):
        ts = types2(f)
        if u not in trees:
            continue
        if ts[0] != ts[1]:
            continue
        try:
            bad, m = weak(trees[u])
        except Unsup as e:
            unsup.append("%s (%s)" % (f.sig(), e)); continue
        ctx.check(R1, bad is None, f.sig(), "order", f.loc(), bad or "")
        homog[u] = (f, ts[0], m)

    where = lambda f: f.loc()
    for u, (f, t, m) in sorted(homog.items(), key=lambda z: z[1][0].sig()):
        want = PRIMARY.get(t.split("::")[-1])
        if want is None:
            continue
        ix = [i for w in want for i, l in enumerate(m.leaves) if l == "$" + w or w and l.startswith("$" + w + ".")]
        if not ix:
            ctx.check(R7, False, f.sig(), "key", where(f), "compares %s, not %s" % (", ".join(l[2:] or "the value" for l in m.leaves), want[0].lstrip(".") or "the value"))
            continue
        i = ix[0]
        bad = None
        for a in m.values:
            for b in m.values:
                if a[i] < b[i] and (m.run(trees[u], (a, 0), (b, 1)) is False or m.run(trees[u], (b, 1), (a, 0)) is True):
                    bad = bad or "%s is not ordered before %s" % (m.show(a), m.show(b))
        ctx.check(R7, bad is None, f.sig(), "key", where(f), bad or "")
    eqfor = {}
    for u, f in equal.items():
        ts = types2(f)
        if ts[0] == ts[1] and u in trees:
            eqfor.setdefault(ts[0], f)

    def lessfor(T, cmp):
        if cmp and "(*)" not in cmp and not cmp.startswith("std::less"):
            for u, (f, t, m) in homog.items():
                if f.q.rsplit("::", 1)[0].split("::")[-1] == cmp.split("::")[-1] and t.split("::")[-1] == T.split("::")[-1]:
                    return f
            return None
        if cmp and "(*)" in cmp:
            return None
        for u, (f, t, m) in homog.items():
            if t == T and short(f) == "operator<":
                return f
        return None

    seen = set()
    for T, cmp, wh in keys:
        lf, ef = lessfor(T, cmp), eqfor.get(T)
        if lf is None or ef is None or (lf.usr, ef.usr) in seen:
            continue
        seen.add((lf.usr, ef.usr))
        try:
            m = Model([trees[lf.usr], trees[ef.usr]])
        except Unsup as e:
            unsup.append("%s (%s)" % (T, e)); continue
        bad = {}
        for a in m.values:
            for b in m.values:
                l, r, q = (m.run(trees[lf.usr], (a, 0), (b, 1)), m.run(trees[lf.usr], (b, 1), (a, 0)), m.run(trees[ef.usr], (a, 0), (b, 1)))
                if "X" in (l, r, q) or not m.fits(a, b):
                    continue
                if (not l and not r) != q:
                    diff = ",".join(x.replace("$.", "") for x, y, z in zip(m.leaves, a, b) if y != z)
                    bad.setdefault((diff, q), (a, b))
        minimal = [k for k in bad if not any(set(o[0].split(",")) < set(k[0].split(",")) and o[1] == k[1] for o in bad)]
        for diff, q in sorted(minimal):
            a, b = bad[diff, q]
            ctx.check(R2, False, lf.sig(), "%s %s" % (diff, "equal" if q else "different"), where(lf),
                      "as keys of %s: %s and %s are %s, but %s" % (wh, m.show(a), m.show(b), "equal" if q else "different",
                                                               "ordered one before the other" if q else "neither is ordered before the other"))
        if not minimal:
            ctx.check(R2, True, lf.sig(), "keys", where(lf), "")

    # ---- heterogeneous comparisons
    for u, f in sorted(order.items(), key=lambda z: z[1].sig()):
        ts = types2(f)
        if u not in trees or ts[0] == ts[1]:
            continue
        T = trees[u]
        cls = f.q.rsplit("::", 1)[0]
        peers = [g for v, (g, t, m) in homog.items() if g.usr != u and (g.q.rsplit("::", 1)[0] == cls) and (t in ts or short(g) == short(f))]
        if not peers:
            continue
        for g in peers:
            try:
                ok = agree(T, trees[g.usr], [trees[v] for v, (h, t, m) in homog.items() if short(h) == "operator<"])
            except Unsup as e:
                unsup.append("%s / %s (%s)" % (f.sig(), g.sig(), e)); continue
            if ok is None:
                continue
            ctx.check(R3, ok is True, f.sig(), short(g), where(f), "does not agree with %s: %s" % (g.sig(), ok if ok is not True else ""))

    # ---- hashes
    for u, f in sorted(equal.items(), key=lambda z: z[1].sig()):
        if short(f) != "operator()" or u not in trees:
            continue
        try:
            m = Model([trees[u]])
        except Unsup as e:
            unsup.append("%s (%s)" % (f.sig(), e)); continue
        T, bad = trees[u], None
        for a in m.values:
            if m.run(T, (a, 0), (a, 1)) is False:
                bad = "not reflexive: " + m.show(a)
            for b in m.values:
                e = m.run(T, (a, 0), (b, 1))
                if e != m.run(T, (b, 1), (a, 0)):
                    bad = bad or "not symmetric: %s and %s" % (m.show(a), m.show(b))
                if e is True:
                    for c in m.values:
                        if m.run(T, (b, 1), (c, 2)) is True and m.run(T, (a, 0), (c, 2)) is False:
                            bad = bad or "not transitive: %s, %s, %s" % (m.show(a), m.show(b), m.show(c))
        ctx.check(R4, bad is None, f.sig(), "equivalence", where(f), bad or "")
    for u, f in sorted(hashes.items(), key=lambda z: z[1].sig()):
        T = elem(f.ty(f.params[0][2]))
        ef = None
        for K, h, e, wh in htabs:
            if h and h.split("::")[-1] == f.q.split("::")[-2]:
                for g in equal.values():
                    if e and short(g) == "operator()" and g.q.split("::")[-2] == e.split("::")[-1]:
                        ef = g
        ef = ef or eqfor.get(T)
        if ef is None or ef.usr not in trees:
            continue
        hp = hashed(prog, f)
        try:
            m = Model([trees[ef.usr]])
        except Unsup as e:
            unsup.append("%s (%s)" % (ef.sig(), e)); continue
        for p in sorted(hp):
            pat = "$." + p if p else "$"
            # a part equality does not look at may differ between equal values
            ok = None
            known = [l for l in m.leaves if pat == l or pat.startswith(l + ".") or l.startswith(pat + ".")]
            if not known:
                ok = False
            else:
                ok = True
                for a in m.values:
                    for b in m.values:
                        if m.fits(a, b) and m.run(trees[ef.usr], (a, 0), (b, 1)) is True and any(a[m.leaves.index(l)] != b[m.leaves.index(l)] for l in known if l == pat or l.startswith(pat + ".")):
                            ok = False
                            break
                    if not ok:
                        break
            ctx.check(R4, ok, f.sig(), p or "value", where(f), "uses %s, which may differ between values that %s calls equal" % (p or "the whole value", ef.sig()))

    # ---- constant tables
    for f, c, n in searches:
        if n not in ALG2:
            continue
        a = f.args(c)
        p = f.path(a[0]) or ""
        g = re.search(r"g:([\w:]+)", p) or next((re.search(r"g:([\w:]+)", f.path(x) or "") for x in f.subtree(a[0]) if x >= 0 and f.k(x) == "DeclRefExpr" and (f.path(x) or "").startswith("g:")), None)
        if not g:
            continue
        var = next((v for v in prog.vars.values() if v["q"] == g.group(1) and isinstance(v.get("val"), list)), None)
        cmp = comparator(prog, f, c, 3, homog)
        if var is None or cmp is None or cmp.usr not in trees:
            continue
        ks = [firstkey(e) for e in var["val"]]
        try:
            m = Model([trees[cmp.usr]])
        except Unsup as e:
            unsup.append("%s (%s)" % (cmp.sig(), e)); continue
        if len(m.leaves) != 1 or any(k is None for k in ks):
            unsup.append("table %s: key not recognised" % var["q"]); continue
        up = m.run(trees[cmp.usr], ((0,), 0), ((1,), 1)) is True
        for i in range(1, len(ks)):
            x, y = (ks[i - 1], ks[i]) if up else (ks[i], ks[i - 1])
            ctx.check(R5, x < y, var["q"], "%s" % (ks[i],), "%s:%s" % (var.get("file"), var.get("line")), "entry %r follows %r: bisection by %s does not find one of them" % (ks[i], ks[i - 1], cmp.sig()))

    sequences(prog, ctx, R6, searches)
    walks(prog, ctx, R8)
    for s in sorted(set(unsup)):
        ctx.notes.append("no verdict: " + s)
    ctx.notes.append("orderings: %d, equalities: %d, hashes: %d, searches: %d" % (len(order), len(equal), len(hashes), len(searches)))
    ctx.need(R1, 4); ctx.need(R6, 3)


def firstkey(e):
    if isinstance(e, (str, int)):
        return e
    if isinstance(e, dict):
        if "s" in e:
            return e["s"]
        if "a" in e:
            return firstkey(e["a"][0]) if e["a"] else None
        return None
    if isinstance(e, list):
        return firstkey(e[0]) if e else None
    return None


def comparator(prog, f, c, k, homog):
    a = f.args(c)
    if len(a) <= k:
        return None
    t = f.type(a[k])
    s = f.strip(a[k])
    while f.k(s) in ("Cast", "UnaryOperator", "Paren") and f.kids(s):
        s = f.strip(f.kids(s)[0])
    d = f.decl(s) if f.k(s) == "DeclRefExpr" else None
    if d and d.get("u") in prog.fns:
        return prog.fns[d["u"]]
    for u, (g, T, m) in homog.items():
        if t and short_cls(g) == elem(t).split("::")[-1]:
            return g
    return None


def short_cls(g):
    return g.q.split("::")[-2] if "::" in g.q else ""


def hashed(prog, f, depth=0):
    """access paths of the parameter the hash reads"""
    out = set()
    p = f.params[0][0]
    ev = Ord(prog)
    env = {"this": "THIS", p: ("t", "VALUE")}
    for n in range(len(f.nodes)):
        if f.k(n) == "DeclRefExpr" and f.x(n).get("d") == p:
            # outermost member access
            i = n
            while True:
                q = f.parent.get(i)
                if q is None:
                    break
                if f.k(q) == "MemberExpr" or f.k(q) in ("Cast", "Paren") or f.k(q) == "Call" and f.obj(q) is not None and f.obj(q) >= 0 and f.strip(f.obj(q)) == f.strip(i):
                    i = q; continue
                break
            try:
                t = ev.term(f, i, env)
            except Unsup:
                continue
            m = re.match(r"^[&*]*VALUE((?:\.\w+)*)", t)
            if m:
                out.add(m.group(1)[1:])
    return out


def agree(T, G, parts, mapping=None):
    """whether the mixed comparison T answers as the comparison of elements G; None if not comparable"""
    tl = lambda tr: {side(t) for a in atoms(tr) for t in a[1:]}
    m = Model([G])
    # the element's key part: leaf of T on the side that has the same leaf in G
    sides = {}
    for s, p in tl(T):
        if s in ("LHS", "RHS") and p != "&$":
            sides.setdefault(s, set()).add(p)
    if set(sides) != {"LHS", "RHS"}:
        return None
    # parts of the key as the comparison of elements sees them
    def rel(p):
        return p
    gl = [l for l in m.leaves]
    L, R = sides["LHS"], sides["RHS"]
    if mapping is not None:
        pass
    elif L <= set(gl) and R <= set(gl):
        mapping = {s: {p: p for p in sides[s]} for s in sides}
    else:
        elemside = "LHS" if L <= set(gl) else "RHS" if R <= set(gl) else None
        # expand: element side may use sub-parts (m_Reference.Number) of G's leaf
        mapping = None
        for s, o in (("LHS", "RHS"), ("RHS", "LHS")):
            pre = None
            for g in gl:
                if all(p == g or p.startswith(g + ".") for p in sides[s]):
                    pre = g
            if pre is None:
                continue
            mp = {s: {p: p for p in sides[s]}, o: {p: pre + p[1:] for p in sides[o]}}
            mapping = mp
            break
        if mapping is None:
            return None
    used = sorted({q for s in mapping for q in mapping[s].values()})
    whole = all(q in gl for q in used)
    if not whole:
        # the mixed comparison looks at sub-parts only: it must look at all of them, as the ordering of the part does
        return subparts(T, mapping, G, parts)
    m2 = Model([G])
    leaves = m2.leaves
    for a in m2.values:
        for b in m2.values:
            # parts the mixed comparison does not see are equal (the document, for instance)
            if any(a[i] != b[i] for i, l in enumerate(leaves) if l not in used and l != "&$" and eqonly(G, l)):
                continue
            g = m2.run(G, (a, 0), (b, 1))
            env = {"LHS": a, "RHS": b}
            t = T
            while isinstance(t, tuple):
                at = t[1]
                v = []
                for x in at[1:]:
                    s, p = side(x)
                    v.append(p if s == "#" else env[s][leaves.index(mapping[s][p])])
                bb = bool(v[0]) if at[0] == "p" else v[0] == v[1] if at[0] == "eq" else v[0] < v[1]
                t = t[2] if bb else t[3]
            if "X" in (g, t):
                continue
            if g != t:
                return "%s and %s" % (m2.show(a), m2.show(b))
    return True


def eqonly(G, l):
    return all(a[0] != "lt" or l not in [side(t)[1] for t in a[1:]] for a in atoms(G))


def expand(G, leaf, P):
    """replaces the comparisons of a part by its own ordering P"""
    if not isinstance(G, tuple):
        return G
    a, hi, lo = G[1], expand(G[2], leaf, P), expand(G[3], leaf, P)
    ps = [side(t) for t in a[1:]]
    if len(ps) == 2 and all(p == leaf for _, p in ps):
        x, y = a[1], a[2]

        def put(T, l, r):
            if not isinstance(T, tuple):
                return T
            at = tuple([T[1][0]] + [re.sub(r"\bLHS\b", "\0L", re.sub(r"\bRHS\b", "\0R", t)).replace("\0L", l).replace("\0R", r) for t in T[1][1:]])
            return ("?", at, put(T[2], l, r), put(T[3], l, r))

        def leaves_to(T, t, u):
            return (t if T is True else u if T is False else T) if not isinstance(T, tuple) else ("?", T[1], leaves_to(T[2], t, u), leaves_to(T[3], t, u))
        if a[0] == "lt":
            return leaves_to(put(P, x, y), hi, lo)
        return leaves_to(put(P, x, y), lo, leaves_to(put(P, y, x), lo, hi))
    return ("?", a, hi, lo)


def subparts(T, mapping, G, parts):
    """the mixed comparison compares members of the key part: expand the ordering of that part"""
    gl = Model([G]).leaves
    used = sorted({q for s in mapping for q in mapping[s].values()})
    for leaf in gl:
        sub = [q[len(leaf) + 1:] for q in used if q.startswith(leaf + ".")]
        if not sub or leaf in used:
            continue
        for P in parts:
            pl = {p[2:] for a in atoms(P) for s, p in map(side, a[1:]) if s in ("LHS", "RHS")}
            if set(sub) <= pl:
                return agree(T, expand(G, leaf, P), [], mapping)
    return None


def sequences(prog, ctx, R, searches):
    """fields searched or sorted by a standard algorithm"""
    seqs = {}
    for f, c, n in searches:
        d = seq_field(f, f.args(c)[0])
        if d is None:
            continue
        t = (f.tab.types[d["t"]]["c"] if isinstance(d.get("t"), int) else "")
        if re.match(r"(const )?std::(set|map|multi)", t):
            continue
        seqs.setdefault(d["q"], (d["q"], []))[1].append((f, c, n))
    for q, r in prog.recs.items():
        for fl in r.get("fields", []):
            if (q + "::" + fl["n"]).endswith(KEPT):
                seqs.setdefault(q + "::" + fl["n"], (q + "::" + fl["n"], []))
    for f in sorted(prog.fns.values(), key=lambda f: f.sig()):
        if f.entry is None:
            continue
        for c in f.calls():
            cal = f.callee(c)
            if not cal or cal["q"].split("::")[-1].split("<")[0] not in NOTSORTED:
                continue
            o = f.obj(c)
            if o is None or o < 0:
                continue
            s = f.strip(o)
            d = f.decl(s) if f.k(s) == "MemberExpr" else None
            if d is None or d["q"] not in seqs:
                continue
            name = d["q"].split("::")[-1]
            n = cal["q"].split("::")[-1].split("<")[0]
            a = f.args(c)
            base = f.path(s)
            if n in ("insert",) and len(a) >= 3:
                continue           # a range: elements of another sorted sequence
            ok = placed(f, c, a, d["q"]) or sorted_after(f, c, d["q"]) or single(f, c, s) or guarded(f, c, a, s) or first_place(f, c, a, s, n)
            ctx.check(R, ok, f.sig(), "%s %s" % (name, n), f.loc(c), "adds to %s, which is %s elsewhere, neither at the place found by the search nor sorting it again" % (
                d["q"], "searched by bisection" if any(x[2] in ALG2 for x in seqs[d["q"]][1]) else "kept sorted"))


def seq_field(f, a):
    a = f.strip(a)
    while f.k(a) in ("Construct", "Cast") and len(f.args(a) if f.k(a) == "Construct" else f.kids(a)) == 1:
        a = f.strip((f.args(a) if f.k(a) == "Construct" else f.kids(a))[0])
    if f.k(a) == "Call":
        n = (f.callee(a) or {}).get("q", "").split("::")[-1].split("<")[0]
        if n in ("begin", "cbegin", "end", "cend", "rbegin"):
            o = f.obj(a) if f.obj(a) is not None and f.obj(a) >= 0 else (f.args(a)[0] if f.args(a) else -1)
            s = f.strip(o) if o >= 0 else -1
            if s >= 0 and f.k(s) == "MemberExpr":
                return f.decl(s)
    return None


def bisects(f, i, usr, seen=None):
    """the expression's value comes from a search in the sequence"""
    seen = seen or set()
    i = f.strip(i)
    for n in f.subtree(i):
        if n < 0:
            continue
        if f.k(n) == "Call" and (f.callee(n) or {}).get("q", "").split("<")[0].split("::")[-1] in ALG2:
            d = seq_field(f, f.args(n)[0])
            if d and d["q"] == usr:
                return True
        if f.k(n) == "DeclRefExpr":
            v = f.x(n).get("d")
            if v in seen:
                continue
            seen.add(v)
            for e in f.where:
                if f.k(e) == "DeclStmt":
                    for dd, init in f.x(e)["vars"]:
                        if dd == v and init is not None and init >= 0 and bisects(f, init, usr, seen):
                            return True
                if f.k(e) == "BinaryOperator" and f.x(e)["op"] == "=" and f.k(f.strip(f.kids(e)[0])) == "DeclRefExpr" and f.x(f.strip(f.kids(e)[0])).get("d") == v and bisects(f, f.kids(e)[1], usr, seen):
                    return True
                if f.k(e) == "Call" and ((f.callee(e) or {}).get("oo") == "=" or f.x(e).get("op") == "="):
                    ops = ([f.obj(e)] if f.obj(e) is not None and f.obj(e) >= 0 else []) + f.args(e)
                    if len(ops) == 2 and f.k(f.strip(ops[0])) == "DeclRefExpr" and f.x(f.strip(ops[0])).get("d") == v and bisects(f, ops[1], usr, seen):
                        return True
                if f.k(e) == "Call" and "std::tie" in str([(f.callee(x) or {}).get("q") for x in f.subtree(e) if x >= 0 and f.k(x) == "Call"]) and any(f.k(x) == "DeclRefExpr" and f.x(x).get("d") == v for x in f.subtree(e) if x >= 0):
                    if any(f.k(x) == "Call" and (f.callee(x) or {}).get("q", "").split("<")[0].split("::")[-1] in ALG2 for x in f.subtree(e) if x >= 0):
                        return True
        if f.k(n) == "Call" and f.callee(n) and f.callee(n)["q"].startswith("mm::"):
            return True           # a helper computes the place: not decided here
    return False


def placed(f, c, a, usr):
    return len(a) >= 2 and bisects(f, a[0], usr)


def sorted_after(f, c, usr):
    """every normal path from the insertion sorts the sequence (or the function only adds in a loop before sorting)"""
    def sorts(e):
        if not isinstance(e, int) or f.k(e) != "Call":
            return False
        if (f.callee(e) or {}).get("q", "").split("<")[0].split("::")[-1] not in ALG1 or not f.args(e):
            return False
        d = seq_field(f, f.args(e)[0])
        return bool(d and d["q"] == usr)
    b, ix = f.where[c]
    if any(sorts(e) for e in f.blocks[b]["e"][ix + 1:]):
        return True
    seen, todo = set(), [s for s in f.blocks[b]["s"] if s is not None and s in f.blocks]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x == f.exit:
            return False
        bl = f.blocks[x]
        if any(sorts(e) for e in bl["e"]) or bl.get("nr"):
            continue
        todo += [s for s in bl["s"] if s is not None and s in f.blocks]
    return True


def single(f, c, s):
    """the only addition to a sequence of a record created here"""
    o = f.strip(f.kids(s)[0]) if f.kids(s) else -1
    if o < 0 or f.k(o) != "DeclRefExpr":
        return False
    v = f.x(o).get("d")
    t = f.type(o)
    if not t or t["k"] in ("ref", "ptr") or any(p[0] == v for p in f.params):
        return False
    dty = f.tab.decls[v].get("t")
    if isinstance(dty, int) and f.ty(dty)["k"] in ("ref", "ptr"):
        return False
    others = [x for x in f.calls() if x != c and f.obj(x) is not None and f.obj(x) >= 0 and f.path(f.strip(f.obj(x))) == f.path(s)
              and (f.callee(x) or {}).get("q", "").split("::")[-1].split("<")[0] in NOTSORTED]
    b0 = f.where[c][0]
    # not in a loop, and no other addition before or after on the same path
    def reaches(x, y):
        seen, todo = set(), [s2 for s2 in f.blocks[x]["s"] if s2 is not None and s2 in f.blocks]
        while todo:
            z = todo.pop()
            if z in seen:
                continue
            seen.add(z)
            if z == y:
                return True
            todo += [s2 for s2 in f.blocks[z]["s"] if s2 is not None and s2 in f.blocks]
        return False
    declb = next((f.where[e][0] for e in f.where if f.k(e) == "DeclStmt" and any(dd == v for dd, _ in f.x(e)["vars"])), None)
    if declb is None:
        return False
    for x in others:
        bx = f.where[x][0]
        if bx == b0 or reaches(bx, b0) and not reaches(b0, declb) or reaches(b0, bx) and not reaches(bx, declb):
            return False
    return not reaches(b0, b0) or reaches(b0, declb)


def guarded(f, c, a, s):
    """dominated by a test that the new element belongs at that end"""
    for n, truth in conds_at(f, c):
        for atom, tr in conj(f, n, truth):
            k = f.strip(atom)
            if f.k(k) == "BinaryOperator" and (f.x(k)["op"] == "==" and tr or f.x(k)["op"] == "!=" and not tr or f.x(k)["op"] in ("<", ">", "<=", ">=")) :
                names = [f.decl(x)["q"] for x in f.subtree(k) if x >= 0 and f.k(x) == "MemberExpr" and f.decl(x)]
                owner = f.decl(s)["q"].rsplit("::", 1)[0]
                if f.x(k)["op"] in ("==", "!=") and any(q.rsplit("::", 1)[0] == owner for q in names):
                    return True
            if f.k(k) == "Call" and (f.callee(k) or {}).get("q", "").split("::")[-1] == "empty" and tr and f.path(f.strip(f.obj(k))) == f.path(s):
                return True
    return False


def conj(f, n, truth):
    n = f.strip(n)
    if f.k(n) == "UnaryOperator" and f.x(n)["op"] == "!":
        return conj(f, f.kids(n)[0], not truth)
    if f.k(n) == "BinaryOperator" and f.x(n)["op"] == ("&&" if truth else "||"):
        return [z for k in f.kids(n) for z in conj(f, k, truth)]
    return [(n, truth)]


def first_place(f, c, a, s, n):
    """at the front, of an element with the smallest key (constant 0)"""
    if n in ("insert", "push_front", "emplace") and len(a) >= 1:
        pos = f.path(f.strip(a[0])) or ""
        if n == "push_front" or pos.endswith(".begin()"):
            v = f.strip(a[-1])
            if f.k(v) == "DeclRefExpr" or f.k(v) in ("Construct", "Cast"):
                vs = [x for x in f.subtree(v) if x >= 0 and f.k(x) == "DeclRefExpr"]
                for x in vs:
                    d = f.x(x).get("d")
                    for e in f.where:
                        if f.k(e) == "BinaryOperator" and f.x(e)["op"] == "=" and f.cv(f.kids(e)[1]) == 0:
                            l = f.strip(f.kids(e)[0])
                            if f.k(l) == "MemberExpr" and f.kids(l) and f.k(f.strip(f.kids(l)[0])) == "DeclRefExpr" and f.x(f.strip(f.kids(l)[0])).get("d") == d:
                                return True
    return False


def walks(prog, ctx, R):
    links = {}
    for q, r in prog.recs.items():
        fs = r.get("fields", []) or r.get("f", [])
        own = [fl["n"] for fl in fs if r["tab"].types[fl["t"]]["k"] == "ptr" and elem(r["tab"].types[fl["t"]]).split("::")[-1] == q.split("::")[-1]]
        if len(own) >= 2:
            links[q] = (own, [fl["n"] for fl in fs if fl["n"] not in own])
    seen = {}
    for f in sorted(prog.fns.values(), key=lambda f: f.sig()):
        if f.entry is None:
            continue
        for n in range(len(f.nodes)):
            if f.k(n) != "MemberExpr" or not f.decl(n):
                continue
            q = f.decl(n)["q"]
            rec = q.rsplit("::", 1)[0]
            if rec not in links or q.split("::")[-1] not in links[rec][0]:
                continue
            rel = {"<", "=", ">"}
            met = False
            for c, truth in conds_at(f, n):
                for atom, tr in conj(f, c, truth):
                    k = f.strip(atom)
                    if f.k(k) != "BinaryOperator" or f.x(k)["op"] not in ("==", "!=", "<", ">", "<=", ">="):
                        continue
                    a, b = (f.strip(x) for x in f.kids(k))
                    op = f.x(k)["op"]
                    for x, o in ((a, op), (b, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op))):
                        if f.k(x) == "MemberExpr" and f.decl(x) and f.decl(x)["q"].rsplit("::", 1)[0] == rec and f.decl(x)["q"].split("::")[-1] in links[rec][1]:
                            hold = {"==": {"="}, "!=": {"<", ">"}, "<": {"<"}, ">": {">"}, "<=": {"<", "="}, ">=": {">", "="}}[o]
                            rel &= hold if tr else {"<", "=", ">"} - hold
                            met = True
            if met and rel:
                seen.setdefault(rec, []).append((f, n, q.split("::")[-1], frozenset(rel)))
    for rec, L in sorted(seen.items()):
        fns = {f.usr for f, _, _, _ in L}
        side_of = {}
        for f, n, fld, rel in L:
            for r in rel:
                side_of.setdefault(r, {}).setdefault(fld, []).append((f, n))
        for f, n, fld, rel in L:
            other = [(r, o, g) for r in rel for o in side_of[r] if o != fld for g in side_of[r][o]]
            ctx.check(R, not other or "=" in rel and len(rel) == 1, f.sig(), fld, f.loc(n),
                      other and "goes to %s when the key of the node is %s the key searched for, %s goes to %s" % (fld, other[0][0], other[0][2][0].sig(), other[0][1]))
