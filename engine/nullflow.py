"""Interprocedural may-be-null analysis of pointer results.

A function is *nullable* when some return statement can yield a null pointer
(a null constant, an unchecked nullable result, a failed dynamic_cast, ...).
Inside every function the analysis tracks which access paths hold an unchecked
possibly-null pointer and reports dereferences of them."""
from model import *

SMART = ("std::unique_ptr", "std::shared_ptr")


def is_ptr(t):
    return t is not None and (t["k"] == "ptr" or (t["k"] == "rec" and t["r"] in SMART))


def obj_ptr(t):
    """pointers whose dereference we track: to classes/objects (not char*, void*)"""
    return is_ptr(t)


class NullFlow(Flow):
    # state: (maybe-null paths, known-nonnull paths,
    #         implications: (bool var, path, truth) or (pointer p, path q, None): p nonnull => q nonnull,
    #         paths known to be null)
    def __init__(self, fn, an, consts=None):
        super().__init__(fn)
        self.an = an
        self.consts = consts or {}

    def init(self):
        return (frozenset(), frozenset(), frozenset(), frozenset())

    def join(self, a, b):
        if a == b:
            return a
        imp = set(a[2] & b[2])
        for x, y in ((a, b), (b, a)):
            # p is null on one side, q is nonnull on the other: p nonnull => q nonnull
            for p in x[3] - y[3]:
                for q in y[1] - x[1]:
                    imp.add((p, q, None))
            for i in x[2] - y[2]:
                if i[2] is None and (i[0] in y[3] or i[1] in y[1]):
                    imp.add(i)
        return (a[0] | b[0], a[1] & b[1], frozenset(imp), a[3] & b[3])

    def case(self, s, blk, lab):
        """switch over a parameter or call result known to be a constant"""
        if not self.consts or s is None:
            return s
        p = self.fn.path(blk["tc"]) if blk.get("tc") is not None and blk["tc"] >= 0 else None
        if p in self.consts:
            v = self.consts[p]
            cases = self.case_values(blk)
            if lab is None or self.fn.k(lab) != "CaseStmt":
                return None if v in cases else s
            if self.fn.cv(lab) is not None and self.fn.cv(lab) != v:
                return None
        return s

    def case_values(self, blk):
        r = set()
        for t in blk["s"]:
            l = self.fn.blocks[t].get("lab") if t is not None else None
            if l is not None and self.fn.k(l) == "CaseStmt" and self.fn.cv(l) is not None:
                r.add(self.fn.cv(l))
        return r

    # --- helpers
    def norm(self, i):
        """path of a pointer expression (through casts, .get(), assignment)"""
        fn = self.fn
        while i >= 0:
            k, t, ln, kids, x = fn.nodes[i]
            if k == "Cast" and x.get("ck") != "Dynamic":
                i = kids[0]; continue
            if k == "Call":
                f = fn.callee(i)
                if f and f["q"].split("::")[-1] == "get" and f.get("cls", "").startswith(SMART) and x["o"] >= 0:
                    i = x["o"]; continue
                if f and f.get("conv") and x["o"] >= 0:
                    i = x["o"]; continue
                if f and f["q"] in ("std::move", "std::forward") and x["a"]:
                    i = x["a"][0]; continue
            if k == "BinaryOperator" and x["op"] == "=":
                i = kids[0]; continue
            if k == "Construct" and len(x["a"]) == 1 and is_ptr(fn.type(i)) and is_ptr(fn.type(x["a"][0])):
                i = x["a"][0]; continue
            break
        return fn.path(i)

    def maybe_null(self, s, i):
        """None: nonnull/unknown; else a reason string"""
        fn = self.fn
        if i < 0:
            return None
        k, t, ln, kids, x = fn.nodes[i]
        if k == "Cast":
            if x.get("ck") == "Dynamic" and is_ptr(fn.type(i)):
                p = self.norm(i)
                return "a dynamic_cast that may fail"
            if x.get("ck") == "NullToPointer":
                return "a null constant"
            return self.maybe_null(s, kids[0])
        if k == "CXXNullPtrLiteralExpr":
            return "a null constant"
        if k == "BinaryOperator" and x["op"] == "=":
            return self.maybe_null(s, kids[1])
        if k == "ConditionalOperator":
            c, a, b = kids
            sa = self.refine(s, c, True, None); sb = self.refine(s, c, False, None)
            return self.maybe_null(sa, a) or self.maybe_null(sb, b)
        p = self.norm(i)
        if p is not None and p in s[1]:
            return None
        if k == "Call":
            f = fn.callee(i)
            if f:
                nm = f["q"].split("::")[-1]
                if nm == "get" and f.get("cls", "").startswith(SMART):
                    return self.maybe_null(s, x["o"])
                if f["q"] in ("std::move",) and x["a"]:
                    return self.maybe_null(s, x["a"][0])
                if f.get("oo") == "=" and x["a"]:
                    return self.maybe_null(s, x["a"][0])
                if is_ptr(fn.type(i)):
                    for u in self.fn.prog.targets(fn, i):
                        if u in self.an.nullable and not self.nonnull_call(i, f):
                            return "the result of %s, which may be null" % f["q"]
        if k == "Construct" and is_ptr(fn.type(i)):
            if not x["a"]:
                return "a default-constructed smart pointer"
            if len(x["a"]) >= 1 and (is_ptr(fn.type(x["a"][0])) or fn.type(x["a"][0])["k"] == "null"):
                return self.maybe_null(s, x["a"][0])
        if p is not None and p in s[0]:
            return "'%s', which may still be null" % fn.text(i)
        return None

    def nonnull_call(self, i, f):
        return self.an.nonnull_at(self.fn, i, f)

    def kill_root(self, s, p):
        """assignment to path p: forget everything built on it"""
        def dep(q):
            return q == p or q.startswith((p + ".", p + "[")) or ("*" + p) in q or (p + ".") in q or (p + ",") in q or (p + ")") in q or ("(" + p) in q
        return (frozenset(q for q in s[0] if not dep(q)), frozenset(q for q in s[1] if not dep(q)), frozenset(b for b in s[2] if not dep(b[0]) and not dep(b[1])),
                frozenset(q for q in s[3] if not dep(q)))

    def assign(self, s, p, i, t):
        if p is None:
            return s
        mn = self.maybe_null(s, i) if is_ptr(t) else None
        src = self.norm(i) if is_ptr(t) else None
        nn = is_ptr(t) and not mn and (src in s[1] if src else False)
        s = self.kill_root(s, p)
        if mn:
            null = s[3] | {p} if mn in ("a null constant", "a default-constructed smart pointer") else s[3]
            s = (s[0] | {p}, s[1], s[2], null)
        elif nn or (is_ptr(t) and self.surely_nonnull(i)):
            s = (s[0], s[1] | {p}, s[2], s[3])
        if t is not None and t["k"] == "bool":
            for tr, q in self.bool_implies(i):
                s = (s[0], s[1], s[2] | {(p, q, tr)}, s[3])
        return s

    def surely_nonnull(self, i):
        fn = self.fn
        i = fn.strip(i)
        if i < 0:
            return False
        k = fn.k(i)
        return k == "New" or (k == "UnaryOperator" and fn.x(i)["op"] == "&")

    def bool_implies(self, i):
        """(truth, path): boolean expression value -> path nonnull"""
        fn = self.fn
        if i < 0:
            return []
        k, t, ln, kids, x = fn.nodes[i]
        if k == "Cast":
            if x.get("ck") in ("PointerToBoolean",):
                p = self.norm(kids[0])
                return [(True, p)] if p else []
            return self.bool_implies(kids[0])
        if k == "UnaryOperator" and x["op"] == "!":
            return [(not tr, p) for tr, p in self.bool_implies(kids[0])]
        if k == "BinaryOperator" and x["op"] in ("==", "!="):
            p = self.nullcmp(i)
            if p:
                return [(x["op"] == "!=", p)]
        if k == "BinaryOperator" and x["op"] == "&&":
            return [r for c in kids for r in self.bool_implies(c) if r[0]]
        if k == "BinaryOperator" and x["op"] == "||":
            return [r for c in kids for r in self.bool_implies(c) if not r[0]]
        if k == "Call":
            f = fn.callee(i)
            return self.outparam_facts(i, f)
        return []

    def outparam_facts(self, i, f):
        """bool TryX(..., T*& out): out is set when it returns true"""
        fn = self.fn
        r = []
        if f and fn.type(i) and fn.type(i)["k"] == "bool":
            ps = f.get("p", [])
            for a, pt in zip(fn.args(i), ps):
                t = fn.tab.types[pt]
                if t["k"] == "ref" and is_ptr(fn.ty(t["e"])) and not fn.ty(t["e"]).get("q"):
                    p = self.norm(a)
                    if p:
                        r.append((True, p))
                elif t["k"] == "ptr" and is_ptr(fn.ty(t["e"])):
                    p = fn.path(a)
                    if p and p.startswith("&"):
                        r.append((True, p[1:]))
                elif is_ptr(t):
                    # a predicate over the pointer itself counts as a check
                    p = self.norm(a)
                    if p and f.get("q") and u_in(fn, f):
                        for tr in self.an.pred(f["u"], fn.args(i).index(a)):
                            r.append((tr, p))
        return r

    def key_paths(self, i):
        """paths of X.GetKey(k) for a call X.HasKey(k) / X.AddKey(k, ...)"""
        fn = self.fn
        x = fn.x(i)
        if x["o"] < 0 or not x["a"]:
            return []
        b, k = fn.path(x["o"]), fn.path(x["a"][0])
        if b is None or k is None:
            return []
        return ["%s.%s(%s)" % (b, n, k) for n in ("GetKey", "getKey")]

    def nullcmp(self, i):
        fn = self.fn
        l, r = fn.kids(i) if fn.k(i) == "BinaryOperator" else (fn.x(i)["o"] if fn.x(i)["o"] >= 0 else fn.args(i)[0], fn.args(i)[-1])
        for a, b in ((l, r), (r, l)):
            sb = fn.strip(b)
            if sb >= 0 and (fn.k(sb) == "CXXNullPtrLiteralExpr" or (fn.cv(sb) == 0 and is_ptr(fn.type(a)))):
                return self.norm(a)
        return None

    def edge(self, s, c, truth, b):
        fn = self.fn
        k, t, ln, kids, x = fn.nodes[c]
        if k == "BinaryOperator" and x["op"] in ("==", "!="):
            p = self.nullcmp(c)
            if p:
                return self.set(s, p, nonnull=(truth == (x["op"] == "!=")), i=c)
            # pointer equality with a known-nonnull pointer
            for a, o in ((kids[0], kids[1]), (kids[1], kids[0])):
                if is_ptr(fn.type(a)) and truth == (x["op"] == "=="):
                    po = self.norm(o)
                    if self.surely_nonnull(o) or (po and po in s[1]):
                        pa = self.norm(a)
                        if pa:
                            return self.set(s, pa, True, c)
            return s
        if k == "Call":
            f = fn.callee(c)
            if f and f.get("oo") in ("==", "!="):
                p = self.nullcmp(c)
                if p:
                    return self.set(s, p, nonnull=(truth == (f["oo"] == "!=")), i=c)
                return s
            if f and f.get("conv") and f.get("cls", "").startswith(SMART):
                p = self.norm(fn.obj(c))
                return self.set(s, p, truth, c) if p else s
            for tr, p in self.outparam_facts(c, f):
                if tr == truth and s is not None:
                    s = self.set(s, p, True, c)
            if s is None:
                return None
            if truth and f and f["q"].endswith("::HasKey"):
                for p in self.key_paths(c):
                    s = self.know(s, p)
            if f and fn.type(c)["k"] == "bool" and f["u"] in self.an.member_pred:
                pass
            if is_ptr(fn.type(c)):
                p = self.norm(c)
                return self.set(s, p, truth, c) if p else s
            return s
        if t is not None and is_ptr(fn.type(c)):
            p = self.norm(c)
            if p:
                return self.set(s, p, truth, c)
        if fn.type(c) and fn.type(c)["k"] == "bool":
            p = fn.path(c)
            if p:
                for bp, q, tr in s[2]:
                    if bp == p and tr == truth:
                        s = self.set(s, q, True, c)
                        if s is None:
                            return None
        return s

    def know(self, s, p):
        """p is nonnull from here on, whatever was known before"""
        return (s[0] - {p}, s[1] | {p}, s[2], s[3] - {p})

    def set(self, s, p, nonnull, i=None):
        if nonnull:
            if p in s[3]:
                return None     # contradicts what is known on this path
            s = (s[0] - {p}, s[1] | {p}, s[2], s[3])
            for bp, q, tr in s[2]:
                if bp == p and tr is None and q not in s[1]:
                    s = self.set(s, q, True, i)
                    if s is None:
                        return None
            return s
        if p in s[1]:
            return None
        return (s[0] | {p}, s[1] - {p}, s[2], s[3] | {p})

    def elem(self, s, e):
        fn = self.fn
        if not isinstance(e, int):
            if e[0] == "init" and e[1]:
                return s
            return s
        k, t, ln, kids, x = fn.nodes[e]
        if k == "DeclStmt":
            for d, init in x["vars"]:
                dd = fn.tab.decls[d]
                p = "v%d:%s" % (d, dd["q"].split("::")[-1])
                ty = fn.ty(dd["t"])
                if init >= 0 and ty["k"] != "ref":
                    s = self.assign(s, p, init, ty)
                elif init < 0:
                    s = self.kill_root(s, p)
        elif k == "BinaryOperator" and x["op"] == "=":
            s = self.assign(s, fn.path(kids[0]), kids[1], fn.type(kids[0]))
        elif k == "CompoundAssign" or (k == "UnaryOperator" and x["op"] in ("++", "--", "p++", "p--")):
            p = fn.path(kids[0])
            if p:
                s = self.kill_root(s, p)
        elif k == "Call":
            f = fn.callee(e)
            if f and f.get("oo") == "=" and x["o"] >= 0 and x["a"]:
                s = self.assign(s, fn.path(x["o"]), x["a"][0], fn.type(x["o"]))
                return s
            if f and f["q"].split("::")[-1] == "reset" and f.get("cls", "").startswith(SMART):
                p = fn.path(x["o"])
                if p:
                    s = self.kill_root(s, p)
                    if x["a"] and fn.k(fn.strip(x["a"][0])) == "New":
                        s = self.know(s, p)
                return s
            if f:
                ps = f.get("p", [])
                for a, pt in zip(x["a"], ps):
                    ty = fn.tab.types[pt]
                    if ty["k"] == "ref" and is_ptr(fn.ty(ty["e"])) and not fn.ty(ty["e"]).get("q"):
                        p = fn.path(a)
                        if p:
                            s = self.kill_root(s, p)
                            if fn.type(e) and fn.type(e)["k"] == "bool" and u_in(fn, f) and self.an.out_null(f["u"], x["a"].index(a)):
                                s = (s[0] | {p}, s[1], s[2], s[3])
                    elif ty["k"] == "ptr" and fn.path(a) and fn.path(a).startswith("&v"):
                        s = self.kill_root(s, fn.path(a)[1:])
                nm = f["q"].split("::")[-1]
                if f.get("cls") == "mm::PdfDictionary" and nm in ("AddKey", "AddKeyIndirect", "AddKeyIndirectSafe"):
                    for p in self.key_paths(e):
                        s = self.know(s, p)
                elif f.get("cls") == "mm::PdfDictionary" and nm in ("RemoveKey", "Clear"):
                    b = fn.path(x["o"])
                    if b:
                        s = (s[0], frozenset(q for q in s[1] if not q.startswith(b + ".")), s[2], s[3])
                # a callee that returns normally only for a nonnull argument
                for n in self.an.asserts.get(f["u"], ()):
                    if n < len(x["a"]):
                        p = self.norm(x["a"][n])
                        if p:
                            s = self.know(s, p)
        return s

    def derefs(self, e):
        """(pointer node, use description) for pointers dereferenced by element e"""
        fn = self.fn
        k, t, ln, kids, x = fn.nodes[e]
        if k == "MemberExpr" and x.get("ar") and kids:
            yield kids[0]
        elif k == "Call":
            f = fn.callee(e)
            if f and x.get("ar") and x["o"] >= 0 and is_ptr(fn.type(x["o"])) and not f.get("sm"):
                yield x["o"]
            if f and f.get("oo") in ("*", "->") and x["o"] >= 0 and f.get("cls", "").startswith(SMART):
                yield x["o"]
        elif k == "UnaryOperator" and x["op"] == "*" and is_ptr(fn.type(kids[0])):
            yield kids[0]
        elif k == "ArraySubscriptExpr" and fn.type(kids[0]) and fn.type(kids[0])["k"] == "ptr":
            yield kids[0]


def u_in(fn, f):
    return f["u"] in fn.prog.fns or f.get("in")


class NullAnalysis:
    """extra: functions confirmed by reading to return null in documented cases
    although their body only returns a field."""

    def __init__(self, prog, extra=(), never=(), nonnull_at=None):
        self.prog = prog
        self.nullable = set(extra)
        self.never = set(never)
        self.asserts = {}       # usr -> parameter indices surely nonnull on return
        self.member_pred = set()
        self._pred = {}
        self._nonnull_at = nonnull_at
        self._spec = {}
        self._out = {}
        self.flows = {}
        self.compute()

    def origin(self, fl, s, i):
        """the dereferenced pointer is known nonnull thanks to a check"""
        p = fl.norm(i)
        return p is not None and p in s[1]

    def nonnull_at(self, fn, i, f):
        """this call, with these constant arguments, cannot return null"""
        if self._nonnull_at and self._nonnull_at(fn, i, f):
            return True
        if fn.x(i).get("v") or f["u"] not in self.prog.fns:
            return False
        consts = tuple((n, fn.cv(a)) for n, a in enumerate(fn.args(i)) if a >= 0 and fn.cv(a) is not None and fn.type(a) and fn.type(a)["k"] in ("enum", "int"))
        if not consts:
            return False
        return not self.null_spec(f["u"], consts)

    def null_spec(self, u, consts):
        key = (u, consts)
        if key not in self._spec:
            self._spec[key] = True
            f = self.prog.fns[u]
            if f.entry is not None:
                cs = {}
                for n, v in consts:
                    if n < len(f.params):
                        cs["v%d:%s" % (f.params[n][0], f.params[n][1])] = v
                fl = NullFlow(f, self, cs)
                fl.run()
                self._spec[key] = any(isinstance(e, int) and f.k(e) == "ReturnStmt" and f.kids(e) and fl.maybe_null(s, f.kids(e)[0])
                                      for b, i, e, s in fl.states())
        return self._spec[key]

    def out_null(self, u, ix):
        """may the callee leave null in its reference-to-pointer parameter ix?"""
        key = (u, ix)
        if key not in self._out:
            self._out[key] = False
            r = False
            for t in {u} | self.prog.all_overriders(u):
                f = self.prog.fns.get(t)
                if f is None or f.entry is None or ix >= len(f.params):
                    continue
                p = "v%d:%s" % (f.params[ix][0], f.params[ix][1])
                fl = NullFlow(f, self)
                fl.run()
                for b, i, e, s in fl.states():
                    if isinstance(e, int) and f.k(e) == "ReturnStmt" and p in s[0]:
                        r = True
            self._out[key] = r
        return self._out[key]

    def pred(self, u, ix):
        """truth values of a bool function that imply parameter ix is nonnull"""
        key = (u, ix)
        if key in self._pred:
            return self._pred[key]
        self._pred[key] = ()
        f = self.prog.fns.get(u)
        if f is None or ix >= len(f.params) or f.entry is None:
            return ()
        p = "v%d:%s" % (f.params[ix][0], f.params[ix][1])
        fl = NullFlow(f, self)
        fl.init = lambda: (frozenset({p}), frozenset(), frozenset(), frozenset())
        fl.run()
        res = {True: True, False: True}
        any_ = False
        for b, i, e, s in fl.states():
            if isinstance(e, int) and f.k(e) == "ReturnStmt" and f.kids(e):
                any_ = True
                r = f.kids(e)[0]
                v = f.cv(r)
                for truth in (True, False):
                    if v is not None and bool(v) != truth:
                        continue
                    s2 = fl.refine(s, r, truth, None) if v is None else s
                    if s2 is None or p not in s2[1]:
                        res[truth] = False
        self._pred[key] = tuple(t for t in (True, False) if any_ and res[t])
        return self._pred[key]

    def compute(self):
        prog = self.prog
        cand = [f for f in prog.fns.values() if f.entry is not None]
        ret = [f for f in cand if is_ptr(f.ty(f.d["t"])) and f.usr not in self.never]
        # parameters asserted nonnull (throwing helpers)
        for f in cand:
            for ix, (d, n, t) in enumerate(f.params):
                if is_ptr(f.ty(t)) and f.ty(f.d["t"])["k"] == "void":
                    p = "v%d:%s" % (d, n)
                    fl = NullFlow(f, self)
                    fl.init = lambda p=p: (frozenset({p}), frozenset(), frozenset(), frozenset())
                    fl.run()
                    s = fl.out_at_exit()
                    if s is not None and p in s[1]:
                        self.asserts.setdefault(f.usr, set()).add(ix)
        changed = True
        while changed:
            changed = False
            for f in ret:
                if f.usr in self.nullable:
                    continue
                fl = NullFlow(f, self)
                fl.run()
                for b, i, e, s in fl.states():
                    if isinstance(e, int) and f.k(e) == "ReturnStmt" and f.kids(e):
                        if fl.maybe_null(s, f.kids(e)[0]):
                            self.nullable.add(f.usr); changed = True
                            break

    def report(self, f):
        fl = NullFlow(f, self)
        fl.run()
        for b, i, e, s in fl.states():
            if not isinstance(e, int):
                continue
            for p in fl.derefs(e):
                why = fl.maybe_null(s, p)
                if why:
                    yield e, p, why
