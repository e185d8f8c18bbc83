"""which state does a function modify, expressed relative to its receiver, its
parameters and global variables (flow-insensitive, transitive over calls)"""
from lib import *

PURE_STD = re.compile(r"::(?:begin|end|rbegin|rend|cbegin|cend|find|lower_bound|upper_bound|equal_range|size|length|empty|data|c_str|at|front|back|get|count|capacity|has_value|value|value_or|operator\*|operator->|operator bool|operator\[\]|key_comp|max_size|operator==|operator!=|operator<|get_deleter|use_count|find_first_of|find_last_of|compare|substr|tellg|tellp|good|eof|fail|bad|rdbuf|type|load|expired|lock|operator basic_string_view|starts_with|top|index|str|fptr|imbue|getloc|valueless_by_exception|operator\+|operator-|base)$")
MAPLIKE = re.compile(r"^std::(?:__cxx11::)?(?:unordered_)?map<")
ELEM_STD = re.compile(r"::(?:begin|end|rbegin|rend|find|lower_bound|upper_bound|data|c_str|at|front|back|get|value|operator\*|operator->|operator\[\]|top|base|emplace_back|str|operator\+\+|operator--|next|prev|value_or|insert|emplace|erase|release)$")
PASS_STD = re.compile(r"^std::(?:move|forward|get|addressof|next|prev|min|max|as_const|launder|begin|end|data|ref|dynamic_pointer_cast|static_pointer_cast|__addressof|make_move_iterator|make_reverse_iterator)$")
LOCKS = re.compile(r"^(?:std::)?(?:lock_guard|unique_lock|scoped_lock)(?:<|$)")


class Effects:
    def __init__(self, prog, barrier=None):
        self.prog = prog
        self.barrier = barrier or (lambda f: False)
        self._ret = {}
        self._mod = None
        self._res = {}
        self.direct = {}
        self.site = {}

    # ------------------------------------------------------------ resolve
    def resolve(self, f, i, depth=0):
        """set of (root, first field, deep, leaf) an lvalue/pointer may denote"""
        if i is None or i < 0 or depth > 14:
            return frozenset()
        key = (f.usr, i)
        if key in self._res:
            return self._res[key]
        self._res[key] = frozenset()
        r = self._res[key] = frozenset(self._resolve(f, i, depth))
        return r

    def _resolve(self, f, i, depth):
        k, x = f.k(i), f.x(i)
        R = lambda j: self.resolve(f, j, depth + 1)
        if k == "This":
            return {("this", None, False, f.cls or "")}
        if k == "DeclRefExpr":
            d = f.decl(i)
            if d["k"] not in ("var", "parm"):
                return set()
            t = f.ty(d.get("t")) or {}
            if d.get("u") in self.prog.vars:
                return {("g:" + d["u"], None, False, d["q"])}
            for ix, prm in enumerate(f.params):
                pd = prm[0] if isinstance(prm, list) else prm
                if pd == x["d"]:
                    if t.get("k") in ("ref", "rref", "ptr", "arr"):
                        return {("p%d" % ix, None, False, "")}
                    # value parameter holding a handle into something
                    return set()
            out = set()
            for e in var_inits(f).get(x["d"], ()):
                tt = t.get("k")
                if tt in ("ref", "rref", "ptr") or (tt == "rec" and re.search(r"iterator|span|basic_string_view|unique_ptr|shared_ptr|reference_wrapper", t.get("r", "") or t.get("s", ""))) or tt == "other":
                    out |= R(e)
            for rng in self.forvars(f).get(x["d"], ()):
                if t.get("k") in ("ref", "rref", "ptr"):
                    out |= {(a, b, True if b else c, l) for a, b, c, l in R(rng)}
            return out
        if k == "MemberExpr":
            d = f.decl(i)
            if d.get("u") in self.prog.vars:
                return {("g:" + d["u"], None, False, d["q"])}
            base = R(f.kids(i)[0]) if f.kids(i) else {("this", None, False, f.cls or "")}
            ft = f.ty(d.get("t")) or {}
            nm = d["q"].split("::")[-1]
            return {(a, b or nm, c, d["q"]) for a, b, c, l in base}
        if k == "Cast":
            return R(f.kids(i)[0])
        if k == "ArraySubscriptExpr":
            return {(a, b, c or self.isptr(f, f.kids(i)[0]), l) for a, b, c, l in R(f.kids(i)[0])}
        if k == "UnaryOperator":
            r = R(f.kids(i)[0])
            if x["op"] == "*":
                return {(a, b, True if b else c, l) for a, b, c, l in r}
            return r if x["op"] in ("&", "++", "--", "p++", "p--") else set()
        if k in ("BinaryOperator", "CompoundAssign"):
            if x["op"] in ("=", "+=", "-="):
                return R(f.kids(i)[0])
            if x["op"] in ("+", "-"):
                return R(f.kids(i)[0]) | R(f.kids(i)[1])
            if x["op"] == ",":
                return R(f.kids(i)[1])
            return set()
        if k == "ConditionalOperator":
            ks = f.kids(i)
            return set().union(*[R(c) for c in ks[1:]]) if len(ks) == 3 else set()
        if k == "Construct":
            t = f.type(i) or {}
            if re.search(r"iterator|unique_ptr|shared_ptr|basic_string_view|span|reference_wrapper|pair", t.get("r", "") or ""):
                return set().union(*[R(a) for a in f.args(i)]) if f.args(i) else set()
            return set()
        if k == "Call":
            d = f.callee(i)
            if not d:
                return set()
            o, a = f.obj(i), f.args(i)
            q = d["q"]
            g = self.prog.fns.get(d["u"])
            if g is not None or d["u"] in self.prog.overrides:
                out = set()
                for u in self.prog.targets(f, i):
                    for e in self.ret(u):
                        out |= self.subst(f, i, e, depth)
                return out
            if q.startswith("mm::") or q.startswith("utls::"):
                return set()
            if PASS_STD.match(q) and a:
                return R(a[0])
            if (ELEM_STD.search(q) or d.get("conv")):
                if o >= 0:
                    sm = re.search(r"unique_ptr|shared_ptr|iterator", q)
                    return {(a_, b, True if (b and sm and not q.endswith("::get")) or (b and "data" in q) else c, l) for a_, b, c, l in R(o)}
                if a:
                    return R(a[0])
            return set()
        if k == "InitListExpr" and len(f.kids(i)) == 1:
            return R(f.kids(i)[0])
        return set()

    def isptr(self, f, i):
        j = f.strip(i)
        t = f.type(j) or {}
        return t.get("k") == "ptr"

    def forvars(self, f):
        c = f.__dict__.get("_forv")
        if c is None:
            c = f._forv = {}
            for i, n in enumerate(f.nodes):
                if n[0] == "CXXForRangeStmt":
                    lv, rg = n[4].get("lv"), n[4].get("range")
                    if isinstance(lv, int) and isinstance(rg, int):
                        c.setdefault(lv, []).append(rg)
        return c

    def subst(self, f, i, e, depth=0):
        """translate callee-relative element e at call site i into f"""
        root, fld, deep, leaf = e
        if root.startswith("g:"):
            return {e}
        if root == "this":
            if f.k(i) == "Construct":
                return set()
            b = self.resolve(f, f.obj(i), depth + 1) if f.obj(i) >= 0 else ({("this", None, False, f.cls or "")} if f.callee(i) and not f.callee(i).get("st") and f.callee(i).get("cls") else set())
        else:
            ix = int(root[1:])
            a = f.args(i)
            if ix >= len(a):
                return set()
            b = self.resolve(f, a[ix], depth + 1)
        return {(r, fl or fld, dp or (deep if fl is None else True) if (fl or fld) else deep, leaf or lf) for r, fl, dp, lf in b}

    def ret(self, u):
        if u in self._ret:
            return self._ret[u]
        self._ret[u] = frozenset()
        f = self.prog.fns.get(u)
        if f is None:
            return frozenset()
        out = set()
        rt = None
        for i, n in enumerate(f.nodes):
            if n[0] == "ReturnStmt" and n[3] and n[3][0] >= 0:
                t = f.type(n[3][0]) or {}
                out |= self.resolve(f, n[3][0], 3)
        self._ret[u] = frozenset(out)
        return self._ret[u]

    # ------------------------------------------------------------ mod
    def writes(self, f):
        """direct writes: yields (node, elements)"""
        for i, n in enumerate(f.nodes):
            k = n[0]
            if k == "CompoundAssign" or (k == "BinaryOperator" and n[4]["op"] == "="):
                if self.is_local_scalar(f, n[3][0]):
                    continue
                yield i, self.resolve(f, n[3][0])
            elif k == "UnaryOperator" and ("++" in n[4]["op"] or "--" in n[4]["op"]):
                if self.is_local_scalar(f, n[3][0]):
                    continue
                yield i, self.resolve(f, n[3][0])
            elif k == "Delete":
                yield i, {(a, b, True, l) for a, b, c, l in self.resolve(f, n[3][0])} if n[3] else set()
            elif k in ("Call", "Construct"):
                d = f.callee(i)
                if not d:
                    continue
                inlib = d["u"] in self.prog.fns or d["u"] in self.prog.overrides or d.get("imp")
                q = d["q"]
                if inlib and not (d.get("ca") or d.get("ma") or d.get("imp")) or q.startswith("mm::") and d["u"] in self.prog.fns:
                    continue
                if (d.get("ca") or d.get("ma")) and d["u"] not in self.prog.fns:
                    o = f.obj(i) if f.obj(i) >= 0 else (f.args(i)[0] if f.args(i) else -1)
                    if o >= 0 and not self.is_local_scalar(f, o):
                        yield i, self.resolve(f, o)
                    continue
                if d.get("imp"):
                    continue
                o = f.obj(i)
                if k == "Call" and o >= 0 and not d.get("cm") and not d.get("st") and d.get("cls"):
                    pure = PURE_STD.search(q) and not (q.endswith("operator[]") and MAPLIKE.match(q))
                    if not pure and not self.is_local_scalar(f, o):
                        yield i, self.resolve(f, o)
                for ix, (a, pt) in enumerate(zip(f.args(i), d.get("p", []))):
                    t = d["_tab"].types[pt] if "_tab" in d else f.ty(pt)
                    if t and t["k"] in ("ref", "ptr"):
                        e = (d["_tab"].types[t["e"]] if "_tab" in d else f.ty(t["e"])) or {}
                        if not e.get("q") and e.get("k") != "func" and not PASS_STD.match(q):
                            if d.get("oo") in ("<<", ">>", "==", "!=") and ix == 0 and d.get("oo") != "<<":
                                if d.get("oo") in ("==", "!="):
                                    continue
                            yield i, self.resolve(f, a)

    def is_local_scalar(self, f, i):
        j = f.strip(i)
        if f.k(j) == "DeclRefExpr":
            d = f.decl(j)
            t = f.ty(d.get("t")) or {}
            if d.get("u") in self.prog.vars:
                return False
            return t.get("k") not in ("ref", "rref")
        return False

    @property
    def mod(self):
        if self._mod is None:
            m = {}
            for u, f in self.prog.fns.items():
                s = {}
                ctor = f.d.get("ctor")
                if self.barrier(f):
                    m[u] = s
                    continue
                for i, els in self.writes(f):
                    if self.locked(f, i):
                        continue
                    for e in els:
                        s.setdefault(e, (i, None, None))
                m[u] = s
                self.direct[u] = dict(s)
            ch = collections.deque(m)
            inq = set(m)
            rounds = 0
            callers = collections.defaultdict(list)
            for u, f in self.prog.fns.items():
                for i in f.calls():
                    for t in self.prog.targets(f, i):
                        if t in m:
                            callers[t].append((u, i))
                for i, n in enumerate(f.nodes):
                    if n[0] == "LambdaExpr":
                        pass
            while ch:
                t = ch.popleft(); inq.discard(t)
                for u, i in callers.get(t, ()):
                    f = self.prog.fns[u]
                    if self.barrier(f) or self.locked(f, i):
                        continue
                    s = m[u]
                    add = False
                    for e in list(m[t]):
                        for e2 in self.subst(f, i, e):
                            if e2 not in s and len(s) < 400:
                                s[e2] = (i, t, e); add = True
                    if add and u not in inq:
                        inq.add(u); ch.append(u)
            self._mod = m
        return self._mod

    def locked(self, f, i):
        """node i runs while a lock object is alive, or inside a static initialiser"""
        c = f.__dict__.get("_locks")
        if c is None:
            c = f._locks = []
            for j, n in enumerate(f.nodes):
                if n[0] == "DeclStmt":
                    for dd, init in n[4]["vars"]:
                        t = f.ty(f.tab.decls[dd].get("t")) or {}
                        if LOCKS.match(t.get("r", "") or "") or LOCKS.match(t.get("s", "") or ""):
                            scope = f.parent.get(j)
                            c.append((j, scope))
        for j, scope in c:
            if j < i:
                p = i
                while p is not None:
                    if p == scope:
                        return True
                    p = f.parent.get(p)
        return False

    def chain(self, u, e, n=8):
        out = []
        while n and u in self.mod and e in self.mod[u]:
            i, t, e2 = self.mod[u][e]
            f = self.prog.fns[u]
            out.append("%s: %s: %s" % (f.loc(i), f.q, f.text(i)[:80]))
            if t is None:
                break
            u, e = t, e2
            n -= 1
        return out
