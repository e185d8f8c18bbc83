"""small reusable analyses on top of the program model"""
from model import *


class Must(Flow):
    """facts that hold on every path; gen(fn,e)->iterable, kill(fn,e,fact)->bool"""

    def __init__(self, fn, gen, kill=None, start=frozenset(), edge=None):
        super().__init__(fn)
        self.gen, self.killf, self.start, self.edgef = gen, kill, frozenset(start), edge

    def init(self): return self.start
    def join(self, a, b): return a & b

    def elem(self, s, e):
        if self.killf and s:
            s = frozenset(x for x in s if not self.killf(self.fn, e, x))
        g = self.gen(self.fn, e)
        return s | frozenset(g) if g else s

    def edge(self, s, c, truth, b):
        if self.edgef:
            g = self.edgef(self.fn, c, truth)
            if g:
                s = s | frozenset(g)
        return s


class May(Must):
    def join(self, a, b): return a | b


def dead(fn, i):
    """statement i cannot be reached from the function's entry (it has no control-flow block, or only unreachable ones)"""
    r = getattr(fn, "_livebl", None)
    if r is None:
        r, st = set(), [fn.entry] if fn.entry is not None else []
        while st:
            b = st.pop()
            if b in r or b is None or b not in fn.blocks:
                continue
            r.add(b)
            st.extend(fn.blocks[b]["s"])
            for disp, lo, tb in fn.tries:
                if disp >= 0:
                    st.append(str(disp))
        fn._livebl = r
    while i is not None and i not in fn.where:
        i = fn.parent.get(i)
    return i is not None and fn.where[i][0] not in r


def states_of(flow):
    flow.run()
    return {(b, ix): s for b, ix, e, s in flow.states()}


def literals(fn, i):
    return [fn.x(j)["s"] for j in fn.subtree(i) if j >= 0 and fn.k(j) == "StringLiteral" and "s" in fn.x(j)]


def root_var(path):
    """first component of an access path"""
    m = re.match(r"[&*(]*(this|v\d+:\w+|g:[\w:]+)", path or "")
    return m.group(1) if m else None


def is_arith(t):
    return t is not None and t["k"] in ("int", "flt", "bool")


def class_fns(prog, q):
    return [f for f in prog.fns.values() if f.cls == q]


def init_of(fn, d):
    """initialiser expression of local variable decl d, or -1"""
    for i, n in enumerate(fn.nodes):
        if n[0] == "DeclStmt":
            for dd, init in n[4]["vars"]:
                if dd == d:
                    return init
    return -1


def var_of(fn, i):
    """decl index of the local variable/parameter an expression names"""
    i = fn.strip(i)
    if i >= 0 and fn.k(i) == "DeclRefExpr":
        return fn.x(i)["d"]
    return None


def nearest(fn, i, pred):
    p = fn.parent.get(i)
    while p is not None:
        if pred(p):
            return p
        p = fn.parent.get(p)
    return None


def bool_def(fn, c):
    """the condition a local boolean (or stored pointer test) was initialised with, if that is its only value"""
    i = fn.strip(c)
    if i < 0 or fn.k(i) != "DeclRefExpr":
        return None
    t = fn.type(i)
    d = fn.x(i)["d"]
    if fn.tab.decls[d]["k"] != "var" or not t or t["k"] != "bool":
        return None
    ini = var_inits(fn).get(d, [])
    return ini[0] if len(ini) == 1 else None


class _Dom(Must):
    def __init__(self, fn):
        super().__init__(fn, lambda f, e: ())

    def edge(self, s, c, truth, b, depth=0):
        s = s | {(c, truth)}
        d = bool_def(self.fn, c)
        if d is not None and (d, truth) not in s:
            s = self.expand(s, d, truth)
        return s

    def expand(self, s, c, truth):
        """atoms implied by the value of an expression evaluated earlier"""
        fn = self.fn
        c = fn.strip(c)
        if c < 0:
            return s
        k, t, ln, kids, x = fn.nodes[c]
        if k == "UnaryOperator" and x["op"] == "!":
            return self.expand(s, kids[0], not truth)
        if k == "BinaryOperator" and x["op"] in ("&&", "||"):
            if truth == (x["op"] == "&&"):
                return self.expand(self.expand(s, kids[0], truth), kids[1], truth)
            return s | {(c, truth)}
        if k == "Paren":
            return self.expand(s, kids[0], truth)
        if (c, truth) in s:
            return s
        return self.edge(s, c, truth, None)

    def case(self, s, v, lab):
        c = v.get("tc")
        return s | {(c, ("case", lab))} if c is not None else s


def dom_conds(fn):
    """(block, index) -> set of (atomic condition node, truth) that hold control-wise"""
    c = fn.__dict__.get("_domc")
    if c is None:
        c = fn._domc = states_of(_Dom(fn)) if fn.entry is not None else {}
    return c


def conds_at(fn, i):
    """conditions that dominate node i (looking outwards for its CFG element)"""
    dc = dom_conds(fn)
    while i is not None and i not in fn.where:
        i = fn.parent.get(i)
    return dc.get(fn.where[i], frozenset()) if i is not None else frozenset()


def paths_in(fn, i):
    """all access paths occurring in an expression"""
    out = set()
    for j in fn.subtree(i):
        if j >= 0:
            p = fn.path(j)
            if p and not p.startswith("#"):
                out.add(p.lstrip("*&"))
    return out


def vars_in(fn, i):
    return {fn.x(j)["d"] for j in fn.subtree(i) if j >= 0 and fn.k(j) == "DeclRefExpr" and fn.tab.decls[fn.x(j)["d"]]["k"] in ("var", "parm")}


def var_inits(fn):
    """decl -> all expressions assigned to it (initialiser and assignments)"""
    c = fn.__dict__.get("_vini")
    if c is None:
        c = fn._vini = {}
        for i, n in enumerate(fn.nodes):
            if n[0] == "DeclStmt":
                for dd, init in n[4]["vars"]:
                    if init >= 0:
                        c.setdefault(dd, []).append(init)
            elif n[0] == "BinaryOperator" and n[4]["op"] == "=" or n[0] == "CompoundAssign":
                d = var_of(fn, n[3][0])
                if d is not None:
                    c.setdefault(d, []).append(n[3][1])
    return c


class _Atoms(_Dom):
    pass


def edge_atoms(fn, b, ix):
    """atomic conditions decided by taking successor ix of block b"""
    v = fn.blocks[b]
    c = v.get("tc")
    if c is None or c < 0 or len(v["s"]) != 2 or v.get("tk") == "SwitchStmt":
        return frozenset()
    m = fn.__dict__.setdefault("_eat", {})
    r = m.get((b, ix))
    if r is None:
        r = m[(b, ix)] = _Atoms(fn).refine(frozenset(), c, ix == 0, b)
    return r


def cut_if(pred):
    """edge filter for passes_from: leaves out edges on which pred(f, condition, truth) holds for an atom"""
    return lambda f, b, ix: any(pred(f, c, t) for c, t in edge_atoms(f, b, ix))


class Values(Flow):
    """possible constant values of one quantity (an expression recognised by subject), from a finite universe"""

    def __init__(self, fn, subject, universe, start=None):
        super().__init__(fn)
        self.subject, self.u = subject, frozenset(universe)
        self.start = self.u if start is None else frozenset(start)

    def init(self): return self.start
    def join(self, a, b): return a | b

    def elem(self, s, e):
        fn = self.fn
        if isinstance(e, int) and fn.k(e) == "BinaryOperator" and fn.x(e)["op"] == "=" and self.subject(fn, fn.kids(e)[0]):
            v = fn.cv(fn.kids(e)[1])
            return frozenset([v]) if v is not None else self.u
        return s

    def cases(self, blk):
        r = set()
        for t in blk["s"]:
            l = self.fn.blocks[t].get("lab") if t in self.fn.blocks else None
            if l is not None and self.fn.k(l) == "CaseStmt" and self.fn.cv(l) is not None:
                r.add(self.fn.cv(l))
        return r

    def case(self, s, blk, lab):
        fn = self.fn
        c = blk.get("tc")
        if c is None or c < 0 or not self.subject(fn, c):
            return s
        if lab is not None and fn.k(lab) == "CaseStmt" and fn.cv(lab) is not None:
            return s & {fn.cv(lab)}
        return s - self.cases(blk)

    def edge(self, s, c, truth, b):
        fn = self.fn
        i = fn.strip(c)
        if fn.k(i) == "BinaryOperator" and fn.x(i)["op"] in ("==", "!="):
            a, b2 = fn.kids(i)
            for p, q in ((a, b2), (b2, a)):
                v = fn.cv(q)
                if v is not None and self.subject(fn, p):
                    return s & {v} if truth == (fn.x(i)["op"] == "==") else s - {v}
        return s
