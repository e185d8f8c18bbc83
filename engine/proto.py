"""Interprocedural protocol checks: facts about objects that must hold before an access.

A fact is (kind, path). ensures[u]: facts on this/parameters that hold whenever u returns normally.
Requirements of a function on its own this/parameters move to its call sites."""
import re
from lib import *

PAT = re.compile(r"^(this|v\d+:\w+)")


class Proto:
    def __init__(self, prog, direct, kill=None, scope=None, virt=True):
        """direct(fn, e) -> facts generated by element e itself; kill(fn, e, fact) -> bool"""
        self.prog, self.direct, self.kill, self.virt = prog, direct, kill, virt
        self.fns = {u: f for u, f in prog.fns.items() if f.entry is not None and (scope is None or scope(f))}
        self.ens = {u: frozenset() for u in self.fns}
        self.alias, self.start = {}, {}
        self._st = {}

    # -- paths
    def norm(self, f, p):
        if p is None:
            return None
        p = p.lstrip("*&")
        for _ in range(4):
            m = PAT.match(p)
            if not m or m.group(1) == "this":
                return p
            a = self.aliases(f).get(m.group(1))
            if a is None:
                return p
            p = (a + p[m.end():]).lstrip("*&")
        return p

    def aliases(self, f):
        r = self.alias.get(f.usr)
        if r is None:
            r = {}
            for i, n in enumerate(f.nodes):
                if n[0] == "DeclStmt":
                    for d, init in n[4]["vars"]:
                        t = f.ty(f.tab.decls[d]["t"]) if "t" in f.tab.decls[d] else None
                        if t and t["k"] == "ref" and init >= 0:
                            p = f.path(init)
                            if p and "(" not in p and "[" not in p:
                                r["v%d:%s" % (d, f.tab.decls[d]["q"].split("::")[-1])] = p
            self.alias[f.usr] = r
        return r

    def params(self, f):
        return ["v%d:%s" % (p[0], p[1]) if p[1] else None for p in f.params]

    def mapping(self, f, i, t):
        """formal path -> actual path for call node i of f to function t"""
        g = self.prog.fns.get(t)
        if g is None:
            return {}
        m = {}
        if f.k(i) == "Construct":
            args = f.args(i) or f.kids(i)
        else:
            args = f.args(i)
            o = f.obj(i)
            if o is not None and o >= 0:
                m["this"] = self.norm(f, f.path(o))
        for k, p in enumerate(self.params(g)):
            if p and k < len(args):
                m[p] = self.norm(f, f.path(args[k]))
        return m

    @staticmethod
    def sub(p, m):
        r = PAT.match(p)
        if not r:
            return p
        a = m.get(r.group(1))
        return None if a is None else a + p[r.end():]

    def targets(self, f, e):
        if isinstance(e, int):
            if f.k(e) not in ("Call", "Construct"):
                return []
            return [(e, t) for t in self.prog.targets(f, e)]
        return []

    def gen(self, f, e):
        out = set(self.direct(f, e) or ())
        if isinstance(e, list) and e[0] == "init" and e[1] == "" and e[2] is not None and e[2] >= 0:
            n = e[2]
            d = f.callee(n) if f.k(n) in ("Construct", "Call") else None
            if d:
                for k, p in self.ens.get(d["u"], ()):
                    if p.startswith("this"):
                        out.add((k, p))
        ts = self.targets(f, e)
        if ts:
            common = None
            for n, t in ts:
                es = self.ens.get(t, frozenset())
                got = set()
                if es:
                    m = self.mapping(f, n, t)
                    for k, p in es:
                        q = self.sub(p, m)
                        if q:
                            got.add((k, q))
                common = got if common is None else common & got
                if not common:
                    break
            out |= common or set()
        return out

    def killed(self, f, e, fact):
        if self.kill and self.kill(f, e, fact):
            return True
        # the variable gets a new meaning
        if isinstance(e, int):
            k = f.k(e)
            if k == "BinaryOperator" and f.x(e)["op"] == "=":
                p = f.path(f.kids(e)[0])
                if p and PAT.match(p) and (fact[1] == p or fact[1].startswith(p + ".")) and self.isptr(f, f.kids(e)[0]):
                    return True
            elif k == "DeclStmt":
                for d, _ in f.x(e)["vars"]:
                    p = "v%d:" % d
                    if fact[1].startswith(p):
                        return True
        return False

    def isptr(self, f, i):
        t = f.type(i)
        return t is not None and t["k"] == "ptr"

    def solve(self):
        fns = self.fns
        todo = set(fns)
        n = 0
        while todo and n < 30:
            n += 1
            nxt = set()
            for u in todo:
                f = fns[u]
                new = self.summary(f)
                if new != self.ens[u]:
                    self.ens[u] = new
                    nxt |= {c for c in self.prog.callers.get(u, ()) if c in fns}
            todo = nxt
        return self

    def interesting(self, f):
        for b in f.blocks.values():
            for e in b["e"]:
                if self.gen(f, e):
                    return True
        return False

    def summary(self, f):
        st = self.start.get(f.usr, frozenset())
        if not st and not self.interesting(f):
            return frozenset()
        fl = Must(f, self.gen, self.killed, start=st)
        fl.run()
        out = fl.out_at_exit()
        if out is None:
            return frozenset()
        ok = {"this"} | set(self.params(f)) - {None}
        return frozenset(x for x in out if PAT.match(x[1]) and PAT.match(x[1]).group(1) in ok)

    def at(self, f):
        r = self._st.get(f.usr)
        if r is None:
            fl = Must(f, self.gen, self.killed, start=self.start.get(f.usr, frozenset()))
            r = self._st[f.usr] = states_of(fl)
        return r

    def holds(self, f, i, fact):
        w = f.where.get(i)
        if w is None:
            return True
        s = self.at(f).get(w)
        return s is None or fact in s

    def own(self, f, p):
        m = PAT.match(p)
        return bool(m) and (m.group(1) == "this" or m.group(1) in self.params(f))


def passes(f, i, stop, throws_ok=True):
    """every normal path from node i to the exit meets an element e with stop(f, e)"""
    w = f.where.get(i)
    if w is None:
        return False
    b, ix = w
    st, seen = [(b, ix + 1)], set()
    while st:
        b, k = st.pop()
        v = f.blocks[b]
        hit = False
        for e in v["e"][k:]:
            if stop(f, e) or (throws_ok and isinstance(e, int) and f.k(e) == "Throw"):
                hit = True; break
        if hit or (v.get("nr") and throws_ok):
            continue
        if b == f.exit:
            return False
        for s in v["s"]:
            if s is not None and s not in seen:
                seen.add(s); st.append((s, 0))
    return True
