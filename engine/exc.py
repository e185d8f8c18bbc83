"""exceptions: which functions may let a library error escape, which never return"""
from lib import *


def handler_blocks(fn):
    """catch statement node -> entry block"""
    r = {}
    for b, v in fn.blocks.items():
        l = v.get("lab")
        if isinstance(l, int) and l >= 0 and fn.k(l) == "CXXCatchStmt":
            r[l] = b
    return r


class Exc:
    def __init__(self, prog):
        self.prog = prog
        self._noret = None
        self._may = None

    # -- functions that never complete normally
    @property
    def noret(self):
        if self._noret is None:
            nr = set()
            ch = True
            while ch:
                ch = False
                for u, f in self.prog.fns.items():
                    if u in nr or f.entry is None:
                        continue
                    if not self.completes(f, f.entry, nr):
                        nr.add(u); ch = True
            self._noret = nr
        return self._noret

    def stops(self, f, b, nr=None):
        """control does not leave block b normally"""
        nr = self.noret if nr is None else nr
        v = f.blocks[b]
        if v.get("nr"):
            return True
        for e in v["e"]:
            if isinstance(e, int):
                k = f.k(e)
                if k == "Throw":
                    return True
                if k == "Call" and not f.x(e).get("v"):
                    d = f.callee(e)
                    if d and d["u"] in nr:
                        return True
        return False

    def completes(self, f, b0, nr=None, region=None):
        """can the function exit be reached normally from block b0?"""
        st, seen = [b0], set()
        if nr is None:
            nr = self.noret
        disp = {}
        for d, lo, tb in f.tries:
            disp[tb] = str(d)
        # handlers are entered from any block of their try range
        regs = []
        for d, lo, tb in f.tries:
            if d >= 0:
                regs.append((str(d), {b for b, v in f.blocks.items() if any((e if isinstance(e, int) else (e[2] if e[0] == "init" else -1)) in range(lo, tb + 1) for e in v["e"])}))
        while st:
            b = st.pop()
            if b in seen:
                continue
            seen.add(b)
            if b == f.exit:
                return True
            for d, bl in regs:
                if b in bl:
                    st.append(d)
            if self.stops(f, b, nr):
                continue
            st.extend(s for s in f.blocks[b]["s"] if s is not None)
        return False

    # -- try statements enclosing a node, innermost first
    def enclosing_tries(self, f, i):
        out = []
        for d, lo, tb in f.tries:
            if lo <= i <= tb:
                if i in self._sub(f, tb):
                    out.append((tb - lo, tb))
        return [t for _, t in sorted(out)]

    def _sub(self, f, i):
        c = f.__dict__.setdefault("_subs", {})
        if i not in c:
            s, st = set(), [i]
            par = None
            while st:
                n = st.pop()
                if n is None or n < 0 or n in s:
                    continue
                s.add(n)
                st.extend(f.kids(n))
                x = f.x(n)
                for key in ("then", "else", "body", "cond"):
                    if isinstance(x.get(key), int):
                        st.append(x[key])
            c[i] = s
        return c[i]

    def handlers(self, f, tb):
        # tb is the block of the try statement
        t = f.parent.get(tb)
        return [k for k in (f.kids(t) if t is not None else ()) if k >= 0 and f.k(k) == "CXXCatchStmt"]

    def catches(self, f, h, what):
        """does handler h catch exceptions of record `what` (or all)"""
        ct = f.x(h).get("ct", -1)
        if ct is None or ct < 0:
            return True
        t = f.ty(ct)
        while t and t["k"] in ("ref", "rref", "ptr"):
            t = f.ty(t["e"])
        r = (t or {}).get("r")
        return r == what or (what and r in self.prog.bases(what)) or (r == "std::exception" and what.startswith("std::"))

    def can_throw(self, f, h):
        """handler may end in a throw"""
        body = self._sub(f, h)
        for n in body:
            if f.k(n) == "Throw":
                return True
            if f.k(n) == "Call" and f.callee(n) and f.callee(n)["u"] in self.noret:
                return True
        return False

    def escapes(self, f, i, what):
        """an exception of type what raised at node i leaves f"""
        for tb in self.enclosing_tries(f, i):
            for h in self.handlers(f, tb):
                if self.catches(f, h, what):
                    if not self.can_throw(f, h):
                        return False
                    break
        return True

    @property
    def may(self):
        """usr -> (node, reason) for functions that may let a library error escape"""
        if self._may is None:
            may = {}
            work = []
            for u, f in self.prog.fns.items():
                for i, n in enumerate(f.nodes):
                    if n[0] == "Throw" and f.kids(i) and (f.type(f.kids(i)[0]) or {}).get("r") == "mm::PdfError" and self.escapes(f, i, "mm::PdfError"):
                        may[u] = (i, None); work.append(u); break
            while work:
                u = work.pop()
                for c in self.prog.callers.get(u, ()):
                    if c in may:
                        continue
                    f = self.prog.fns[c]
                    if f.d.get("dtor") and False:
                        continue
                    for i, t in self.prog.edges(f):
                        if t == u and i is not None and f.k(i) != "LambdaExpr" and self.escapes(f, i, "mm::PdfError"):
                            may[c] = (i, u); work.append(c); break
            self._may = may
        return self._may
