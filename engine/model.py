"""Whole-program model over the extracted facts: functions with resolved nodes
and CFG, records, enums, variables, call graph with class-hierarchy resolution
of virtual calls, and a small set of generic analyses."""
import json, re, sys, os, collections
from driver import extract, AnalysisError

U = re.compile(rb'"u":"((?:[^"\\]|\\.)*)"')
DECLINE = (b'{"K":"types"', b'{"K":"decls"')

CASTS = {"Cast"}


class Tab:
    __slots__ = ("types", "decls")


class Fn:
    """one function definition"""

    def __init__(self, rec, tab, prog):
        self.prog = prog
        self.tab = tab
        self.usr = rec["u"]
        self.q = rec["q"]
        self.file = rec["file"]
        self.line = rec["line"]
        self.end = rec["end"]
        self.par = rec.get("par")
        self.params = rec["params"]
        self.inits = rec.get("inits", [])
        self.body = rec["body"]
        self.nodes = rec["nodes"]
        self.tries = rec.get("tries", [])
        self.d = tab.decls[rec["d"]]
        self.did = rec["d"]
        self.entry = str(rec["entry"]) if "entry" in rec else None
        self.exit = str(rec["exit"]) if "exit" in rec else None
        self.blocks = {}
        for b, v in rec.get("blocks", {}).items():
            seen, els = set(), []
            for e in v["e"]:
                if isinstance(e, int):
                    if e in seen or e < 0:
                        continue
                    seen.add(e)
                els.append(e)
            v["e"] = els
            ns = []
            for s in v["s"]:
                if s is None:
                    ns.append(None)
                elif s <= -1000000:
                    ns.append(str(-s - 1000000))
                else:
                    ns.append(str(s))
            v["s"] = ns
            self.blocks[b] = v
        self._parent = None
        self._where = None
        self._preds = None
        self._path = {}

    # -- basic access
    def k(self, i): return self.nodes[i][0]
    def line_of(self, i): return self.nodes[i][2] if i is not None and i >= 0 else self.line
    def kids(self, i): return self.nodes[i][3]
    def x(self, i): return self.nodes[i][4]
    def type(self, i):
        t = self.nodes[i][1]
        return self.tab.types[t] if t >= 0 else None
    def ty(self, tid): return self.tab.types[tid] if tid is not None and tid >= 0 else None
    def decl(self, i):
        d = self.nodes[i][4].get("d")
        return self.tab.decls[d] if d is not None else None
    def callee(self, i):
        f = self.nodes[i][4].get("f")
        return self.tab.decls[f] if f is not None else None
    def obj(self, i): return self.nodes[i][4].get("o", -1)
    def args(self, i): return self.nodes[i][4].get("a", [])
    def cv(self, i):
        v = self.nodes[i][4].get("cv")
        return int(v) if v is not None else None
    def loc(self, i=None):
        return "src/%s:%d" % (self.file, self.line_of(i) if i is not None else self.line)
    @property
    def cls(self): return self.d.get("cls")
    @property
    def name(self): return self.q.split("::")[-1] if not self.q.endswith(")") else self.q
    def sig(self):
        return "%s(%s)" % (self.q, ", ".join(short(self.tab.types[p]["s"]) for p in self.d.get("p", []))) + (" const" if self.d.get("cm") else "")

    # -- structure
    @property
    def parent(self):
        if self._parent is None:
            p = {}
            for i, n in enumerate(self.nodes):
                for c in n[3]:
                    if c >= 0 and c not in p:
                        p[c] = i
                for key in ("then", "else", "body"):
                    c = n[4].get(key)
                    if isinstance(c, int) and c >= 0 and c not in p:
                        p[c] = i
            self._parent = p
        return self._parent
    @property
    def where(self):
        """node -> (block, index)"""
        if self._where is None:
            w = {}
            for b, v in self.blocks.items():
                for ix, e in enumerate(v["e"]):
                    if isinstance(e, int) and e not in w:
                        w[e] = (b, ix)
                    elif isinstance(e, list) and e[0] == "init":
                        w.setdefault(e[2], (b, ix))
            self._where = w
        return self._where
    @property
    def preds(self):
        if self._preds is None:
            p = {b: [] for b in self.blocks}
            for b, v in self.blocks.items():
                for s in v["s"]:
                    if s is not None:
                        p[s].append(b)
            self._preds = p
        return self._preds

    def subtree(self, i):
        st, seen = [i], set()
        while st:
            n = st.pop()
            if n is None or n < 0 or n in seen:
                continue
            seen.add(n)
            yield n
            st.extend(self.nodes[n][3])

    def calls(self):
        for i, n in enumerate(self.nodes):
            if n[0] in ("Call", "Construct"):
                yield i

    def strip(self, i):
        """look through casts that do not change which object/value is meant"""
        while i >= 0 and self.nodes[i][0] == "Cast":
            i = self.nodes[i][3][0]
        return i

    def path(self, i):
        """canonical access path of an expression, or None"""
        if i in self._path:
            return self._path[i]
        self._path[i] = None
        r = self._path[i] = self._mkpath(i)
        return r

    def _mkpath(self, i):
        if i < 0:
            return None
        k, t, ln, kids, x = self.nodes[i]
        if k == "This":
            return "this"
        if k == "DeclRefExpr":
            d = self.tab.decls[x["d"]]
            if d["k"] in ("var", "parm"):
                return "v%d:%s" % (x["d"], d["q"].split("::")[-1]) if not d.get("g") else "g:" + d["q"]
            if d["k"] == "fn":
                return "f:" + d["q"]
            if d["k"] == "enumc":
                return "e:" + d["q"]
            return "d:" + d["q"]
        if k == "MemberExpr":
            b = self.path(kids[0]) if kids else "this"
            if b is None:
                return None
            d = self.tab.decls[x["d"]]
            return b + "." + d["q"].split("::")[-1]
        if k == "Cast":
            return self.path(kids[0])
        if k == "UnaryOperator" and x["op"] in ("*", "&"):
            b = self.path(kids[0])
            if b is None:
                return None
            if x["op"] == "*":
                return b[1:] if b.startswith("&") else "*" + b
            return b[1:] if b.startswith("*") else "&" + b
        if k == "Call":
            f = self.callee(i)
            if not f:
                return None
            if f.get("oo") in ("->", "*") and x["o"] >= 0 and not x["a"]:
                b = self.path(x["o"])
                return None if b is None else ("*" + b)
            if f.get("oo") and f["oo"] not in ("[]",):
                return None
            if f.get("conv"):
                b = self.path(x["o"])
                return b
            ps = []
            for a in x["a"]:
                p = self.path(a)
                if p is None:
                    return None
                ps.append(p)
            b = ""
            if x["o"] >= 0:
                b = self.path(x["o"])
                if b is None:
                    return None
            return "%s.%s(%s)" % (b, f["q"].split("::")[-1], ",".join(ps))
        if k == "ArraySubscriptExpr":
            a, b = self.path(kids[0]), self.path(kids[1])
            return None if a is None or b is None else "%s[%s]" % (a, b)
        if "cv" in x:
            return "#" + str(x["cv"])
        if k == "StringLiteral" and "s" in x:
            return json.dumps(x["s"])
        if k == "Construct" and len(kids) == 1:
            return self.path(kids[0])
        if k == "CXXNullPtrLiteralExpr":
            return "#null"
        return None

    def text(self, i, depth=0):
        """approximate source rendering, for reports only"""
        if i is None or i < 0:
            return ""
        if depth > 6:
            return "…"
        k, t, ln, kids, x = self.nodes[i]
        T = lambda j: self.text(j, depth + 1)
        if k == "This": return "this"
        if k == "DeclRefExpr": return self.tab.decls[x["d"]]["q"].split("::")[-1]
        if k == "MemberExpr":
            b = T(kids[0]) if kids else ""
            return (b + "." if b and b != "this" else "") + self.tab.decls[x["d"]]["q"].split("::")[-1]
        if k == "Cast": return T(kids[0])
        if k in ("Call", "Construct"):
            f = self.callee(i)
            nm = f["q"].split("::")[-1] if f else T(x["o"])
            if f and f.get("oo"):
                ops = ([x["o"]] if x["o"] >= 0 else []) + x["a"]
                if f["oo"] == "[]" and len(ops) == 2: return "%s[%s]" % (T(ops[0]), T(ops[1]))
                if len(ops) == 2: return "%s %s %s" % (T(ops[0]), f["oo"], T(ops[1]))
                return f["oo"] + T(ops[0]) if ops else nm
            if k == "Construct":
                return T(x["a"][0]) if len(x["a"]) == 1 else "%s(%s)" % (nm, ", ".join(T(a) for a in x["a"]))
            o = T(x["o"]) if f and x["o"] >= 0 else ""
            return (o + "." if o and o != "this" else "") + nm + "(" + ", ".join(T(a) for a in x["a"]) + ")"
        if k in ("BinaryOperator", "CompoundAssign"): return "%s %s %s" % (T(kids[0]), x["op"], T(kids[1]))
        if k == "UnaryOperator": return (x["op"] + T(kids[0])) if not x["op"].startswith("p") else T(kids[0]) + x["op"][1:]
        if k == "StringLiteral": return '"' + x.get("s", "?") + '"'
        if k == "ArraySubscriptExpr": return "%s[%s]" % (T(kids[0]), T(kids[1]))
        if "cv" in x: return str(x["cv"])
        if k == "CXXNullPtrLiteralExpr": return "nullptr"
        return k


def short(s):
    return s.replace("mm::", "").replace("std::", "")


class Program:
    def __init__(self):
        files, self.tus = extract()
        self.fns = {}       # usr -> Fn
        self.recs = {}      # qualified name -> record
        self.enums = {}
        self.vars = {}
        self.overrides = collections.defaultdict(set)   # base usr -> direct overriders' usr
        self.declby = {}    # usr -> decl dict (functions)
        for f in files:
            pend, types, decls = [], None, None
            with open(f, "rb") as fh:
                for l in fh:
                    if l.startswith(b'{"K":"fn"'):
                        u = U.search(l).group(1).decode()
                        u = json.loads('"' + u + '"')
                        if u in self.fns:
                            continue
                        self.fns[u] = None
                        pend.append(json.loads(l))
                    elif l.startswith(b'{"K":"types"'):
                        types = json.loads(l)["v"]
                    elif l.startswith(b'{"K":"decls"'):
                        decls = json.loads(l)["v"]
                    else:
                        pend.append(json.loads(l))
            if types is None or decls is None:
                raise AnalysisError("truncated fact file " + f)
            tab = Tab(); tab.types = types; tab.decls = decls
            for d in decls:
                if d.get("k") == "fn":
                    if d["u"] not in self.declby:
                        d["_tab"] = tab
                        self.declby[d["u"]] = d
                    for o in d.get("ov", []):
                        self.overrides[decls[o]["u"]].add(d["u"])
            for r in pend:
                K = r["K"]
                if K == "fn":
                    self.fns[r["u"]] = Fn(r, tab, self)
                elif K == "rec":
                    r["tab"] = tab
                    self.recs.setdefault(r["q"], r)
                elif K == "enum":
                    self.enums.setdefault(r["q"], r)
                elif K == "var":
                    r["tab"] = tab
                    old = self.vars.get(r["u"])
                    if old is None or ("val" in r and "val" not in old):
                        self.vars[r["u"]] = r
        self.fns = {u: f for u, f in self.fns.items() if f is not None}
        if len(self.fns) < 2500:
            raise AnalysisError("only %d functions extracted" % len(self.fns))
        self._allov = {}
        self._callees = None
        self._callers = None
        self._byq = None
        self.lambdas = collections.defaultdict(list)
        for f in self.fns.values():
            if f.par:
                self.lambdas[f.par].append(f)

    # -- lookup
    def by_q(self, q):
        if self._byq is None:
            self._byq = collections.defaultdict(list)
            for f in self.fns.values():
                self._byq[f.q].append(f)
        return self._byq.get(q, [])

    def need(self, q):
        r = self.by_q(q)
        if not r:
            raise AnalysisError("anchor function not found: " + q)
        return r

    def rec(self, q):
        if q not in self.recs:
            raise AnalysisError("anchor class not found: " + q)
        return self.recs[q]

    def enum(self, q):
        if q not in self.enums:
            raise AnalysisError("anchor enum not found: " + q)
        return self.enums[q]

    def all_overriders(self, u):
        r = self._allov.get(u)
        if r is None:
            r, st = set(), [u]
            while st:
                x = st.pop()
                for y in self.overrides.get(x, ()):
                    if y not in r:
                        r.add(y); st.append(y)
            self._allov[u] = r
        return r

    def bases(self, q):
        """transitive base class names"""
        out, st = set(), [q]
        while st:
            r = self.recs.get(st.pop())
            if not r:
                continue
            for b in r["bases"]:
                if b[0] not in out:
                    out.add(b[0]); st.append(b[0])
        return out

    def derived(self, q):
        return {r for r in self.recs if q in self.bases(r)}

    def targets(self, fn, i):
        """USRs of functions a call node may invoke (class-hierarchy analysis)"""
        d = fn.callee(i)
        if d is None:
            return set()
        r = {d["u"]}
        if fn.x(i).get("v"):
            r |= self.all_overriders(d["u"])
        return r

    def edges(self, fn):
        """(node, target usr) for every call, construction, implicit destructor
        call and lambda created in fn"""
        for i in fn.calls():
            for u in self.targets(fn, i):
                yield i, u
        for b in fn.blocks.values():
            for e in b["e"]:
                if isinstance(e, list) and e[0] == "dtor":
                    u = self.dtor_of_type(fn.ty(fn.tab.decls[e[1]]["t"]))
                    if u:
                        yield None, u
        for i, n in enumerate(fn.nodes):
            if n[0] == "LambdaExpr":
                d = fn.callee(i)
                if d:
                    yield i, d["u"]

    def dtor_of_type(self, t):
        if not t or t.get("k") != "rec":
            return None
        r = self.recs.get(t["r"])
        if not r:
            return None
        for m in r["methods"]:
            d = r["tab"].decls[m[0]]
            if d.get("dtor") and m[1]:
                return d["u"]
        return None

    @property
    def callees(self):
        if self._callees is None:
            self._callees = {}
            for u, f in self.fns.items():
                self._callees[u] = {t for _, t in self.edges(f)}
        return self._callees

    @property
    def callers(self):
        if self._callers is None:
            self._callers = collections.defaultdict(set)
            for u, ts in self.callees.items():
                for t in ts:
                    self._callers[t].add(u)
        return self._callers

    def reach(self, roots, stop=lambda u: False):
        seen, st = set(), list(roots)
        while st:
            u = st.pop()
            if u in seen:
                continue
            seen.add(u)
            if stop(u):
                continue
            st.extend(self.callees.get(u, ()))
        return seen


# ------------------------------------------------------------------ dataflow
class Flow:
    """forward dataflow over one CFG.  State is any hashable/comparable value;
    None means unreachable.  Subclasses provide init/join/elem/edge."""

    def __init__(self, fn):
        self.fn = fn

    def init(self): raise NotImplementedError
    def join(self, a, b): raise NotImplementedError
    def elem(self, s, e): return s           # e: node id | ["init",..] | ["dtor",..]
    def edge(self, s, cond, truth, block): return s
    def case(self, s, sw, lab): return s     # switch edge

    def run(self):
        fn = self.fn
        if fn.entry is None:
            raise AnalysisError("no CFG for " + fn.q)
        ins = {fn.entry: self.init()}
        work = collections.deque([fn.entry])
        inq = {fn.entry}
        # try regions
        regions = []
        for disp, lo, tb in fn.tries:
            if disp >= 0:
                blocks = set()
                for b, v in fn.blocks.items():
                    for e in v["e"]:
                        n = e if isinstance(e, int) else (e[2] if e[0] == "init" else None)
                        if n is not None and lo <= n <= tb:
                            blocks.add(b); break
                regions.append((str(disp), lo, tb, blocks))
        self.ins = ins
        steps = 0

        def push(b, s):
            if s is None:
                return
            old = ins.get(b)
            n = s if old is None else self.join(old, s)
            if old is None or n != old:
                ins[b] = n
                if b not in inq:
                    inq.add(b); work.append(b)
        while work:
            steps += 1
            if steps > 200000:
                raise AnalysisError("dataflow does not converge in " + fn.q)
            b = work.popleft(); inq.discard(b)
            s = ins[b]
            v = fn.blocks[b]
            regs = [r for r in regions if b in r[3]]
            for e in v["e"]:
                if regs:
                    n = e if isinstance(e, int) else (e[2] if e[0] == "init" else -1)
                    for r in regs:
                        if n < 0 or r[1] <= n <= r[2]:
                            if n < 0 or fn.k(n) in ("Call", "Construct", "Throw", "New"):
                                push(r[0], self.exc(s, e))
                s = self.elem(s, e)
                if s is None:
                    break
            if s is None:
                continue
            if v.get("nr"):
                continue
            succ = v["s"]
            tc = v.get("tc")
            tk = v.get("tk")
            if tc is not None and len(succ) == 2 and tk != "SwitchStmt" and tc >= 0:
                for truth, t in ((True, succ[0]), (False, succ[1])):
                    if t is not None:
                        push(t, self.refine(s, tc, truth, b))
            elif tk == "SwitchStmt":
                for t in succ:
                    if t is not None:
                        push(t, self.case(s, v, fn.blocks[t].get("lab")))
            else:
                for t in succ:
                    if t is not None:
                        push(t, s)
        return ins

    def exc(self, s, e):
        """state seen by a handler when element e throws"""
        return s

    def refine(self, s, c, truth, b):
        """decompose a branch condition into atoms"""
        fn = self.fn
        if s is None or c < 0:
            return s
        k, t, ln, kids, x = fn.nodes[c]
        if k == "UnaryOperator" and x["op"] == "!":
            return self.refine(s, kids[0], not truth, b)
        if k == "BinaryOperator" and x["op"] in ("&&", "||"):
            l, r = kids
            conj = (x["op"] == "&&")
            if truth == conj:
                s = self.refine(s, l, truth, b)
                return self.refine(s, r, truth, b)
            # the operand evaluated last in this very block decides
            wb = fn.where.get(r)
            wl = fn.where.get(l)
            if wb and wb[0] == b and (not wl or wl[0] != b) and fn.blocks[b].get("tk") is not None and self._direct(c, b):
                return self.refine(s, r, truth, b)
            return s
        if k == "Cast" and x.get("ck") in ("IntegralToBoolean", "PointerToBoolean", "IntegralCast", "NoOp"):
            return self.refine(s, kids[0], truth, b) if x.get("ck") != "IntegralCast" else self.edge(s, c, truth, b)
        if k == "Call":
            f = fn.callee(c)
            if f and f["q"] == "__builtin_expect" and fn.args(c):
                return self.refine(s, fn.args(c)[0], truth, b)
        if k == "BinaryOperator" and x["op"] in ("==", "!="):
            # (expr == true/false)
            for a, o in ((kids[0], kids[1]), (kids[1], kids[0])):
                if fn.k(o) == "CXXBoolLiteralExpr" and fn.type(a) and fn.type(a)["k"] == "bool":
                    val = fn.cv(o) == 1
                    return self.refine(s, a, truth == ((x["op"] == "==") == val), b)
        return self.edge(s, c, truth, b)

    def _direct(self, c, b):
        # a direct && / || branch leaves no value for the whole condition: all
        # predecessors of b come from the left operand only when it is short-circuit
        return True

    def states(self):
        """yield (block, index, element, state-before) after run()"""
        fn = self.fn
        for b, s in list(self.ins.items()):
            v = fn.blocks[b]
            for ix, e in enumerate(v["e"]):
                if s is None:
                    break
                yield b, ix, e, s
                s = self.elem(s, e)

    def out_at_exit(self):
        return self.ins.get(self.fn.exit)


def scc(graph):
    """Tarjan, iterative; graph: node -> iterable"""
    index, low, on, st, out, n = {}, {}, set(), [], [], 0
    for root in graph:
        if root in index:
            continue
        work = [(root, iter(graph.get(root, ())))]
        index[root] = low[root] = n; n += 1
        st.append(root); on.add(root)
        while work:
            v, it = work[-1]
            adv = False
            for w in it:
                if w not in graph:
                    continue
                if w not in index:
                    index[w] = low[w] = n; n += 1
                    st.append(w); on.add(w)
                    work.append((w, iter(graph.get(w, ()))))
                    adv = True
                    break
                elif w in on:
                    low[v] = min(low[v], index[w])
            if adv:
                continue
            work.pop()
            if work:
                low[work[-1][0]] = min(low[work[-1][0]], low[v])
            if low[v] == index[v]:
                comp = []
                while True:
                    w = st.pop(); on.discard(w); comp.append(w)
                    if w == v:
                        break
                out.append(comp)
    return out
