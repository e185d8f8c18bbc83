"""Boolean functions read off the syntax tree: decision diagrams over atomic comparisons.

cond() and stmt() translate statements into a decision tree; atoms are ('eq',a,b), ('lt',a,b), ('p',text)
over canonical terms; nothing is executed.  Loops and unknown effects raise Unsup: no verdict."""
from lib import *


class Unsup(Exception):
    pass


def body_of(f):
    """root statement of a function body"""
    r = f.__dict__.get("_root")
    if r is None:
        r = -1
        for i in range(len(f.nodes) - 1, -1, -1):
            if f.k(i) == "CompoundStmt" and f.parent.get(i) is None:
                r = i; break
        f._root = r
    return r


class Ev:
    LIMIT = 20000

    def __init__(self, prog, depth=4):
        self.prog, self.maxd, self.n = prog, depth, 0

    # -- entry
    def function(self, f, names):
        """decision tree of the value returned; names: this/parameter -> term"""
        env = {"this": names[0] if f.cls and not f.d.get("st") else "?"}
        ps = names[1:] if env["this"] != "?" else names
        for p, n in zip(f.params, ps):
            env[p[0]] = ("t", n)
        self.n = 0
        r = body_of(f)
        if r < 0:
            raise Unsup("no body")
        return self.stmt(f, r, env, lambda e, x: self.cond(f, x, e, lambda _: True, lambda _: False, 0), lambda e: "X", None, 0)

    def tick(self):
        self.n += 1
        if self.n > self.LIMIT:
            raise Unsup("too big")

    # -- statements
    def seq(self, f, L, env, ret, nxt, brk, d):
        if not L:
            return nxt(env)
        return self.stmt(f, L[0], env, ret, lambda e: self.seq(f, L[1:], e, ret, nxt, brk, d), brk, d)

    def stmt(self, f, i, env, ret, nxt, brk, d):
        self.tick()
        if i is None or i < 0:
            return nxt(env)
        k = f.k(i)
        if k == "CompoundStmt":
            return self.seq(f, f.kids(i), env, ret, nxt, brk, d)
        if k == "ReturnStmt":
            return ret(env, f.kids(i)[0] if f.kids(i) else None)
        if k == "IfStmt":
            x = f.x(i)
            if x.get("init", -1) is not None and x.get("init", -1) >= 0:
                return self.stmt(f, x["init"], env, ret, lambda e: self.ifs(f, i, e, ret, nxt, brk, d), brk, d)
            return self.ifs(f, i, env, ret, nxt, brk, d)
        if k == "SwitchStmt":
            return self.switch(f, i, env, ret, nxt, d)
        if k == "BreakStmt":
            if brk is None:
                raise Unsup("break")
            return brk(env)
        if k == "NullStmt":
            return nxt(env)
        if k == "DeclStmt":
            env = dict(env)
            snap = dict(env)
            for dd, init in f.x(i)["vars"]:
                env[dd] = ("l", f, init, snap) if init >= 0 else ("t", "undef%d" % dd)
            return nxt(env)
        if k == "ForStmt":
            x = f.x(i)

            def loop(e, left):
                if left <= 0:
                    raise Unsup("loop without constant bound")
                go = lambda e2: self.stmt(f, x["body"], e2, ret, lambda e3: self.stmt(f, x["inc"], e3, ret, lambda e4: loop(e4, left - 1), None, d), nxt, d)
                c = f.strip(x["cond"]) if x["cond"] >= 0 else -1
                if c < 0 or f.k(c) != "BinaryOperator" or f.x(c)["op"] not in ("<", "<=", "!=", ">", ">="):
                    raise Unsup("loop")
                a, b = (self.term(f, y, e, d) for y in f.kids(c))
                if not (a.startswith("#") and b.startswith("#")):
                    raise Unsup("loop without constant bound")
                a, b = int(a[1:]), int(b[1:])
                return go(e) if {"<": a < b, "<=": a <= b, "!=": a != b, ">": a > b, ">=": a >= b}[f.x(c)["op"]] else nxt(e)
            return self.stmt(f, x["init"], env, ret, lambda e: loop(e, 65), None, d)
        if k in ("WhileStmt", "DoStmt", "CXXForRangeStmt", "CXXTryStmt", "GotoStmt", "LabelStmt", "ContinueStmt"):
            raise Unsup(k)
        if k in ("CaseStmt", "DefaultStmt"):
            return self.stmt(f, f.kids(i)[-1], env, ret, nxt, brk, d)
        # expression
        if any(f.k(j) == "Throw" for j in f.subtree(i) if j >= 0):
            return "X"
        if k == "BinaryOperator" and f.x(i)["op"] == "=":
            l = f.strip(f.kids(i)[0])
            if f.k(l) == "DeclRefExpr":
                e2 = dict(env); e2[f.x(l)["d"]] = ("l", f, f.kids(i)[1], dict(env))
                return nxt(e2)
            raise Unsup("assignment")
        if k == "Call" and (f.callee(i) or {}).get("oo") == "=":
            ops = ([f.obj(i)] if f.obj(i) is not None and f.obj(i) >= 0 else []) + f.args(i)
            l = f.strip(ops[0])
            if len(ops) == 2 and f.k(l) == "DeclRefExpr":
                e2 = dict(env); e2[f.x(l)["d"]] = ("l", f, ops[1], dict(env))
                return nxt(e2)
        if k == "UnaryOperator" and f.x(i)["op"] in ("++", "--", "p++", "p--"):
            l = f.strip(f.kids(i)[0])
            if f.k(l) == "DeclRefExpr":
                t = self.term(f, l, env, d)
                if re.match(r"#-?\d+$", t):
                    e2 = dict(env); e2[f.x(l)["d"]] = ("t", "#%d" % (int(t[1:]) + (1 if "++" in f.x(i)["op"] else -1)))
                    return nxt(e2)
        if k == "CompoundAssign" or k == "UnaryOperator" and f.x(i)["op"] in ("++", "--", "p++", "p--"):
            raise Unsup("assignment")
        for j in f.subtree(i):
            if j >= 0 and (f.k(j) == "Call" and (f.callee(j) or {}).get("oo") == "=" or f.k(j) == "BinaryOperator" and f.x(j)["op"] == "="):
                raise Unsup("assignment")
        if k == "Call" and f.callee(i):
            g = self.prog.fns.get(f.callee(i)["u"])
            if g is not None and g.d.get("nr"):
                return "X"
        return nxt(env)

    def ifs(self, f, i, env, ret, nxt, brk, d):
        x = f.x(i)
        return self.cond(f, x["cond"], env, lambda e: self.stmt(f, x["then"], e, ret, nxt, brk, d),
                         lambda e: self.stmt(f, x["else"], e, ret, nxt, brk, d) if x["else"] is not None and x["else"] >= 0 else nxt(e), d)

    def switch(self, f, i, env, ret, nxt, d):
        x = f.x(i)
        t = self.term(f, x["cond"], env, d)
        items = []     # (labels, statement)
        body = x["body"]
        for s in (f.kids(body) if f.k(body) == "CompoundStmt" else [body]):
            labels = []
            while f.k(s) in ("CaseStmt", "DefaultStmt"):
                labels.append(("d",) if f.k(s) == "DefaultStmt" else ("c", f.x(s).get("cv"), self.label(f, s)))
                s = f.kids(s)[-1]
            items.append((labels, s))
        starts = []
        for ix, (ls, s) in enumerate(items):
            for l in ls:
                starts.append((l, ix))

        def go(ix, e):
            return self.seq(f, [s for _, s in items[ix:]], e, ret, nxt, nxt, d)
        default = [ix for l, ix in starts if l[0] == "d"]
        tree = (lambda: go(default[0], env)) if default else (lambda: nxt(env))
        for l, ix in reversed([z for z in starts if z[0][0] == "c"]):
            tree = (lambda l=l, ix=ix, rest=tree: self.mk(eq(t, "#%s" % l[1]), go(ix, env), rest()))
        return tree()

    def label(self, f, s):
        return f.text(f.kids(s)[0])

    # -- conditions
    def mk(self, a, hi, lo):
        self.tick()
        if isinstance(a, bool):
            return hi if a else lo
        if a[0] == "not":
            return self.mk(a[1], lo, hi)
        if hi is lo or hi == lo:
            return hi
        return ("?", a, hi, lo)

    def cond(self, f, i, env, kt, kf, d):
        self.tick()
        if i is None:
            raise Unsup("no value")
        i = f.strip(i)
        k = f.k(i)
        if f.k(i) in ("Paren", "Cast") and f.kids(i):
            return self.cond(f, f.kids(i)[0], env, kt, kf, d)
        c = f.cv(i)
        if c is not None:
            return kt(env) if c else kf(env)
        if k == "UnaryOperator" and f.x(i)["op"] == "!":
            return self.cond(f, f.kids(i)[0], env, kf, kt, d)
        if k == "BinaryOperator":
            op = f.x(i)["op"]
            a, b = f.kids(i)
            if op == "&&":
                return self.cond(f, a, env, lambda e: self.cond(f, b, e, kt, kf, d), kf, d)
            if op == "||":
                return self.cond(f, a, env, kt, lambda e: self.cond(f, b, e, kt, kf, d), d)
            if op in ("==", "!="):
                for p, q in ((a, b), (b, a)):
                    if isbool(f, p) and f.cv(q) is not None and f.k(f.strip(q)) == "CXXBoolLiteralExpr":
                        same = (f.cv(q) != 0) == (op == "==")
                        return self.cond(f, p, env, kt if same else kf, kf if same else kt, d)
                if isbool(f, a) and isbool(f, b):
                    same, other = (kt, kf) if op == "==" else (kf, kt)
                    return self.cond(f, a, env, lambda e: self.cond(f, b, e, same, other, d), lambda e: self.cond(f, b, e, other, same, d), d)
                at = eq(self.term(f, a, env, d), self.term(f, b, env, d))
                t, u = kt(env), kf(env)
                return self.mk(at, t, u) if op == "==" else self.mk(at, u, t)
            if op in ("<", ">", "<=", ">="):
                x, y = self.term(f, a, env, d), self.term(f, b, env, d)
                t, u = kt(env), kf(env)
                return {"<": lambda: self.mk(lt(x, y), t, u), ">": lambda: self.mk(lt(y, x), t, u),
                        "<=": lambda: self.mk(lt(y, x), u, t), ">=": lambda: self.mk(lt(x, y), u, t)}[op]()
            if op == ",":
                return self.cond(f, b, env, kt, kf, d)
        if k == "ConditionalOperator":
            a, b, c2 = f.kids(i)[:3]
            return self.cond(f, a, env, lambda e: self.cond(f, b, e, kt, kf, d), lambda e: self.cond(f, c2, e, kt, kf, d), d)
        if k == "DeclRefExpr":
            v = env.get(f.x(i)["d"])
            if v is not None and v[0] == "l":
                return self.cond(v[1], v[2], v[3], lambda _: kt(env), lambda _: kf(env), d)
        if k == "Call":
            cal = f.callee(i)
            oo = (cal or {}).get("oo") or f.x(i).get("op")
            if oo in ("==", "!=", "<", ">", "<=", ">="):
                ops = ([f.obj(i)] if f.obj(i) >= 0 else []) + f.args(i)
                if len(ops) == 2:
                    x, y = self.term(f, ops[0], env, d), self.term(f, ops[1], env, d)
                    g = self.inl(f, i, d) if re.match(r"\*?&?(LHS|RHS)$", x) and re.match(r"\*?&?(LHS|RHS)$", y) else None
                    if g is not None and g.usr != f.usr:
                        return self.call(f, i, g, env, kt, kf, d)
                    t, u = kt(env), kf(env)
                    return {"==": lambda: self.mk(eq(x, y), t, u), "!=": lambda: self.mk(eq(x, y), u, t), "<": lambda: self.mk(lt(x, y), t, u),
                            ">": lambda: self.mk(lt(y, x), t, u), "<=": lambda: self.mk(lt(y, x), u, t), ">=": lambda: self.mk(lt(x, y), u, t)}[oo]()
            if oo == "!":
                ops = ([f.obj(i)] if f.obj(i) >= 0 else []) + f.args(i)
                return self.cond(f, ops[0], env, kf, kt, d)
            nm = (cal or {}).get("q", "").split("::")[-1]
            if nm in ("operator==", "operator!=") and len(f.args(i)) + (f.obj(i) >= 0) == 2:
                ops = ([f.obj(i)] if f.obj(i) >= 0 else []) + f.args(i)
                at = eq(self.term(f, ops[0], env, d), self.term(f, ops[1], env, d))
                t, u = kt(env), kf(env)
                return self.mk(at, t, u) if nm == "operator==" else self.mk(at, u, t)
            g = self.inl(f, i, d)
            if g is not None:
                return self.call(f, i, g, env, kt, kf, d)
        at = ("p", self.term(f, i, env, d))
        return self.mk(at, kt(env), kf(env))

    def inl(self, f, i, d):
        if d >= self.maxd:
            return None
        cal = f.callee(i)
        if not cal or cal.get("virt") or cal.get("v"):
            return None
        g = self.prog.fns.get(cal["u"])
        if g is None or body_of(g) < 0 or len(g.nodes) > 160 or len(g.blocks) > 30:
            return None
        return g

    def call(self, f, i, g, env, kt, kf, d):
        ge = self.bind(f, i, g, env, d)

        def back(e):
            # what the callee stored in reference parameters
            out = dict(env)
            for p, a in zip(g.params, f.args(i)):
                t = g.ty(p[2])
                s = f.strip(a)
                if t and t["k"] == "ref" and not g.ty(t["e"]).get("q") and f.k(s) == "DeclRefExpr":
                    v = e.get(p[0])
                    if v is not None and not (v[0] == "l" and v[1] is f and v[2] == a):
                        out[f.x(s)["d"]] = v
            return out
        return self.stmt(g, body_of(g), ge, lambda e, x: self.cond(g, x, e, lambda e2: kt(back(e2)), lambda e2: kf(back(e2)), d + 1), lambda e: "X", None, d + 1)

    def bind(self, f, i, g, env, d):
        ge = {"this": "?"}
        o = f.obj(i)
        if g.cls and not g.d.get("st") and o is not None and o >= 0:
            ge["this"] = self.term(f, o, env, d).lstrip("&")
        for p, a in zip(g.params, f.args(i)):
            ge[p[0]] = ("l", f, a, env)
        return ge

    # -- terms
    def term(self, f, i, env, d=0):
        self.tick()
        i = f.strip(i)
        k = f.k(i)
        c = f.cv(i)
        if c is not None:
            return "#%s" % c
        if k in ("Paren", "Cast", "Materialize", "ExprWithCleanups") and f.kids(i):
            return self.term(f, f.kids(i)[0], env, d)
        if k == "This":
            return "&" + env.get("this", "?")
        if k == "DeclRefExpr":
            v = env.get(f.x(i)["d"])
            if v is None:
                dd = f.decl(i)
                return "g:" + dd["q"] if dd else "?"
            if v[0] == "t":
                return v[1]
            return self.term(v[1], v[2], v[3], d)
        if k == "MemberExpr":
            b = self.term(f, f.kids(i)[0], env, d).lstrip("&*") if f.kids(i) else env.get("this", "?")
            return b + "." + (f.decl(i)["q"].split("::")[-1] if f.decl(i) else "?")
        if k == "UnaryOperator":
            t = self.term(f, f.kids(i)[0], env, d)
            op = f.x(i)["op"]
            if op == "&":
                return "&" + t
            if op == "*":
                return t[1:] if t.startswith("&") else "*" + t
            return op + t
        if k == "Call":
            cal = f.callee(i)
            if not cal:
                raise Unsup("indirect call")
            if "::operator " in cal["q"] and not f.args(i) and f.obj(i) is not None and f.obj(i) >= 0:
                return self.term(f, f.obj(i), env, d)     # conversion
            q = cal["q"].split("<")[0]
            oo = cal.get("oo")
            if oo in ("->", "*") and len(f.args(i)) + (f.obj(i) >= 0) == 1 or q.split("::")[-1] in ("operator->", "operator*") and not f.args(i):
                t = self.term(f, f.obj(i) if f.obj(i) >= 0 else f.args(i)[0], env, d)
                t = t.lstrip("&")
                return "*" + t if oo == "*" or q.endswith("*") else t
            if q in ("std::move", "std::forward", "std::as_const"):
                return self.term(f, f.args(i)[0], env, d)
            g = self.inl(f, i, d)
            if g is not None:
                b = f_single_return(g)
                if b is not None:
                    return self.term(g, b, self.bind(f, i, g, env, d), d + 1)
            o = self.term(f, f.obj(i), env, d).lstrip("&") + "." if f.obj(i) is not None and f.obj(i) >= 0 else ""
            return "%s%s(%s)" % (o, q.split("::")[-1], ",".join(self.term(f, a, env, d) for a in f.args(i)))
        if k == "Construct":
            a = f.args(i) or f.kids(i)
            if len(a) == 1:
                return self.term(f, a[0], env, d)
            return "%s(%s)" % ((f.callee(i) or {}).get("q", "?").split("::")[-1], ",".join(self.term(f, x, env, d) for x in a))
        if k == "ArraySubscript" or k == "ArraySubscriptExpr":
            a, b = f.kids(i)
            return "%s[%s]" % (self.term(f, a, env, d), self.term(f, b, env, d))
        if k in ("BinaryOperator", "ConditionalOperator"):
            return "(%s %s)" % (f.x(i).get("op", "?:"), " ".join(self.term(f, x, env, d) for x in f.kids(i)))
        if k == "StringLiteral":
            return repr(f.x(i).get("s"))
        if "NullPtr" in k:
            return "#null"
        if k == "Lambda" or k == "LambdaExpr" or k == "New":
            raise Unsup(k)
        return "%s(%s)" % (k, ",".join(self.term(f, x, env, d) for x in f.kids(i) if x >= 0))


def f_single_return(g):
    r = body_of(g)
    ks = g.kids(r)
    if len(ks) == 1 and g.k(ks[0]) == "ReturnStmt" and g.kids(ks[0]):
        return g.kids(ks[0])[0]
    return None


def isbool(f, i):
    t = f.type(f.strip(i))
    return t is not None and t["k"] == "bool"


def eq(a, b):
    if a == b:
        return True
    if a.startswith("#") and b.startswith("#"):
        return False
    for x, y in ((a, b), (b, a)):
        m = re.match(r"memcmp\(&?(.*),&?(.*),#(\d+)\)$", x)
        if m and y == "#0":
            a, b = "%s{%s}" % m.group(1, 3), "%s{%s}" % m.group(2, 3)
            break
    a, b = sorted((a, b), key=lambda x: (x.startswith("#"), x))
    return ("eq", a, b)


def lt(a, b):
    if a == b:
        return False
    if re.match(r"#-?\d+$", a) and re.match(r"#-?\d+$", b):
        return int(a[1:]) < int(b[1:])
    return ("lt", a, b)


def consistent(asg):
    """rules out assignments no values can have (constants exclude each other; equality is transitive over them)"""
    const, ne = {}, {}
    for a, v in asg.items():
        if a[0] == "eq" and a[2].startswith("#"):
            if v:
                if a[1] in const and const[a[1]] != a[2]:
                    return False
                const[a[1]] = a[2]
            else:
                ne.setdefault(a[1], set()).add(a[2])
    for t, c in const.items():
        if c in ne.get(t, ()):
            return False
    for a, v in asg.items():
        if a[0] == "eq" and not a[2].startswith("#"):
            x, y = const.get(a[1]), const.get(a[2])
            if v:
                if x and y and x != y or x and x in ne.get(a[2], ()) or y and y in ne.get(a[1], ()):
                    return False
            elif x and x == y:
                return False
        if a[0] == "lt" and v:
            if asg.get(("eq",) + tuple(sorted(a[1:], key=lambda x: (x.startswith("#"), x)))) or asg.get(("lt", a[2], a[1])):
                return False
    ident = [a for a, v in asg.items() if v and a[0] == "eq" and a[1].startswith("&") and a[2].startswith("&")]
    for a in ident:
        l, r = a[1][1:], a[2][1:]
        for b, v in asg.items():
            if b[0] == "eq" and not v and b[1].replace(l, "\0").replace(r, "\0") == b[2].replace(l, "\0").replace(r, "\0"):
                return False
    return True


def product(F, G, asg=None, limit=None):
    """all consistent (value of F, value of G, assignment)"""
    limit = limit or [0]
    asg = asg or {}
    limit[0] += 1
    if limit[0] > 200000:
        raise Unsup("too many combinations")
    for T, first in ((F, True), (G, False)):
        if isinstance(T, tuple):
            a = T[1]
            if a in asg:
                n = T[2] if asg[a] else T[3]
                yield from product(n if first else F, G if first else n, asg, limit)
                return
            for v in (True, False):
                s = dict(asg); s[a] = v
                if consistent(s):
                    n = T[2] if v else T[3]
                    yield from product(n if first else F, G if first else n, s, limit)
            return
    yield F, G, asg


def swap(T, l, r):
    if not isinstance(T, tuple):
        return T

    def sw(t):
        return re.sub(r"\b(%s|%s)\b" % (l, r), lambda m: r if m.group(1) == l else l, t)
    a = T[1]
    if a[0] == "eq":
        na = eq(sw(a[1]), sw(a[2]))
    elif a[0] == "lt":
        na = lt(sw(a[1]), sw(a[2]))
    else:
        na = (a[0], sw(a[1]))
    hi, lo = swap(T[2], l, r), swap(T[3], l, r)
    if isinstance(na, bool):
        return hi if na else lo
    return ("?", na, hi, lo)


def atoms(T, out=None):
    out = set() if out is None else out
    if isinstance(T, tuple):
        out.add(T[1]); atoms(T[2], out); atoms(T[3], out)
    return out
