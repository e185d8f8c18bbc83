"""C08: character encoding tables and lexical classes are those of the specification"""
import json, os
from lib import *
from peval import PEval, U, NULL, Ptr, Budget, canon as pcanon, literal

HERE = os.path.dirname(os.path.abspath(__file__))
REF = json.load(open(os.path.join(HERE, "ref", "characters.json")))
ENC = {n: [set(x) if isinstance(x, list) else {x} for x in t] for n, t in REF["encodings"].items()}
N2C = REF["glyphs"]["name_to_code"]
C2N = {int(k): v for k, v in REF["glyphs"]["code_to_name"].items()}
WHITE = set(b"\0\t\n\f\r ")
DELIM = set(b"()<>[]{}/%")
# characters some producers also write white space as, or which stand for several
CLASSES = {"white space": WHITE, "delimiters": DELIM, "regular characters": set(range(256)) - WHITE - DELIM, "octal digits": set(b"01234567")}
HEX = {**{ord("0") + i: i for i in range(10)}, **{ord("A") + i: 10 + i for i in range(6)}, **{ord("a") + i: 10 + i for i in range(6)}}
ESC = {ord("n"): 10, ord("r"): 13, ord("t"): 9, ord("b"): 8, ord("f"): 12, ord("("): 40, ord(")"): 41, ord("\\"): 92}
UNESC = {v: k for k, v in ESC.items()}
NAME = lambda f: f.q.split("::")[-1].lower()
TEXTT = ("basic_string", "string_view", "PdfName", "PdfObject")


def score(t, ref):
    return sum(1 for a, b in zip(t, ref) if a in b)


def printable(c):
    return "U+%04X" % c if isinstance(c, int) else str(c)


class C08:
    def __init__(self, prog, ctx):
        self.prog, self.ctx = prog, ctx

    # ---- tables
    def table(self, where, loc, t, name=None):
        """t: 256 values; compare with the named reference or with the one it resembles most"""
        R = "encoding-table"
        n = name if name in ENC else max(ENC, key=lambda n: score(t, ENC[n]))
        if name not in ENC and score(t, ENC[n]) < 230:
            return None
        for i, (a, b) in enumerate(zip(t, ENC[n])):
            self.ctx.check(R, a in b, where, "%s code 0x%02X" % (n, i), loc, "maps code 0x%02X of %s to %s, which is %s" % (i, n, printable(a), " or ".join(printable(x) for x in sorted(b))))
        return n

    def map_of(self, f):
        """value of every byte under f, None where it is not a constant"""
        signed = pcanon(f.ty(f.params[0][2])) == "char"
        r = {}
        for b in range(256):
            a = [U] * len(f.params)
            a[0] = b - 256 if signed and b > 127 else b
            o = PEval(self.prog, None, depth=5).run(f, a)
            vals = {(k, v if isinstance(v, (int, str)) else None, h.get((1, f.params[-1][0])) if len(f.params) > 1 else None) for k, v, h, e in o}
            r[b] = vals.pop() if len(vals) == 1 else None
        return r


def run(prog, ctx):
    R1, R2, R3, R4, R5 = "encoding-table", "encoding-name", "glyph-name", "lexical-class", "odd-digits"
    ctx.rule(R1, "Every table of 256 code points equals, entry by entry, the reference table of the encoding whose class returns it (or, for a table no class returns, of the encoding it resembles).")
    ctx.rule(R2, "Where a predefined encoding is selected under a comparison with its name in the document, the selected object is of the class that is constructed with that name.")
    ctx.rule(R3, "Every entry of the glyph name tables equals the reference; no reference entry is missing and each table ends with the entry its readers stop at.")
    ctx.rule(R4, "Evaluated for all 256 bytes, the functions that classify or translate bytes of the syntax (white space, delimiters, regular and printable characters, octal and hexadecimal digits, escapes in both directions, hexadecimal output) give exactly the values of the specification.")
    ctx.rule(R5, "A byte made of a single hexadecimal digit (an odd number of digits) is written with the digit in its upper half.")
    A = C08(prog, ctx)
    # ---- encodings: classes that return a table
    done, names, insts = set(), {}, {}
    for f in sorted(prog.fns.values(), key=lambda f: f.q):
        if f.entry is None or not f.cls or f.params:
            continue
        rt = pcanon(f.ty(f.d["t"])) if f.d.get("t") is not None else ""
        if rt != "char32_t *":
            continue
        o = PEval(prog, None, depth=4).run(f, [])
        ts = {v[0] for k, v, h, e in o if k == "ret" and isinstance(v, Ptr) and isinstance(v[0], tuple) and v[1] == 0}
        if len(o) != 1 or len(ts) != 1:
            ctx.notes.append("table not resolved: %s" % f.sig())
            continue
        t = next(iter(ts))
        # the name the class gives itself
        nm = None
        for c in prog.fns.values():
            if c.d.get("ctor") and c.cls == f.cls and not c.d.get("cc") and not c.d.get("mc") and c.entry is not None:
                for e in c.where:
                    for s in c.subtree(e):
                        if c.k(s) == "StringLiteral" and literal_of(c, s) in ENC:
                            nm = literal_of(c, s)
        if ctx.check(R1, len(t) >= 256, f.sig(), "length", f.loc(), "the table has %d entries" % len(t)):
            n = A.table(f.cls, f.loc(), t[:256], nm)
            if n:
                names[f.cls] = n
                done.add(t)
    for u, v in sorted(prog.vars.items()):
        if v.get("val") is None or not isinstance(v["val"], list) or len(v["val"]) != 256:
            continue
        t = literal(v["val"])
        if t in done or not all(isinstance(x, int) for x in t):
            continue
        A.table(v.get("q", u), "%s:%s" % ("src/" + v.get("file", ""), v.get("line", "")), t)
    # ---- encodings by name
    for f in prog.fns.values():
        if f.entry is None or f.params:
            continue
        made = {f.callee(e)["cls"] for e in f.where if f.k(e) == "Construct" and f.callee(e) and f.callee(e).get("cls") in names}
        if len(made) == 1 and f.cls not in names:
            insts[f.q] = names[next(iter(made))]
    users = {}
    for f in prog.fns.values():
        if f.entry is None:
            continue
        for e, c in [(e, f.callee(e)) for e in f.calls()]:
            if c and c.get("q") in insts:
                users.setdefault(f.usr, []).append(e)
    for u in sorted(users):
        f = prog.fns[u]
        for e in users[u]:
            got = set()
            for c, truth in conds_at(f, e):
                lits = {literal_of(f, j) for j in f.subtree(c) if j >= 0 and f.k(j) == "StringLiteral"} & set(ENC)
                op = f.x(f.strip(c)).get("op") if isinstance(f.x(f.strip(c)), dict) else None
                cal = f.callee(f.strip(c)) if f.k(f.strip(c)) == "Call" else None
                eq = cal and cal.get("oo") in ("==", "EqualEqual") or op == "=="
                ne = cal and cal.get("oo") in ("!=", "ExclaimEqual") or op == "!="
                if eq and truth or ne and not truth:
                    got |= lits
            if got:
                n = insts[f.callee(e)["q"]]
                ctx.check(R2, got == {n}, f.sig(), "/".join(sorted(got)), f.loc(e), "selects %s for the name %s" % (n, "/".join(sorted(got))))
    # ---- glyph names
    found = 0
    for u, v in sorted(prog.vars.items()):
        if v.get("val") is None or not isinstance(v["val"], list) or len(v["val"]) < 500:
            continue
        t = literal(v["val"])
        if not all(isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], int) for x in t):
            continue
        where, loc = v.get("q", u), "%s:%s" % ("src/" + v.get("file", ""), v.get("line", ""))
        rows = [(c, n) for c, n in t if isinstance(n, str)]
        a = sum(1 for c, n in rows if N2C.get(n) == c)
        b = sum(1 for c, n in rows if C2N.get(c) == n)
        if max(a, b) < 0.9 * len(rows):
            continue
        found += 1
        ends = [i for i, x in enumerate(t) if x[1] is NULL or x[1] == 0 or x[1] is None]
        ctx.check(R3, ends == [len(t) - 1], where, "terminator", loc, "the entry readers stop at is %s" % ("missing" if not ends else "not the last one" if ends[0] != len(t) - 1 else ""))
        seen = {}
        if a >= b:
            for c, n in rows:
                if n in seen:
                    ctx.check(R3, seen[n] == c, where, n, loc, "lists the name %s twice with different code points" % n)
                    continue
                seen[n] = c
                ctx.check(R3, n in N2C and N2C[n] == c, where, n, loc, "gives %s for the name %s, which is %s" % (printable(c), n, printable(N2C.get(n, "no glyph name"))))
            for n in N2C:
                ctx.check(R3, n in seen, where, n, loc, "has no entry for the name %s" % n)
        else:
            for c, n in rows:
                if c in seen:
                    continue
                seen[c] = n
                ctx.check(R3, C2N.get(c) == n, where, printable(c), loc, "names %s %s, which is %s" % (printable(c), n, C2N.get(c, "no glyph")))
            for c in C2N:
                ctx.check(R3, c in seen, where, printable(c), loc, "has no name for %s" % printable(c))
    if found < 2:
        ctx.notes.append("only %d glyph name tables recognised" % found)
    # ---- lexical classes
    kinds = set()
    for f in sorted(prog.fns.values(), key=lambda f: f.q):
        if f.entry is None or not f.params or f.d.get("t") is None or "lambda" in f.q or "anonymous" in f.q:
            continue
        c = [pcanon(f.ty(p[2])) for p in f.params]
        rt = pcanon(f.ty(f.d["t"]))
        if c[0] in ("char", "unsigned char") and rt == "bool" and len(c) <= 2 and (len(c) == 1 or c[1].endswith("&")):
            m = A.map_of(f)
            if any(v is None for v in m.values()):
                ctx.notes.append("not resolved for all bytes: %s" % f.sig()) if NAME(f).startswith("is") else None
                continue
            true = {b for b, v in m.items() if v[1]}
            if len(c) == 2:
                got = {b: v[2] for b, v in m.items() if v[1]}
                if sum(1 for b in HEX if got.get(b) == HEX[b]) >= 16:
                    kinds.add("hex")
                    for b in range(256):
                        ctx.check(R4, got.get(b) == HEX.get(b), f.sig(), "0x%02X" % b, f.loc(), "gives %s for the byte 0x%02X%s instead of %s" % (
                            got.get(b, "no digit"), b, " '%c'" % b if 32 < b < 127 else "", HEX.get(b, "no digit")))
                elif NAME(f) == "istokendelimiter":
                    kinds.add("token")
                    for b in range(256):
                        ctx.check(R4, (b in true) == (b in DELIM - set(b"<>%")), f.sig(), "0x%02X" % b, f.loc(), "takes the byte 0x%02X as %s" % (b, "a one byte delimiter" if b in true else "no delimiter"))
                continue
            if NAME(f) == "isprintable":
                kinds.add("printable")
                for b in range(256):
                    # what is printable need not be written escaped
                    ctx.check(R4, b not in true or 33 <= b <= 126, f.sig(), "0x%02X" % b, f.loc(), "takes the byte 0x%02X as printable" % b)
                for b in b"abcxyzABCXYZ0189":
                    ctx.check(R4, b in true, f.sig(), "0x%02X" % b, f.loc(), "takes the byte 0x%02X as not printable" % b)
                continue
            best = min(CLASSES, key=lambda n: len(true ^ CLASSES[n]))
            want = {"iswhitespace": "white space", "isdelimiter": "delimiters", "isregular": "regular characters", "isoctalchar": "octal digits"}.get(NAME(f))
            if want is None and (len(true ^ CLASSES[best]) > 1 or not true):
                continue
            want = want or best
            kinds.add(want)
            for b in range(256):
                ctx.check(R4, (b in true) == (b in CLASSES[want]), f.sig(), "0x%02X" % b, f.loc(), "counts the byte 0x%02X%s %s the %s" % (
                    b, " '%c'" % b if 32 < b < 127 else "", "among" if b in true else "not among", want))
        elif c == ["char"] and rt == "char":
            m = A.map_of(f)
            if any(v is None for v in m.values()):
                continue
            got = {b: v[1] for b, v in m.items() if v[1]}
            for what, ref in (("escape", ESC), ("unescape", UNESC)):
                same = sum(1 for b in ref if got.get(b) == ref[b])
                if len(got) <= 16 and same >= 5 and same > sum(1 for b in ref if got.get(b) == {"escape": UNESC, "unescape": ESC}[what].get(b)):
                    kinds.add(what)
                    for b in range(256):
                        ctx.check(R4, got.get(b) == ref.get(b), f.sig(), "0x%02X" % b, f.loc(), "gives %s for the %s 0x%02X instead of %s" % (
                            got.get(b, "nothing"), "letter after a backslash" if what == "escape" else "byte", b, ref.get(b, "nothing")))
        elif rt == "void" and len(c) == 2 and c[1] in ("char", "unsigned char") and ("char *" in c[0] or "char[" in c[0] or "array<char" in c[0]):
            bad = []
            for b in range(256):
                v = b - 256 if c[1] == "char" and b > 127 else b
                o = PEval(prog, None, depth=5).run(f, [(U, U), v])
                bad.append({h.get((1, f.params[0][0])) for k, r, h, e in o})
            want = [{tuple(("%02X" % b).encode())} for b in range(256)]
            low = [{tuple(("%02x" % b).encode())} for b in range(256)]
            if sum(1 for x, y, z in zip(bad, want, low) if x in (y, z)) < 128:
                continue
            kinds.add("hex output")
            for b in range(256):
                ctx.check(R4, bad[b] in (want[b], low[b]), f.sig(), "0x%02X" % b, f.loc(), "writes the byte 0x%02X as %s" % (b, bad[b]))
    # digits indexed by value
    for f in prog.fns.values():
        if f.entry is None:
            continue
        for s in range(len(f.nodes)):
            if f.k(s) == "ArraySubscriptExpr":
                a = f.strip(f.kids(s)[0])
                t = literal_of(f, a) if f.k(a) == "StringLiteral" else None
                if t and t.lower().startswith("0123456789"):
                    kinds.add("digits")
                    ctx.check(R4, t.lower() in ("0123456789", "0123456789abcdef"), f.sig(), "digits", f.loc(s), "writes digits from \"%s\"" % t)
    for k in ("white space", "delimiters", "hex", "escape", "unescape"):
        if k not in kinds:
            ctx.notes.append("no function recognised for: " + k)
    odd_digits(prog, ctx, R5)
    ctx.notes.append("encodings: %s; lexical functions: %s" % (", ".join(sorted(names.values())), ", ".join(sorted(kinds))))
    if len(kinds) < 3 or len(names) < 3:
        raise AnalysisError("tables or lexical functions not recognised")
    ctx.need(R1, 1000); ctx.need(R4, 1000)


def literal_of(f, s):
    x = f.x(s)
    return x.get("s") if isinstance(x, dict) else None


class Nibbles(Flow):
    """which halves of a byte hold a digit: sets of environments {access path: (high, low)} / {access path of a boolean: value}"""
    CAP = 64

    def __init__(self, fn, digits, start=None):
        super().__init__(fn)
        self.digits = digits          # access paths set from a digit reader
        self.start = start or frozenset([frozenset()])

    def init(self): return self.start

    def join(self, a, b):
        s = a | b
        return s if len(s) <= self.CAP else frozenset([frozenset.intersection(*s)])

    def nib(self, env, i):
        f = self.fn
        i = f.strip(i)
        p = f.path(i)
        if p in self.digits:
            return (False, True)
        if p in env:
            return env[p] if isinstance(env[p], tuple) else None
        k = f.k(i)
        if f.cv(i) is not None:
            return (False, False)
        if k in ("Cast", "ParenExpr", "InitListExpr") and len(f.kids(i)) == 1:
            return self.nib(env, f.kids(i)[0])
        if k == "ConditionalOperator":
            ks = f.kids(i)
            t = self.truth(env, ks[0])
            if t is not None:
                return self.nib(env, ks[1 if t else 2])
            a, b = self.nib(env, ks[1]), self.nib(env, ks[2])
            return a if a == b else None
        if k in ("BinaryOperator", "CompoundAssign"):
            a, b = f.kids(i)
            return self.op(f.x(i)["op"].rstrip("=") if k == "CompoundAssign" else f.x(i)["op"], env, a, b)
        return None

    def op(self, op, env, a, b):
        f = self.fn
        x, y = self.nib(env, a), self.nib(env, b)
        if op in ("<<", "*"):
            n = f.cv(b)
            return (x[1], False) if x and n == (4 if op == "<<" else 16) else None
        if op in ("|", "+"):
            return (x[0] or y[0], x[1] or y[1]) if x and y else None
        if op == "&":
            m = f.cv(b)
            return None if not x or m is None else (x[0] and m & 0xF0 == 0xF0, x[1] and m & 15 == 15)
        return None

    def truth(self, env, i):
        f = self.fn
        i = f.strip(i)
        if f.cv(i) is not None:
            return bool(f.cv(i))
        if f.k(i) == "UnaryOperator" and f.x(i)["op"] == "!":
            t = self.truth(env, f.kids(i)[0])
            return None if t is None else not t
        p = f.path(i)
        v = env.get(p)
        return v if isinstance(v, bool) else None

    def elem(self, s, e):
        f = self.fn
        if not isinstance(e, int):
            return s
        k = f.k(e)
        sets = []
        if k == "BinaryOperator" and f.x(e)["op"] == "=" or k == "CompoundAssign":
            sets = [(f.path(f.kids(e)[0]), e if k == "CompoundAssign" else f.kids(e)[1], f.kids(e)[0])]
        elif k == "DeclStmt":
            sets = [("v%d:%s" % (d, f.tab.decls[d]["q"].split("::")[-1]), i, None) for d, i in f.x(e)["vars"] if i is not None and i >= 0]
        elif k == "UnaryOperator" and f.x(e)["op"] in ("++", "--", "p++", "p--"):
            return frozenset(frozenset((a, v) for a, v in env if a != f.path(f.kids(e)[0])) for env in s)
        else:
            return s
        out = s
        for p, rhs, lhs in sets:
            if p is None:
                continue
            boolean = lhs is not None and pcanon(f.type(lhs)) == "bool" or lhs is None and pcanon(f.type(rhs)) == "bool"
            new = set()
            for env in out:
                d = dict(env)
                v = self.truth(d, rhs) if boolean else self.nib(d, rhs)
                d.pop(p, None)
                if v is not None:
                    d[p] = v
                new.add(frozenset(d.items()))
            out = frozenset(new)
        return out if len(out) <= self.CAP else frozenset([frozenset.intersection(*out)])

    def edge(self, s, c, truth, b):
        out = set()
        for env in s:
            t = self.truth(dict(env), c)
            if t is None:
                i = self.fn.strip(c)
                neg = truth
                while self.fn.k(i) == "UnaryOperator" and self.fn.x(i)["op"] == "!":
                    neg = not neg
                    i = self.fn.strip(self.fn.kids(i)[0])
                p = self.fn.path(i)
                if p and pcanon(self.fn.type(i)) == "bool":
                    d = dict(env); d[p] = neg
                    out.add(frozenset(d.items()))
                else:
                    out.add(env)
            elif t == truth:
                out.add(env)
        return frozenset(out) if out else None


def odd_digits(prog, ctx, R):
    readers = {}
    for f in prog.fns.values():
        if f.entry is None:
            continue
        for e, c in [(e, f.callee(e)) for e in f.calls()]:
            if c and c.get("q", "").split("::")[-1] in ("TryGetHexValue", "GetHexValue") and len(f.args(e)) == 2:
                readers.setdefault(f.usr, set()).add(f.path(f.args(e)[1]))

    def emissions(f, flow):
        for e in f.where:
            if f.k(e) != "Call":
                continue
            n = (f.callee(e) or {}).get("q", "").split("::")[-1]
            if n.lower() not in ("push_back", "write", "append", "writechar", "put", "operator+="):
                continue
            for a in f.args(e):
                if pcanon(f.type(f.strip(a))) in ("char", "unsigned char"):
                    yield e, a

    for u, digits in sorted(readers.items()):
        f = prog.fns[u]
        if None in digits:
            continue
        peers = [f]
        if f.cls:
            peers += [g for g in prog.fns.values() if g.cls == f.cls and g.entry is not None and g.usr != u]
        start = None
        final = frozenset()
        for rnd in range(4):
            fl = Nibbles(f, digits, start)
            st = states_of(fl)
            ex = fl.out_at_exit() or frozenset()
            fields = frozenset(frozenset((a, v) for a, v in env if a.startswith("this.")) for env in ex)
            if not f.cls or not any(fields) or fields <= final:
                break
            final |= fields
            start = (start or frozenset([frozenset()])) | fields
        for g in peers:
            fl = Nibbles(g, digits if g is f else set(), start if g is f else final or None)
            if g is not f and not any(final):
                continue
            st = states_of(fl)
            for e, a in emissions(g, fl):
                envs = st.get(g.where[e])
                if envs is None:
                    continue
                vals = {fl.nib(dict(env), a) for env in envs}
                if vals <= {None}:
                    continue
                ctx.check(R, (False, True) not in vals, g.sig(), g.text(a), g.loc(e), "writes a byte whose only digit is in its lower half")
