"""C16: a failure reported by an external library is not ignored."""
from exc import *

ASSUMPTIONS = [
    "EVP_CIPHER_CTX_set_padding, FT_Reference_Face, png_get_IHDR, jpeg_start_decompress (non-suspending source), xmlRemoveProp and fclose of a file opened for reading have no failure the caller could act on.",
    "TIFFGetFieldDefaulted always yields a value for the baseline tags it is asked for.",
    "A function returning false, null, zero or an empty value on failure reports the failure to its caller, which is subject to the other properties.",
]

# name -> (representative failure values, must the failing path end in an error?)
HARD, SOFT = True, False
FAIL = [
    (r"EVP_CIPHER_CTX_new|EVP_MD_CTX_new|EVP_MD_CTX_create", [0], HARD),
    (r"EVP_(?:Encrypt|Decrypt|Cipher|Digest)(?:Init(?:_ex2?)?|Update|Final(?:_ex)?)|EVP_CIPHER_CTX_(?:set_key_length|ctrl)|EVP_Digest|EVP_BytesToKey|PKCS5_PBKDF2_HMAC\w*|RAND_bytes|RAND_priv_bytes|HMAC\w*", [0], HARD),
    (r"(?:MD5|SHA1|SHA224|SHA256|SHA384|SHA512)_(?:Init|Update|Final)", [0], HARD),
    (r"AES_set_(?:en|de)crypt_key", [-1, -2], HARD),
    (r"deflateInit_|deflateInit2_|inflateInit_|inflateInit2_|compress2?|uncompress", [-2, -4], HARD),
    (r"deflate", [-2], HARD),
    (r"inflate", [-3, -4, 2], HARD),
    (r"FT_Init_FreeType|FT_Open_Face|FT_New_Face|FT_New_Memory_Face|FT_Load_Sfnt_Table|FT_Load_Glyph|FT_Load_Char", [1], HARD),
    (r"FT_Select_Charmap|FT_Set_Charmap|FT_Get_PS_Font_Info|FT_Sfnt_Table_Info|FT_Set_Char_Size|FT_Set_Pixel_Sizes", [1], SOFT),
    (r"png_create_read_struct|png_create_info_struct|png_create_write_struct", [0], HARD),
    (r"png_sig_cmp", [1], HARD),
    (r"TIFFOpen|TIFFClientOpen|TIFFFdOpen", [0], HARD),
    (r"TIFFReadScanline|TIFFReadEncodedStrip|TIFFReadRGBA\w+", [-1], HARD),
    (r"TIFFGetField", [0], SOFT),
    (r"jpeg_read_header", [0], HARD),
    (r"xmlNewDoc|xmlNewPI|xmlNewDocNode|xmlNewChild|xmlNewNs|xmlSetNsProp|xmlNewNode|xmlAddChild|xmlSaveToIO|xmlReadMemory", [0], SOFT),
    (r"xmlReconciliateNs|xmlSaveDoc|xmlSaveClose", [-1], SOFT),
    (r"fopen|_wfopen", [0], SOFT),
    (r"fread", [0], SOFT),
    (r"FcInitLoadConfigAndFonts|FcFontMatch|FcPatternBuild|FcConfigAppFontAddDir|FcConfigSubstitute", [0], SOFT),
    (r"FcPatternGet", [1, 2, 3, 4], SOFT),
]
FAIL = [(re.compile("^(?:" + a + ")$"), v, h) for a, v, h in FAIL]


def status(q):
    for rx, v, h in FAIL:
        if rx.match(q):
            return v, h
    return None


class Sim(Flow):
    """forward simulation of 'the call at node `call` returned `val`'.
    State: frozenset of (path, value) plus flag examined; None = path ended."""

    def __init__(self, fn, X, call, val, wrap, seed=None):
        super().__init__(fn)
        self.X, self.call, self.val, self.wrap = X, call, val, wrap
        self.seed = seed
        self.lost = []          # (node) result dropped
        self.rets = []

    def init(self):
        # (started, examined, bindings)
        return (True, False, self.seed) if self.seed is not None else (False, False, frozenset())

    def join(self, a, b):
        # keep the pessimistic one; a not-yet-started state is neutral
        if a == b:
            return a
        if not a[0]:
            return b
        if not b[0]:
            return a
        return (True, a[1] and b[1], a[2] & b[2])

    def ev(self, s, i):
        f = self.fn
        if i < 0:
            return None
        if i == self.call:
            return self.val if s[0] else None
        x = f.x(i)
        k = f.k(i)
        cv = f.cv(i)
        if cv is not None:
            return cv
        if k == "CXXNullPtrLiteralExpr" or k == "GNUNullExpr":
            return 0
        if k == "Cast":
            return self.ev(s, f.kids(i)[0])
        p = f.path(i)
        if p:
            for q, v in s[2]:
                if q == p:
                    return v
        if k == "BinaryOperator":
            op = x["op"]
            if op == "=":
                return self.ev(s, f.kids(i)[1])
            a, b = self.ev(s, f.kids(i)[0]), self.ev(s, f.kids(i)[1])
            if op == "&&":
                return 0 if a == 0 or b == 0 else (1 if a is not None and b is not None else None)
            if op == "||":
                return 1 if (a not in (None, 0)) or (b not in (None, 0)) else (0 if a == 0 and b == 0 else None)
            if op == ",":
                return b
            if a is None or b is None:
                return None
            try:
                return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "&": a & b, "|": a | b, "+": a + b, "-": a - b}.get(op)
            except Exception:
                return None
        if k == "UnaryOperator":
            a = self.ev(s, f.kids(i)[0])
            if a is None:
                return None
            return {"!": int(not a), "-": -a, "+": a, "~": ~a}.get(x["op"])
        if k == "ConditionalOperator" and len(f.kids(i)) == 3:
            c = self.ev(s, f.kids(i)[0])
            if c is None:
                return None
            return self.ev(s, f.kids(i)[1 if c else 2])
        return None

    def bind(self, s, p, v):
        b = frozenset(x for x in s[2] if x[0] != p)
        if v is not None and p:
            b |= {(p, v)}
        return (s[0], s[1], b)

    def elem(self, s, e):
        f = self.fn
        if s is None:
            return None
        if not isinstance(e, int):
            if e[0] == "init" and s[0]:
                v = self.ev(s, e[2])
                return self.bind(s, "this." + f.tab.decls[e[1]]["q"].split("::")[-1] if isinstance(e[1], int) else None, v) if v is not None else s
            return s
        k = f.k(e)
        if e == self.call:
            return (True, s[1], frozenset())
        if not s[0]:
            return s
        if k == "BinaryOperator" and f.x(e)["op"] == "=":
            v = self.ev(s, f.kids(e)[1])
            return self.bind(s, f.path(f.kids(e)[0]), int(v) if v is not None else None)
        if k == "DeclStmt":
            for dd, init in f.x(e)["vars"]:
                if init >= 0:
                    v = self.ev(s, init)
                    s = self.bind(s, "v%d:%s" % (dd, f.tab.decls[dd]["q"].split("::")[-1]), int(v) if v is not None else None)
            return s
        if k in ("Call", "Construct"):
            d = f.callee(e)
            if d and d["u"] in self.X.prog.fns and (s[2] or True):
                g = self.X.prog.fns[d["u"]]
                seed = set()
                for a, prm in zip(f.args(e), g.params):
                    v = self.ev(s, a)
                    if v is not None and self.carries(s, a):
                        seed.add((g_param(g, prm), int(v)))
                if seed and g.entry is not None and self.wrap < 3:
                    sim = Sim(g, self.X, -2, None, self.wrap + 1, frozenset(seed))
                    sim.run()
                    if sim.bad() is None and not sim.good_returns():
                        return None          # the helper throws
                    # value returned by a helper that maps the status
                    rv = sim.ret_value()
                    if rv is not None:
                        return (s[0], s[1], s[2] | {(f.path(e) or "n%d" % e, rv)})
            if d and d["u"] in self.X.noret:
                return None
        if k == "Throw":
            return None
        if k == "ReturnStmt":
            self.rets.append((e, s))
            return None
        return s

    def carries(self, s, i):
        """expression i depends on the failed result"""
        f = self.fn
        for j in f.subtree(i):
            if j == self.call or (j >= 0 and f.path(j) and any(q == f.path(j) for q, v in s[2])):
                return True
        return False

    def edge(self, s, c, truth, b):
        if s is None or not s[0]:
            return s
        v = self.ev(s, c)
        if v is None:
            return s
        if bool(v) != truth:
            return None
        return (True, s[1] or self.carries(s, c), s[2])

    def case(self, s, blk, lab):
        if s is None or not s[0]:
            return s
        f = self.fn
        v = self.ev(s, blk.get("tc", -1))
        if v is None:
            return s
        labs = set()
        for t in blk["s"]:
            if t is not None:
                l = f.blocks[t].get("lab")
                while isinstance(l, int) and l >= 0 and f.k(l) == "CaseStmt":
                    labs.add(f.cv(f.kids(l)[0]) if f.kids(l) else None)
                    break
        if isinstance(lab, int) and lab >= 0 and f.k(lab) == "CaseStmt":
            if f.kids(lab) and f.cv(f.kids(lab)[0]) != v:
                return None
        elif v in labs:
            return None
        return (True, True, s[2])

    def good_returns(self):
        return bool(self.rets) or (self.out_at_exit() is not None and self.out_at_exit()[0])

    def ret_value(self):
        vs = set()
        for e, s in self.rets:
            vs.add(self.ev(s, self.fn.kids(e)[0]) if self.fn.kids(e) else None)
        return int(vs.pop()) if len(vs) == 1 and None not in vs else None

    def bad(self):
        return None


def g_param(g, prm):
    prm = prm[0] if isinstance(prm, list) else prm
    return "v%d:%s" % (prm, g.tab.decls[prm]["q"].split("::")[-1])


def failing_return(sim, e, s):
    """return statement reports the failure"""
    f = sim.fn
    if not f.kids(e) or f.kids(e)[0] < 0:
        return False
    r = f.kids(e)[0]
    if sim.carries(s, r):
        return True
    v = sim.ev(s, r)
    t = f.type(r) or {}
    if v is not None and (v <= 0):
        return True
    j = f.strip(r)
    if f.k(j) in ("CXXNullPtrLiteralExpr", "InitListExpr"):
        return True
    if f.k(j) == "Construct" and not [a for a in f.args(j) if a >= 0 and f.k(a) not in ("CXXDefaultArgExpr", "CXXNullPtrLiteralExpr")]:
        return True
    return False


def void_context(f, i):
    """result of call i is discarded"""
    p = f.parent.get(i)
    c = i
    while p is not None and f.k(p) in ("Cast", "ParenExpr", "ExprWithCleanups", "ConstantExpr"):
        if f.x(p).get("ck") == "ToVoid":
            return True
        c, p = p, f.parent.get(p)
    if p is None:
        return True
    k = f.k(p)
    if k in ("CompoundStmt", "CaseStmt", "DefaultStmt", "LabelStmt"):
        return True
    if k in ("IfStmt", "WhileStmt", "ForStmt", "DoStmt", "CXXForRangeStmt", "SwitchStmt"):
        return f.x(p).get("cond") != c and not (k == "ForStmt" and c in f.kids(p)[:2] and f.x(p).get("cond") == c)
    if k == "BinaryOperator" and f.x(p)["op"] == "," and f.kids(p)[0] == c:
        return True
    return False


def run(prog, ctx):
    X = Exc(prog)
    R1, R2 = "examined", "failure-is-error"
    ctx.rule(R1, "The result of every status-returning call of an external library is not discarded, and some branch taken after the call tells failure from success before the result is overwritten or the function ends.")
    ctx.rule(R2, "For cryptographic, compression, codec and font-loading calls: simulating 'this call failed' forward through the function, every path ends in an error or in a return that reports the failure.")
    seen = set()
    todo = []
    for f in prog.fns.values():
        for i in f.calls():
            d = f.callee(i)
            if d and f.k(i) == "Call" and "::" not in d["q"]:
                st = status(d["q"])
                if st and d["u"] not in prog.fns:
                    todo.append((f, i, d["q"], st[0], st[1]))
    done = set()
    while todo:
        f, i, q, vals, hard = todo.pop(0)
        if void_context(f, i):
            ctx.bad(R1, f.sig(), q, f.loc(i), "the result of %s is discarded" % q)
            continue
        bad = None
        exam = True
        for v in vals:
            sim = Sim(f, X, i, v, 0)
            sim.run()
            ends = [(e, s) for e, s in sim.rets if s[0]]
            # rerun of elem during fixpoint may record early states: use final ones
            ends = {}
            for b, s0 in sim.ins.items():
                s = s0
                for e in f.blocks[b]["e"]:
                    if s is None:
                        break
                    if isinstance(e, int) and f.k(e) == "ReturnStmt" and s[0]:
                        ends[e] = s
                    if isinstance(e, int) and e == i and s[0] and f.path(e) and False:
                        pass
                    s = sim.elem(s, e)
            ex = sim.out_at_exit()
            fall = ex is not None and ex[0]
            for e, s in ends.items():
                if failing_return(sim, e, s):
                    # a wrapper handing the status on: its callers must look at it
                    if hard and f.kids(e) and sim.carries(s, f.kids(e)[0]) and f.usr not in done:
                        rv = sim.ev(s, f.kids(e)[0])
                        if rv is not None:
                            done.add(f.usr)
                            for g in prog.fns.values():
                                for j in g.calls():
                                    d = g.callee(j)
                                    if d and d["u"] == f.usr and g.k(j) == "Call":
                                        todo.append((g, j, f.q, [int(rv)], hard))
                    continue
                if not s[1]:
                    exam = False; bad = bad or e
                elif hard:
                    bad = bad or e
            if fall:
                if not ex[1]:
                    exam = False
                    bad = bad or f.body
                elif hard:
                    bad = bad or f.body
        if not exam:
            ctx.bad(R1, f.sig(), q, f.loc(i), "a failure of %s is not told from success before the function goes on" % q)
        else:
            ctx.ok(R1, "%s: %s" % (f.loc(i), q))
            if hard:
                ctx.check(R2, bad is None, f.sig(), q, f.loc(i), "when %s fails the function still completes normally" % q)
    ctx.need(R1, 100); ctx.need(R2, 60)
