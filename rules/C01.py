"""C01: a result that may be 'nothing' is checked before it is used."""
from nullflow import *
from model import AnalysisError

ASSUMPTIONS = [
    "A pointer stored in a member or passed in by the caller is not tracked: only results of lookups, factories, downcasts and null constants, within the function that obtained them (and through helper functions that check them).",
    "Dictionary lookups by key are idempotent: X.HasKey(k) or X.AddKey(k, v) implies that X.GetKey(k) finds an entry until X is changed.",
    "Keys a constructor always adds to the dictionary of its own object are present in the other initialisers of that class.",
]

# callees whose null result is excluded by their documented precondition, which all
# callers establish: one line of reason each
NEVER = {
    # null only for device colour spaces, which need no object; every caller calls it in its Lab/Separation branch
    "mm::PdfColor::BuildColorSpace",
}
STD14 = {"Times-Roman", "Times-Italic", "Times-Bold", "Times-BoldItalic", "Helvetica", "Helvetica-Oblique", "Helvetica-Bold",
         "Helvetica-BoldOblique", "Courier", "Courier-Oblique", "Courier-Bold", "Courier-BoldOblique", "Symbol", "ZapfDingbats"}


class CtorKeys:
    """literal keys a class's constructors always add to its own dictionary"""
    class K(Flow):
        def __init__(self, fn, an):
            super().__init__(fn); self.an = an
        def init(self): return frozenset()
        def join(self, a, b): return a & b
        def elem(self, s, e):
            fn = self.fn
            if isinstance(e, int) and fn.k(e) in ("Call", "Construct"):
                f = fn.callee(e)
                if f and f["q"] == "mm::PdfDictionary::AddKey":
                    b, k = fn.path(fn.obj(e)), fn.path(fn.args(e)[0]) if fn.args(e) else None
                    if b and k and b.startswith("this."):
                        s = s | {(b, k)}
                elif f and fn.k(e) == "Call" and fn.path(fn.obj(e)) == "this":
                    s = s | self.an.fn_keys(f["u"])
                elif f and fn.k(e) == "Construct" and fn.type(e) and fn.type(e).get("r") in self.an.prog.bases(fn.cls or ""):
                    s = s | self.an.fn_keys(f["u"])
            return s

    def __init__(self, prog):
        self.prog, self._m = prog, {}

    def fn_keys(self, u):
        if u not in self._m:
            self._m[u] = frozenset()
            f = self.prog.fns.get(u)
            if f is not None and f.entry is not None:
                k = self.K(f, self); k.run()
                self._m[u] = k.out_at_exit() or frozenset()
        return self._m[u]

    def class_keys(self, cls):
        """keys present once the base-class constructors have run"""
        key = ("cls", cls)
        if key not in self._m:
            r = set()
            for b in self.prog.bases(cls):
                ks = [self.fn_keys(f.usr) for f in self.prog.fns.values()
                      if f.cls == b and f.d.get("ctor") and not f.d.get("cc") and not f.d.get("mc") and not self.from_existing(f)]
                if ks:
                    r |= frozenset.intersection(*ks)
            self._m[key] = r
        return self._m[key]

    def from_existing(self, f):
        return any(f.ty(t).get("k") in ("ref", "rref") and f.ty(f.ty(t)["e"]).get("r") == "mm::PdfObject" for _, _, t in f.params)


def run(prog, ctx):
    R = "unchecked-null"
    ctx.rule(R, "Every dereference (member access, call through, *, []) of a pointer result must be dominated by a null check when some return path of the callee yields null; nullability is inferred interprocedurally to a fixed point.")
    ctx.rule("nullable-callee", "functions inferred to return null on some path (the sources of the rule)")
    ck = CtorKeys(prog)

    def nonnull_at(fn, i, f):
        a = fn.args(i)
        if f["q"] in ("mm::PdfDictionary::GetKey", "mm::PdfDictionary::FindKey") and fn.cls and a:
            b, k = fn.path(fn.obj(i)), fn.path(a[0])
            return (b, k) in ck.class_keys(fn.cls)
        if f["q"] == "mm::PdfFontManager::GetFont" and a:
            p = fn.path(a[0])    # a built-in font is always available
            return p is not None and p.strip('"') in STD14
        return False
    never = {u for u, f in prog.fns.items() if f.q in NEVER}
    an = NullAnalysis(prog, never=never, nonnull_at=nonnull_at)
    for u in sorted(an.nullable):
        ctx.ok("nullable-callee", prog.fns[u].sig() if u in prog.fns else u)
    need = {"mm::PdfDictionary::FindKey", "mm::PdfDictionary::GetKey", "mm::PdfIndirectObjectList::GetObject", "mm::PdfArray::FindAt"}
    have = {prog.fns[u].q for u in an.nullable if u in prog.fns}
    if not need <= have:
        raise AnalysisError("lookup functions no longer recognised as nullable: " + ", ".join(sorted(need - have)))
    for f in sorted(prog.fns.values(), key=lambda f: (f.file, f.line, f.usr)):
        if f.entry is None:
            continue
        fl = NullFlow(f, an)
        fl.run()
        for b, i, e, s in fl.states():
            if not isinstance(e, int):
                continue
            for p in fl.derefs(e):
                why = fl.maybe_null(s, p)
                if why:
                    ctx.bad(R, f.sig(), f.text(p), f.loc(e), "'%s' is %s, and is dereferenced without a check" % (f.text(p), why))
                elif an.origin(fl, s, p):
                    ctx.ok(R, "%s %s: %s" % (f.loc(e), f.q, f.text(p)))
    ctx.need(R, 150)
    ctx.need("nullable-callee", 80)
