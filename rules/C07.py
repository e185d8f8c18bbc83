"""C07: enumerations and their PDF names correspond one-to-one, both ways"""
import re
from lib import *
from peval import PEval, U, NULL, Ptr, Ref, Budget, canon as pcanon

OPS0 = "w J j M d ri i gs q Q cm m l c v y h re S s f F B b n W BT ET Tc Tw Tz TL Tf Tr Ts Td TD Tm Tj TJ d0 d1 CS cs SC SCN sc scn G g RG rg K k sh BI ID EI Do MP DP BMC BDC EMC BX EX"
OPERATORS = dict({o: o for o in OPS0.split()}, f_Star="f*", B_Star="B*", b_Star="b*", W_Star="W*", T_Star="T*", Quote="'", DoubleQuote='"')
OPERANDS = {}
for n, ops in ((0, "q Q h S s f F f_Star B B_Star b b_Star n W W_Star BT ET T_Star BI ID EI EMC BX EX"), (1, "w J j M ri i gs Tc Tw Tz TL Tr Ts Tj TJ Quote CS cs G g sh Do MP BMC"),
               (2, "d m l Tf Td TD d0 DP BDC"), (3, "DoubleQuote RG rg"), (4, "v y re K k"), (6, "cm c Tm d1"), (-1, "SC SCN sc scn")):
    for o in ops.split():
        OPERANDS[o] = n
same = lambda s: {x: x for x in s.split()}
STD14 = dict(TimesRoman="Times-Roman", TimesItalic="Times-Italic", TimesBold="Times-Bold", TimesBoldItalic="Times-BoldItalic", Helvetica="Helvetica",
             HelveticaOblique="Helvetica-Oblique", HelveticaBold="Helvetica-Bold", HelveticaBoldOblique="Helvetica-BoldOblique", Courier="Courier",
             CourierOblique="Courier-Oblique", CourierBold="Courier-Bold", CourierBoldOblique="Courier-BoldOblique", Symbol="Symbol", ZapfDingbats="ZapfDingbats")
ALT = {}
for fam, alt in (("Times", "TimesNewRoman"), ("Helvetica", "Arial"), ("Courier", "CourierNew")):
    for st, an in (("", ""), ("Oblique", ",Italic"), ("Italic", ",Italic"), ("Bold", ",Bold"), ("BoldOblique", ",BoldItalic"), ("BoldItalic", ",BoldItalic")):
        e = fam + ("Roman" if fam == "Times" and not st else st)
        if e in STD14:
            ALT[e] = alt + an
# enum -> alternative tables enumerator -> name in the document
SPEC = {
    "mm::PdfFilterType": [same("ASCIIHexDecode ASCII85Decode LZWDecode FlateDecode RunLengthDecode CCITTFaxDecode JBIG2Decode DCTDecode JPXDecode Crypt"),
                          dict(ASCIIHexDecode="AHx", ASCII85Decode="A85", LZWDecode="LZW", FlateDecode="Fl", RunLengthDecode="RL", CCITTFaxDecode="CCF", DCTDecode="DCT")],
    "mm::PdfColorSpace": [same("DeviceGray DeviceRGB DeviceCMYK CalGray CalRGB Lab ICCBased Indexed Pattern Separation DeviceN")],
    "mm::PdfAnnotationType": [dict(same("Text Link FreeText Line Square Circle Polygon PolyLine Highlight Underline Squiggly StrikeOut Stamp Caret Ink Popup Sound Movie Widget Screen "
                                        "PrinterMark TrapNet Watermark RichMedia WebMedia Redact Projection"), FileAttachement="FileAttachment", Model3D="3D")],
    "mm::PdfActionType": [same("GoTo GoToR GoToE Launch Thread URI Sound Movie Hide Named SubmitForm ResetForm ImportData JavaScript SetOCGState Rendition Trans GoTo3DView RichMediaExecute")],
    "mm::PdfFieldType": [dict(PushButton="Btn", CheckBox="Btn", RadioButton="Btn", TextBox="Tx", ComboBox="Ch", ListBox="Ch", Signature="Sig")],
    "mm::PdfPageMode": [dict(same("UseNone UseThumbs FullScreen UseOC UseAttachments"), UseBookmarks="UseOutlines")],
    "mm::PdfPageLayout": [same("SinglePage OneColumn TwoColumnLeft TwoColumnRight TwoPageLeft TwoPageRight")],
    "mm::PdfHighlightingMode": [dict(**{"None": "N", "Invert": "I", "InvertOutline": "O", "Push": "P"})],
    "mm::PdfAppearanceType": [dict(Normal="N", Rollover="R", Down="D")],
    "mm::PdfDestinationFit": [same("Fit FitH FitV FitB FitBH FitBV FitR")],
    "mm::PdfDestinationType": [same("XYZ Fit FitH FitV FitR FitB FitBH FitBV")],
    "mm::PdfXObjectType": [dict(Form="Form", Image="Image", PostScript="PS")],
    "mm::PdfFontStretch": [same("UltraCondensed ExtraCondensed Condensed SemiCondensed Normal SemiExpanded Expanded ExtraExpanded UltraExpanded")],
    "mm::PdfVersion": [{"V%d_%d" % (a, b): "%d.%d" % (a, b) for a, b in [(1, i) for i in range(8)] + [(2, 0)]}],
    "mm::PdfOperator": [OPERATORS],
    "mm::PdfStandard14FontType": [STD14],
    "mm::PdfALevel": [{"L" + x: x for x in "1B 1A 2B 2A 2U 3B 3A 3U 4E 4F 4".split()}],
}
# other names a reader may accept
ALIASES = {"mm::PdfStandard14FontType": ALT}
# enumerators that stand for 'unknown' or 'leave as it is'
NONE = ("Unknown", "DontCare", "Ignore", "Default")
# where PDF/A levels are split over several properties
PARTS = {"mm::PdfALevel": {**{"L" + x: (x[0], x[1], "") for x in "1B 1A 2B 2A 2U 3B 3A 3U".split()}, "L4E": ("4", "E", "2020"), "L4F": ("4", "F", "2020"), "L4": ("4", "", "2020")}}
# readers of a kind of name that is not the enumeration's own
OTHER_READERS = {}
TEXTT = re.compile(r"basic_string|string_view|PdfName|PdfString|^const char \*$|^char \*$")
JUNK = "~no such name~"
RT = lambda f: f.d.get("t")


class C07:
    def __init__(self, prog, ctx):
        self.prog, self.ctx = prog, ctx

    def enum_of(self, f, tid):
        t = f.ty(tid) if isinstance(tid, int) else tid
        c = re.sub(r"^const ", "", (t or {}).get("c", "")).rstrip("& ").strip()
        return c if c in SPEC else None

    def enumerators(self, T):
        e = self.prog.enum(T)
        return dict(map(tuple, e["c"]))

    def evaluate(self, f, args, subject=None, hook=None):
        pe = PEval(self.prog, subject, hook=hook, depth=5)
        return pe.run(f, args)

    def names(self, T):
        r = set()
        for t in SPEC[T]:
            r |= set(t.values())
        return r

    # --- enumerator -> name
    def to_names(self, f, T, ix, E):
        """(all names among what f returns, stores in a text parameter or passes on, does it return at all)"""
        nm = self.names(T)
        out, ret = set(), False
        rett = RT(f) is not None and TEXTT.search(pcanon(f.ty(RT(f))))

        def hook(fn, e, c, ops):
            s = [o for o in (PEval.txt(None, x) for x in ops) if isinstance(o, str)]
            return ("s", tuple(s)) if s else None
        args = [U] * len(f.params)
        args[ix] = E
        for kind, v, h, ev in self.evaluate(f, args, None, hook):
            if kind == "throw":
                continue
            ret = True
            v = PEval.txt(None, v)
            if isinstance(v, str):
                out.add(v)
            elif rett and v is U:
                out.add(None)
            for d, name, ty in f.params:
                x = h.get((1, d))
                if isinstance(x, str):
                    out.add(x)
            for k, x in h.items():
                if k[0] == "this" and isinstance(x, str):
                    out.add(x)
            for t, ss in ev:
                out |= set(ss)
        return out & nm, ret, out

    # --- name -> enumerator
    def from_name(self, f, T, S, en):
        args = []
        for d, name, ty in f.params:
            c = pcanon(f.ty(ty))
            args.append(S if TEXTT.search(c) and not c.endswith("* *") else U)
        r = set()
        byret = self.enum_of(f, RT(f)) == T if RT(f) is not None else False
        for kind, v, h, ev in self.evaluate(f, args, S):
            if kind == "throw":
                r.add("throw"); continue
            if byret:
                r.add(v if isinstance(v, int) else "?")
                continue
            got = False
            for d, name, ty in f.params:
                if self.enum_of(f, ty) == T and f.ty(ty)["c"].rstrip().endswith("&"):
                    got = True
                    if v == 0:
                        r.add("false")
                    else:
                        x = h.get((1, d), U)
                        r.add(x if isinstance(x, int) else "?")
            if not got:
                for k, x in h.items():
                    if k[0] == "this" and k[1] in self.fields(f, T):
                        got = True
                        r.add(x if isinstance(x, int) else "?")
        return r

    def fields(self, f, T):
        r = self.prog.recs.get(f.cls)
        if r is None:
            return set()
        return {x["n"] for x in r["fields"] if re.sub(r"^const ", "", r["tab"].types[x["t"]]["c"]) == T}


def run(prog, ctx):
    R1, R2, R3, R4 = "name-written", "name-read", "operand-count", "error-name"
    ctx.rule(R1, "For every enumerator with a name in the specification, every function that turns the enumeration into text (returned, stored in a parameter or passed on, on any path, through helpers and tables) yields exactly that name; different enumerators never yield the name of another one.")
    ctx.rule(R2, "For every name of the specification, every function that turns text into the enumeration yields the enumerator of that name (and nothing else on any path), and an unknown name yields no enumerator: an error, 'false', or the value that is also the default.")
    ctx.rule(R3, "The number of operands given for every content-stream operator is the one the specification prescribes.")
    ctx.rule(R4, "The name of every error code is the name of its enumerator.")
    A = C07(prog, ctx)
    found_to, found_from, und = 0, 0, []
    enums = {T: A.enumerators(T) for T in SPEC if T in prog.enums}
    for f in sorted(prog.fns.values(), key=lambda f: f.q):
        if f.entry is None or f.d.get("imp") or "lambda" in f.q:
            continue
        # ---- writing
        for ix, (d, name, ty) in enumerate(f.params):
            T = A.enum_of(f, ty)
            if T is None or f.ty(ty)["c"].rstrip().endswith("&"):
                continue
            en = enums[T]
            res = {}
            try:
                for n, v in en.items():
                    res[n] = A.to_names(f, T, ix, v)
            except Budget:
                ctx.notes.append("not evaluated within the step bound: %s" % f.sig())
                continue
            live = [r[0] for r in res.values() if r[1]]
            common = set.intersection(*live) if live else set()
            if len({frozenset(r[0]) for r in res.values()}) < 2:
                if T in PARTS and "string" in pcanon(f.ty(f.params[-1][2])):
                    pass
                else:
                    continue
            tables = SPEC[T]
            score = [sum(1 for n in t if n in res and t[n] in res[n][0] - common) for t in tables]
            best = max(score)
            if T in PARTS and len(f.params) > 2:
                outs = [p[0] for p in f.params[1:]]
                for n, parts in PARTS[T].items():
                    if n not in en:
                        continue
                    got = {tuple(h.get((1, d2), U) for d2 in outs) for kind, v, h, ev in A.evaluate(f, [en[n]] + [U] * len(outs)) if kind == "ret"}
                    ctx.check(R1, got == {parts[:len(outs)]}, f.sig(), n, f.loc(), "writes %s for %s, which is %s" % (sorted(map(str, got)), n, parts))
                found_to += 1
                continue
            # a map to something else (a family name, one kind of the type) is not a map to names
            if best < 2 or 2 * best < len(tables[0]) and sum(1 for r in res.values() if r[1]) >= 2 * best:
                continue
            found_to += 1; ctx.notes.append("writes %s: %s" % (T, f.sig()))
            t = tables[score.index(best)]
            partial = len(f.params) > 1 and not any(TEXTT.search(pcanon(f.ty(ty))) for d, n, ty in f.params)
            for n, v in en.items():
                got = res[n][0] - common
                if None in res[n][2] and not got - {t.get(n)}:
                    und.append((R1, f.q, n))
                    continue
                if n in t:
                    ok = got == {t[n]} or not got and t[n] in common or partial and not res[n][1]
                    ctx.check(R1, ok, f.sig(), n, f.loc(), "%s for %s::%s, whose name is %s" % ("yields '%s'" % "', '".join(sorted(got)) if got else "yields no name" if res[n][1] else "fails", T, n, t[n]))
                elif n not in NONE:
                    ctx.check(R1, not got, f.sig(), n, f.loc(), "yields '%s' for %s::%s, which has no such name" % ("', '".join(sorted(got)), T, n))
                else:
                    dflt = not got or not res[n][1]
                    others = set(got)
                    ctx.check(R1, dflt or T == "mm::PdfAppearanceType", f.sig(), n, f.loc(), "yields '%s' for %s::%s" % ("', '".join(sorted(others)), T, n))
        # ---- reading
        Ts = set()
        if RT(f) is not None and A.enum_of(f, RT(f)):
            Ts.add(A.enum_of(f, RT(f)))
        for d, name, ty in f.params:
            T = A.enum_of(f, ty)
            if T and f.ty(ty)["c"].rstrip().endswith("&") and not f.ty(ty)["c"].startswith("const"):
                Ts.add(T)
        if f.d.get("ctor") and f.cls:
            for T in SPEC:
                if A.fields(f, T):
                    Ts.add(T)
        for T in sorted(Ts):
            en = enums.get(T)
            if not en:
                continue
            try:
                junk = A.from_name(f, T, JUNK, en)
                tables = SPEC[T]
                res = {s: A.from_name(f, T, s, en) for s in A.names(T) | set(ALIASES.get(T, {}).values())}
            except Budget:
                ctx.notes.append("not evaluated within the step bound: %s" % f.sig())
                continue
            if not junk or all(r == junk for r in res.values()):
                continue
            inv = [{} for t in tables]
            for i, t in enumerate(tables):
                for n, s in t.items():
                    if n in en:
                        inv[i].setdefault(s, set()).add(en[n])
            score = [sum(1 for s in v if res[s] - junk) for v in inv]
            if max(score) < 2:
                continue
            found_from += 1; ctx.notes.append("reads %s: %s" % (T, f.sig()))
            t = inv[score.index(max(score))]
            byv = {v: n for n, v in en.items()}
            show = lambda r: ", ".join(sorted(byv.get(x, str(x)) for x in r)) or "nothing"
            for s, want in sorted(t.items()):
                got = res[s]
                if "?" in got:
                    und.append((R2, f.q, s))
                    continue
                new = got - junk
                ok = new == want or new and new <= want and len(want) > 1 or not new and want <= junk or (want & junk) and new == want - junk
                if len(want) > 1:
                    ok = ok and new == want
                ctx.check(R2, ok, f.sig(), s, f.loc(), "reads '%s' as %s instead of %s" % (s, show(new or got), show(want)))
            for n, s in ALIASES.get(T, {}).items():
                if s in t:
                    continue
                new = res[s] - junk - {"?"}
                ctx.check(R2, new <= {en[n]}, f.sig(), s, f.loc(), "reads '%s' as %s instead of %s" % (s, show(new), n))
            bad = {x for x in junk if isinstance(x, int) and byv.get(x) not in NONE}
            if "throw" in junk or "false" in junk:
                ctx.check(R2, True, f.sig(), "unknown name", f.loc(), "")
            elif "?" in junk:
                und.append((R2, f.q, "unknown name"))
            else:
                ctx.check(R2, junk and len(bad) <= 1, f.sig(), "unknown name", f.loc(), "reads an unknown name as %s" % show(junk))
    # ---- operand counts
    T = "mm::PdfOperator"
    en = enums[T]
    for f in sorted(prog.fns.values(), key=lambda f: f.q):
        if f.entry is None or not f.params or A.enum_of(f, f.params[0][2]) != T:
            continue
        rt = pcanon(f.ty(RT(f))) if RT(f) is not None else ""
        outs = [d for d, n, ty in f.params[1:] if pcanon(f.ty(ty)) == "int &"]
        if not (outs or rt == "int" and len(f.params) == 1):
            continue
        for n, v in en.items():
            if n in NONE:
                continue
            res = A.evaluate(f, [v] + [U] * (len(f.params) - 1))
            got = {h.get((1, outs[0]), U) if outs and r else r for kind, r, h, ev in res if kind == "ret"}
            if any(kind == "throw" for kind, r, h, ev in res):
                got.add("an error")
            ctx.check(R3, got == {OPERANDS.get(n)}, f.sig(), n, f.loc(), "gives %s operands for operator %s, which takes %s" % (", ".join(map(str, got)), OPERATORS.get(n, n), OPERANDS.get(n)))
    # ---- error names
    e = prog.enum("mm::PdfErrorCode")
    vals = dict(map(tuple, e["c"]))
    for f in prog.fns.values():
        if f.entry is None or len(f.params) != 1 or RT(f) is None or not TEXTT.search(pcanon(f.ty(RT(f)))):
            continue
        c = re.sub(r"^const ", "", f.ty(f.params[0][2])["c"]).rstrip("& ")
        if c != "mm::PdfErrorCode":
            continue
        res = {n: {PEval.txt(None, r) for kind, r, h, ev in A.evaluate(f, [v])} for n, v in vals.items()}
        if sum(1 for n, r in res.items() if any(isinstance(x, str) and x.endswith(n) for x in r)) < len(vals) // 2:
            continue
        for n, r in res.items():
            ctx.check(R4, {x.split("::")[-1] if isinstance(x, str) else x for x in r} == {n}, f.sig(), n, f.loc(), "names it %s" % sorted(map(str, r)))
    for x in und:
        ctx.notes.append("not decided (value not computable from the source): %s in %s: %s" % x)
    ctx.notes.append("%d functions writing names, %d functions reading names" % (found_to, found_from))
    if found_to < 8 or found_from < 8:
        raise AnalysisError("only %d functions writing and %d functions reading names found" % (found_to, found_from))
    ctx.need(R1, 120); ctx.need(R2, 120); ctx.need(R3, 60); ctx.need(R4, 30)
