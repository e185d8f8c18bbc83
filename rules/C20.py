"""C20: what a setter stores is what the matching getter reads."""
from lib import *
import re

ASSUMPTIONS = [
    "Accessors are paired by name within a class: SetX with GetX, IsX or HasX; a getter that returns a member variable reads the keys from which the member is filled.",
    "Keys that are not constant at any level of the call are not compared; a value handed over as an object or reference of unknown type is not compared with the type the getter asks for.",
]
SETS = {"AddKey", "AddKeyIndirect", "AddKeyIndirectSafe"}
DELS = {"RemoveKey"}
GETS = {"GetKey", "FindKey", "MustFindKey", "FindKeyParent", "MustFindKeyParent", "MustGetKey", "GetKeyAs", "FindKeyAs", "FindKeyParentAs", "FindKeyAsSafe", "FindKeyParentAsSafe", "TryFindKeyAs", "TryFindKeyParentAs", "HasKey"}
ACCEPT = {"String": {"String"}, "Name": {"Name"}, "Bool": {"Bool"}, "Number": {"Number"}, "NumberLenient": {"Number", "Real"}, "Real": {"Number", "Real"}, "RealStrict": {"Real"}, "Array": {"Array"}, "Dictionary": {"Dictionary"}, "Reference": {"Reference"}, "Null": {"Null"}}
KIND = [(re.compile(r"mm::PdfString\b"), "String"), (re.compile(r"mm::PdfName\b"), "Name"), (re.compile(r"mm::PdfArray\b"), "Array"), (re.compile(r"mm::PdfDictionary\b"), "Dictionary"), (re.compile(r"mm::PdfReference\b"), None), (re.compile(r"^bool$"), "Bool"), (re.compile(r"^(?:double|float)$"), "Real"), (re.compile(r"^(?:unsigned |signed )?(?:char|short|int|long|long long)(?: int)?$|^unsigned$|^u?int\d+_t$"), "Number"), (re.compile(r"mm::PdfDate\b"), None)]


def bare(t):
    c = (t or {}).get("c", "")
    return re.sub(r"\bconst\b", "", c).replace("&", "").strip()


def kind_of(t):
    c = bare(t)
    if "*" in c:
        return None
    for r, k in KIND:
        if r.search(c):
            return k
    return None


FOREIGN = ("f", None)      # the callee works on another object than the caller


class Acc:
    def __init__(self, prog):
        self.prog, self.memo, self.members = prog, {}, None

    # ---- keys -------------------------------------------------------------
    def key(self, f, i, env, depth=0):
        """constant text(s) of a key expression: set of strings, or None"""
        i = f.strip(i) if i is not None and i >= 0 else -1
        if i < 0 or depth > 8:
            return None
        k = f.k(i)
        if k == "StringLiteral":
            return {f.x(i)["s"]}
        if k in ("Construct", "Cast", "Paren", "InitListExpr", "MaterializeTemporaryExpr"):
            a = f.args(i) if k == "Construct" else f.kids(i)
            a = [x for x in a if x >= 0 and f.k(x) != "CXXDefaultArgExpr"]
            return self.key(f, a[0], env, depth + 1) if a else None
        if k == "ConditionalOperator":
            r = [self.key(f, x, env, depth + 1) for x in f.kids(i)[1:]]
            return set().union(*r) if all(r) else None
        if k == "Call":
            o = f.obj(i)
            c = f.callee(i)
            if c and ("operator" in c["q"].split("::")[-1] or c["q"].endswith(("::GetString", "::GetRawData"))) and o is not None and o >= 0:
                return self.key(f, o, env, depth + 1)
            if c and c["u"] in self.prog.fns:
                g = self.prog.fns[c["u"]]
                r = [self.key(g, g.kids(j)[0], (), depth + 1) for j, n in enumerate(g.nodes) if n[0] == "ReturnStmt" and n[3]]
                return set().union(*r) if r and all(r) else None
            return None
        if k == "DeclRefExpr":
            d = f.x(i)["d"]
            dd = f.tab.decls[d]
            for n, p in enumerate(f.params):
                if p[0] == d:
                    e = env[n] if n < len(env) else None
                    return set(e[1]) if e and e[0] == "s" else None
            ii = var_inits(f).get(d)
            if ii:
                r = [self.key(f, x, env, depth + 1) for x in ii]
                return set().union(*r) if all(r) else None
            v = self.prog.vars.get(dd.get("u"))
            if v:
                return self.literal(v.get("val"))
        return None

    def literal(self, v):
        if isinstance(v, dict):
            if isinstance(v.get("s"), str):
                return {v["s"]}
            for x in v.get("a", ()):
                r = self.literal(x)
                if r:
                    return r
        return None

    # ---- objects ----------------------------------------------------------
    def path(self, f, i, env, depth=0):
        """keys that lead from the object of `this` to the object or dictionary expression i; None when unknown"""
        i = f.strip(i) if i is not None and i >= 0 else -1
        if i < 0 or depth > 10:
            return None
        k = f.k(i)
        if k in ("Cast", "Paren", "MaterializeTemporaryExpr"):
            return self.path(f, f.kids(i)[0], env, depth + 1)
        if k == "UnaryOperator" and f.x(i)["op"] in ("*", "&"):
            return self.path(f, f.kids(i)[0], env, depth + 1)
        if k == "Construct":
            a = [x for x in f.args(i) if x >= 0]
            return self.path(f, a[0], env, depth + 1) if len(a) == 1 else None
        if k == "ConditionalOperator":
            return self.unify(self.path(f, x, env, depth + 1) for x in f.kids(i)[1:])
        if k == "MemberExpr":
            m = re.match(r"^this\.(\w+)$", f.path(i) or "")
            return ("$" + m.group(1),) if m and FOREIGN not in env else None
        if k == "DeclRefExpr":
            d = f.x(i)["d"]
            for n, p in enumerate(f.params):
                if p[0] == d:
                    e = env[n] if n < len(env) else None
                    return e[1] if e and e[0] == "o" else None
            return self.unify(self.path(f, x, env, depth + 1) for x in var_inits(f).get(d, ()))
        if k == "Call":
            c = f.callee(i)
            if not c:
                return None
            n = c["q"].split("::")[-1].split("<")[0]
            o = f.obj(i)
            if c["q"].startswith("mm::PdfDictionary::") and (n in GETS or n in SETS):
                p = self.path(f, o, env, depth + 1)
                ks = self.key(f, f.args(i)[0], env)
                return p + ("|".join(sorted(ks)),) if p is not None and ks else None
            if n in ("GetObject", "GetDictionary", "GetArray", "getObject", "getDictionary") and o is not None and o >= 0:
                if self.is_this(f, o):
                    return None if FOREIGN in env else ()
                return self.path(f, o, env, depth + 1)
            if n.startswith("operator") and o is not None and o >= 0:
                return self.path(f, o, env, depth + 1)
            if n.startswith("operator") and f.args(i):
                return self.path(f, f.args(i)[0], env, depth + 1)
            if c["u"] in self.prog.fns and re.search(r"mm::Pdf(?:Object|Dictionary)\b", bare(f.tab.types[c["t"]] if c.get("t") is not None else {}) or ""):
                g = self.prog.fns[c["u"]]
                if self.same_object(f, i, g):
                    e = self.env(f, i, env) + ((FOREIGN,) if FOREIGN in env else ())
                    return self.unify(self.path(g, g.kids(j)[0], e, depth + 1) for j, n2 in enumerate(g.nodes) if n2[0] == "ReturnStmt" and n2[3])
        return None

    def unify(self, ps):
        ps = {p for p in ps if p is not None}
        return ps.pop() if len(ps) == 1 else None

    def same_object(self, f, i, g):
        """the callee works on the same `this`, or has none"""
        o = f.obj(i)
        if o is None or o < 0:
            return not g.cls or g.d.get("st") or g.d.get("ctor") is None and not g.cls
        return self.is_this(f, o)

    def is_this(self, f, o):
        o = f.strip(o)
        while o >= 0 and (f.k(o) in ("Cast", "Paren") or f.k(o) == "UnaryOperator" and f.x(o)["op"] in ("*", "&")):
            o = f.strip(f.kids(o)[0])
        return o >= 0 and f.k(o) == "This"

    def env(self, f, i, env):
        out = []
        for a in f.args(i):
            e = None
            if a >= 0:
                ks = self.key(f, a, env)
                if ks:
                    e = ("s", tuple(sorted(ks)))
                else:
                    p = self.path(f, a, env)
                    if p is not None:
                        e = ("o", p)
            out.append(e)
        return tuple(out)

    # ---- operations -------------------------------------------------------
    def ops(self, f, env=(), depth=0, seen=(), only=None):
        """[(op, path, f, node, env)] on dictionaries reached from this; path ends with the key, starts with None when the dictionary is unknown"""
        mk = (f.usr, env, only and tuple(sorted(only)))
        if mk in self.memo:
            return self.memo[mk]
        if depth > 5 or f.usr in seen:
            return []
        out = []
        for i in f.calls():
            if only is not None and i not in only:
                continue
            c = f.callee(i)
            if not c:
                continue
            n = c["q"].split("::")[-1].split("<")[0]
            if c["q"].startswith("mm::PdfDictionary::") and (n in SETS or n in DELS or n in GETS) and f.args(i):
                op = "set" if n in SETS else "del" if n in DELS else "get"
                ks = self.key(f, f.args(i)[0], env)
                p = self.path(f, f.obj(i), env)
                if ks is None:
                    out.append((op, None, f, i, env))
                else:
                    out.append((op, ((p if p is not None else ("?",)) + ("|".join(sorted(ks)),)), f, i, env))
            elif c["u"] in self.prog.fns and c["q"].startswith("mm::") and f.k(i) == "Call":
                g = self.prog.fns[c["u"]]
                if g.cls in ("mm::PdfDictionary", "mm::PdfObject", "mm::PdfArray", "mm::PdfElement", "mm::PdfDictionaryElement"):
                    continue
                e = self.env(f, i, env)
                same = (not g.cls or g.d.get("st") or self.same_object(f, i, g)) and FOREIGN not in env
                if not same:
                    e += (FOREIGN,)
                if (same and g.cls and not g.d.get("st")) or any(x and x[0] == "o" for x in e):
                    out += [o for o in self.ops(g, e, depth + 1, seen + (f.usr,)) if same or o[1] and o[1][0] != "?"]
        self.memo[mk] = out
        return out

    # ---- members ----------------------------------------------------------
    def member_sources(self, cls):
        """member -> [(f, node)] expressions from which a member of the class is filled"""
        if self.members is None:
            self.members = {}
            for f in self.prog.fns.values():
                if not f.cls:
                    continue
                m = self.members.setdefault(f.cls, {})
                for b in f.blocks.values():
                    for e in b["e"]:
                        if isinstance(e, list) and e[0] == "init" and e[1]:
                            m.setdefault(e[1], []).append((f, e[2]))
                for i, n in enumerate(f.nodes):
                    t = v = None
                    if n[0] == "BinaryOperator" and f.x(i)["op"] == "=":
                        t, v = f.kids(i)
                    elif n[0] == "Call":
                        c, o, a = f.callee(i), f.obj(i), f.args(i)
                        if c and c["q"].split("::")[-1] in ("operator=", "reset", "FromArray", "push_back", "emplace_back") :
                            if o is not None and o >= 0 and a:
                                t, v = o, a[-1]
                            elif len(a) == 2:
                                t, v = a
                    if t is None or v is None or v < 0:
                        continue
                    p = f.path(f.strip(t))
                    mm_ = re.match(r"^this\.(\w+)", p or "")
                    if mm_:
                        m.setdefault(mm_.group(1), []).append((f, v))
        return self.members.get(cls, {})

    def from_members(self, f, names):
        out = []
        for cls in [f.cls]:
            src = self.member_sources(cls)
            for n in names:
                for g, v in src.get(n, ()):
                    only, todo = set(), [v]
                    while todo:
                        x = todo.pop()
                        for j in g.subtree(x):
                            if j < 0 or j in only:
                                continue
                            only.add(j)
                            if g.k(j) == "DeclRefExpr":
                                for ini in var_inits(g).get(g.x(j)["d"], ()):
                                    if ini >= 0 and ini not in only:
                                        todo.append(ini)
                    out += self.ops(g, self.ctor_env(g), only=frozenset(only))
        return out

    def ctor_env(self, g):
        """a constructor's object parameter is the object of `this`"""
        if not g.d.get("ctor"):
            return ()
        return tuple(("o", ()) if bare(g.ty(p[2]) or {}) == "mm::PdfObject" else None for p in g.params)

    def this_members(self, f):
        out = set()
        for i, n in enumerate(f.nodes):
            if n[0] == "MemberExpr":
                m = re.match(r"^this\.(\w+)$", f.path(i) or "")
                if m:
                    out.add(m.group(1))
        return out


def leaves(paths):
    ps = set(paths)
    return {p for p in ps if not any(q != p and q[:len(p)] == p for q in ps)}


def names(ops):
    """last keys of the innermost entries; None when one of them is not constant"""
    if any(o[1] is None for o in ops):
        return None
    return {p[-1] for p in leaves(o[1] for o in ops)}


# the entry each property is stored in (ISO 32000); a last key stands for the path
SPEC = {
    "PdfAcroForm": dict(NeedAppearances="NeedAppearances"),
    "PdfAction": dict(Script="JS", URI="URI"),
    "PdfAnnotation": dict(BorderStyle="Border", Color="C", Contents="Contents", Flags="F", Rect="Rect", Title="T"),
    "PdfAnnotationActionBase": dict(Action="A"),
    "PdfAnnotationFileAttachement": dict(FileAttachement="FS"),
    "PdfAnnotationLink": dict(Destination="Dest"),
    "PdfAnnotationPopup": dict(Open="Open"), "PdfAnnotationText": dict(Open="Open"),
    "PdfAppearanceCharacteristics": dict(AlternateCaption="AC", BackgroundColor="BG", BorderColor="BC", Caption="CA", RolloverCaption="RC"),
    "PdfCatalog": dict(BaseURI="URI", BindingDirection="Direction", CenterWindow="CenterWindow", DisplayDocTitle="DisplayDocTitle", FitWindow="FitWindow", HideMenubar="HideMenubar", HideToolbar="HideToolbar", HideWindowUI="HideWindowUI", Language="Lang", PageLayout="PageLayout", PageMode="PageMode", PrintScaling="PrintScaling"),
    "PdfCheckBox": dict(AppearanceChecked="Yes", AppearanceUnchecked="Off", Checked="AS V"),
    "PdChoiceField": dict(CommitOnSelectionChange="Ff", MultiSelect="Ff", SelectedIndex="V", Sorted="Ff", SpellcheckingEnabled="Ff"),
    "PdfComboBox": dict(Editable="Ff"),
    "PdfExtGState": dict(BlendMode="BM", FillOpacity="ca", FillOverprint="op", NonZeroOverprint="OPM", Overprint="OP", RenderingIntent="RI", StrokeOpacity="CA", StrokeOverprint="OP"),
    "PdfField": dict(AlternateName="TU", FieldFlag="Ff", FocusEnterAction="Fo", FocusLeaveAction="Bl", HighlightingMode="H", KeystrokeAction="K", MappingName="TM", MouseDownAction="D", MouseEnterAction="E", MouseLeaveAction="X", MouseUpAction="U", Name="T", NoExport="Ff", PageCloseAction="PC", PageInvisibleAction="PI", PageOpenAction="PO", PageVisibleAction="PV", ReadOnly="Ff", Required="Ff", ValidateAction="V"),
    "PdfImage": dict(ChromaKeyMask="Mask", Interpolate="Interpolate", Softmask="SMask"),
    "PdfInfo": dict((k, k) for k in "Author CreationDate Creator Keywords ModDate Producer Subject Title Trapped".split()),
    "PdfOutlineItem": dict(First="First", Last="Last", Next="Next", Previous="Prev", TextColor="C", TextFormat="F", Title="Title"),
    "PdfPage": dict(MediaBox="MediaBox", RotationRaw="Rotate", TrimBox="TrimBox"),
    "PdfSignature": dict(SignatureDate="M", SignatureLocation="Location", SignatureReason="Reason", SignerName="Name"),
    "PdfTextBox": dict(Combs="Ff", FileField="Ff", MaxLen="MaxLen", MultiLine="Ff", PasswordField="Ff", RichText="Ff", ScrollBarsEnabled="Ff", SpellcheckingEnabled="Ff", Text="RV|V"),
    "PdfXObject": dict(Matrix="Matrix"), "PdfXObjectForm": dict(Rect="BBox"),
}
# entries a getter looks at besides the one it returns: entries that say which one to use, and defaults
ALSO = {
    ("PdChoiceField", "SelectedIndex"): {"Opt", "Kids"}, ("PdfTextBox", "Text"): {"Ff", "Kids"},
    ("PdfPage", "TrimBox"): {"MediaBox", "CropBox"}, ("PdfPage", "MediaBox"): {"CropBox"},
    ("PdfAnnotationWidget", "Field"): {"FT", "Ff", "Kids"}, ("PdfField", "FieldFlag"): {"Kids"},
}
# bit of /Ff and whether the property says the opposite of the flag
FLAG = {
    ("PdfField", "ReadOnly"): (1, 0), ("PdfField", "Required"): (2, 0), ("PdfField", "NoExport"): (4, 0),
    ("PdfTextBox", "MultiLine"): (1 << 12, 0), ("PdfTextBox", "PasswordField"): (1 << 13, 0), ("PdfTextBox", "FileField"): (1 << 20, 0),
    ("PdfTextBox", "SpellcheckingEnabled"): (1 << 22, 1), ("PdfTextBox", "ScrollBarsEnabled"): (1 << 23, 1), ("PdfTextBox", "Combs"): (1 << 24, 0), ("PdfTextBox", "RichText"): (1 << 25, 0),
    ("PdChoiceField", "Sorted"): (1 << 19, 0), ("PdChoiceField", "MultiSelect"): (1 << 21, 0), ("PdChoiceField", "SpellcheckingEnabled"): (1 << 22, 1), ("PdChoiceField", "CommitOnSelectionChange"): (1 << 26, 0),
    ("PdfComboBox", "Editable"): (1 << 18, 0),
}
COMPONENT = {"Red": 0, "Green": 1, "Blue": 2}


def unnot(f, i):
    """(expression without negations, parity)"""
    par = 0
    i = f.strip(i)
    while i >= 0:
        if f.k(i) == "UnaryOperator" and f.x(i)["op"] == "!":
            par ^= 1
            i = f.strip(f.kids(i)[0])
        elif f.k(i) in ("Cast", "Paren") or f.k(i) == "Construct" and len(f.args(i)) == 1:
            i = f.strip((f.args(i) if f.k(i) == "Construct" else f.kids(i))[0])
        elif f.k(i) == "BinaryOperator" and f.x(i)["op"] in ("==", "!="):
            a, b = f.kids(i)
            v = f.cv(b)
            if v not in (0, 1, True, False):
                a, b = b, a
                v = f.cv(b)
            if v not in (0, 1, True, False) or bare(f.type(f.strip(a))) != "bool":
                break
            par ^= int((f.x(i)["op"] == "==") != bool(v))
            i = f.strip(a)
        elif f.k(i) == "DeclRefExpr" and f.tab.decls[f.x(i)["d"]]["k"] == "var" and len(var_inits(f).get(f.x(i)["d"], ())) == 1:
            i = f.strip(var_inits(f)[f.x(i)["d"]][0])
        else:
            break
    return i, par


def flag_sink(f):
    """{(callee, constant, parity)} where a bool parameter is handed on together with a constant"""
    out = set()
    bools = {p[0] for p in f.params if bare(f.ty(p[2])) == "bool"}
    for i in f.calls():
        if f.k(i) != "Call":
            continue
        cs = [f.cv(a) for a in f.args(i) if a >= 0 and f.cv(a) is not None and bare(f.type(f.strip(a))) != "bool"]
        for a in f.args(i):
            if a < 0:
                continue
            j, par = unnot(f, a)
            if j >= 0 and f.k(j) == "DeclRefExpr" and f.x(j)["d"] in bools:
                out.add((f.callee(i)["q"].split("::")[-1] if f.callee(i) else "", cs[0] if cs else None, par, i))
    return out


def flag_source(f):
    out = set()
    for r, n in enumerate(f.nodes):
        if n[0] != "ReturnStmt" or not n[3]:
            continue
        j, par = unnot(f, f.kids(r)[0])
        if j >= 0 and f.k(j) == "Call" and f.callee(j):
            cs = [f.cv(a) for a in f.args(j) if a >= 0 and f.cv(a) is not None and bare(f.type(f.strip(a))) != "bool"]
            out.add((f.callee(j)["q"].split("::")[-1].split("<")[0], cs[0] if cs else None, par, j))
    return out


def value_kinds(A, ops):
    """kinds of the values stored, per last key"""
    out = {}
    for op, p, f, i, env in ops:
        if op != "set" or p is None or len(f.args(i)) < 2:
            continue
        v = f.strip(f.args(i)[1])
        while v >= 0:
            if f.k(v) in ("Cast", "Paren", "MaterializeTemporaryExpr"):
                w = f.strip(f.kids(v)[0])
            elif f.k(v) == "Construct" and bare(f.type(v)) in ("mm::PdfObject", "mm::PdfVariant") and f.args(v):
                w = f.strip(f.args(v)[0])
            else:
                break
            if f.k(v) == "Cast" and kind_of(f.type(v)):
                break
            v = w
        k = kind_of(f.type(v)) if v >= 0 else None
        if v >= 0 and f.k(v) == "Call" and f.callee(v) and f.callee(v).get("t") is not None:
            k = kind_of(f.tab.types[f.callee(v)["t"]]) or k
        out.setdefault(p[-1], []).append((k, f, i))
    return out


def accepted(A, f, ops):
    """kinds the getter takes, per last key; missing when unknown"""
    out = {}
    for op, p, g, i, env in ops:
        if p is None or op != "get":
            continue
        n = g.callee(i)["q"].split("::")[-1]
        if "As" in n.split("<")[0] or n.startswith("TryFindKeyAs"):
            t = g.tab.types[g.callee(i)["t"]] if g.callee(i).get("t") is not None else None
            k = kind_of(t)
            if n.startswith("TryFind"):
                k = kind_of(g.type(g.strip(g.args(i)[1]))) if len(g.args(i)) > 1 else None
            if k:
                out.setdefault(p[-1], set()).update({"Number", "Real"} if k == "Real" else {k})
    seen = {(g.usr, env): (g, env) for _, p, g, i, env in ops}
    want = {p for _, p, *_ in ops if p}
    for g, env in seen.values():
        for i in g.calls():
            c = g.callee(i)
            if not c or not c["q"].startswith(("mm::PdfObject::", "mm::PdfVariant::")):
                continue
            m = re.match(r"(?:Get|Is|TryGet)(String|Name|Bool|NumberLenient|Number|RealStrict|Real|Array|Dictionary|Reference)$", c["q"].split("::")[-1])
            if not m:
                continue
            p = A.path(g, g.obj(i), env)
            if p in want:
                out.setdefault(p[-1], set()).update(ACCEPT[m.group(1)])
    return out


def from_params(f, i):
    """the expression is built from a parameter"""
    params = {p[0] for p in f.params}
    seen, todo, vs = set(), [i], set()
    while todo:
        x = todo.pop()
        for j in f.subtree(x):
            if j < 0 or j in seen:
                continue
            seen.add(j)
            if f.k(j) == "MemberExpr" and (f.path(j) or "").startswith("this."):
                for q, n in enumerate(f.nodes):
                    if n[0] == "BinaryOperator" and f.x(q)["op"] == "=" and f.path(f.strip(f.kids(q)[0])) == f.path(j):
                        todo.append(f.kids(q)[1])
            if f.k(j) == "DeclRefExpr":
                d = f.x(j)["d"]
                if d in params:
                    return True
                if d not in vs:
                    vs.add(d)
                    todo += [z for z in var_inits(f).get(d, ()) if z >= 0]
                    touched = False
                    for c in f.calls():
                        us = [y for y in f.subtree(c) if y >= 0 and f.k(y) == "DeclRefExpr"]
                        if any(f.x(y)["d"] == d for y in us) and not (f.callee(c) or {"q": ""})["q"].startswith("mm::PdfDictionary::AddKey"):
                            touched = True
                            todo.append(c)
                    if f.tab.decls[d]["k"] == "var" and f.tab.decls[d].get("q", "").find("::") < 0 and not var_inits(f).get(d) and not touched:
                        return True        # filled in a way that is not followed
                    for q, n in enumerate(f.nodes):
                        if n[0] in ("BinaryOperator", "SwitchStmt") and (n[0] == "SwitchStmt" or f.x(q)["op"] == "="):
                            us = [y for y in f.subtree(q) if y >= 0 and f.k(y) == "DeclRefExpr"]
                            if any(f.x(y)["d"] == d for y in us) and any(f.x(y)["d"] in params for y in us):
                                return True
    return False


def run(prog, ctx):
    A = Acc(prog)
    rk = ctx.rule("same-key", "A getter reads exactly the dictionary entries that the setter of the same name stores (apart from listed entries that only select or default), through helpers with constant keys, through paths of nested dictionaries and through members filled from the dictionary.")
    rs = ctx.rule("specified-key", "A setter stores its property in the entry that ISO 32000 defines for it.")
    rt = ctx.rule("same-type", "The kind of value the setter stores is one that the getter asks for.")
    rc = ctx.rule("clear-same-key", "A setter that removes an entry removes the entry that it stores, and one that takes an optional value removes it.")
    rf = ctx.rule("same-flag", "A boolean property is stored and read through the same flag bits and with the same sense.")
    rv = ctx.rule("stores-parameter", "What the setter stores is made from its parameter, and the components of an array are stored in the order of the parameters and read at the matching positions.")
    rr = ctx.rule("read-success", "The value filled in by a TryGet or TryFind call is not used where that call is known to have failed.")
    rm = ctx.rule("cache-updated", "When the getter returns a member that was filled from the dictionary, the setter updates that member as well.")
    pairs = {}
    for f in prog.fns.values():
        tried(ctx, rr, f)
        if f.q.startswith("mm::"):
            index_order(ctx, rv, f)
        m = re.match(r"(Set|Get|Is|Has)([A-Z]\w*)$", f.name or "")
        if f.cls and m and f.cls.startswith("mm::Pd") and f.cls not in ("mm::PdfDictionary", "mm::PdfObject", "mm::PdfNameTreeNode"):
            pairs.setdefault((f.cls[4:], m.group(2)), {}).setdefault(m.group(1), []).append(f)
    nspec = 0
    for (cls, prop), d in sorted(pairs.items()):
        getters = [g for k in ("Get", "Is", "Has") for g in d.get(k, ())]
        for g in getters:
            for w, ix in COMPONENT.items():
                if prop.endswith(w):
                    for i in g.calls():
                        c = g.callee(i)
                        if c and c["q"].split("::")[-1] in ("operator[]", "FindAt", "MustFindAt", "at", "GetAt", "FindAtAs") and c["q"].startswith("mm::PdfArray") and g.args(i) and g.cv(g.args(i)[-1]) is not None:
                            ctx.check(rv, g.cv(g.args(i)[-1]) == ix, g.sig(), g.text(i), g.loc(i), "the %s component is read at position %d of the array" % (w.lower(), g.cv(g.args(i)[-1])))
        if "Set" not in d:
            continue
        extra = ALSO.get((cls, prop), set())
        gops = {g: A.ops(g) for g in getters}
        cached = {}
        for g in getters:
            if not [o for o in gops[g] if o[0] == "get"]:
                ms = A.this_members(g)
                gops[g] = A.from_members(g, ms)
                cached[g] = ms
        for s in d["Set"]:
            sops = [o for o in A.ops(s) if o[0] != "get"]
            sets = [o for o in sops if o[0] == "set"]
            dels = [o for o in sops if o[0] == "del"]
            wn = names(sets)
            # specified key
            want = SPEC.get(cls, {}).get(prop)
            if want is not None:
                nspec += 1
                got = wn if wn is not None else {"?"}
                if prop == "BaseURI":
                    ok = "URI" in got
                else:
                    ok = got == set(want.split())
                ctx.check(rs, ok, s.sig(), "%s::Set%s" % (cls, prop), s.loc(), "the property is specified to be stored in /%s, the setter stores %s" % (want, ", ".join("/" + x for x in sorted(got)) or "nothing"))
            # clear
            if dels and wn is not None:
                dn = {o[1][-1] if o[1] else "?" for o in dels if not (o[1] and len(o[1]) > 1 and o[1][:-1] in {w[1] for w in sets})}
                own = {x for x in dn if x not in CLEARED.get((cls, prop), ())}
                if prop not in ("Data", "DataRaw", "MetadataStreamValue"):
                    allw = {o[1][-1] for o in sets}
                    ctx.check(rc, own <= allw, s.sig(), "removes " + " ".join(sorted(own)), s.loc(dels[0][3]) if dels[0][2] is s else s.loc(), "clearing the property removes /%s, which is stored in /%s" % (" /".join(sorted(own - allw)), " /".join(sorted(wn))))
            opt = [p for p in s.params if re.search(r"nullable<|optional<", bare(s.ty(p[2])))]
            if opt and wn:
                dn = {o[1][-1] for o in dels if o[1]}
                allw = {o[1][-1] for o in sets}
                ctx.check(rc, wn <= dn if len(allw) == len(wn) and len(wn) == 1 else bool(allw & dn), s.sig(), "optional " + " ".join(sorted(wn)), s.loc(), "setting no value leaves the entry /%s" % " /".join(sorted(wn - dn)))
            # value from parameter
            here = [o for o in sets if o[2] is s]
            if s.params and here and len(sets) == len(here):
                ctx.check(rv, any(from_params(s, s.args(o[3])[1]) or dependent(s, o[3]) for o in here if len(s.args(o[3])) > 1), s.sig(), "Set" + prop, s.loc(here[0][3]), "the stored value does not depend on the parameter")
            order(ctx, rv, s)
            for o in here:
                if o[0] == "set" and len(s.args(o[3])) > 1:
                    w = altered(s, s.args(o[3])[1])
                    ctx.check(rv, w is None, s.sig(), "value of Set" + prop, s.loc(o[3]), "the parameter is changed before it is stored: " + (w or ""))
            for g in getters:
                go = [o for o in gops[g] if o[0] == "get"]
                rn = names(go)
                if rn is None or wn is None or not go:
                    continue
                if not rn - extra and not wn:
                    continue
                ctx.check(rk, bool(wn) and rn - extra <= wn and wn <= rn, g.sig(), "%s::%s" % (cls, prop), g.loc(), "the getter reads %s, but the setter stores %s" % (", ".join("/" + x for x in sorted(rn)), ", ".join("/" + x for x in sorted(wn)) or "nothing"))
                # nested dictionaries
                a, b = {p for p in leaves(o[1] for o in go) if p[0] != "?" and p[-1] not in extra}, {p for p in leaves(o[1] for o in sets) if p[0] != "?"}
                if len(a) == len(rn - extra) and len(b) == len(wn) and a and b and g not in cached:
                    ctx.check(rk, a == b, g.sig(), "path of %s::%s" % (cls, prop), g.loc(), "the getter reads %s, but the setter stores %s" % (sorted("/".join(p) for p in a), sorted("/".join(p) for p in b)))
                vk, ac = value_kinds(A, sets), accepted(A, g, go)
                for k, vs in vk.items():
                    for kind, sf, si in vs:
                        if kind and ac.get(k):
                            ctx.check(rt, kind in ac[k], sf.sig(), "/%s of %s::%s" % (k, cls, prop), sf.loc(si), "stored as %s, but the getter asks for %s" % (kind, " or ".join(sorted(ac[k]))))
                if g in cached and cached[g]:
                    upd = self_updates(A, s)
                    live = {m for m in cached[g] if any(x for x in A.member_sources(g.cls).get(m, ()))}
                    if live:
                        ctx.check(rm, bool(upd & live), s.sig(), "%s::Set%s" % (cls, prop), s.loc(), "the getter returns %s, which the setter does not update" % ", ".join(sorted(live)))
            # flags
            fs = {x for x in flag_sink(s) if x[1] is not None}
            for g in getters:
                for q, cst, par, j in flag_source(g):
                    if cst is None:
                        continue
                    for q2, cst2, par2, i2 in fs:
                        if re.sub(r"^[sS]et", "", q2) != re.sub(r"^(?:[gG]et|[iI]s|[hH]as)", "", q):
                            continue
                        ctx.check(rf, cst == cst2 and par == par2, g.sig(), "%s::%s" % (cls, prop), g.loc(j), "the getter returns %sflag %#x, but the setter stores the value as %sflag %#x" % ("not " if par else "", cst, "not " if par2 else "", cst2))
            for q2, cst2, par2, i2 in fs:
                if (cls, prop) in FLAG and q2 == "SetFieldFlag":
                    want, wp = FLAG[(cls, prop)]
                    ctx.check(rf, cst2 == want and par2 == wp, s.sig(), "bits of %s::%s" % (cls, prop), s.loc(i2), "stored as %sflag %#x, specified is %sflag %#x" % ("not " if par2 else "", cst2, "not " if wp else "", want))
            # plain booleans
            bs = [(unnot(s, s.args(o[3])[1]), o) for o in here if o[0] == "set" and len(s.args(o[3])) > 1]
            for (j, par), o in bs:
                if j >= 0 and s.k(j) == "DeclRefExpr" and bare(s.type(j)) == "bool":
                    for g in getters:
                        for r in [x for x, n in enumerate(g.nodes) if n[0] == "ReturnStmt" and n[3]]:
                            y, par2 = unnot(g, g.kids(r)[0])
                            if y >= 0 and g.k(y) == "Call" and bare(g.type(y)) == "bool" and g.cv(y) is None:
                                ctx.check(rf, par == par2, g.sig(), "%s::%s" % (cls, prop), g.loc(r), "the value is negated once between setter and getter")
    ctx.need(rr, 30)
    ctx.need(rk, 40)
    ctx.need(rs, 70)
    ctx.need(rt, 20)
    ctx.need(rc, 20)
    ctx.need(rf, 16)
    ctx.need(rv, 40)


CLEARED = {}
TRY = re.compile(r"mm::Pdf(?:Object|Variant|Dictionary|Array)::Try(?:Get|Find)\w+(?:<.*>)?$")


def tried(ctx, rr, f):
    for i in f.calls():
        c = f.callee(i)
        if not c or not TRY.match(c["q"]) or not f.args(i):
            continue
        d = var_of(f, f.strip(f.args(i)[-1]))
        if d is None or f.tab.decls[d]["k"] != "var":
            continue
        mine = set(f.subtree(i))
        uses, other = [], False
        for j, n in enumerate(f.nodes):
            if n[0] != "DeclRefExpr" or f.x(j)["d"] != d or j in mine:
                continue
            p = f.parent.get(j)
            if p is not None and f.k(p) in ("BinaryOperator", "CompoundAssign") and f.x(p)["op"].endswith("=") and f.x(p)["op"] not in ("==", "!=", "<=", ">=") and f.strip(f.kids(p)[0]) == j:
                other = True
            elif p is not None and f.k(p) == "UnaryOperator" and f.x(p)["op"] in ("&", "++", "--", "p++", "p--"):
                other = True
            elif p is not None and f.k(p) in ("Call", "Construct") and j not in (f.obj(p) if isinstance(f.obj(p), list) else [f.obj(p)]):
                pt = (f.callee(p) or {}).get("p") or []
                a = [f.strip(x) if x >= 0 else x for x in f.args(p)]
                t = f.tab.types[pt[a.index(j)]] if j in a and a.index(j) < len(pt) else None
                if t is None or t["c"].endswith("&") and not re.match(r"const |.*\* ?const &$", t["c"]) or re.search(r"[^t] ?\*&$", t["c"]):
                    other = True       # handed over by reference
                else:
                    uses.append(j)
            else:
                uses.append(j)
        if other or var_inits(f).get(d):
            continue
        bad = [j for j in uses if (i, False) in {(f.strip(x), t) for x, t in conds_at(f, j)}]
        ctx.check(rr, not bad, f.sig(), f.text(i), f.loc(bad[0]) if bad else f.loc(i), "the value is used where reading it failed")


def const_index(f, v):
    """(container path, constant index) of x[c], possibly converted"""
    v = f.strip(v)
    for _ in range(8):
        if v < 0:
            return None
        k = f.k(v)
        if k == "ArraySubscript" or k == "ArraySubscriptExpr":
            a, b = f.kids(v)[:2]
            return (f.path(f.strip(a)), f.cv(b)) if f.cv(b) is not None else None
        if k == "Call" and f.callee(v):
            n = f.callee(v)["q"].split("::")[-1]
            o, a = f.obj(v), f.args(v)
            if n in ("operator[]", "FindAt", "MustFindAt", "at"):
                b = a[-1]
                o = o if o is not None and o >= 0 else a[0]
                return (f.path(f.strip(o)), f.cv(b)) if f.cv(b) is not None else None
            if n in ("GetReal", "GetNumber", "GetRealStrict", "GetNumberLenient") and o is not None and o >= 0:
                v = f.strip(o)
                continue
            return None
        if k in ("Cast", "Paren", "MaterializeTemporaryExpr", "Construct"):
            a = [x for x in (f.args(v) if k == "Construct" else f.kids(v)) if x >= 0 and f.k(x) != "CXXDefaultArgExpr"]
            if len(a) != 1:
                return None
            v = f.strip(a[0])
            continue
        return None
    return None


def index_order(ctx, rv, f):
    """coefficients of arrays keep their positions"""
    per = {}
    for i in f.calls():
        c = f.callee(i)
        a = [x for x in f.args(i) if x >= 0]
        if c and c["q"] in ("mm::PdfArray::Add", "mm::PdfArray::push_back") and len(a) >= 1 and i in f.where:
            r = const_index(f, a[0])
            if r and r[0]:
                per.setdefault((f.path(f.strip(f.obj(i))), r[0], f.where[i][0]), []).append((f.where[i][1], r[1], i))
        rs = [const_index(f, x) for x in a]
        if len(rs) >= 4 and all(rs) and len({r[0] for r in rs}) == 1:
            ns = [r[1] for r in rs]
            ctx.check(rv, ns == sorted(ns), f.sig(), f.text(i), f.loc(i), "the elements of the array are taken in another order than they are stored")
    for k, xs in per.items():
        xs.sort()
        ns = [n for _, n, _ in xs]
        if len(ns) > 2:
            ctx.check(rv, ns == sorted(ns) and ns[0] == 0 and ns == list(range(len(ns))), f.sig(), "array made from %s" % k[1], f.loc(xs[0][2]), "the coefficients are stored in another order than they have")


def dependent(f, i):
    """the store happens under a condition on a parameter (a value per case)"""
    params = {p[0] for p in f.params}
    for c, _ in conds_at(f, i):
        if any(f.k(j) == "DeclRefExpr" and f.x(j)["d"] in params for j in f.subtree(c) if j >= 0):
            return True
    p = f.parent.get(i)
    while p is not None:
        if f.k(p) == "SwitchStmt" and any(f.k(j) == "DeclRefExpr" and f.x(j)["d"] in params for j in f.subtree(f.x(p)["cond"]) if j >= 0):
            return True
        p = f.parent.get(p)
    return False


WIDTH = {"bool": 1, "char": 8, "signed char": 8, "unsigned char": 8, "short": 16, "unsigned short": 16, "int": 32, "unsigned int": 32, "unsigned": 32, "long": 64, "unsigned long": 64, "long long": 64, "unsigned long long": 64, "float": 132, "double": 164}


def altered(f, i, depth=0):
    """text of an operation by which a scalar parameter is changed on its way to the stored value"""
    params = {p[0] for p in f.params}

    def scalar_param(j):
        return any(y >= 0 and f.k(y) == "DeclRefExpr" and f.x(y)["d"] in params and bare(f.type(y)) in WIDTH for y in f.subtree(j))
    for j in f.subtree(i):
        if j < 0:
            continue
        k = f.k(j)
        if k == "BinaryOperator" and f.x(j)["op"] in ("+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>") and scalar_param(j):
            return f.text(j)
        if k == "UnaryOperator" and f.x(j)["op"] in ("-", "~") and scalar_param(j):
            return f.text(j)
        if k == "Cast" and f.kids(j) and scalar_param(j):
            a, b = WIDTH.get(bare(f.type(f.kids(j)[0]))), WIDTH.get(bare(f.type(j)))
            if a and b and a > b and f.k(f.strip(f.kids(j)[0])) == "DeclRefExpr":
                return f.text(j)
        if k == "DeclRefExpr" and f.x(j)["d"] not in params and depth < 4:
            for z in var_inits(f).get(f.x(j)["d"], ()):
                if z >= 0:
                    w = altered(f, z, depth + 1)
                    if w:
                        return w
    return None


def self_updates(A, s):
    out = set()
    for m, xs in A.member_sources(s.cls).items():
        if any(g is s for g, _ in xs):
            out.add(m)
    return out


def order(ctx, rv, s):
    """parameters added to an array one after the other keep their order"""
    ps = [p[0] for p in s.params]
    if len(ps) < 2:
        return
    per = {}
    for i in s.calls():
        c = s.callee(i)
        if c and c["q"] in ("mm::PdfArray::Add", "mm::PdfArray::push_back") and s.args(i):
            v = s.strip(s.args(i)[0])
            while v >= 0 and s.k(v) in ("Cast", "Paren", "MaterializeTemporaryExpr", "Construct"):
                a = s.args(v) if s.k(v) == "Construct" else s.kids(v)
                if len([x for x in a if x >= 0 and s.k(x) != "CXXDefaultArgExpr"]) < 1:
                    break
                v = s.strip(a[0])
            if v >= 0 and s.k(v) == "DeclRefExpr" and s.x(v)["d"] in ps and i in s.where:
                per.setdefault(s.path(s.strip(s.obj(i))), []).append((s.where[i], ps.index(s.x(v)["d"]), i))
    for p, xs in per.items():
        by = {}
        for (b, ix), n, i in xs:
            by.setdefault(b, []).append((ix, n, i))
        for b, ys in by.items():
            ys.sort()
            ns = [n for _, n, _ in ys]
            if len(ns) > 1:
                ctx.check(rv, ns == sorted(ns), s.sig(), "order of components", s.loc(ys[0][2]), "the parameters are stored in another order than they are given")
