"""C12: nothing that reads or writes document data consults the locale."""
from lib import *

ASSUMPTIONS = [
    "The C library functions isdigit and isxdigit do not depend on the locale (ISO C 7.4.1); std::to_chars, std::from_chars and fmt without the L specifier do not either.",
    "Log and error-trace output to the standard error stream is diagnostics, not document data.",
]

FORBIDDEN = re.compile(
    r"^(?:std::)?(?:__builtin_)?(?:is(?:alpha|alnum|space|blank|upper|lower|print|punct|cntrl|graph)|to(?:lower|upper)|isw\w+|tow(?:lower|upper)|"
    r"strto(?:d|f|ld|l|ul|ll|ull|imax|umax)|ato(?:f|i|l|ll)|wcsto\w+|stod|stof|stold|stoi|stol|stoul|stoll|stoull|"
    r"v?s?n?printf|v?[sf]printf|v?asprintf|v?[sf]?scanf|strftime|strptime|wcsftime|asctime|ctime|strcoll|strxfrm|strcasecmp|strncasecmp|setlocale|localeconv|newlocale|uselocale|"
    r"mbstowcs|wcstombs|mbrtowc|wcrtomb|mbtowc|wctomb|mbsrtowcs|wcsrtombs|btowc|wctob|"
    r"put_time|get_time|put_money|get_money|use_facet|has_facet|locale::global|"
    r"collate\w*::.*|ctype\w*::.*|num_put.*|num_get.*|codecvt.*|wstring_convert.*|wbuffer_convert.*|"
    r"basic_istream<.*>::operator>>|operator>>)$")
DATE = re.compile(r"^date::(?:format|parse|to_stream|from_stream|operator<<|operator>>)$")
SCAN_OK = re.compile(r"^(?:%\d*(?:hh|h|ll|l|j|z|t)?[diuoxXcn]|%%|[^%])*$")


def stream_name(t):
    return t is not None and t["k"] == "rec" and t["r"].startswith(("std::basic_ostream", "std::basic_iostream", "std::basic_ostringstream", "std::basic_stringstream", "std::basic_ofstream", "std::basic_fstream"))


def run(prog, ctx):
    R1, R2, R3, R4, R5 = "locale-function", "stream-imbued", "locale-object", "format-spec", "regex"
    ctx.rule(R1, "No call to a C or C++ library function whose result depends on the process locale (who-may-call over every resolved call site).")
    ctx.rule(R2, "A number is inserted into an iostream only when that very stream was given the invariant locale beforehand (on every path, or by every constructor of its owner) or is a diagnostic stream.")
    ctx.rule(R3, "Locale objects are only created for the classic 'C' locale, and imbued locales are such objects.")
    ctx.rule(R4, "No format string uses the locale-aware 'L' specifier.")
    ctx.rule(R5, "Regular expressions on document text are compiled under the classic locale: imbued, or a literal pattern without classes, ranges or case folding.")

    def invariant_locale(fn, i, depth=0):
        """expression i denotes the classic locale"""
        i = fn.strip(i)
        if i < 0 or depth > 5:
            return False
        k = fn.k(i)
        if k == "Construct":
            a = [x for x in fn.args(i) if x >= 0 and fn.k(x) != "CXXDefaultArgExpr"]
            if not a:
                return False
            if literals(fn, a[0]):
                return literals(fn, a[0]) == ["C"]
            return invariant_locale(fn, a[0], depth + 1)
        if k == "Call":
            f = fn.callee(i)
            if f and f["q"] == "std::locale::classic":
                return True
            g = prog.fns.get(f["u"]) if f else None
            if g:
                rets = [j for j, n in enumerate(g.nodes) if n[0] == "ReturnStmt" and n[3]]
                return bool(rets) and all(invariant_locale(g, g.kids(j)[0], depth + 1) for j in rets)
            return False
        if k == "DeclRefExpr":
            d = fn.decl(i)
            init = init_of(fn, fn.x(i)["d"])
            if init >= 0:
                return invariant_locale(fn, init, depth + 1)
            v = prog.vars.get(d.get("u"))
            return bool(v) and v.get("val") == {"ctor": "std::locale", "a": [{"s": "C"}]}
        return False

    def imbue_gen(fn, e):
        if isinstance(e, int) and fn.k(e) == "Call":
            f = fn.callee(e)
            if f and f["q"].endswith("::imbue") and fn.args(e) and invariant_locale(fn, fn.args(e)[0]):
                p = fn.path(fn.obj(e))
                if p:
                    return [p.lstrip("*&")]
            # a helper that imbues its argument / own member
            if f and f["u"] in prog.fns and fn.obj(e) >= 0 and fn.path(fn.obj(e)) == "this" and f["u"] != fn.usr:
                return exit_facts(prog.fns[f["u"]])
        return ()
    memo = {}

    def exit_facts(f):
        if f.usr not in memo:
            memo[f.usr] = frozenset()
            if f.entry is not None:
                m = Must(f, imbue_gen)
                m.run()
                memo[f.usr] = frozenset(x for x in (m.out_at_exit() or ()) if x.startswith("this"))
        return memo[f.usr]

    ncalls = 0
    for f in prog.fns.values():
        imb = None
        for i, n in enumerate(f.nodes):
            if n[0] == "StringLiteral" and "{" in n[4].get("s", "") and "}" in n[4]["s"]:
                bad = re.search(r"\{\w*:[^{}]*L[^{}]*\}", n[4]["s"])
                ctx.check(R4, not bad, f.sig(), n[4]["s"], f.loc(i), "format string '%s' asks for locale-specific formatting" % n[4]["s"])
        for i in f.calls():
            d = f.callee(i)
            if d is None or f.k(i) != "Call" and not d["q"].startswith(("std::locale", "std::basic_regex")):
                continue
            q = d["q"]
            ncalls += 1
            if q.startswith("mm::"):
                continue
            if FORBIDDEN.match(q) or DATE.match(q):
                if q.split("::")[-1] in ("sscanf", "fscanf") and any(SCAN_OK.match(l) for l in literals(f, i)):
                    ctx.ok(R1, "%s: %s with an integer/character format" % (f.loc(i), q)); continue
                if q.split("::")[-1] == "operator>>" and not any(f.type(a) and (f.type(a).get("r") or f.ty(f.type(a).get("e")) and f.ty(f.type(a)["e"]).get("r") or "").startswith("std::basic_i") for a in f.args(i)):
                    continue
                ctx.bad(R1, f.sig(), q, f.loc(i), "call to %s depends on the process locale" % q)
                continue
            if q == "std::to_string":
                t = f.type(f.args(i)[0])
                ctx.check(R1, t and t["k"] == "int", f.sig(), q, f.loc(i), "std::to_string of a floating point number uses the C locale's decimal separator")
                continue
            if q.startswith("std::locale::locale"):
                if d.get("cc") or d.get("mc"):
                    continue
                ctx.check(R3, literals(f, i) == ["C"], f.sig(), "std::locale", f.loc(i), "a locale other than the classic \"C\" locale is created")
                continue
            if q.endswith("::imbue"):
                ctx.check(R3, invariant_locale(f, f.args(i)[0]), f.sig(), f.text(f.obj(i)), f.loc(i), "'%s' is imbued with something else than the classic locale" % f.text(f.obj(i)))
                continue
            if d.get("oo") == "<<" or (q.startswith("std::basic_ostream") and d.get("oo") == "<<"):
                ops = ([f.obj(i)] if f.obj(i) >= 0 else []) + f.args(i)
                if len(ops) == 2 and is_arith(f.type(ops[1])) and f.type(ops[1]).get("ch") is None and q.startswith("std::basic_ostream"):
                    if f.type(ops[1])["k"] == "int" and "char" in f.type(ops[1])["s"]:
                        continue
                    o = ops[0]
                    # leftmost operand of a chain of insertions
                    while True:
                        o = f.strip(o)
                        if f.k(o) == "Call" and f.callee(o) and f.callee(o).get("oo") == "<<":
                            o = f.obj(o) if f.obj(o) >= 0 else f.args(o)[0]
                        else:
                            break
                    p = (f.path(o) or "").lstrip("*&")
                    okay = f.cls == "mm::PdfError"      # error traces are diagnostics
                    dv = var_of(f, o)
                    if dv is not None and init_of(f, dv) >= 0:
                        p2 = f.path(init_of(f, dv)) or ""
                        if p2.lstrip("*&") in ("g:std::cerr", "g:std::clog", "g:std::cout"):
                            okay = True
                    if p in ("g:std::cerr", "g:std::clog", "g:std::cout"):
                        okay = True
                    if not okay:
                        if imb is None:
                            m = Must(f, imbue_gen)
                            imb = states_of(m)
                        w = f.where.get(i)
                        s = imb.get(w, frozenset()) if w else frozenset()
                        okay = p in s
                    if not okay and p.startswith("this.") and f.cls:
                        ctors = [c for c in class_fns(prog, f.cls) if c.d.get("ctor") and not c.d.get("cc") and not c.d.get("mc") and c.entry]
                        okay = bool(ctors) and all(p in exit_facts(c) for c in ctors)
                    ctx.check(R2, okay, f.sig(), f.text(o), f.loc(i), "a number is written to stream '%s', which was not given the classic locale" % f.text(o))
                continue
            if q.startswith("std::basic_regex") and f.k(i) == "Construct" and f.args(i):
                a = f.args(i)
                lits = literals(f, a[0])
                flags = [f.cv(x) for x in a[1:]]
                safe = len(lits) == 1 and not re.search(r"\\[wWsSdDbB]|\[:|\[\.|\[=", lits[0]) and \
                    not any("icase" in (f.text(x) or "") or "collate" in (f.text(x) or "") for x in a[1:])
                ctx.check(R5, safe, f.sig(), "regex", f.loc(i), "a regular expression on text is compiled under the global locale; imbue the classic locale before assigning the pattern")
            if q.startswith("std::basic_regex") and q.endswith(("::assign", "::operator=")) and f.k(i) == "Call":
                # pattern assigned to a regex object
                if f.args(i) and f.type(f.args(i)[0]) and (f.type(f.args(i)[0]).get("r") or "").startswith("std::basic_regex"):
                    continue
                m = Must(f, imbue_gen)
                s = states_of(m).get(f.where.get(i), frozenset())
                p = (f.path(f.obj(i)) or "").lstrip("*&")
                lits = literals(f, f.args(i)[0])
                safe = p in s or (len(lits) == 1 and not re.search(r"\\[wWsSdDbB]|\[:|\[\.|\[=", lits[0]))
                ctx.check(R5, safe, f.sig(), "regex", f.loc(i), "a pattern is assigned to a regular expression that was not given the classic locale")
    ctx.ok(R1, "%d call sites classified" % ncalls, n=ncalls)
    ctx.need(R2, 2); ctx.need(R3, 1); ctx.need(R4, 20)
