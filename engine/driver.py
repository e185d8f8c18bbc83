"""Configure /repo out of tree, build the extractor, extract facts for every
library translation unit, and load them.  Facts are recomputed whenever any
source, the extractor or the build configuration changes (content hash)."""
import concurrent.futures as cf
import hashlib, json, os, shlex, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("PDFMM_REPO", "/repo")
CACHE = os.environ.get("PDFMM_CACHE", os.path.join(VERIF, ".cache"))
LLVM = "/usr/lib/llvm-18"


class AnalysisError(Exception):
    """the analysis could not be carried out (never a verdict)"""


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise AnalysisError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-3000:]))
    return r.stdout


def file_hash(*paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode()); h.update(b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def source_files():
    out = []
    for top in ("src", "3rdparty", "cmake"):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".cpp", ".h", ".hpp", ".c", ".in", ".txt", ".cmake", ".inl")):
                    out.append(os.path.join(d, f))
    out.append(os.path.join(REPO, "CMakeLists.txt"))
    return [p for p in out if os.path.isfile(p)]


def build_extractor():
    src = os.path.join(HERE, "extract.cpp")
    exe = os.path.join(CACHE, "extract-" + file_hash(src)[:16])
    if os.path.exists(exe):
        return exe
    tmp = exe + ".%d" % os.getpid()
    sh(["clang++", "-std=c++17", "-O1" if os.environ.get("PDFMM_EXTRACT_O1") else "-O0", "-fno-rtti", "-I%s/include" % LLVM, src, "-o", tmp,
        "%s/lib/libclang-cpp.so.18.1" % LLVM, "%s/lib/libLLVM-18.so" % LLVM, "-Wl,-rpath,%s/lib" % LLVM])
    os.replace(tmp, exe)
    return exe


def configure(bdir):
    sh(["cmake", "-S", REPO, "-B", bdir, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=RelWithDebInfo", "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON"])
    cc = json.load(open(os.path.join(bdir, "compile_commands.json")))
    tus = {}
    root = os.path.join(REPO, "src", "pdfmm") + os.sep
    for e in cc:
        f = os.path.normpath(os.path.join(e["directory"], e["file"]))
        if not f.startswith(root) or f in tus:
            continue
        args = shlex.split(e["command"])
        fl, i = [], 1
        while i < len(args):
            a = args[i]
            if a in ("-isystem", "-I", "-include", "-D"):
                fl += [a, args[i + 1]]; i += 2; continue
            if a.startswith(("-D", "-I", "-std=", "-fPIC")):
                fl.append(a)
            i += 1
        tus[f] = fl
    if len(tus) < 130:
        raise AnalysisError("only %d library translation units in the compilation database" % len(tus))
    return tus


# GCC >= 11 (the compiler the project builds with here) has floating point
# std::from_chars, so charconv_compat.h reduces to #include <charconv>; clang
# needs to be told the same.
EXTRA = ["-w", "-include", "charconv", "-DCHARCONV_COMPAT_H"]


def precompile(tmp, tus):
    """one precompiled header shared by all units (the same flags); the inline
    functions it holds are extracted from a unit that includes just it"""
    import collections
    flags = collections.Counter(tuple(v) for v in tus.values()).most_common(1)[0][0]
    hdr = os.path.join(tmp, "allheaders.cpp")
    with open(hdr, "w") as f:
        for h in ("pdfmm/private/PdfDeclarationsPrivate.h", "pdfmm/pdfmm.h"):
            if os.path.exists(os.path.join(REPO, "src", h)):
                f.write("#include <%s>\n" % h)
        for h in ("algorithm", "sstream", "fstream", "regex"):
            f.write("#include <%s>\n" % h)
    if os.environ.get("PDFMM_NOPCH"):
        return hdr, None, flags
    pch = os.path.join(tmp, "all.pch")
    r = subprocess.run(["clang++-18" if shutil.which("clang++-18") else "clang++", "-x", "c++-header"] + list(flags) + EXTRA + [hdr, "-o", pch], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return hdr, (pch if r.returncode == 0 else None), flags


PROBE = os.path.join(HERE, "probe.cpp")


def probe(pch, flags):
    """does the unit that uses the header templates compile against these headers?  (If not, it is left out:
    the interface it uses has changed.)"""
    r = subprocess.run(["clang++-18" if shutil.which("clang++-18") else "clang++", "-fsyntax-only", "-include-pch", pch] + list(flags) + EXTRA + [PROBE], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode and os.environ.get("PDFMM_PROBE"):
        print(r.stdout[:4000])
    return r.returncode == 0


def extract():
    """returns (list of fact files, list of translation units)"""
    os.makedirs(CACHE, exist_ok=True)
    files = source_files()
    key = file_hash(*(files + [os.path.join(HERE, "extract.cpp"), os.path.join(HERE, "driver.py"), os.path.join(HERE, "probe.cpp")]))[:24]
    out = os.path.join(CACHE, "facts-" + key)
    idx = os.path.join(out, "index.json")
    if os.path.exists(idx):
        try:
            os.utime(out)
        except OSError:
            pass
        ix = json.load(open(idx))
        return [os.path.join(out, f) for f in ix["files"]], ix["tus"]
    tmp = tempfile.mkdtemp(prefix="x-", dir=CACHE)
    try:
        with cf.ThreadPoolExecutor(10) as ex:
            fexe = ex.submit(build_extractor)
            bdir = os.path.join(tmp, "cmake")
            tus = configure(bdir)
            order = sorted(tus, key=lambda f: -os.path.getsize(f))
            hdr, pch, pflags = precompile(tmp, tus)
            if pch:
                order.insert(0, hdr)
                tus[hdr] = list(pflags)
                if probe(pch, pflags):
                    order.append(PROBE)
                    tus[PROBE] = list(pflags)
            exe = fexe.result()

            def one(a):
                i, f = a
                o = "%04d.jsonl" % i
                r = subprocess.run([exe, os.path.join(REPO, "src") + os.sep, os.path.join(tmp, o), f, "--"] + (["-include-pch", pch] if pch and f != hdr and tuple(tus[f]) == pflags else []) + tus[f] + EXTRA,
                                   cwd=bdir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode != 0:
                    raise AnalysisError("extractor failed on %s (rc %d): %s" % (f, r.returncode, r.stdout[-800:]))
                with open(os.path.join(tmp, o), "rb") as fh:
                    try:
                        fh.seek(-40, 2)
                    except OSError:
                        fh.seek(0)
                    if b'"K":"error"' in fh.read():
                        raise AnalysisError("translation unit does not compile: " + f)
                return o
            with cf.ThreadPoolExecutor(int(os.environ.get("PDFMM_JOBS", os.cpu_count() or 8))) as ex2:
                outs = list(ex2.map(one, enumerate(order)))
        shutil.rmtree(bdir, ignore_errors=True)
        if pch:
            os.unlink(pch)
        json.dump({"files": outs, "tus": order}, open(os.path.join(tmp, "index.json"), "w"))
        if os.path.exists(out):
            shutil.rmtree(tmp, ignore_errors=True)
        else:
            try:
                os.rename(tmp, out)
            except OSError:
                if not os.path.exists(idx):
                    raise
                shutil.rmtree(tmp, ignore_errors=True)
    except BaseException:
        shutil.rmtree(tmp, ignore_errors=True)
        raise
    prune(keep=out)
    ix = json.load(open(idx))
    return [os.path.join(out, f) for f in ix["files"]], ix["tus"]


def prune(keep, limit=6):
    ds = [os.path.join(CACHE, d) for d in os.listdir(CACHE) if d.startswith("facts-")]
    ds.sort(key=lambda d: -os.path.getmtime(d))
    for d in ds[limit:]:
        if d != keep:
            shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    t = time.time()
    f, tus = extract()
    print("%d translation units, %.1f s" % (len(tus), time.time() - t))
