#!/usr/bin/env python3
"""seed.py spec.py [name..]: (re)create and validate planted bugs under /verif/seeded.

spec.py defines BUGS = {id: dict(property=, needs=, breaks=, subs=[(file, old, new)], demo=C++ text)}."""
import json, os, subprocess, sys
SEED = "/verif/seeded"
DEMO = '''#!/bin/bash
# builds and runs demo.cpp against the library in /repo
D="$(cd "$(dirname "$0")" && pwd)"
W="$(mktemp -d)"
g++ -std=gnu++17 -O1 -w %s-DPDFMM_SHARED -I/repo/_build/src/pdfmm -I/repo/src -I/repo/3rdparty -I/repo/3rdparty/include -I/usr/include/freetype2 "$D/demo.cpp" -o "$W/demo" -L/repo/_build/target -lpdfmm -lpthread -Wl,-rpath,/repo/_build/target || { rm -r "$W"; exit 9; }
cd "$W" && timeout 120 ./demo
R=$?
rm -r "$W"
exit $R
'''
def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)
def build(): 
    r = sh("bash", "/opt/vp/build.sh")
    if r.returncode: print((r.stdout + r.stderr)[-1500:])
    return r.returncode == 0
def restore(): sh("git", "-C", "/repo", "checkout", "-q", "--", ".")

def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    
    todo = [b for b in ns["BUGS"] if not only or b in only]
    for b in todo:
        s = ns["BUGS"][b]
        d = SEED + "/" + b
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.cpp", "w").write(s["demo"])
        demo = DEMO % s.get("flags", "")
        if s.get("private"):
            # classes that the shared library does not export
            demo = demo.replace("-lpdfmm -lpthread", "$(find /repo/_build/src/pdfmm/CMakeFiles/pdfmm_shared.dir -name '*.o') -lpdfmm_private -lssl -lcrypto -lfontconfig -lfreetype -lxml2 -lpng -lz -ltiff -ljpeg -lidn -lpthread")
        open(d + "/demo.sh", "w").write(demo)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    restore(); assert build()
    for b in todo:
        r = sh("bash", SEED + "/" + b + "/demo.sh", cwd="/repo")
        if r.returncode: print(b, "DEMO FAILS ON CLEAN TREE", r.returncode, (r.stdout + r.stderr)[-1500:])
        ns["BUGS"][b]["clean"] = r.returncode == 0
    for b in todo:
        s = ns["BUGS"][b]
        if not s["clean"]: continue
        try:
            ok = True
            for path, old, new in s["subs"]:
                p = "/repo/" + path
                t = open(p, "rb").read()
                o, n = old.encode(), new.encode()
                if b"\r\n" in t: o, n = o.replace(b"\n", b"\r\n"), n.replace(b"\n", b"\r\n")
                if t.count(o) != 1: print(b, "SUB matches", t.count(o), path, old[:60]); ok = False; break
                open(p, "wb").write(t.replace(o, n))
            if not ok: continue
            open(SEED + "/" + b + "/patch.diff", "wb").write(subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True).stdout)
            if not build(): print(b, "BUILD FAILS"); continue
            r = sh("bash", SEED + "/" + b + "/demo.sh", cwd="/repo")
            d = r.returncode
            sh("bash", "/opt/vp/test.sh", "/tmp/seed_o.json")
            o = json.load(open("/tmp/seed_o.json"))
            np = len(o["passed"]) if hasattr(o["passed"], "__len__") else o["passed"]
            c = sh("python3", "/verif/check.py", s["property"])
            caught = "VIOLATION property" in c.stdout
            print(b, "demo rc", d, "tests passed", np, "CAUGHT" if caught else "MISSED", "" if d else "!!! DEMO DOES NOT FAIL", " // ".join(l for l in c.stdout.splitlines() if "KNOWN" not in l)[:220])
        finally:
            restore()
    build()
main()
