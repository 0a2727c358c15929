#!/usr/bin/env python3
"""plant.py SPEC.py [id...]  -- makes /verif/seeded/<id> from a list of plants (maintenance only, no check uses it).

SPEC defines PLANTS = [dict(id, property, needs, what, edits=[(file, old, new)], demo="C++ statements")].
Every plant is built and tested in a scratch copy bind-mounted over /repo inside a mount namespace."""
import os, subprocess, sys, json, shutil, runpy, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = HERE + "/seeded"

DEMO_SH = '''#!/bin/bash
# run with cwd /repo after the build; exit 0 when the behaviour is right
set -e
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -r "$tmp"' EXIT
CXX=$(command -v clang++-18 || command -v clang++)
$CXX -std=c++14 -O0 -fms-extensions -w -isystem "$here/inc" -include msvc_compat.h -I"$PWD/ColorMagic" "$here/demo.cpp" _build/libColorMagic.a -pthread -o "$tmp/demo"
"$tmp/demo"
'''
DEMO_ASAN = '''#!/bin/bash
# run with cwd /repo after the build; exit 0 when the behaviour is right. The sources are built with memory checking.
set -e
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -r "$tmp"' EXIT
CXX=$(command -v clang++-18 || command -v clang++)
n=0; pids=()
for f in "$here/demo.cpp" ColorMagic/*/*.cpp; do
	$CXX -std=c++14 -O0 -fms-extensions -w -fsanitize=address,undefined -fno-sanitize-recover=all -Wno-nonportable-include-path -isystem "$here/inc" -include msvc_compat.h -I"$PWD/ColorMagic" -c "$f" -o "$tmp/$n.o" &
	pids+=($!); n=$((n + 1))
done
for p in "${pids[@]}"; do wait "$p"; done
$CXX -fsanitize=address,undefined "$tmp"/*.o -pthread -o "$tmp/demo"
ASAN_OPTIONS=detect_leaks=0 "$tmp/demo"
'''
DEMO_HEAD = '''#include <cstdio>
#include <cmath>
#include <vector>
#include <string>
#include <functional>
#include <stdexcept>
#include <regex>
#include <array>
#include <algorithm>
#include <thread>
#include <atomic>
#include "spaces\\\\color_base.h"
#include "manipulation\\\\color_converter.h"
#include "manipulation\\\\color_blend.h"
#include "manipulation\\\\porter_duff.h"
#include "manipulation\\\\color_calculation.h"
#include "manipulation\\\\color_combinations.h"
#include "manipulation\\\\color_adjustments.h"
#include "manipulation\\\\color_distance.h"
#include "manipulation\\\\chromatic_adaptation.h"
#include "utils\\\\colors.h"
using namespace color_space;
using namespace color_manipulation;
typedef color_converter CV;
static int bad = 0;
static void expect(bool ok, const char* what) { if (!ok) { std::printf("FAIL: %s\\n", what); bad = 1; } }
static void near(double got, double want, double tol, const char* what) { if (!(std::fabs(got - want) <= tol)) { std::printf("FAIL: %s: got %.9g, want %.9g\\n", what, got, want); bad = 1; } }
static rgb_color_space_definition* srgb() { return (new rgb_color_space_definition_presets())->sRGB(); }
template <class F> static bool raises(F f) { try { f(); } catch (...) { return true; } return false; }
int main()
{
'''
DEMO_TAIL = '''
	return bad;
}
'''

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def apply_edits(root, edits):
    for f, old, new in edits:
        p = os.path.join(root, "ColorMagic", f)
        s = open(p, newline="", encoding="latin-1").read()
        crlf = "\r\n" in s
        t = s.replace("\r\n", "\n")
        if t.count(old) != 1:
            raise ValueError("%s: %d matches of %r" % (f, t.count(old), old))
        t = t.replace(old, new)
        if crlf:
            t = t.replace("\n", "\r\n")
        open(p, "w", newline="", encoding="latin-1").write(t)

def one(pl):
    d = os.path.join(SEED, pl["id"])
    os.makedirs(d + "/inc", exist_ok=True)
    for f in ("msvc_compat.h", "windows.h", "SDKDDKVer.h"):
        shutil.copy("/opt/vp/shim/include/" + f, d + "/inc/")
    open(d + "/demo.sh", "w").write(DEMO_ASAN if pl.get("asan") else DEMO_SH)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.cpp", "w").write(DEMO_HEAD + pl["demo"].strip("\n") + DEMO_TAIL)
    json.dump({"property": pl["property"], "needs": pl["needs"], "what_it_breaks": pl["what"]}, open(d + "/meta.json", "w"), indent=1)
    w = tempfile.mkdtemp(prefix="plant.")
    try:
        sh("cp -a /repo %s/repo" % w)
        sh("cp -a %s %s/demo; rm -f %s/demo/meta.json %s/demo/patch.diff" % (d, w, w, w))
        apply_edits(w + "/repo", pl["edits"])
        diff = subprocess.run("git -C %s/repo diff --binary" % w, shell=True, stdout=subprocess.PIPE).stdout
        open(d + "/patch.diff", "wb").write(diff)
        base = json.load(open("/opt/vp/BASELINE.json"))
        # the lines taken away must be the original repository's
        import re
        foreign = []
        f = None
        basecommit = sh("git -C /repo rev-list --max-parents=0 HEAD | tail -1; true").stdout
        for l in diff.decode("latin-1").splitlines():
            if l.startswith("--- a/"):
                f = l[6:].strip(); old = sh("git -C /repo show 08935f3:%s" % f).stdout if False else subprocess.run(["git","-C","/repo","show","08935f3:"+f],stdout=subprocess.PIPE).stdout.decode("latin-1")
                oldl = set(x.strip() for x in old.splitlines())
            elif l.startswith("-") and f and l[1:].strip() not in oldl:
                foreign.append(l)
        script = '''mount --bind %s/repo /repo; cd /repo; 
bash /opt/vp/build.sh >%s/b.log 2>&1 || { echo BUILD-FAILED; tail -20 %s/b.log; exit; }
bash /opt/vp/test.sh %s/t.json >/dev/null 2>&1
bash %s/demo/demo.sh; echo "patched demo exit $?"
git checkout -q -- . ; git apply --check %s/patch.diff && echo applies
bash /opt/vp/build.sh >%s/b.log 2>&1; bash %s/demo/demo.sh; echo "clean demo exit $?"
''' % (w, w, w, w, w, d, w, w)
        r = sh("unshare -m bash -c '%s'" % script.replace("'", "'\\''"))
        out = r.stdout
        t = json.load(open(w + "/t.json")) if os.path.exists(w + "/t.json") else None
        stable = base.get("stable") or base.get("tests") or base
        failed = None
        if t is not None:
            failed = [x for x in base["stable"] if x not in set(t["passed"])]
        if foreign: out += "NOT ORIGINAL: %s" % foreign
        ok = not foreign and "patched demo exit 0" not in out and "clean demo exit 0" in out and "applies" in out and "BUILD-FAILED" not in out and not failed
        if ok: open(os.path.join(SEED, ".ok-" + pl["id"]), "w").close()
        return ok, out, failed
    finally:
        shutil.rmtree(w)

def main():
    spec = runpy.run_path(sys.argv[1])["PLANTS"]
    ids = sys.argv[2:]
    todo = [p for p in spec if (not ids and not os.path.exists(SEED + "/.ok-" + p["id"])) or p["id"] in ids]
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(4) as ex:
        def safe(p):
            try: return one(p)
            except ValueError as e:
                shutil.rmtree(os.path.join(SEED, p["id"])); return False, str(e), None
        for p, (ok, out, failed) in zip(todo, ex.map(safe, todo)):
            print("%s %s" % ("OK  " if ok else "BAD ", p["id"]), flush=True)
            if not ok:
                print("  failed tests:", failed, "\n ", out[-1500:])
if __name__ == "__main__":
    main()
