#!/usr/bin/env python3
"""mutate.py OUT N [file-substring] [seed]  -- maintenance only: mechanical mutants of the library that pass the stable tests,
run against the checks that concern the file; survivors are gaps or equivalent. Scratch copies only."""
import os, re, subprocess, sys, json, shutil, tempfile, random, concurrent.futures as cf
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT, N = sys.argv[1], int(sys.argv[2])
ONLY = sys.argv[3] if len(sys.argv) > 3 else ""
CONST = float(os.environ.get("MUT_CONST", "0")) # only the constants, by this factor
random.seed(int(sys.argv[4]) if len(sys.argv) > 4 else 1)
WORKERS = int(os.environ.get("MUT_WORKERS", "3"))
M, SP = "manipulation/", "spaces/"
CHECKS = {
 M+"color_converter.cpp": "C10 C11 C12 C09", M+"porter_duff.cpp": "C13 C27", M+"porter_duff.h": "C13", M+"color_blend.cpp": "C14 C15 C16 C27", M+"color_blend.h": "C14 C15",
 M+"base_color_blend.h": "C13 C14 C16", M+"color_calculation.cpp": "C17 C18 C19 C20 C27", M+"color_calculation.h": "C17 C18 C19 C20 C27", M+"color_distance.cpp": "C21 C22",
 M+"color_distance.h": "C21 C22", M+"color_adjustments.cpp": "C23", M+"color_adjustments.h": "C23", M+"color_combinations.cpp": "C24 C27", M+"color_combinations.h": "C24 C27",
 M+"chromatic_adaptation.cpp": "C25", M+"chromatic_adaptation.h": "C25", "utils/matrix.h": "C08 C07 C27", "utils/colors.h": "C04", SP+"gamma.h": "C05", SP+"white_point.h": "C06 C07",
 SP+"rgb_color_space_definition.h": "C07", SP+"color_base.h": "C01 C02 C03 C27", SP+"rgb_truecolor.cpp": "C04 C01 C02 C27"}
DEFAULT = "C01 C02 C27"
SWAPS = [("red()", "green()"), ("green()", "blue()"), ("blue()", "red()"), ("x()", "y()"), ("y()", "z()"), ("color1", "color2"), ("color2", "color1"), ("weight1", "weight2"), ("sinf(", "cosf("), ("cosf(", "sinf("),
 ("fminf(", "fmaxf("), ("fmaxf(", "fminf("), ("max", "min"), ("min", "max"), ("source", "destination"), ("destination", "source"), ("true", "false"), ("false", "true"), ("include_alpha", "true"), ("include_alpha", "false"),
 ("luminance()", "chroma()"), ("saturation()", "hue()"), ("hue()", "saturation()"), ("m_max", "m_min"), ("m_min", "m_max"), ("[0]", "[1]"), ("[1]", "[2]"), ("[2]", "[0]"), ("alpha()", "get_component(0)"), ("s_component", "d_component"), ("d_component", "s_component"), ("lhs", "rhs"), ("u()", "v()"), ("v()", "u()"), ("a()", "b()"), ("b()", "a()"), ("row", "column"), ("m_rows", "m_columns"), ("roundf(", "floorf("), ("abs(", "("), ("fabsf(", "(")]
def mutants(path, text):
    out = []
    inc = False
    for n, l in enumerate(text.split("\n")):
        s = l.strip()
        if s.startswith("/*"): inc = True
        if inc:
            if "*/" in s: inc = False
            continue
        if not s or s.startswith(("//", "*", "#", "///", "typedef", "template", "class ", "friend", "public", "private", "protected", "namespace", "using", "static const char")): continue
        if "throw" in s and "if" not in s: continue
        code = l.split("//")[0]
        strs = [m.span() for m in re.finditer(r'"[^"]*"', code)]
        def ok(i): return not any(a <= i < b for a, b in strs)
        def rep(a, b, new): out.append((path, n, l, l[:a] + new + l[b:]))
        decl = s.endswith(")") or s.endswith(") const")
        for m in re.finditer(r"(?<![<>=!+\-*/])(<=|>=|==|!=|<|>)(?![<>=])", code):
            if not ok(m.start()) or "std::" in code[max(0, m.start()-12):m.start()] or code[m.start()-1:m.start()+2].strip() in ("->",): continue
            if m.group(1) in "<>" and not (code[m.start()-1] == " " and code[m.end():m.end()+1] == " "): continue
            for new in {"<": ["<=", ">"], "<=": ["<"], ">": [">=", "<"], ">=": [">"], "==": ["!="], "!=": ["=="]}[m.group(1)]: rep(m.start(), m.end(), new)
        if not decl:
            for m in re.finditer(r" ([+\-*/]) ", code):
                if ok(m.start()):
                    for new in {"+": "-", "-": "+", "*": "/", "/": "*"}[m.group(1)]: rep(m.start(1), m.end(1), new)
            for m in re.finditer(r"(?<![\w.])(\d+\.\d*|\d+)(f?)(?![\w.])", code):
                if not ok(m.start()): continue
                v = m.group(1)
                if "." in v:
                    x = float(v); f = m.group(2)
                    for y in ([x * (CONST or 1.003)] if x else [0.01]):
                        rep(m.start(), m.end(), repr(y) + f)
                        if x: out[-1] += (0,)
                elif m.group(2) == "" and not re.search(r"\[\s*$", code[:m.start()]):
                    rep(m.start(), m.end(), str(int(v) + 1))
        for a, b in SWAPS:
            i = code.find(a)
            while i >= 0:
                if ok(i) and (i == 0 or not (code[i-1].isalnum() or code[i-1] == "_")) and not (i + len(a) < len(code) and a[-1].isalnum() and (code[i+len(a)].isalnum() or code[i+len(a)] == "_")) and not decl: rep(i, i + len(a), b)
                i = code.find(a, i + 1)
        for m in re.finditer(r"&&|\|\|", code):
            rep(m.start(), m.end(), "||" if m.group(0) == "&&" else "&&")
        if re.match(r"^\s*[\w\->\.\[\]\(\)]+\s*(=|\+=|-=|\*=|/=)[^=].*;$", l) and not re.match(r"^\s*(auto|float|int|double|bool|std::|matrix|color_)", l): out.append((path, n, l, ""))
        if re.match(r"^\s*(this->)?\w+\([^()]*\);$", l): out.append((path, n, l, ""))
    if CONST: out = [m for m in out if len(m) == 5]
    return [m[:4] for m in out]
files = []
for d, _, fs in os.walk("/repo/ColorMagic"):
    for f in fs:
        p = os.path.relpath(os.path.join(d, f), "/repo/ColorMagic")
        if p.endswith((".cpp", ".h")) and p.split("/")[0] in ("manipulation", "spaces", "utils") and (ONLY in p): files.append(p)
allm = []
for p in sorted(files):
    t = open("/repo/ColorMagic/" + p, newline="", encoding="latin-1").read()
    m = mutants(p, t.replace("\r\n", "\n"))
    random.shuffle(m)
    allm.append(m)
# round robin over the files, weighted by the square root of their number of mutants
pick = []
tot = sum(len(m) ** 0.5 for m in allm) or 1
for m in allm: pick += m[:max(1, int(N * len(m) ** 0.5 / tot + 0.5))]
random.shuffle(pick)
print(len(pick), "mutants of", sum(map(len, allm)), flush=True)
base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
import queue
Q = queue.Queue()
root = tempfile.mkdtemp(prefix="mut.")
def work(w):
    d = "%s/%d" % (root, w)
    os.mkdir(d)
    subprocess.run("cp -a /repo %s/repo; mkdir %s/verif; cp -a %s/check %s/mc %s/props %s/shim %s/known-findings.jsonl %s/build %s/verif/; mkdir -p %s/verif/evidence %s/verif/replays" % (d, d, HERE, HERE, HERE, HERE, HERE, HERE, d, d, d), shell=True)
    while True:
        try: p, n, old, new = Q.get_nowait()
        except queue.Empty: return
        f = d + "/repo/ColorMagic/" + p
        orig = open(f, newline="", encoding="latin-1").read()
        crlf = "\r\n" in orig
        ls = orig.replace("\r\n", "\n").split("\n")
        assert ls[n] == old
        ls[n] = new
        t = "\n".join(ls)
        open(f, "w", newline="", encoding="latin-1").write(t.replace("\n", "\r\n") if crlf else t)
        try:
            tj = d + "/t.json"
            if os.path.exists(tj): os.remove(tj)
            r = subprocess.run(["unshare", "-m", "bash", "-c", "mount --bind %s/repo /repo; cd /repo; timeout 600 bash /opt/vp/build.sh >/dev/null 2>&1 || exit 7; timeout 120 bash /opt/vp/test.sh %s >/dev/null 2>&1; exit 0" % (d, tj)])
            if r.returncode == 7: res = "nobuild"
            elif not os.path.exists(tj) or set(base) - set(json.load(open(tj))["passed"]): res = "tests"
            else:
                res = "SURVIVED"
                for c in CHECKS.get(p, DEFAULT).split() + ([] if CONST else ["C26"]):
                    try: r = subprocess.run([d + "/verif/check", c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, COLORMAGIC_REPO=d + "/repo"), timeout=900)
                    except subprocess.TimeoutExpired: res = "timeout " + c; break
                    if r.returncode == 1: res = "killed " + c; break
                    if r.returncode: res = "odd %s %s" % (c, r.stdout[-200:]); break
                subprocess.run("find %s/verif/build -mmin +20 -type f -delete 2>/dev/null; true" % d, shell=True) if len(os.listdir(d + "/verif/build")) > 400 else None
        finally:
            open(f, "w", newline="", encoding="latin-1").write(orig)
        with open(OUT, "a") as o: o.write("%s | %s:%d | %s | %s\n" % (res, p, n + 1, old.strip(), new.strip()))
for m in pick: Q.put(m)
try:
    with cf.ThreadPoolExecutor(WORKERS) as ex: list(ex.map(work, range(WORKERS)))
finally:
    shutil.rmtree(root)
