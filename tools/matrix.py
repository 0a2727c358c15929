#!/usr/bin/env python3
"""matrix.py own|all [bug...] -- runs checks (of a copy of /verif) against each planted bug in scratch copies of /repo."""
import os, subprocess, sys, json, shutil, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
mode = sys.argv[1]
bugs = sys.argv[2:] or sorted(d for d in os.listdir(HERE + "/seeded") if not d.startswith("."))
props = [json.loads(l)["id"] for l in open(HERE + "/properties.jsonl")]
w = tempfile.mkdtemp(prefix="matrix.")
try:
    subprocess.run("cp -a %s %s/verif" % (HERE, w), shell=True)
    for b in bugs:
        meta = json.load(open("%s/seeded/%s/meta.json" % (HERE, b)))
        subprocess.run("rm -rf %s/repo; mkdir %s/repo; cp -a /repo/ColorMagic /repo/.git %s/repo/; git -C %s/repo checkout -q -- .; git -C %s/repo apply %s/seeded/%s/patch.diff" % (w, w, w, w, w, HERE, b), shell=True)
        todo = [meta["property"]] if mode == "own" else props
        caught, odd = [], []
        env = dict(os.environ, COLORMAGIC_REPO=w + "/repo")
        for p in todo:
            try:
                r = subprocess.run([w + "/verif/check", p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, timeout=900)
            except subprocess.TimeoutExpired:
                odd.append(p + ":timeout"); continue
            if r.returncode == 1 and "VIOLATION property=%s " % p in r.stdout:
                caught.append(p)
            elif r.returncode != 0:
                odd.append("%s:%d %s" % (p, r.returncode, r.stdout[-300:]))
        own = meta["property"]
        print("%-8s %-24s %s  %s %s" % ("caught" if own in caught else "MISSED", b, own, " ".join(caught), odd or ""), flush=True)
finally:
    shutil.rmtree(w)
