#!/usr/bin/env python3
"""Plants a bug: writes seeded/<id>/ from a description, confirms the demonstration, runs tests and the check.
usage: plant.py SPEC.py   (SPEC.py defines id, property, edits=[(file, old, new)], needs, what, demo, tests)"""
import os, sys, json, subprocess, shutil, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '''import os, sys
sys.dont_write_bytecode = True
sys.meta_path[:] = [f for f in sys.meta_path if "Redirect" not in type(f).__name__]
sys.path.insert(0, os.getcwd())
os.environ.setdefault("MPLBACKEND", "Agg")
import warnings, logging; warnings.simplefilter("ignore"); logging.disable(logging.CRITICAL)
'''
def main(path, check=True):
    d = runpy.run_path(path)
    out = os.path.join(V, "seeded", d["id"]); os.makedirs(out, exist_ok=True)
    W = f"/tmp/mut/{d['id']}"; shutil.rmtree(W, True); os.makedirs(W)
    subprocess.run("GIT_LFS_SKIP_SMUDGE=1 git -C " + os.environ.get("PLANT_REPO", "/repo") + " archive HEAD hermespy tests pyproject.toml | tar x -C " + W, shell=True, check=True)
    subprocess.run("git init -q . && git add -A . && git -c user.name=x -c user.email=x@x commit -qm base", shell=True, cwd=W, check=True)
    open(os.path.join(out, "demo.py"), "w").write(HEAD + d["demo"])
    open(os.path.join(out, "demo.sh"), "w").write('#!/bin/sh\nexport PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    r0 = subprocess.run([os.path.join(out, "demo.sh")], cwd=W, capture_output=True, text=True)
    for f, a, b in d["edits"]:
        p = os.path.join(W, f); s = open(p).read()
        assert s.count(a) == 1, (f, s.count(a), a)
        open(p, "w").write(s.replace(a, b))
    diff = subprocess.run(["git", "diff"], cwd=W, capture_output=True, text=True).stdout
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["what"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    r1 = subprocess.run([os.path.join(out, "demo.sh")], cwd=W, capture_output=True, text=True)
    print(d["id"], "demo unchanged rc", r0.returncode, "patched rc", r1.returncode, "|", (r0.stdout + r0.stderr)[-300:] if r0.returncode else (r1.stdout + r1.stderr)[-250:].replace("\n", " / "))
    if d.get("tests"):
        t = subprocess.run(f"PYTHONPATH={W}/tests:{W} timeout 600 /opt/venv/bin/python -c \"import sys;sys.meta_path[:]=[f for f in sys.meta_path if 'Redirect' not in type(f).__name__];sys.path.insert(0,'{W}');import pytest;sys.exit(pytest.main(['-q','-x','-o','python_functions=no_functions','-o','python_classes=no_classes','--rootdir={W}','-p','no:cacheprovider','--tb=line',*'{d['tests']}'.split()]))\"", shell=True, cwd=W, capture_output=True, text=True)
        print("  tests:", t.stdout.strip().splitlines()[-1:] )
    if check:
        c = subprocess.run(["./check.sh", d["property"]], cwd=V, env={**os.environ, "VERIF_REPO": W, "VERIF_SEED": "1"}, capture_output=True, text=True)
        print("  check rc", c.returncode, c.stdout[:500])
    shutil.rmtree(W, True)
for x in sys.argv[1:]:
    main(x)
