#!/usr/bin/env python3
"""Run checks against a patched copy of the repository.

matrix.py [-c C01,C02] [-R] PATCH[:C01,C02]...

-R: reverse; PATCH is a patch.diff or a commit id.
Works in a scratch directory which is removed at the end.
"""
import os, shutil, subprocess, sys, tempfile
args = sys.argv[1:]
checks, rev, patches = None, False, []
while args:
    a = args.pop(0)
    if a == "-c": checks = args.pop(0).split(",")
    elif a == "-R": rev = True
    else: patches.append(a)
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
repo = os.path.join(os.path.dirname(root), "repo")
tmp = tempfile.mkdtemp(prefix="giftsim-")
ig = shutil.ignore_patterns("target", "out", "evidence", "seeded")
shutil.copytree(root, tmp + "/verif", ignore=ig, symlinks=True)
shutil.copytree(repo, tmp + "/repo", ignore=ig, symlinks=True)
sh = lambda c, **k: subprocess.run(c, capture_output=True, text=True, **k)
env = dict(os.environ, GSIM_ROOT=tmp + "/verif")
try:
    for p in patches:
        p, _, own = p.partition(":")
        if os.path.exists(p): d = open(p).read()
        else: d = sh(["git", "-C", repo, "show", "--format=", p]).stdout
        name = os.path.basename(os.path.dirname(os.path.abspath(p))) if os.path.exists(p) else p
        sh(["git", "-C", tmp + "/repo", "checkout", "-q", "--", "."])
        r = sh(["git", "-C", tmp + "/repo", "apply"] + (["-R", "-3"] if rev else []) + ["-"], input=d)
        if r.returncode:
            print(name, "does not apply", r.stderr[:300]); sh(["git", "-C", tmp + "/repo", "reset", "-q", "--hard"]); continue
        r = sh(["bash", tmp + "/verif/check.sh", "setup"])
        if r.returncode:
            print(name, "does not build", r.stderr[-600:])
            sh(["git", "-C", tmp + "/repo", "reset", "-q", "--hard"]); continue
        exe = tmp + "/verif/target/release/giftsim"
        ids = own.split(",") if own else checks or [l.split()[0] for l in sh([exe, "list"]).stdout.splitlines()]
        caught = []
        for c in ids:
            r = sh([exe, "check", c, "quick"], env=env)
            if r.returncode == 1:
                caught.append(c)
                print("   ", c, [l for l in r.stdout.splitlines() if l.startswith("class")][:1], flush=True)
            elif r.returncode: print("   ", c, "ERROR", r.returncode, r.stderr[:300], flush=True)
        print(name, "caught by", " ".join(caught) or "NONE", flush=True)
        sh(["git", "-C", tmp + "/repo", "reset", "-q", "--hard"])
finally:
    shutil.rmtree(tmp)
