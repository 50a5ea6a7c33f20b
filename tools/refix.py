#!/usr/bin/env python3
"""Development aid (no check uses it): undoes each fix commit in a scratch clone and says which check reports the defect again.
  refix.py [HASH...]"""
import os, re, shutil, subprocess, sys, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); W = "/tmp/refix"
sys.path.insert(0, V); sys.dont_write_bytecode = True
from props import PROPS
MAP = [("Bitset bit iterator", ["C01", "C02"]), ("Bitset ordering", ["C03"]), ("Bitset::Write", ["C02"]), ("Bitset::AppendBits", ["C01", "C02"]), ("Bitset", ["C01", "C02", "C03"]), ("NumberEquals can be evaluated", ["C27"]), ("Mod of floating", ["C27"]), ("NazaraOffsetOf", ["C30"])]
def sh(*c, **k): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
log = [l.split(" ", 1) for l in sh("git", "-C", "/repo", "log", "--format=%h %s", "6a56fc1..HEAD").stdout.splitlines()]
for h, s in reversed(log):
    if len(sys.argv) > 1 and h not in sys.argv[1:]: continue
    shutil.rmtree(W, ignore_errors=True); sh("git", "clone", "-q", "/repo", W)
    sh("git", "config", "user.email", "x@x", cwd=W); sh("git", "config", "user.name", "x", cwd=W)
    r = sh("git", "revert", "--no-commit", h, cwd=W)
    if r.returncode:
        # later fixes touch the same lines: check the state just before the fix, with the other fixes before it
        sh("git", "revert", "--abort", cwd=W); sh("git", "reset", "-q", "--hard", h + "^", cwd=W); mode = "parent"
    else: mode = "revert"
    files = {os.path.basename(f) for f in sh("git", "-C", "/repo", "show", "--name-only", "--format=", h).stdout.split()}
    cand = next((m for k, m in MAP if k in s), None) or [p for p, v in sorted(PROPS.items()) if files & {os.path.basename(f) for f in v['files']}]
    cand.sort(key=lambda p: (p in ("C26", "C27", "C31"), p)); hit = []
    for p in cand:
        c = sh("python3", "run.py", p, "--tier", "quick", cwd=V, env=dict(os.environ, VX_REPO=W, VERIF_SEED="1", VERIF_TIER="quick"))
        if c.returncode == 1 and "VIOLATION" in c.stdout: hit.append(p + " " + "; ".join(re.findall(r"^  (.*)$", c.stdout, re.M)[:2])[:160]); break
        hit_err = c.returncode
        if c.returncode not in (0, 1): hit.append(f"{p} rc={c.returncode} {c.stdout[-200:]}")
    print(f"{h} [{mode}] {s} -> {hit or 'NOT DETECTED by ' + ','.join(cand)}", flush=True)
shutil.rmtree(W, ignore_errors=True)
