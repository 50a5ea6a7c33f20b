#!/usr/bin/env python3
"""Development aid (no check uses it): tries planted bugs of seeded/ in a scratch copy of /repo.
  plant.py ID...      demo passes, patch applies, demo fails, builds, tests pass; then the property's quick check must report it
  plant.py --fast ID  without building and running the test suite"""
import json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SD = os.environ.get('SEEDDIR', V + '/seeded')
S = f"/tmp/plantrepo-{os.getpid()}"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
args = sys.argv[1:]; fast = "--fast" in args; ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(SD))
# builds and tests run with the scratch copy mounted over /repo in a user namespace of their own
IN = "unshare -Urm bash -c 'mount --bind " + S + " /repo && "
shutil.rmtree(S, ignore_errors=True); sh(f"cp -a /repo {S}")
if os.environ.get("PLANT_PULL"): sh("git pull -q " + os.environ["PLANT_PULL"], cwd=S)
for i in ids:
    d = f"{SD}/{i}"; prop = json.load(open(d + "/meta.json"))["property"]; D = f"/tmp/plantdemo-{i}"
    shutil.rmtree(D, ignore_errors=True); shutil.copytree(d, D, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    sh("git checkout -q -- .", cwd=S)
    clean = sh(f"bash {D}/demo.sh", cwd=S)
    a = sh(f"git apply {d}/patch.diff", cwd=S); dr = sh(f"bash {D}/demo.sh", cwd=S); t = "skipped"
    bad = a.returncode or clean.returncode or not dr.returncode
    if not fast and not bad:
        b = sh(IN + "bash /opt/vp/test.sh /tmp/plant-out-%d.json'" % os.getpid())
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); o = json.load(open("/tmp/plant-out-%d.json" % os.getpid()))
        lost = stable - set(o["passed"]); t = "ok" if not lost else f"TESTS FAIL {b.returncode} {len(lost)} {list(lost)[:2]}"; bad = bool(lost)
    if bad:
        print(f"{i} {prop} INVALID apply={a.returncode} clean={clean.returncode} patched={dr.returncode} tests={t}\n{(a.stdout + clean.stdout)[:600]}", flush=True); shutil.rmtree(D); continue
    t0 = time.time(); c = sh(f"python3 run.py {prop} --tier quick", cwd=V, env=dict(os.environ, VX_REPO=S, VERIF_SEED="1", VERIF_TIER="quick"))
    caught = c.returncode == 1 and f"VIOLATION property={prop}" in c.stdout
    keys = re.findall(r"^  (\S+ \[[^\]]*\] [^:]*)", c.stdout, re.M)[:3]
    print(f"{i} {prop} valid tests={t} {'caught' if caught else 'MISSED'} [{time.time()-t0:.0f}s] {keys}", flush=True)
    if not caught: print(c.stdout[-600:])
    shutil.rmtree(D, ignore_errors=True)
shutil.rmtree(S, ignore_errors=True)
