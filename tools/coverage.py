#!/usr/bin/env python3
"""Development aid (no check uses it): which lines of the library do the workloads of some checks (default: all) execute?
  coverage.py OUTDIR [--std 17|20] [ID...]     prints the code lines of the library that no workload executed"""
import concurrent.futures as cf, glob, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V); sys.dont_write_bytecode = True
from props import PROPS
REPO = os.environ.get("VX_REPO", "/repo"); out = sys.argv[1]; args = sys.argv[2:]; std = "17"
if "--std" in args: i = args.index("--std"); std = args[i + 1]; del args[i:i + 2]
ids = args or sorted(PROPS); os.makedirs(out, exist_ok=True); L = "/usr/lib/llvm-18/bin/"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def one(p):
    exe = f"{out}/{p}"; srcs = " ".join(f"{V}/src/{s}" for s in PROPS[p]["sources"])
    extra = " ".join(PROPS[p].get("flags", ())) + (" -DVX_NOHEAP" if "configs" in PROPS[p] else "")
    r = sh(f"cd {out} && clang++ -std=c++{std} -O1 -g1 -w -DNAZARA_DEBUG -DVX_COVERAGE {extra} -fconstexpr-steps=200000000 -fprofile-instr-generate -fcoverage-mapping -I{REPO}/include -I{V}/lib {V}/lib/vx_main.cpp {srcs} -o {exe} -lpthread")
    if r.returncode: return p, r.stdout[-1500:]
    env = dict(os.environ, LLVM_PROFILE_FILE=f"{out}/{p}-%m.profraw")
    sh(f"timeout 1200 {exe} run --seed 5 --shard 0 --nshards 1 --thorough 0 --scale {PROPS[p].get('scale', 1.0)} --out {out}/{p}.json", env=env)
    sh(f"{L}llvm-profdata merge -o {out}/{p}.profdata {out}/{p}-*.profraw"); return p, None
with cf.ThreadPoolExecutor(int(os.environ.get("VX_JOBS", "3"))) as ex:
    for p, e in ex.map(one, ids):
        if e: print(p, "failed:", e)
hit, seen = {}, {}
for p in ids:
    if not os.path.exists(f"{out}/{p}.profdata"): continue
    for f in sorted(glob.glob(REPO + "/include/NazaraUtils/*")):
        t = sh(f"{L}llvm-cov show {out}/{p} -instr-profile={out}/{p}.profdata --show-instantiations=false {f}").stdout
        for m in re.finditer(r"^ *(\d+)\| *([\d.]+[kMG]?|)\|(.*)$", t, re.M):
            n, c, code = int(m[1]), m[2], m[3]
            if c == "": continue
            seen[f, n] = code.rstrip()
            if c != "0": hit[f, n] = True
for f in sorted(glob.glob(REPO + "/include/NazaraUtils/*.inl")): # bodies of templates that nothing instantiates have no counters
    for n, l in enumerate(open(f, encoding="utf8", newline="").read().replace("\r\n", "\n").split("\n"), 1):
        if re.match(r"\t\t+[A-Za-z*+(-].*;", l) and not re.match(r"\s*(using|static_assert|static constexpr|struct|class)\b", l) and (f, n) not in seen: seen[f, n] = l + "   // no instance"
print(f"{len(hit)} of {len(seen)} lines executed by {' '.join(ids)}")
for k in sorted(seen, key=None):
    if k not in hit: print(f"{os.path.basename(k[0])}:{k[1]}:{seen[k]}")
