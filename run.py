#!/usr/bin/env python3
"""Builds and runs the monitored drivers of one property against /repo's working tree.

  run.py C01 [--tier quick|thorough]        the registered check
  run.py C01 --replay CONFIG SUITE CASE SEED [--thorough]
"""
import concurrent.futures as cf, glob, hashlib, json, os, re, shlex, shutil, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VX_REPO", "/repo")
BUILD = os.path.join(V, "build")
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
CONFIGS = {
    # asserts on, C++17, libstdc++ precondition checks
    "gcc17-assert-asan": ("g++", ["-std=c++17", "-O1", "-g1", "-DNAZARA_DEBUG", "-D_GLIBCXX_ASSERTIONS"] + SAN),
    # asserts off, C++20, optimised, uninitialised automatic variables filled with a pattern
    "clang20-ndebug-asan": ("clang++", ["-std=c++20", "-O1", "-g1", "-DNDEBUG", "-ftrivial-auto-var-init=pattern"] + SAN),
    # thorough only: what ships: optimised, no sanitizer (different layout, inlining and evaluation choices)
    "gcc20-ndebug-O3": ("g++", ["-std=c++20", "-O3", "-g1", "-DNDEBUG"]),
    "clang17-assert-O0": ("clang++", ["-std=c++17", "-O0", "-g1", "-DNAZARA_DEBUG", "-D_GLIBCXX_DEBUG", "-ftrivial-auto-var-init=pattern"]),
    # thorough only: the newest language version, where "if consteval" selects between the two evaluations
    "gcc23-assert-O2": ("g++", ["-std=c++23", "-O2", "-g1", "-DNAZARA_DEBUG", "-DVX_OWN_ADDRESS", "-D_GLIBCXX_ASSERTIONS"]),
    "clang23-ndebug-O2": ("clang++", ["-std=c++23", "-O2", "-g1", "-DNDEBUG", "-DVX_OWN_ADDRESS", "-ftrivial-auto-var-init=pattern"]),
    # thorough only: memcheck sees uninitialised reads
    "gcc17-memcheck": ("g++", ["-std=c++17", "-O1", "-g1", "-DNAZARA_DEBUG", "-DVX_NOFILL"]),
    # thorough only: coverage-guided choice sequences
    "clang17-fuzz": ("clang++", ["-std=c++17", "-O1", "-g1", "-DNAZARA_DEBUG", "-DVX_FUZZER", "-fsanitize=fuzzer,address,undefined", "-fno-sanitize-recover=all"]),
    # thread properties only: happens-before race detection
    "tsan-clang17-assert": ("clang++", ["-std=c++17", "-O1", "-g1", "-DNAZARA_DEBUG", "-DVX_NOHEAP", "-fsanitize=thread"]),
    "tsan-gcc20-ndebug": ("g++", ["-std=c++20", "-O2", "-g1", "-DNDEBUG", "-DVX_NOHEAP", "-fsanitize=thread"]),
    # C31 only: the drivers of the other properties, several cases at a time, each in a thread of its own
    "threads-clang17-assert": ("clang++", ["-std=c++17", "-O1", "-g1", "-DNAZARA_DEBUG", "-DVX_THREADED", "-fsanitize=thread", "-Wl,--allow-multiple-definition"]),
    "threads-gcc20-ndebug": ("g++", ["-std=c++20", "-O2", "-g1", "-DNDEBUG", "-DVX_THREADED", "-fsanitize=thread", "-Wl,--allow-multiple-definition"]),
}
COMPILERS = threading.BoundedSemaphore(8)
QUICK = ["gcc17-assert-asan", "clang20-ndebug-asan"]
THOROUGH = QUICK + ["gcc20-ndebug-O3", "clang17-assert-O0", "gcc23-assert-O2", "clang23-ndebug-O2", "gcc17-memcheck", "clang17-fuzz"]
sys.path.insert(0, V); sys.dont_write_bytecode = True
from props import PROPS


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b"\0")
    return h.hexdigest()[:24]


def repo_digest():
    h = hashlib.sha256()
    for f in sorted(glob.glob(REPO + "/include/**/*", recursive=True)):
        if os.path.isfile(f):
            h.update(f[len(REPO):].encode()); h.update(open(f, "rb").read())
    return h.hexdigest()


def lib_digest():
    h = hashlib.sha256()
    for f in sorted(glob.glob(V + "/lib/*")):
        if os.path.isfile(f): h.update(open(f, "rb").read())
    return h.hexdigest()


def source_bytes(src):
    b = open(src, "rb").read()
    for inc in re.findall(rb'#include "\.\./src/([^"]+)"', b): b += open(f"{V}/src/{inc.decode()}", "rb").read()
    return b


def compile_one(cfg, src, rd, ld, extra=()):
    cxx, flags = CONFIGS[cfg]
    os.makedirs(f"{BUILD}/{cfg}", exist_ok=True)
    o = f"{BUILD}/{cfg}/{os.path.basename(src)[:-4]}-{sha(rd if '/lib/vx_main' not in src else '', ld, source_bytes(src), cfg, flags, extra)}.o"
    if os.path.exists(o):
        os.utime(o); return o, None
    tries = [cxx] if cxx == "g++" or "fuzzer" in " ".join(flags) else [cxx, "g++"]
    log = ""
    for c in tries:
        fl = [f for f in flags if not (c == "g++" and f.startswith("-fsanitize=fuzzer"))]
        fl = fl + (["-fconstexpr-ops-limit=2000000000", "-fconstexpr-loop-limit=10000000"] if c == "g++" else ["-fconstexpr-steps=200000000"])
        if src.endswith("vx_main.cpp"): fl = [f.replace("-fsanitize=fuzzer,", "-fsanitize=") for f in fl]
        tmp = o + f".{os.getpid()}.{threading.get_ident()}.tmp"
        with COMPILERS: p = subprocess.run([c, *fl, *extra, "-w", "-I" + REPO + "/include", "-I" + V + "/lib", "-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode == 0:
            os.replace(tmp, o); return o, None
        log += f"$ {c} {' '.join(fl)} {src}\n{p.stdout[:6000]}\n"
    return None, log


def sanity(cfg, about_headers=False):
    """Do the headers themselves compile? If not, nothing can be said about the property (unless it is about just that)."""
    cxx, flags = CONFIGS[cfg]
    code = "#include <vector>\n" if about_headers else "".join(f"#include <NazaraUtils/{os.path.basename(h)}>\n" for h in sorted(glob.glob(REPO + "/include/NazaraUtils/*.hpp")))
    for c in dict.fromkeys([cxx, "g++"]):
        p = subprocess.run([c, flags[0], "-w", "-I" + REPO + "/include", "-fsyntax-only", "-x", "c++", "-"], input=code, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0: return True, ""
    return False, p.stdout[:4000]


def build(prop, cfgs):
    """-> {cfg: (driver, None) | (None, log)}"""
    rd, ld = repo_digest(), lib_digest()
    srcs = [V + "/lib/vx_main.cpp"] + [V + "/src/" + s for s in PROPS[prop]["sources"]]
    jobs = {}
    with cf.ThreadPoolExecutor(8) as ex:
        for s in sorted(srcs, key=lambda s: -os.path.getsize(s)):
            for c in cfgs:
                if c == "clang17-fuzz" and PROPS[prop].get("nofuzz"): continue
                jobs[c, s] = ex.submit(compile_one, c, s, rd, ld, tuple(PROPS[prop].get("flags", ())))
    out = {}
    for c in cfgs:
        if c == "clang17-fuzz" and PROPS[prop].get("nofuzz"): continue
        objs, log = [], ""
        for s in srcs:
            o, l = jobs[c, s].result()
            if l: log += l
            objs.append(o)
        if log: out[c] = (None, log); continue
        cxx, flags = CONFIGS[c]
        exe = f"{BUILD}/{c}/{prop}-{sha(*objs)}"
        if not os.path.exists(exe):
            tmp = exe + f".{os.getpid()}.{threading.get_ident()}.tmp"
            p = subprocess.run([cxx, *flags, *objs, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode: # an object fell back to the other compiler: link with it
                p = subprocess.run(["g++", *[f for f in flags if "fuzzer" not in f and "trivial-auto" not in f], *objs, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode: out[c] = ("link", p.stdout[:4000]); continue
            os.replace(tmp, exe)
        else: os.utime(exe)
        out[c] = (exe, None)
    return out


def prune():
    lim = time.time() - 3 * 3600
    for d in glob.glob(BUILD + "/*"):
        for f in glob.glob(d + "/*"):
            try:
                if os.path.isfile(f) and os.path.getmtime(f) < lim: os.remove(f)
            except OSError: pass


def norm(s):
    s = re.sub(r"0x[0-9a-f]+", "0xN", s)
    return re.sub(r"\d+", "N", s).strip()


def crash_key(f):
    if f["kind"] == "monitor": return f["key"]
    if f["kind"] == "hang": return "hang"
    e = f["stderr"]
    for rx in (r"assertion failed: [^\n]*", r"AddressSanitizer: [\w-]+", r"ThreadSanitizer: [^\n(]*", r"runtime error: [^\n]*", r"terminate called[^\n]*", r"Assertion `[^\n]*", r"Error: [^\n]*"):
        m = re.search(rx, e)
        if m:
            k = m.group(0)
            if k.startswith("assertion failed"): k = re.sub(r" at /.*", "", k)
            return "crash: " + norm(k)[:140]
    return "crash: wait status %d" % f["status"]


def known():
    res = []
    p = V + "/KNOWN_FINDINGS.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) suite=(\S+) key=(.*?) \| (.*)", l.strip())
            if m: res.append(dict(property=m[1], suite=m[2], key=m[3], desc=m[4], seen=False))
    return res


def cfg_seed(cfg, seed):
    """Each configuration explores cases of its own."""
    return (seed * 64 + sorted(CONFIGS).index(cfg)) & 0xFFFFFFFF


def run_shard(exe, cfg, seed, shard, n, thorough, scale, tag):
    out = f"{BUILD}/out-{tag}-{cfg}-{shard}.json"
    for p in (out, out + ".sig"):
        if os.path.exists(p): os.remove(p)
    cmd = [exe, "run", "--seed", str(cfg_seed(cfg, seed)), "--shard", str(shard), "--nshards", str(n), "--thorough", str(int(thorough)), "--scale", str(scale), "--out", out]
    if cfg == "gcc17-memcheck":
        cmd = ["valgrind", "-q", "--trace-children=no", "--error-exitcode=98", "--leak-check=no", "--exit-on-first-error=yes"] + cmd + ["--cpu", "600"]
    env = dict(os.environ); env.pop("ASAN_OPTIONS", None); env.pop("UBSAN_OPTIONS", None)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env, timeout=3000 if thorough else 800)
    except subprocess.TimeoutExpired:
        return None, "timeout"
    if p.returncode or not os.path.exists(out):
        return None, f"driver exit {p.returncode}: {p.stdout[-2000:]}"
    d = json.load(open(out))
    d["sigs"] = open(out + ".sig", "rb").read() if os.path.exists(out + ".sig") else b""
    for q in (out, out + ".sig"):
        if os.path.exists(q): os.remove(q)
    return d, None


def run_fuzz(exe, prop, seed, runs, worker):
    d = f"{BUILD}/fuzz-{prop}-{worker}-{os.getpid()}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    p = subprocess.run([exe, f"-runs={runs}", f"-seed={seed + worker}", "-max_len=2048", "-len_control=20", "-timeout=60", "-rss_limit_mb=4000", "-print_final_stats=1", d], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=3000)
    m = re.search(r"cov: (\d+) ft: (\d+) corp: (\d+)(?!.*cov: )", p.stdout, re.S)
    ex = re.search(r"stat::number_of_executed_units:\s*(\d+)", p.stdout)
    st = dict(executed=int(ex[1]) if ex else 0, edges=int(m[1]) if m else 0, corpus=int(m[3]) if m else 0)
    fails = []
    if p.returncode:
        if "libFuzzer: timeout" in p.stdout: kind = "hang"
        else: kind = "crash"
        k = re.search(r"VXFAIL ([^:\n]+): ", p.stdout)
        crash = (glob.glob(d + "/crash-*") + glob.glob(d + "/timeout-*") + glob.glob(d + "/oom-*"))
        hexd = open(crash[0], "rb").read().hex() if crash else ""
        fails.append(dict(suite="fuzz", case=0, kind="monitor" if k else kind, key=k[1] if k else "", msg=p.stdout[-6000:], trace="", stderr=p.stdout[-6000:], status=p.returncode, input=hexd))
    shutil.rmtree(d, ignore_errors=True)
    return st, fails


def main():
    if sys.argv[1] == "--setup": # nothing to prepare but the harness object; drivers are built by each check
        os.makedirs(BUILD, exist_ok=True)
        for c in QUICK:
            o, log = compile_one(c, V + "/lib/vx_main.cpp", "", lib_digest())
            if log: print(log); sys.exit(2)
        sys.exit(0)
    prop = sys.argv[1]
    args = sys.argv[2:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args: tier = args[args.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = PROPS[prop]
    os.makedirs(BUILD, exist_ok=True); os.makedirs(V + "/evidence", exist_ok=True); os.makedirs(V + "/replays", exist_ok=True)
    if "--replay" in args:
        i = args.index("--replay"); cfg, suite, case, sd = args[i + 1:i + 5]
        q = prop
        if cfg.startswith("threads"): q, suite = suite.split(": ", 1)
        exe, log = build(q, [cfg])[cfg]
        if not exe: print(log); sys.exit(2)
        sys.exit(subprocess.run([exe, "one", "--suite", suite, "--case", case, "--seed", sd, "--thorough", "1" if "--thorough" in args else "0"]).returncode)
    t0 = time.time(); prune()
    for f in glob.glob(f"{V}/replays/{prop}-*.txt"): os.remove(f)
    thorough = tier == "thorough"
    cfgs = [c for c in (spec.get("configs") or (THOROUGH if thorough else QUICK + spec.get("quick_extra", []))) if c not in spec.get("skip_configs", ())]
    if os.environ.get("VX_CONFIGS") and "configs" not in spec: cfgs = os.environ["VX_CONFIGS"].split(",") # development only
    drivers = build(prop, cfgs)
    t_build = time.time() - t0
    failures, notes, evid_cfg = [], [], {}
    runs = []
    for c, (exe, log) in drivers.items():
        if exe is None:
            ok, l = sanity(c, spec.get("about_headers"))
            if not ok:
                print(f"ERROR: the headers do not compile in configuration {c}\n{l}", file=sys.stderr); sys.exit(2)
            if "error:" not in log:
                print(f"ERROR: compiler failure in configuration {c}\n{log}", file=sys.stderr); sys.exit(2)
            failures.append((c, dict(suite="compile", case=0, kind="monitor", key="compile-error", msg="valid uses of the library no longer compile", trace="", stderr=log, status=0)))
        elif exe == "link" and spec.get("about_headers") and re.search(r"(multiple definition of|undefined reference to) .*\bNz::", log):
            failures.append((c, dict(suite="link", case=0, kind="monitor", key="link-error", msg="translation units that include all the headers no longer link", trace="", stderr=log, status=0)))
        elif exe == "link":
            print(f"ERROR: link failure in configuration {c}\n{log}", file=sys.stderr); sys.exit(2)
        elif c != "clang17-fuzz":
            runs.append((c, exe, prop))
    # the drivers of other properties, run in threads; one that does not compile is that property's business
    if spec.get("threads_of"):
        tc = ["threads-clang17-assert"] + (["threads-gcc20-ndebug"] if thorough else [])
        with cf.ThreadPoolExecutor(4) as ex:
            subs = {q: ex.submit(build, q, tc) for q in spec["threads_of"]}
            for q, j in subs.items():
                for c, (exe, log) in j.result().items():
                    if exe in (None, "link"): notes.append(f"the driver of {q} does not build in configuration {c}; not run in threads")
                    else: runs.append((c, exe, q))
        t_build = time.time() - t0
    evaluations = nontrivial = ops = checks = 0
    sigs, counters, suites, samples = set(), {}, {}, []
    fuzz = dict(executed=0, edges=0, corpus=0)
    with cf.ThreadPoolExecutor(8) as ex:
        js = []
        nsh = 8 if thorough else 4
        for c, exe, q in runs:
            scale = spec.get("scale", 1.0) * (1.5 if thorough else 12)
            if c == "gcc17-memcheck": scale *= spec.get("memcheck_scale", 0.01)
            if c.startswith("threads"): scale = 5 if thorough else 48
            for s in range(nsh):
                js.append((c, exe, q, ex.submit(run_shard, exe, c, seed, s, nsh, thorough if c != "gcc17-memcheck" else False, scale, f"{prop}-{q}-{os.getpid()}")))
        fz = []
        if "clang17-fuzz" in drivers and drivers["clang17-fuzz"][0] not in (None, "link"):
            for w in range(4): fz.append(ex.submit(run_fuzz, drivers["clang17-fuzz"][0], prop, seed, spec.get("fuzz_runs", 60000), w))
        for c, exe, q, j in js:
            d, err = j.result()
            pre = "" if q == prop else q + ": "
            if err:
                if err == "timeout": print(f"INCONCLUSIVE: {prop} {c}: the run did not end in its time limit", file=sys.stderr)
                else: print(f"ERROR: {prop} {c}: {err}", file=sys.stderr)
                sys.exit(2)
            evaluations += d["evaluations"]; nontrivial += d["nontrivial"]; ops += d["ops"]; checks += d["checks"]
            e = evid_cfg.setdefault(c, dict(evaluations=0, operations=0, oracle_checks=0))
            e["evaluations"] += d["evaluations"]; e["operations"] += d["ops"]; e["oracle_checks"] += d["checks"]
            b = d["sigs"]; sigs.update(b[i:i + 8] for i in range(0, len(b), 8))
            for k, v in d["counters"].items(): counters[k] = counters.get(k, 0) + v
            for k, v in d["suites"].items():
                s = suites.setdefault(pre + k, dict(cases=0, sec=0.0)); s["cases"] += v["cases"]; s["sec"] = round(s["sec"] + v["sec"], 3)
                if v["sample"] and len(samples) < 8 and not any(x["suite"] == pre + k for x in samples): samples.append(dict(suite=pre + k, trace=v["sample"]))
            for f in d["failures"]: failures.append((c, dict(f, suite=pre + f["suite"], exe=exe)))
        for j in fz:
            st, fl = j.result()
            fuzz["executed"] += st["executed"]; fuzz["edges"] = max(fuzz["edges"], st["edges"]); fuzz["corpus"] += st["corpus"]
            for f in fl: failures.append(("clang17-fuzz", f))
    # hangs are confirmed alone with three times the CPU budget before they count
    confirmed = []; sure = any(f["kind"] != "hang" for c, f in failures)
    for c, f in failures:
        if not sure and f["kind"] == "hang" and c not in ("clang17-fuzz", "gcc17-memcheck"):
            p = subprocess.run([f["exe"], "one", "--suite", f["suite"].split(": ")[-1] if c.startswith("threads") else f["suite"], "--case", str(f["case"]), "--seed", str(cfg_seed(c, seed)), "--thorough", str(int(thorough)), "--cpu", "60"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if p.returncode == 0:
                notes.append(f"inconclusive: {f['suite']} case {f['case']} used over 20 s of CPU once, then ended"); continue
            sure = True
        confirmed.append((c, f))
    kn = known(); violations = {}
    for c, f in confirmed:
        key = crash_key(f)
        hit = False
        for k in kn:
            if k["property"] == prop and k["suite"] == f["suite"] and k["key"] == key: k["seen"] = hit = True
        if not hit: violations.setdefault((f["suite"], key), []).append((c, f))
    for k in kn:
        if k["property"] == prop and k["seen"]: print(f"KNOWN-FINDING: property={prop} {k['desc']}")
    for n, ((suite, key), lst) in enumerate(sorted(violations.items(), key=lambda x: x[0])):
        c, f = lst[0]
        rp = f"{V}/replays/{prop}-{n}.txt"
        with open(rp, "w") as o:
            o.write(f"property {prop}: {spec['title']}\nsuite {suite}, case {f['case']}, seed {cfg_seed(c, seed)}, configuration {c} ({len(lst)} failing case(s) of this kind)\n")
            if suite not in ("compile", "fuzz"): o.write(f"replay: cd {V} && python3 run.py {prop} --replay {c} {shlex.quote(suite)} {f['case']} {cfg_seed(c, seed)}{' --thorough' if thorough else ''}\n")
            if f.get("input"): o.write(f"fuzz input (hex): {f['input']}\n")
            o.write(f"\n{key}\n{f['msg']}\n\n--- operations of the failing case\n{f['trace']}\n--- stderr\n{f['stderr']}\n")
        if n < 20:
            print(f"VIOLATION property={prop} replay={rp}")
            print(f"  {suite} [{c}] {key}: {f['msg'].splitlines()[0][:300] if f['msg'] else ''}")
    empty = [s for s, v in suites.items() if v["cases"] == 0]
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=evaluations + fuzz["executed"], distinct_nontrivial=len(sigs),
                            rule="Each case is a seeded (or enumerated) sequence of library operations run in a watched worker under each build configuration; distinct = different traced operation/argument sequence (hash of the trace; each configuration runs its own seeds); non-trivial = it performed at least one traced operation and at least one oracle comparison.",
                            samples=samples, operations=ops, oracle_checks=checks, events=dict(sorted(counters.items())), suites=suites, configurations=evid_cfg,
                            **({"fuzz": fuzz} if thorough and "clang17-fuzz" in drivers else {}), build_s=round(t_build, 1), notes=notes),
              assumptions=spec.get("assumptions", []) + ([] if "configs" in spec else ["single-threaded use (threads are the subject of C31)"]) + ["x86-64 Linux, libstdc++, little endian", "held on the executions listed, nothing is proved about the others"],
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    json.dump(ev, open(f"{V}/evidence/{prop}.json", "w"), indent=1)
    print(f"{prop} {tier}: {evaluations} cases, {len(sigs)} distinct non-trivial, {ops} operations, {checks} oracle checks, {len(violations)} violation kind(s), build {t_build:.0f} s, total {ev['wall_s']:.0f} s")
    if violations: sys.exit(1)
    if empty or (evaluations == 0):
        print(f"INCONCLUSIVE: suites without an executed case: {empty}", file=sys.stderr); sys.exit(2)
    sys.exit(0)


main()
