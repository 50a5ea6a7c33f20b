#!/usr/bin/env python3
"""Development aid (no check uses it): systematic small edits of the headers, to find what no check notices.
  mutate.py WORKER NWORKERS SEED COUNT OUT.jsonl   (run from a copy of /verif; each worker uses its own scratch repository)"""
import json, os, random, re, shutil, subprocess, sys, glob, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
worker, nw, seed, count, out = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
only = sys.argv[6].split(",") if len(sys.argv) > 6 else None
sys.path.insert(0, V); sys.dont_write_bytecode = True
from props import PROPS
W = f"/tmp/mut{worker}"; H = W + "/include/NazaraUtils/"
shutil.rmtree(W, ignore_errors=True); os.makedirs(W); subprocess.run(f"git -C /repo archive HEAD | tar x -C {W}", shell=True, check=True)
LAST = ["C27", "C26", "C31"]
def props_of(f):
    stem = f.rsplit(".", 1)[0]
    # FixedVector-backed bitsets etc. come after the header's own properties
    own = [p for p, v in PROPS.items() if {stem + ".hpp", stem + ".inl"} & {os.path.basename(x) for x in v["files"]}]
    own.sort(key=lambda p: (p in LAST, p)); return own
def strip(l): return re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' + "_" * (len(m[0]) - 2) + '"', l)
RULES = [(r"<=", ["<"]), (r">=", [">"]), (r"(?<![<=>-])<(?![<=])(?= )", ["<="]), (r"(?<= )>(?![>=])(?= )", [">="]), (r"==", ["!="]), (r"!=", ["=="]), (r"(?<= )\+(?= )", ["-"]), (r"(?<= )-(?= )", ["+"]), (r"&&(?= \S)", ["||"]), (r"\|\|", ["&&"]), (r"(?<= )<<(?= )", [">>"]), (r"(?<= )>>(?= )", ["<<"]), (r"(?<= )\|(?= )", ["&"]), (r"(?<= )&(?= )", ["|"]), (r"(?<= )%(?= )", ["/"]), (r"(?<= )/(?= )", ["*"]), (r"(?<= )\*(?= )", ["/"]),
  (r"\+\+", ["--"]), (r"--", ["++"]), (r"\+=", ["-=", "="]), (r"-=", ["+="]), (r"\|=", ["=", "&="]), (r"&=", ["=", "|="]), (r"\^=", ["|="]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"(?<![\w.])\d+(?![\w.x])", ["+1", "-1"]), (r"std::move\((\w+)\)", [r"\1"]), (r"std::forward<[^<>]+>\((\w+)\)", [r"\1"]), (r"std::forward<[^<>]+>\((\w+)\)\.\.\.", [r"\1..."]), (r"if \((?!constexpr)(.*)\)$", [r"if (!(\1))", "if (true)", "if (false)"]), (r"if \(!", ["if ("]), (r"~", [""]), (r"(?<=\()!(?=\w)", [""]), (r"\bconst_cast\b", []), (r"while \((.*)\)$", [r"while (false)"]), (r"std::min\b", ["std::max"]), (r"std::max\b", ["std::min"]), (r"begin\(\)", ["end()"]), (r"(?<=\bfirst, )last\b", ["first"]), (r"std::next\((\w+)\)", [r"\1"])]
def mutants(f):
    L = open(H + f, newline="").read().split("\n"); incom = False
    for i, l in enumerate(L):
        s = strip(l); t = s.strip()
        if "/*" in t and "*/" not in t: incom = True
        if incom:
            if "*/" in t: incom = False
            continue
        if t.endswith("\\") or not t or t.startswith(("//", "#", "*", "/*", "template", "static_assert", "namespace", "class ", "struct ", "using ", "NAZARA_WARNING", "public:", "private:")): continue
        if f.endswith(".hpp") and (t.endswith(";") and re.match(r"(constexpr|explicit|inline|static|virtual|\[\[|~|template|NAZARA_|[\w:<>&\*]+ [\w:]+\()", t) and "return" not in t and "=" not in t.split("(")[0]): continue # declarations
        body = s.split("//")[0].rstrip("\r")
        for rx, reps in RULES:
            for m in re.finditer(rx, body):
                if "<" in rx and re.search(r"template|_cast<|operator", body) and m[0] in ("<", ">"): continue
                if "operator" in body and m.start() > body.find("operator") and m.start() < body.find("operator") + 12: continue
                for r in reps:
                    if r in ("+1", "-1"):
                        n = int(m[0]) + int(r)
                        if n < 0: continue
                        rep = str(n)
                    else: rep = m.expand(r)
                    a, b = m.span(); yield i, l[:a] + rep + l[b:], f"{m[0]} -> {rep}"
        if t.endswith(";") and not t.startswith(("return", "}", "friend", "break", "typedef", "case")) and not re.match(r"(const |constexpr |auto |std::size_t |[A-Z]\w+(<[^;]*>)? )\w+( =|;|\()", t) and re.match(r"[\w:\->\.\*\(\)<>&,\[\]\+ !]+( [+\-|&^]?= |\(|\+\+;|--;)", t): yield i, re.match(r"\s*", l)[0] + ";" + ("\r" if l.endswith("\r") else ""), "statement removed"
        if t == "break;": yield i, l.replace("break;", ";"), "break removed"
allm = []
for f in sorted(os.listdir(H)):
    if only and f.rsplit(".", 1)[0] not in only: continue
    if f.startswith(("Prerequisites", "DebugBreak", "Concepts")) or not props_of(f): continue
    allm += [(f, *m) for m in mutants(f)]
random.Random(seed).shuffle(allm); allm = allm[:count] if count else allm
print(len(allm), "mutants", flush=True)
env = dict(os.environ, VX_REPO=W, VERIF_SEED="1", VERIF_TIER="quick", VX_CONFIGS="gcc17-assert-asan")
for n, (f, i, new, what) in enumerate(allm):
    if n % nw != worker: continue
    p = H + f; orig = open(p, newline="").read(); L = orig.split("\n"); old = L[i]; L[i] = new
    open(p, "w", newline="").write("\n".join(L)); t0 = time.time(); res = "survived"; by = ""
    for pr in props_of(f):
        c = subprocess.run(["nice", "python3", "run.py", pr, "--tier", "quick"], cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if c.returncode == 1: res = "compile" if "compile-error" in c.stdout else "caught"; by = pr; break
        if c.returncode == 2: res = "broken"; by = pr + c.stdout[-100:]; break
    for o in glob.glob(V + "/build/*/*"):
        if os.path.isfile(o) and os.path.getmtime(o) > t0 - 1 and "vx_main" not in o: os.remove(o)
    open(p, "w", newline="").write(orig)
    open(out, "a").write(json.dumps(dict(f=f, line=i + 1, old=old.strip(), new=new.strip(), what=what, res=res, by=by, s=round(time.time() - t0))) + "\n")
shutil.rmtree(W, ignore_errors=True)
