#!/usr/bin/env python3
"""Mutation tester: small random edits of /repo's sources (in a scratch copy) that no check notices are candidates for
missing checks.   mutate.py N [--seed S] [--files substring,...] [--out FILE] [--scale X]
With --edits FILE.py (which defines E = [(name, file, old text, new text)]) it tries those edits instead, at the scale given.
Not a check: it is run by hand while the checks are built.  Works in /tmp/mut<pid>; never touches /repo."""
import concurrent.futures, glob, hashlib, json, os, random, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
def opt(n, d):
    if n in args:
        i = args.index(n); v = args[i + 1]; del args[i:i + 2]; return v
    return d
SEED, FILES, OUT, SCALE = int(opt("--seed", "1")), opt("--files", "").split(","), opt("--out", "/tmp/mut.json"), float(opt("--scale", "0.25"))
EDITS = opt("--edits", "")
N = int(args[0]) if args else 10 ** 6
# code nothing calls
DEAD = ("initMeansWithAllPhrases", "SingleClassHMM::initCovariances_fullyObserved", "SingleClassHMM::backward_update", "HierarchicalHMM::normalizeTransitions", "argmax(")
W = f"/tmp/mut{os.getpid()}"
WT = W + "/repo"
INCD = ("src", "src/core/common", "src/core/distributions", "src/core/model", "src/core/trainingset", "src/models/gmm", "src/models/hmm", "src/models/kmeans",
        "dependencies/jsoncpp/include", "dependencies/jsoncpp/src")
INC = [f"-I{WT}/{d}" for d in INCD] + [f"-I{HERE}/engine", f"-I{HERE}/props"]
FL = ["-O1", "-g1", "-DUSE_PTHREAD", "-pthread", "-w", "-D_GLIBCXX_SANITIZE_VECTOR=1", "-fPIC", "-fsanitize=address,undefined", "-fno-sanitize=vptr,function",
      "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-shared-libasan"]
PROPS = sorted(os.path.basename(f)[:-4] for f in glob.glob(f"{HERE}/props/C*.cpp"))
anch = {}
for l in open(f"{HERE}/properties.jsonl"):
    d = json.loads(l)
    anch[d["id"]] = d["anchors"]["files"]

def sh(c, **k):
    return subprocess.run(c, capture_output=True, text=True, errors="replace", **k)

def comp(job):
    src, obj, std = job
    return sh(["clang++", f"-std={std}", *FL, *INC, "-c", src, "-o", obj])

def lib_sources():
    return sorted(glob.glob(f"{WT}/src/**/*.cpp", recursive=True)) + sorted(glob.glob(f"{WT}/dependencies/jsoncpp/src/*.cpp"))

def obj_of(s, d):
    return f"{W}/{d}/{os.path.basename(s)}.o"

def build_lib(d, only=None):
    jobs = [(s, obj_of(s, d), "c++11") for s in lib_sources() if only is None or s == only]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for r in ex.map(comp, jobs):
            if r.returncode: return False
    return True

def link_lib(objs, d):
    return sh(["clang++", *FL, "-shared", "-o", f"{W}/{d}/libxmm.so", *objs]).returncode == 0

def build_props(d, props):
    jobs = [(f"{HERE}/engine/main.cpp", f"{W}/{d}/main.o", "c++14")] + [(f"{HERE}/props/{p}.cpp", f"{W}/{d}/{p}.o", "c++14") for p in props]
    jobs = [j for j in jobs if not os.path.exists(j[1])]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for r in ex.map(comp, jobs):
            if r.returncode: return False
        def link(p):
            return sh(["clang++", *FL, "-o", f"{W}/{d}/{p}.exe", f"{W}/{d}/{p}.o", f"{W}/{d}/main.o", f"-L{W}/{d}", "-lxmm"]).returncode
        return not any(ex.map(link, [p for p in props if not os.path.exists(f"{W}/{d}/{p}.exe")]))

RT = os.path.dirname(sh(["clang++", "-print-file-name=libclang_rt.asan-x86_64.so"]).stdout.strip())
def run_prop(p, exedir, libdir, scale):
    t = f"{W}/tmp"
    shutil.rmtree(t, ignore_errors=True); os.makedirs(t)
    env = dict(os.environ, LD_LIBRARY_PATH=f"{W}/{libdir}:{RT}", PBT_SHRINK_S="0.5")
    try:
        r = sh([f"{W}/{exedir}/{p}.exe", "run", "--prop", p, "--tier", "quick", "--seed", "1", "--jobs", "8", "--cap", "60", "--tmp", t, "--out", f"{W}/out", "--scale", str(scale)],
               cwd=t, env=env, timeout=240)
    except subprocess.TimeoutExpired:
        return "timeout"
    if r.returncode == 0: return None
    m = re.search(r"FAILED facet=(\w+).*?tag=(\S+)", r.stdout)
    return f"{p}:{m.group(1)}/{m.group(2)}" if m else f"{p}: exit {r.returncode} {r.stderr[-300:]}"

OPS = [
 (r"(?<![<>=!+\-*/&|-])<(?![<=])", ["<="]), (r"<=", ["<"]), (r"(?<![<>=!\-])>(?![>=])", [">="]), (r"(?<!>)>=", [">"]),
 (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / "]), (r" / ", [" * "]),
 (r"\+=", ["=", "-="]), (r"\+ 1\b", ["+ 0", "+ 2"]), (r"- 1\b", ["- 0"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\b0\b(?!\.)", ["1"]), (r"(?<![\w.])1\b(?!\.|e)", ["0", "2"]),
 (r"(?<![\w.])2\b(?!\.)", ["1", "3"]), (r"!(?=[a-z_])", [""]), (r"\bcontinue\b", [";"]), (r"\bbreak\b", [";"]), (r"\breturn\b(?=;)", [";"]), (r"\bmin\b(?=\()", ["max"]), (r"\bmax\b(?=\()", ["min"]),
 (r"input", ["output"]), (r"output", ["input"]), (r"smoothed", ["instant"]), (r"\[i\]", ["[0]", "[j]"]), (r"\[j\]", ["[i]"]), (r"\[d\]", ["[0]"]), (r"\[c\]", ["[0]"]), (r"d1", ["d2"]), (r"d2", ["d1"]),
 (r"Full\b", ["Diagonal"]), (r"LeftRight", ["Ergodic"]), (r"\.begin\(\)", [".end()"]), (r"dimension_input", ["dimension"]), (r"\bdimension\b", ["dimension_input"]),
]
def mutants(path):
    """(line number, new line) of each possible mutant."""
    out = []
    lines = open(path).read().split("\n")
    com = dead = False
    start = 0
    for i, l in enumerate(lines):
        if l.startswith("#include") or l.startswith("namespace") : start = i
    start = next((i for i, l in enumerate(lines) if l.startswith("#include")), 0)
    for i, l in enumerate(lines):
        s = l.strip()
        if "/*" in s: com = True
        was = com
        if "*/" in s: com = False
        if not l.startswith((" ", "}", "#")) and "(" in l: dead = any(x in l for x in DEAD)
        if dead: continue
        if was or i < start or not s or s.startswith(("//", "#", "*", "template", "friend", "typedef", "using")): continue
        if "throw" in l or "assert" in l: continue
        for pat, reps in OPS:
            for m in re.finditer(pat, l):
                if l.count('"', 0, m.start()) % 2: continue
                if pat.startswith(("(?<![<>", "(?<![<>=!\\-])>")) and re.search(r"(vector|map|set|cast|Matrix|pair|function|ptr|template|Parameters|Attribute|Model|Configuration|CircularBuffer|Generator|array)\s*<", l): continue
                for r in reps: out.append((i, l[:m.start()] + r + l[m.end():], f"{pat}->{r}"))
        # drop a whole statement
        if s.endswith(";") and not s.startswith(("return", "const", "int ", "unsigned", "double", "float", "bool", "std::", "auto", "}", "public", "private", "virtual", "static", "case", "default", "else", "for", "if", "while")) and s.count("(") == s.count(")") \
           and lines[i - 1].strip().endswith((";", "{", "}", ":")) and (re.match(r"[\w\->.\[\]\(\)\*: +]+\s*(=|\+=|/=|\*=|-=)\s", s) or re.match(r"[\w\->.\[\]:]+\(.*\);$", s)):
            out.append((i, l[:len(l) - len(l.lstrip())] + ";", "drop"))
    return out

def main():
    os.makedirs(WT)
    for d in ("src", "dependencies", "test"): shutil.copytree(f"/repo/{d}", f"{WT}/{d}")
    sh(["cp", "-a", "/repo/CMakeLists.txt", WT])
    shutil.copytree("/repo", f"{W}/full", symlinks=True)
    for f in ("build", "test"):
        s = open(f"/opt/vp/{f}.sh").read().replace("/repo", f"{W}/full").replace("/opt/vp/build.sh", f"{W}/build.sh")
        open(f"{W}/{f}.sh", "w").write(s)
    shutil.rmtree(f"{W}/full/_build", ignore_errors=True)
    os.makedirs(f"{W}/base"); os.makedirs(f"{W}/mut")
    assert sh(["bash", f"{W}/build.sh"]).returncode == 0
    assert build_lib("base") and link_lib([obj_of(s, "base") for s in lib_sources()], "base") and build_props("base", PROPS)
    cost = {}
    for p in PROPS:
        t = time.time(); r = run_prop(p, "base", "base", SCALE); cost[p] = time.time() - t
        print(p, r, f"{cost[p]:.1f}s", flush=True)
        assert r is None, r
    files = [f for f in sorted(glob.glob(f"{WT}/src/**/*.[ch]pp", recursive=True)) if any(x in f for x in FILES)]
    allm = []
    for f in files:
        allm += [(f, *m) for m in mutants(f)]
    rnd = random.Random(SEED)
    rnd.shuffle(allm)
    print(len(allm), "possible mutants", flush=True)
    res = []
    if EDITS:
        ns = {}
        exec(open(EDITS).read(), ns)
        allm = []
        for name, f, old, new in ns["E"]:
            text = open(f"{WT}/{f}").read()
            if text.count(old) != 1 or old == new: print("skipped", name, "found", text.count(old)); continue
            allm.append((f"{WT}/{f}", text.count("\n", 0, text.index(old)), (old, new), name))
    for k, (f, i, new, what) in enumerate(allm[:N]):
        rel = os.path.relpath(f, WT)
        orig = open(f).read()
        if EDITS:
            open(f, "w").write(orig.replace(*new))
            old, new = what, ""
        else:
            ls = orig.split("\n")
            old = ls[i]
            ls[i] = new
            open(f, "w").write("\n".join(ls))
        t0 = time.time()
        verdict, by = "survived", None
        try:
            order = sorted(PROPS, key=lambda p: (rel not in anch.get(p, []), cost[p]))
            if f.endswith(".cpp"):
                if not build_lib("mut", f): verdict = "no build"
                else:
                    objs = [obj_of(s, "mut" if s == f else "base") for s in lib_sources()]
                    if not link_lib(objs, "mut"): verdict = "no build"
                exedir = "base"
            else:
                for x in glob.glob(f"{W}/mut/*"): os.unlink(x)
                if not build_lib("mut") or not link_lib([obj_of(s, "mut") for s in lib_sources()], "mut"): verdict = "no build"
                order = [p for p in order if rel in anch.get(p, [])]
                exedir = "mut"
            if verdict != "no build":
                for a in range(0, len(order), 6):
                    if by: break
                    if exedir == "mut" and not build_props("mut", order[a:a + 6]): verdict = "no build"; break
                    for p in order[a:a + 6]:
                        by = run_prop(p, exedir, "mut", SCALE)
                        if by: verdict = "caught"; break
            if verdict == "survived":
                shutil.copy(f, f"{W}/full/{rel}")
                r = sh(["bash", f"{W}/test.sh", f"{W}/t.json"])
                try: n = len(json.load(open(f"{W}/t.json"))["passed"])
                except Exception: n = 0
                if n < 9: verdict = "tests"
                shutil.copy(f"/repo/{rel}", f"{W}/full/{rel}")
        finally:
            open(f, "w").write(orig)
        res.append(dict(file=rel, line=i + 1, old=old.strip(), new=new.strip(), op=what, verdict=verdict, by=by, s=round(time.time() - t0, 1)))
        json.dump(res, open(OUT, "w"), indent=0)
        print(k, verdict, by or "", f"{rel}:{i+1}", "|", old.strip(), "|", new.strip(), f"{time.time()-t0:.0f}s", flush=True)
try:
    main()
finally:
    shutil.rmtree(W, ignore_errors=True)
