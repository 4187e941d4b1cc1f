#!/usr/bin/env python3
"""Build and run one property's check against /repo's current working tree.

  run.py <ID> [--thorough]        run the check (VERIF_SEED, VERIF_TIER from the environment)
  run.py <ID> --replay FILE       re-run one replay file (exit 1 if it still fails)
  run.py --build-all              compile everything (used while developing)

Exit 0: held on everything explored.  Exit 1 with "VIOLATION property=<id> replay=<path>": broken.
"""
import concurrent.futures, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

for s in (sys.stdout, sys.stderr): s.reconfigure(errors="replace")
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("XMM_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
CXX = "clang++"
INC = [f"-I{REPO}/{d}" for d in (
    "src", "src/core/common", "src/core/distributions", "src/core/model", "src/core/trainingset",
    "src/models/gmm", "src/models/hmm", "src/models/kmeans",
    "dependencies/jsoncpp/include", "dependencies/jsoncpp/src")] + [f"-I{HERE}/engine", f"-I{HERE}/props"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=vptr,function", "-fno-sanitize-recover=all",
       "-fno-omit-frame-pointer"]
BASE = ["-O1", "-g1", "-DUSE_PTHREAD", "-pthread", "-w", "-D_GLIBCXX_SANITIZE_VECTOR=1"]


def flavour(name):
    if name == "asan":
        return BASE + SAN, SAN
    if name == "fuzz":
        return BASE + SAN + ["-fsanitize=fuzzer-no-link", "-DPBT_FUZZ"], SAN + ["-fsanitize=fuzzer"]
    if name == "tsan":
        return BASE + ["-fsanitize=thread"], ["-fsanitize=thread"]
    if name == "plain":
        return BASE, []
    raise SystemExit("flavour?")


def sources():
    s = sorted(glob.glob(f"{REPO}/src/**/*.cpp", recursive=True))
    s += sorted(glob.glob(f"{REPO}/dependencies/jsoncpp/src/*.cpp"))
    return s


def header_key():
    h = hashlib.sha256()
    for pat in ("src/**/*.h", "src/**/*.hpp", "src/**/*.cpp", "dependencies/jsoncpp/**/*.h", "dependencies/jsoncpp/**/*.hpp",
                "dependencies/jsoncpp/**/*.inl", "dependencies/jsoncpp/**/*.cpp"):
        for f in sorted(glob.glob(f"{REPO}/{pat}", recursive=True)):
            h.update(f.encode()); h.update(open(f, "rb").read())
    for f in sorted(glob.glob(f"{HERE}/engine/*.hpp") + glob.glob(f"{HERE}/props/*.hpp")):
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()


def compile_one(args):
    src, obj, flags, std = args
    if os.path.exists(obj):
        return None
    tmp = obj + f".{os.getpid()}.tmp"
    r = subprocess.run([CXX, f"-std={std}", *flags, *INC, "-c", src, "-o", tmp], capture_output=True, text=True, errors="replace")
    if r.returncode:
        return f"{src}:\n{r.stderr[-4000:]}"
    os.rename(tmp, obj)
    return None


def build(pid, flav="asan", jobs=8):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    flags, lflags = flavour(flav)
    hk = header_key()
    objdir = os.path.join(BUILD, "obj")
    os.makedirs(objdir, exist_ok=True)
    units, objs = [], []
    main = "fuzz.cpp" if flav == "fuzz" else "main.cpp"
    for s, std in [(x, "c++11") for x in sources()] + [(f"{HERE}/engine/{main}", "c++14"), (f"{HERE}/props/{pid}.cpp", "c++14")]:
        k = hashlib.sha256((hk + s + std + " ".join(flags + INC)).encode() + open(s, "rb").read()).hexdigest()[:24]
        o = os.path.join(objdir, f"{os.path.basename(s)}.{k}.o")
        units.append((s, o, flags, std)); objs.append(o)
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        # longest first
        errs = [e for e in ex.map(compile_one, sorted(units, key=lambda u: -os.path.getsize(u[0]))) if e]
    if errs:
        lock.close()
        raise RuntimeError("compile failed:\n" + "\n".join(errs))
    exe = os.path.join(BUILD, f"{pid}.{flav}." + hashlib.sha256(" ".join(objs).encode()).hexdigest()[:16])
    if not os.path.exists(exe):
        r = subprocess.run([CXX, *lflags, "-pthread", "-o", exe + ".tmp", *objs], capture_output=True, text=True, errors="replace")
        if r.returncode:
            lock.close()
            raise RuntimeError("link failed:\n" + r.stderr[-4000:])
        os.rename(exe + ".tmp", exe)
    for o in objs:
        os.utime(o)
    os.utime(exe)
    # keep the cache small
    old = time.time() - 3 * 3600
    for f in glob.glob(f"{objdir}/*.o") + glob.glob(f"{BUILD}/C*.*"):
        try:
            if os.path.isfile(f) and os.path.getmtime(f) < old:
                os.unlink(f)
        except OSError:
            pass
    lock.close()
    return exe


def flavours(pid):
    """Instrumentations a check runs in: a "// FLAVOURS: ..." line of its source, asan otherwise."""
    m = re.search(r"^// FLAVOURS: (.*)$", open(f"{HERE}/props/{pid}.cpp").read(), re.M)
    return m.group(1).split() if m else ["asan"]


def known(pid):
    """(probe name, text) of the recorded, unrepaired findings of this property."""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) probe=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def meta(pid):
    for l in open(os.path.join(HERE, "properties.jsonl")):
        d = json.loads(l)
        if d["id"] == pid:
            return d
    return {"title": pid}


def violation(pid, path):
    print(f"VIOLATION property={pid} replay={path}", flush=True)


def main():
    if sys.argv[1] == "--setup":
        # nothing is kept between runs: each check compiles what it needs; only make sure that it can
        for t in (CXX, "ar"):
            if not shutil.which(t):
                print(f"{t} not found"); return 1
        os.makedirs(f"{HERE}/evidence", exist_ok=True)
        return 0
    if sys.argv[1] == "--build-all":
        for f in sorted(glob.glob(f"{HERE}/props/C*.cpp")):
            build(os.path.basename(f)[:-4])
        return 0
    pid = sys.argv[1]
    opts = sys.argv[2:]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    default = "quick"
    if "--thorough" in opts:
        opts.remove("--thorough")
        default = "thorough"
    tier = os.environ.get("VERIF_TIER", default) or default
    if tier not in ("quick", "thorough"):
        tier = "quick"
    jobs = int(os.environ.get("VERIF_JOBS", "8"))
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix=f"xmmv_{pid}_")
    # the code under test gets a scratch directory as its cwd
    try:
        flavs = flavours(pid)
        if opts and opts[0] == "--replay":
            fl = json.load(open(opts[1])).get("flavour", flavs[0])
            exe = build(pid, fl, jobs)
            r = subprocess.run([exe, "replay", "--file", os.path.abspath(opts[1]), "--tmp", tmp, "--prop", pid], cwd=tmp)
            return 1 if r.returncode == 1 else 0 if r.returncode == 0 else r.returncode
        exes = {fl: build(pid, fl, jobs) for fl in flavs}
        exe = exes[flavs[0]]
        t_build = time.time() - t0
        failed = []
        # 1. known findings
        kf, listed = known(pid), {}
        r = subprocess.run([exe, "probe", "--tmp", tmp, "--prop", pid], cwd=tmp, capture_output=True, text=True, errors="replace")
        probes = {}
        for l in r.stdout.splitlines():
            a = l.split("\t")
            if len(a) >= 4:
                probes[a[0]] = (a[1] == "1", a[2], a[3])
        names = {n for n, _ in kf}
        findings = []
        for n, text in kf:
            if n in probes and probes[n][0]:
                findings.append(f"{n}: {text}")
                print(f"KNOWN-FINDING: property={pid} {text} [{n}]", flush=True)
            else:
                print(f"note: known finding {n} no longer fails", flush=True)
        rep_dir = os.path.join(HERE, "replays")
        os.makedirs(rep_dir, exist_ok=True)
        for n, (bad, text, msg) in probes.items():
            if bad and n not in names:
                p = os.path.join(rep_dir, f"{pid}.{n}.probe.txt")
                open(p, "w").write(f"property {pid}: fixed history '{n}' fails\n{text}\n{msg}\n")
                print(text, msg)
                failed.append(p)
        # 2. regression corpus: shrunk failures found earlier (on planted or repaired defects)
        corpus = sorted(glob.glob(f"{HERE}/corpus/{pid}/*.json"))
        ncorp = 0
        for c in corpus:
            r = subprocess.run([exe, "replay", "--file", c, "--tmp", tmp, "--prop", pid], cwd=tmp, capture_output=True, text=True, errors="replace")
            if r.returncode in (0, 1):
                ncorp += 1
            if r.returncode == 1:
                ok = all(subprocess.run([exe, "replay", "--file", c, "--tmp", tmp, "--prop", pid], cwd=tmp,
                                        capture_output=True).returncode == 1 for _ in range(2))
                if ok:
                    print(f"regression corpus case fails: {c}\n{r.stdout[-1500:]}")
                    failed.append(c)
                    break
        # 3. generated search
        res = {"facets": [], "unreproduced": 0}
        cap = float(os.environ.get("VERIF_CAP", "330" if tier == "quick" else "5400"))
        out = os.path.join(rep_dir, pid)
        for f in glob.glob(out + ".*"):
            os.unlink(f)
        for fl in flavs:
            if failed:
                break
            cmd = [exes[fl], "run", "--prop", pid, "--tier", tier, "--seed", str(seed), "--jobs", str(jobs), "--cap", str(cap / len(flavs)),
                   "--tmp", tmp, "--out", out if fl == flavs[0] else f"{out}.{fl}"]
            if fl == "tsan":
                cmd += ["--rule", "[racy]"]
            cmd += opts
            r = subprocess.run(cmd, cwd=tmp, stdout=subprocess.PIPE, text=True, errors="replace")
            sys.stdout.write(r.stdout[-6000:])
            rf = (out if fl == flavs[0] else f"{out}.{fl}") + ".result.json"
            one = json.load(open(rf))
            os.unlink(rf)
            for f in one["facets"]:
                if f["violation"]:
                    failed.append(f["violation"])
                    if fl != flavs[0]:
                        d = json.load(open(f["violation"]))
                        d["flavour"] = fl
                        json.dump(d, open(f["violation"], "w"), indent=1)
                if fl != flavs[0]:
                    f["name"] += " under " + fl
            res["facets"] += one["facets"]
            res["unreproduced"] += one["unreproduced"]
            if r.returncode not in (0, 1):
                raise RuntimeError(f"runner exit {r.returncode}")
        fuzz = None
        if tier == "thorough" and not failed and os.path.exists(f"{HERE}/props/{pid}.fuzz"):
            fuzz = fuzzing(pid, exe, tmp, seed, jobs, rep_dir, failed)
        m = meta(pid)
        samples = []
        for f in res["facets"]:
            for s in f["samples"]:
                samples.append({"facet": f["name"], "case": s})
        cov = {
            "evaluations": sum(f["evaluations"] for f in res["facets"]) + ncorp,
            "distinct_nontrivial": sum(f["distinct_nontrivial"] for f in res["facets"]),
            "rule": "A case is a choice sequence decoded by the facet's generator; distinct = different choice sequence. "
                    "Non-trivial, per facet: " + "; ".join(f"{f['name']}: {f['rule']}" for f in res["facets"]),
            "samples": samples or ["no non-trivial sample in this run"],
            "facets": {f["name"]: {k: f[k] for k in ("planned", "evaluations", "discarded", "interesting",
                                                     "distinct_nontrivial", "capped", "wall_s", "labels")}
                       for f in res["facets"]},
            "regression_corpus_replayed": ncorp,
            "known_findings": findings,
            "unreproduced_failures": res["unreproduced"],
            "build_s": round(t_build, 1),
        }
        if fuzz:
            cov["coverage_guided"] = fuzz
        ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
              "assumptions": ["cases run in an address- and undefined-behaviour-sanitised build of /repo's sources "
                              "(clang++ -O1); tolerances absorb floating-point reassociation"],
              "wall_s": round(time.time() - t0, 2), "violations": len(failed)}
        os.makedirs(f"{HERE}/evidence", exist_ok=True)
        with open(f"{HERE}/evidence/{pid}.json", "w") as fo:
            json.dump(ev, fo, indent=1)
        for f in res["facets"]:
            print(f"  {f['name']}: {f['evaluations']}/{f['planned']} cases, {f['distinct_nontrivial']} distinct non-trivial, "
                  f"{f['discarded']} discarded, {f['wall_s']:.1f}s" + (" (time cap)" if f["capped"] else ""))
        print(f"{pid} {m['title']}: {'VIOLATED' if failed else 'held'} ({time.time()-t0:.1f}s, build {t_build:.1f}s)", flush=True)
        for p in failed:
            violation(pid, p)
        return 1 if failed else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def fuzzing(pid, exe, tmp, seed, jobs, rep_dir, failed):
    """Coverage-guided search over the same facets (thorough tier)."""
    fexe = build(pid, "fuzz", jobs)
    secs = int(os.environ.get("VERIF_FUZZ_S", "600"))
    corp, art = os.path.join(tmp, "corpus"), os.path.join(tmp, "art")
    procs = []
    for j in range(jobs):
        os.makedirs(f"{corp}{j}", exist_ok=True); os.makedirs(f"{art}{j}", exist_ok=True)
        procs.append(subprocess.Popen(
            [fexe, f"-seed={seed * 100 + j + 1}", f"-max_total_time={secs}", "-max_len=4096", "-timeout=60", "-rss_limit_mb=3500",
             "-detect_leaks=0", "-print_final_stats=1", f"-artifact_prefix={art}{j}/", f"{corp}{j}"],
            cwd=tmp, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace",
            env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=4096")))
    execs = 0
    for p in procs:
        _, err = p.communicate()
        m = re.search(r"stat::number_of_executed_units:\s*(\d+)", err)
        execs += int(m.group(1)) if m else 0
    n = 0
    for a in sorted(glob.glob(f"{art}*/crash-*") + glob.glob(f"{art}*/timeout-*")):
        n += 1
        o = os.path.join(rep_dir, f"{pid}.fuzz{n}.replay.json")
        r = subprocess.run([exe, "bytes", "--file", a, "--tmp", tmp, "--prop", pid, "--out", o], cwd=tmp,
                           capture_output=True, text=True, errors="replace")
        if r.returncode == 1:
            print(r.stdout[-3000:])
            failed.append(o)
            break
    return {"engine": "libFuzzer", "executions": execs, "seconds": secs, "processes": jobs, "artifacts": n}


if __name__ == "__main__":
    try:
        sys.exit(main())
    except RuntimeError as e:
        print(e)
        sys.exit(2)
