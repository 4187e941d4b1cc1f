#!/usr/bin/env python3
"""Makes and validates the planted bugs of seeded/ from tools/seeds.py.
usage: mkseed.py [--check] [id...]     (in a scratch copy of /repo under /tmp; /repo is not touched)"""
import json, os, re, subprocess, sys, shutil, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
ROOT = subprocess.run(["git", "-C", REPO, "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[-1]

PRELUDE = '''#include "xmm.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>
#define EXPECT(c) do { if (!(c)) { std::printf("line %d: %s\\n", __LINE__, #c); std::exit(1); } } while (0)
static bool near(double a, double b, double r = 1e-4) { return std::fabs(a - b) <= r * (1e-6 + std::fabs(a) + std::fabs(b)); }
typedef std::vector<float> V;
'''
DEMO = '''#!/bin/bash
# run in the repository's top directory: compiles demo.cpp with its sources; 0 = behaves as it should
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
INC="-Isrc -Isrc/core/common -Isrc/core/distributions -Isrc/core/model -Isrc/core/trainingset -Isrc/models/gmm -Isrc/models/hmm -Isrc/models/kmeans -Idependencies/jsoncpp/include -Idependencies/jsoncpp/src"
(find src dependencies/jsoncpp/src -name '*.cpp'; echo "$D/demo.cpp") | T="$T" INC="$INC" xargs -P 8 -I{} sh -c 'o=$(echo "{}" | tr / _); exec g++ -std=c++11 -O1 -g0 -w FLAGS $INC -c "{}" -o "$T/$o.o"' || exit 2
g++ FLAGS -pthread -o "$T/demo" "$T"/*.o || exit 2
cd "$T" && timeout 120 ./demo
'''

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)

def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    check = "--check" in sys.argv
    ns = {}
    exec(open(f"{HERE}/tools/seeds.py").read(), ns)
    wt = f"/tmp/seedwt{os.getpid()}"
    shutil.rmtree(wt, ignore_errors=True)
    sh(f"cp -a {REPO} {wt}")
    for f in ("build", "test"):
        s = open(f"/opt/vp/{f}.sh").read().replace("/repo", wt).replace("/opt/vp/build.sh", f"{wt}.build.sh")
        open(f"{wt}.{f}.sh", "w").write(s)
    sh(f"rm -rf {wt}/_build; rm -rf {wt}/bin")
    r = sh(f"bash {wt}.build.sh")
    stable = json.load(open("/opt/vp/BASELINE.json"))
    try:
        for s in ns["SEEDS"]:
            if args and s["id"] not in args:
                continue
            d = f"{HERE}/seeded/{s['id']}"
            sh(f"git -C {wt} checkout -q -- . && git -C {wt} clean -fdq src")
            ok = True
            for path, old, new in s["edits"]:
                p = f"{wt}/{path}"
                t = open(p).read()
                n = t.count(old)
                if n != 1:
                    print(s["id"], f"{path}: {n} occurrences of {old[:60]!r}"); ok = False; break
                t = t.replace(old, new)
                open(p, "w").write(t)
            if not ok:
                continue
            diff = sh(f"git -C {wt} diff -U3").stdout
            # the lines removed must be original ones
            mine = []
            for path in {e[0] for e in s["edits"]}:
                cur = None
                for l in sh(f"git -C {wt} diff -U0 -- {path}").stdout.splitlines():
                    m = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
                    if m and m.group(2) != "0":
                        a, c = int(m.group(1)), int(m.group(2) or 1)
                        b = sh(f"git -C {REPO} blame -l -s -L{a},{a+c-1} {path}").stdout.splitlines()
                        mine += [x for x in b if not x.lstrip("^").startswith(ROOT[:30])]
            if mine:
                print(s["id"], "changes lines of fixes:", *mine, sep="\n  ")
                if len(mine) and s.get("strict", True): continue
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            open(f"{d}/patch.diff", "w").write(diff)
            open(f"{d}/demo.cpp", "w").write(PRELUDE + s["demo"].strip("\n") + "\n")
            open(f"{d}/demo.sh", "w").write(DEMO.replace("FLAGS", s.get("flags", "")))
            os.chmod(f"{d}/demo.sh", 0o755)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
            r = sh(f"bash {wt}.test.sh {wt}.json")
            res = json.load(open(f"{wt}.json"))
            r1 = sh(f"bash {d}/demo.sh", cwd=wt)
            sh(f"git -C {wt} checkout -q -- .")
            r0 = sh(f"bash {d}/demo.sh", cwd=wt)
            good = len(res["passed"]) >= 9 and r0.returncode == 0 and r1.returncode == 1 or False
            if r1.returncode not in (0, 2) and len(res["passed"]) >= 9 and r0.returncode == 0: good = True
            print(s["id"], s["property"], "valid" if good else "INVALID", f"tests {len(res['passed'])}, demo {r0.returncode} -> {r1.returncode}", flush=True)
            if not good:
                print((r1.stdout + r1.stderr)[-600:], (r0.stdout + r0.stderr)[-600:])
                shutil.rmtree(d, ignore_errors=True)
                continue
            if check:
                sh(f"git -C {wt} apply {d}/patch.diff")
                r = sh(f"python3 run.py {s['property']}", cwd=HERE, env=dict(os.environ, XMM_REPO=wt))
                hit = [l for l in r.stdout.splitlines() if l.startswith("FAILED")]
                print("   ", "CAUGHT" if r.returncode == 1 and "VIOLATION" in r.stdout else f"MISSED ({r.returncode})", *hit[:3], flush=True)
                cj = json.load(open(f"{HERE}/tools/caught.json")) if os.path.exists(f"{HERE}/tools/caught.json") else {}
                fc = sorted({m.group(1) for l in hit for m in [re.search(r"FAILED facet=(\w+)", l)] if m})
                cj[s["id"]] = f"{s['property']} ({', '.join(fc)})" if r.returncode == 1 and "VIOLATION" in r.stdout else "missed"
                json.dump(cj, open(f"{HERE}/tools/caught.json", "w"), indent=1, sort_keys=True)
                open(f"/tmp/seed_{s['id']}.log", "w").write(r.stdout + r.stderr)
    finally:
        sh(f"rm -rf {wt} {wt}.build.sh {wt}.test.sh {wt}.json")
main()
