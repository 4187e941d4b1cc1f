#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json.  Run: python3 tools/meta.py"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
LIB = {
 "phrase": ["src/core/trainingset/xmmPhrase.hpp", "src/core/trainingset/xmmPhrase.cpp"],
 "ts": ["src/core/trainingset/xmmTrainingSet.hpp", "src/core/trainingset/xmmTrainingSet.cpp"],
 "gauss": ["src/core/distributions/xmmGaussianDistribution.hpp", "src/core/distributions/xmmGaussianDistribution.cpp"],
 "matrix": ["src/core/common/xmmMatrix.hpp"],
 "json": ["src/core/common/xmmJson.hpp", "src/core/common/xmmJson.cpp"],
 "attr": ["src/core/common/xmmAttribute.hpp", "src/core/common/xmmAttribute.cpp"],
 "events": ["src/core/common/xmmEvents.hpp"],
 "circ": ["src/core/common/xmmCircularbuffer.hpp"],
 "model": ["src/core/model/xmmModel.hpp"],
 "single": ["src/core/model/xmmModelSingleClass.hpp", "src/core/model/xmmModelSingleClass.cpp"],
 "shared": ["src/core/model/xmmModelSharedParameters.hpp", "src/core/model/xmmModelSharedParameters.cpp"],
 "conf": ["src/core/model/xmmModelConfiguration.hpp", "src/core/model/xmmModelParameters.hpp"],
 "gmm": ["src/models/gmm/xmmGmm.hpp", "src/models/gmm/xmmGmm.cpp"],
 "gmm1": ["src/models/gmm/xmmGmmSingleClass.hpp", "src/models/gmm/xmmGmmSingleClass.cpp"],
 "gmmp": ["src/models/gmm/xmmGmmParameters.hpp", "src/models/gmm/xmmGmmParameters.cpp"],
 "hmm": ["src/models/hmm/xmmHierarchicalHmm.hpp", "src/models/hmm/xmmHierarchicalHmm.cpp"],
 "hmm1": ["src/models/hmm/xmmHmmSingleClass.hpp", "src/models/hmm/xmmHmmSingleClass.cpp"],
 "hmmp": ["src/models/hmm/xmmHmmParameters.hpp", "src/models/hmm/xmmHmmParameters.cpp"],
 "km": ["src/models/kmeans/xmmKMeans.hpp", "src/models/kmeans/xmmKMeans.cpp", "src/models/kmeans/xmmKMeansParameters.hpp", "src/models/kmeans/xmmKMeansParameters.cpp"],
 "jsoncpp": ["dependencies/jsoncpp/src/json_reader.cpp", "dependencies/jsoncpp/src/json_writer.cpp", "dependencies/jsoncpp/src/json_value.cpp"],
}

def prop(id, title, statement, over, text, why, libs, mech, observe, level_note, built=True, reason=None, technique=None):
    files = [f for l in libs.split() for f in LIB[l]]
    P.append(dict(entry={
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over.split(), "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe, "hook_needed": None}},
        level_note=level_note, reason=reason, technique=technique))

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_text.py")).read())

def main():
    with open(f"{HERE}/properties.jsonl", "w") as f:
        for p in P: f.write(json.dumps(p["entry"]) + "\n")
    checks, na = [], []
    for p in P:
        i = p["entry"]["id"]
        if p["reason"] is None and os.path.exists(f"{HERE}/props/{i}.cpp"):
            checks.append({"property": i, "quick_cmd": f"python3 run.py {i}", "thorough_cmd": f"python3 run.py {i} --thorough",
                           "evidence_file": f"evidence/{i}.json", "level": "exploration",
                           "technique": p["technique"] or "property-based testing: generated cases against an explicit oracle, with shrinking, under ASan/UBSan",
                           "level_note": p["level_note"]})
        else:
            na.append({"property": i, "reason": p["reason"] or "no check built yet"})
    json.dump({"version": 1, "setup_cmd": "python3 run.py --setup", "hooks": {"guard": "none", "enable": "no hooks: the checks compile the sources of /repo unmodified", "source_commits": []},
               "checks": checks, "not_applicable": na,
               "notes": "VERIF_TIER (quick, thorough), when set, overrides the tier of the command. Properties are described in DESIGN.md."},
              open(f"{HERE}/MANIFEST.json", "w"), indent=1)
    print(len(checks), "checks,", len(na), "not applicable")
main()
