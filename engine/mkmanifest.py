"""writes MANIFEST.json from the list of claimed properties"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = sys.argv[1:]
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {"C19": "the subject is the accept/reject decision of a procedural macro over token trees: its code is syn's parser plus string matching on heap-allocated "
             "token streams inside the compiler's proc-macro bridge, which cannot be run with symbolic tokens by any engine here, and a finite list of "
             "definitions fed to rustc would be a test suite, not a solver's verdict"}
checks = []
for p in props:
    if p["id"] not in CLAIMED:
        continue
    checks.append(dict(property=p["id"], quick_cmd="./check %s" % p["id"], thorough_cmd="VERIF_TIER=thorough ./check %s" % p["id"],
                       evidence_file="evidence/%s.json" % p["id"],
                       technique="symbolic execution of the compiled IR of derived parsers against an independent reference parser, decided by z3",
                       level="model_checking",
                       level_note="Exhaustive over all inputs and run-time argument values (input length below 2^47, or the smaller bound stated per harness in the evidence) "
                                  "for every definition of the property's corpus; definitions outside the corpus are not covered. Trusts rustc/LLVM, z3, the engine "
                                  "(each finished path is replayed on the native build) and the stubs listed in the evidence."))
na = [dict(property=p["id"], reason=NA.get(p["id"], "check not built yet")) for p in props if p["id"] not in CLAIMED]
m = dict(version=1, setup_cmd="./setup", checks=checks, not_applicable=na,
         hooks=dict(guard="none", enable="no hook is needed: the checks use the public API only", source_commits=[]))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
