"""Writes MANIFEST.json from properties.jsonl and the registry."""
import json
import os
import registry
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []
for i in ids:
    if i in registry.CHECKS:
        c = registry.CHECKS[i]
        checks.append(dict(
            property=i, quick_cmd="python3 checks/run.py " + i, thorough_cmd="VERIF_TIER=thorough python3 checks/run.py " + i,
            evidence_file="evidence/%s.json" % i,
            technique="bounded symbolic execution of the LLVM IR of the real code, verdicts by Z3 (and exact polynomial normal forms), counterexamples replayed natively",
            level="model_checking",
            level_note="Holds for every value of the symbolic inputs within: " + c["bounds"] + ". Trusts clang's lowering, the engine's IR semantics and the models of external functions, all cross-checked by replaying witnesses against a g++ build; "
            + c.get("note", "double arithmetic is exact real arithmetic unless the harness runs in bit-precise mode.")))
m = dict(version=1, setup_cmd="mkdir -p build && bash engine/build.sh build/symex", checks=checks,
         not_applicable=[dict(property=i, reason=registry.NOT_APPLICABLE[i]) for i in ids if i not in registry.CHECKS])
open(V + "/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
