"""Writes MANIFEST.json from properties.jsonl and jobs.py."""
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
import jobs  # noqa: E402

NA = {
    "C24": "the annotated nodes are private to the crate, not used by any public type and cannot be reached by a user; there is no behaviour to observe",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks = []
for i in ids:
    if i in NA:
        continue
    p = jobs.PROPS[i]
    checks.append(dict(
        property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
        evidence_file="evidence/%s.json" % i,
        technique="symbolic execution of the crate's LLVM IR, with Z3 deciding each assertion and memory access",
        level="model_checking",
        level_note="Bounded: every path and value within the bounds is decided. Bounds: " + p["bounds"] + ". Outside: " + p["outside"]
        + ". Trusted: rustc's translation to LLVM IR, the executor in engine/ and Z3; counterexamples are replayed against the natively compiled crate."))
assert set(jobs.PROPS) <= set(ids)
m = dict(version=1, setup_cmd="python3 check.py --setup",
         hooks=dict(guard="librrb_verif (and librrb_verif_width)", enable='RUSTFLAGS=\'--cfg librrb_verif --cfg librrb_verif_width="4"\' (check.py passes them)',
                    source_commits=["a872d41"]),
         checks=checks, not_applicable=[dict(property=k, reason=NA[k]) for k in ids if k in NA],
         notes="All checks are one program, check.py; jobs.py lists what each explores; known-findings.json the findings. See DESIGN.md.")
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
