#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = {}
for l in open(os.path.join(here, "properties.jsonl")):
    d = json.loads(l); props[d["id"]] = d["title"]
TV = "translation_validation"
MC = "model_checking"
CODEC = ("symbolic execution of the code bubbler generates from /repo's current tree (per target: compiler IR, bytecode or AST) "
         "against an independent wire-format specification, every assertion decided by z3")
PKG = "symbolic execution of /repo's own Go packages through go/ssa, every assertion decided by z3"
CNOTE = ("bounded: the schema family, option sets, buffer sizes and content lengths listed in the evidence; within them every value is symbolic. "
         "Trusted: the front ends (validated each run by replaying solver models on the real generated code), z3, the target compilers. NaN payloads excluded.")
PNOTE = ("bounded: sizes listed in the evidence; within them every input is symbolic. Trusted: the go/ssa interpreter (validated each run by "
         "replaying solver models on the real packages) and z3.")
CHECKS = {
 **{c: (TV, CODEC, CNOTE) for c in "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13".split()},
 **{c: (MC, PKG, PNOTE) for c in "C14 C15 C16 C17 C18 C19 C20".split()},
}
NA = {
 "C22": "no front end for JVM bytecode has been built yet",
 "C23": "no front end for CIL has been built yet",
 "C21": "there is no Kotlin compiler in this sandbox, so the generated Kotlin has no IR to execute and no way to replay a counterexample",
}
def main():
    m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
    for p in sorted(props):
        if p in CHECKS:
            lv, te, no = CHECKS[p]
            m["checks"].append({"property": p, "quick_cmd": f"bash check.sh {p} quick", "thorough_cmd": f"bash check.sh {p} thorough",
                                "technique": te, "level": lv, "level_note": no})
        else:
            m["not_applicable"].append({"property": p, "reason": NA.get(p, "no check has been built yet")})
    json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
main()
