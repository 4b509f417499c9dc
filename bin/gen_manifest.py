#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KANI = "contract-based deductive verification: contracts on the real functions, each obligation discharged by Kani/CBMC (SAT) for all inputs"
CORE = "contract-based deductive verification: contracts on the real validator/rule/renderer functions, discharged by Kani/CBMC for all inputs by structural induction over callee contracts, with the whole-program statement decided by executable contracts within a stated bound"
FRONT = "executable contracts on the real front-end functions, evaluated within a stated bound (bounded stand-in)"
CHECKS = {
 "C01": ("proof", KANI, "encode/decode of every instruction, every operand value; no bound"),
 "C02": ("proof", KANI, "every opcode handler against the reference step, every register, operand and memory content (unbounded memory model)"),
 "C03": ("proof", KANI, "every memory operation over unbounded memory; no bound"),
 "C04": ("proof", KANI, "access record of every opcode handler; instruction fetch and the step function of the run loop"),
 "C05": ("proof", KANI, "call/return and the no-argument frame for all inputs; frames of one to three arguments, program loading and the run loop are bounded stand-ins, labelled so in the evidence"),
 "C06": ("proof", KANI, "scalars for every value; aggregates by one induction step over the component contracts, up to three components (labelled bounded)"),
 "C07": ("proof", KANI, "range construction for every size; the run glue by the callees' contracts for up to two parameters and returns (labelled bounded)"),
 "C17": ("other", FRONT, "bounded"),
 "C18": ("proof", CORE, "range tests of both literal checks for every literal (core); whole programs bounded"),
 "C19": ("proof", CORE, "every statement-level analysis function by structural induction, sequences up to length 3 bounded (core); whole programs bounded"),
 "C20": ("proof", CORE, "operator tables and type compatibility by structural induction (core); whole programs bounded"),
 "C21": ("other", FRONT, "bounded"),
 "C22": ("proof", CORE, "measure/group/leaf/concat rules of the renderer by structural induction (core); whole documents bounded"),
 "C23": ("other", FRONT, "bounded"),
 "C24": ("other", FRONT, "bounded"),
 "C27": ("other", FRONT, "bounded"),
}
NA = {
}
PENDING = "no machinery built yet"
def main():
    props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
    checks = []
    for p in props:
        if p in CHECKS and os.path.exists(os.path.join(V, "checks", p + ".py")):
            lv, tech, note = CHECKS[p]
            checks.append(dict(property=p, quick_cmd=f"python3 /verif/checks/{p}.py", thorough_cmd=f"VERIF_TIER=thorough python3 /verif/checks/{p}.py",
                               technique=tech, level=lv, level_note=note))
    done = {c["property"] for c in checks}
    na = [dict(property=p, reason=NA.get(p, PENDING)) for p in props if p not in done]
    m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na)
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
main()
