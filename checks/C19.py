import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from stages import *


def main(c):
    st = Front("C19")
    front_run(c, st, ["flow"], "flow", bound="every statement tree up to a size, and random larger ones", timeout=850)
    if not c.violations:
        c.core(lambda: stage_validators("C19k", flow=True), "cairo-m-compiler-semantic", flow_harnesses(), z=("stubbing",), hto=500,
               kind=lambda h: "bounded" if "length_" in h else "proof", bound="blocks of up to four statements; the statements themselves arbitrary, of any depth")
    c.functions = ["statement_provides_return_value", "statement_guarantees_hard_return", "contains_break", "analyze_for_unreachable_code_in_statement",
                   "analyze_for_unreachable_code_in_sequence", "body_returns_on_all_paths"]
    c.trusted = TRUSTED_FRONT
    c.assumptions = ["structural induction over the syntax tree: the contract of every recursive call is assumed for the components and proved for the whole",
                     "the initialisation of a for loop falls through (the grammar allows only declarations, assignments and expressions there)"]


run("C19", "proof", main)
