import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from stages import *


def main(c):
    st = Front("C18")
    front_run(c, st, ["literals"], "literals", bound="boundary values around powers of two and multiples of the modulus, and random values, in every initialising position", timeout=850)
    m = "validation::literal_validator::verif_literal_range::"
    if not c.violations:
        c.core(lambda: stage_validators("C18k", lit=True), "cairo-m-compiler-semantic",
               [m + h for h in ("negated_rejected", "other_expressions_left_alone", "let_felt::exact", "let_u32::exact", "let_inferred::exact", "constant_::exact")],
               z=("stubbing",), hto=300)
    c.functions = ["LiteralValidator::validate", "LiteralValidator::check_felt_literal", "LiteralValidator::check_u32_literal"]
    c.trusted = TRUSTED_FRONT
    c.assumptions = ["definition_semantic_type: any type (its own correctness is C20's)", "format!: its text is not looked at"]


run("C18", "proof", main)
