import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from stages import *


def main(c):
    st = Front("C20")
    front_run(c, st, ["types"], "types", bound="every operator on every pair of a family of types nested two deep, in every typed position", timeout=850)
    if not c.violations:
        c.core(lambda: stage_types("C20k"), "cairo-m-compiler-semantic", type_harnesses(), z=("stubbing",), hto=300,
               kind=lambda h: "bounded" if "tuple_" in h else "proof", bound="tuples of up to three components; the components themselves arbitrary, of any depth")
    c.functions = ["are_types_compatible", "get_unary_op_signatures", "get_binary_op_signatures"]
    c.trusted = TRUSTED_FRONT
    c.assumptions = ["interned identifiers are equal exactly when their data is (salsa)",
                     "structural induction over types: the contract of the relation is assumed for the components and proved for the whole"]


run("C20", "proof", main)
