import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from stages import *


def main(c):
    st = stage_vm("C03")
    mf = st.harness("runner/src/memory/mod.rs", "memory.rs", "verif_memory")
    hs = harness_names("memory.rs", "memory::verif_memory", "^(insert|get_data|get_u32|fresh)")
    c.functions = ["Memory::" + f for f in ("insert", "insert_no_trace", "get_data", "get_data_no_trace", "get_qm31_no_trace", "get_u32",
                                           "get_u32_no_trace", "insert_u32", "validate_address", "insert_entrypoint_call", "default")]
    c.trusted = TRUSTED_COMMON + TRUSTED_GHOST
    c.assumptions = ["invariant of Memory: the low and high region never overlap (assumed at entry, proved preserved by every mutator)",
                     "cells hold canonical field elements"]
    c.kani(st, "cairo-m-runner", hs, modfile=mf, hto=700)


run("C03", "proof", main)
