import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from stages import *


def main(c):
    st = stage_runner("C07", leak=True)
    mf = st.harness("runner/src/lib.rs", "abi.rs", "verif_abi")
    m = "verif_abi::"
    c.kani(st, "cairo-m-runner", [m + h for h in ("ranges_contract", "glue_2_1", "glue_1_2", "glue_1_1", "glue_unit")], modfile=mf, hto=700, z=("stubbing",),
           kind=lambda h: "bounded" if "glue" in h else "proof", bound="entry points of 0, 1 and 2 parameters and 0, 1 and 2 returns of any types (by the contracts of C06); every program length and argument value")
    c.functions = ["PublicAddressRanges::new", "run_cairo_program"]
    c.trusted = TRUSTED_COMMON + TRUSTED_GHOST + ["VM::run_from_entrypoint and program loading by their contracts (C05)"]
    c.assumptions = ["program, input and output lengths below 2^28 (the address space)"]


run("C07", "proof", main)
