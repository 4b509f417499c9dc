import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from stages import *

BOUNDED = re.compile(r"tuple_|struct_|array_|pointer_|wrong_lengths|return_frame")


def main(c):
    st = stage_runner("C06", leak=True)
    mf = st.harness("runner/src/lib.rs", "abi.rs", "verif_abi")
    hs = [h for h in harness_names("abi.rs", "verif_abi") if not re.search("ranges|glue", h)]
    if TIER == "quick":
        hs = [h for h in hs if not h.endswith("array_3")]
    hs.sort(key=lambda h: 0 if re.search("array_[23]$|pointer_2$|tuple_3$|struct_2$|wrong", h) else 1)
    only = os.environ.get("ONLY")
    if only:
        hs = [h for h in hs if re.search(only, h)]
    c.kani(st, "cairo-m-runner", hs, modfile=mf, hto=600, z=("stubbing",),
           kind=lambda h: "bounded" if BOUNDED.search(h) else "proof",
           bound="one induction step with the recursive calls replaced by their contract; aggregates of 0, 2 and 3 components of any contents, any nesting depth by induction")
    c.functions = ["encode_value_for_call", "decode_value_with_custom_reader", "decode_value_from_return_slots", "decode_all_return_values",
                   "read_array_from_memory", "m31_to_bool", "reconstruct_u32_from_parts", "m31_from_i64", "AbiType::call_slot_size",
                   "AbiType::size_in_slots", "calculate_array_materialization_size_with_value"]
    c.trusted = TRUSTED_COMMON + TRUSTED_GHOST + ["alloc::fmt::format replaced by the empty string (error texts are not part of the property)"]


run("C06", "proof", main)
