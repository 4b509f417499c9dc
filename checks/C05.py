import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from stages import *


def main(c):
    st = stage_runner("C05")
    mf = st.harness("runner/src/vm/mod.rs", "vm_run.rs", "verif_run")
    mm = st.harness("runner/src/memory/mod.rs", "memory.rs", "verif_memory")
    m = "vm::verif_run::"
    if os.environ.get("ONLY"):
        c.kani(st, "cairo-m-runner", [m + h for h in os.environ["ONLY"].split()], modfile=mf, hto=600, z=("stubbing",))
        return
    hs = ["entry_frame_3", "entry_frame_2", "load_b", "load_c", "load_a", "finalize_bounded", "execute_bounded", "entry_frame_1", "entry_frame_0", "call_then_return"]
    c.kani(st, "cairo-m-runner", [m + h for h in hs] + ["memory::verif_memory::insert_entrypoint_call_contract"], modfile=mf, hto=700, z=("stubbing",),
           kind=lambda h: "proof" if re.search("call_then_return|entry_frame_0|insert_entrypoint", h) else "bounded",
           bound="arguments <= 3 (return slots, offsets and values unbounded); programs of <= 3 items; 2 cells per region; 3 steps")
    c.functions = ["VM::run_from_entrypoint", "VM::try_from(&Program)", "VM::execute", "VM::finalize_segment", "Memory::insert_entrypoint_call",
                   "call_abs_imm", "ret", "VmState"]
    c.trusted = TRUSTED_COMMON + TRUSTED_GHOST + ["harness/ghostmap.rs: HashMap as an association list"]


run("C05", "proof", main)
