import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from stages import *


def main(c):
    st = Stage("C01")
    stage_common(st)
    src = st.get("common/src/instruction.rs")
    inv = re.search(r"^instructions!\s*\{(.*?)^\}", src, flags=re.S | re.M)
    if not inv:
        raise LostAnchor("no instructions! table in crates/common/src/instruction.rs")
    body = re.sub(r"//[^\n]*", "", inv.group(1))
    variants = re.findall(r"(\w+)\s*=\s*(\w+)\s*\{(.*?)\}", body, flags=re.S)
    if len(variants) < 2:
        raise LostAnchor("instruction table not understood")
    mf = st.harness("common/src/instruction.rs", "codec.rs", "verif_codec")
    gen, hs = [], []
    maxlen = 0
    for v, op, fields in variants:
        fs = re.findall(r"(\w+)\s*:", re.sub(r"\(.*?\)\)?", "", fields))
        maxlen = max(maxlen, len(fs) + 1)
        n = f"enc_{v}"
        gen.append(f"    {n}, {v}, {len(fs)}, [{', '.join(fs)}];")
        hs.append(n)
    lens = list(range(0, maxlen + 3))
    text = "enc! {\n" + "\n".join(gen) + "\n}\ndec! {\n" + \
           "\n".join(f"    dec_{n}, {n};" for n in lens) + "\n}\n"
    st.put(mf, "#![allow(non_snake_case)]\n" + st.get(mf) + text)
    c.functions = ["Instruction::try_from", "Instruction::to_smallvec", "Instruction::to_qm31_vec", "Instruction::size_in_m31s",
                   "Instruction::size_in_qm31s", "Instruction::size_in_m31s_for_opcode", "Instruction::size_in_qm31s_for_opcode",
                   "Instruction::opcode_value", "OPCODE_SIZE_TABLE", "From<Instruction> for SmallVec"]
    m = "instruction::verif_codec::"
    c.kani(st, "cairo-m-common", [m + "size_by_opcode"] + [m + h for h in hs] + [m + f"dec_{n}" for n in lens], modfile=mf, hto=600)
    c.trusted = TRUSTED_COMMON
    c.assumptions = ["field elements are canonical (< 2^31-1)",
                     f"sequences longer than {lens[-1]} elements are rejected by the same slice-pattern test as {lens[-1]} elements (lengths 0..{lens[-1]} are each proved for all contents)"]


run("C01", "proof", main)
