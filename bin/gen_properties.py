#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the prose stays reviewable)."""
import json
R="crates/runner/src/"; C="crates/common/src/"; M="crates/compiler/mir/src/"; G="crates/compiler/codegen/src/"
S="crates/compiler/semantic/src/"; P="crates/compiler/parser/src/"; F="crates/compiler/formatter/src/"
props=[]
def p(id,title,stmt,over,qt,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    props.append(d)

p("C01","Every instruction survives encoding and decoding unchanged",
 "Encoding any instruction into machine words and decoding those words gives back the same instruction, and decoding any sequence of field elements either yields an instruction that re-encodes to exactly that sequence or is rejected. The declared size of an instruction, its size by opcode, and the number of memory words it occupies always agree with the encoding, with unused word slots zero.",
 ["inputs"],"every opcode and every combination of operand values; every word sequence of any length",
 "The property tests sample operand values and a few malformed sequences; they do not cover every opcode with every operand and every wrong length.",
 [C+"instruction.rs"],
 [("instruction definition table and conversions",C+"instruction.rs"),("size lookup by opcode",C+"instruction.rs")],
 observe=["instruction to word-sequence conversion","word-sequence to instruction conversion"])

p("C02","Each VM instruction does exactly what its definition says",
 "For every instruction, every operand value, every register state and every memory content, one execution step writes exactly the cells and values its definition prescribes, changes no other cell, and sets the program counter and frame pointer as prescribed. Felt results are exact modulo 2^31-1, u32 results exact modulo 2^32, comparisons give exactly 0 or 1, and out-of-range limbs, failed assertions, u32 division by zero and out-of-range addresses are reported as errors.",
 ["inputs"],"all instructions x all operands x all register states x all memory contents, including overlapping operand cells",
 "The unit tests run each handler on a handful of concrete operands and never on overlapping cells or wrapping addresses.",
 [R+"vm/instructions/store.rs",R+"vm/instructions/call.rs",R+"vm/instructions/jnz.rs",R+"vm/instructions/jump.rs",R+"vm/instructions/assert.rs",R+"vm/instructions/mod.rs",R+"vm/state.rs"],
 [("instruction handlers",R+"vm/instructions/"),("dispatch from instruction to handler",R+"vm/instructions/mod.rs"),("register updates",R+"vm/state.rs")],
 [("memory","flat address space of field elements",R+"memory/mod.rs"),("registers","program counter and frame pointer",C+"state.rs")])

p("C03","VM memory behaves as one flat zero-initialised address space",
 "Reading a cell returns the last value written to that address, or zero if none was written, whatever mixture of low and high addresses was used before; a write changes no other cell. Addresses outside the supported range are rejected on both reads and writes, and 32-bit values are stored as two 16-bit limbs, low limb first, and read back unchanged.",
 ["inputs","histories"],"every sequence of reads and writes at any addresses with any values, from any reachable memory",
 "Tests touch a few addresses near the ends of the range; the split between the low and the high region depends on the whole write history.",
 [R+"memory/mod.rs"],
 [("two growing regions standing for one address space",R+"memory/mod.rs"),("limb packing",R+"memory/mod.rs")],
 [("low region","cells growing upwards from address zero",R+"memory/mod.rs"),("high region","cells growing downwards from the top address",R+"memory/mod.rs")])

p("C04","The execution record lists exactly the accesses made, in order",
 "Every data cell an instruction reads or writes appears in the memory record, in execution order, with the address and the value seen or stored, and the number of recorded accesses equals the number the instruction declares. Each executed step fetches the words of its instruction first, records one register pair per step, and debugging prints leave the record and the memory untouched.",
 ["inputs","histories"],"all instructions x operands x register states x memory contents",
 "The prover trusts this record; tests compare a few recorded sequences only.",
 [R+"vm/mod.rs",R+"memory/mod.rs",R+"vm/instructions/store.rs",R+"vm/instructions/print.rs",C+"instruction.rs"],
 [("access recording",R+"memory/mod.rs"),("declared access counts",C+"instruction.rs"),("step function",R+"vm/mod.rs")])

p("C05","Entry frames, arguments and register chaining follow the calling convention",
 "Starting a run places argument i of M with K return slots at frame pointer - M - K - 2 + i, the caller frame pointer and the end-of-program address in the two cells below the frame pointer, and loads the program words at consecutive addresses from zero. Returning from a called function restores the caller's frame pointer and continues at the instruction after the call, for every frame offset and call target.",
 ["inputs","programs"],"all argument counts, return-slot counts, frame offsets, targets and argument values",
 "Tests run fixed programs with one or two arguments.",
 [R+"vm/mod.rs",R+"memory/mod.rs",R+"vm/instructions/call.rs",R+"vm/state.rs"],
 [("entry frame set-up",R+"vm/mod.rs"),("call and return handlers",R+"vm/instructions/call.rs")])

p("C06","Program arguments and return values are encoded and decoded faithfully",
 "Encoding a value of an ABI type yields exactly as many field elements as the type declares, rejects values that do not fit the type, and decoding those elements gives back the same value. Integers are mapped into the field exactly (negative numbers as their residue), u32 values as two 16-bit limbs, booleans as 0 or 1.",
 ["inputs"],"all ABI types (nested tuples, structures, arrays) and all values of them",
 "Tests and property tests sample small shapes; nesting and out-of-range values are unbounded.",
 [C+"abi_codec.rs",C+"program.rs",R+"lib.rs"],
 [("value encoding and decoding",C+"abi_codec.rs"),("slot-size computation",C+"program.rs"),("argument materialisation and return decoding",R+"lib.rs")])

p("C07","The public program, input and output ranges partition the right cells",
 "The address ranges published for program, inputs and outputs start at zero, are contiguous and disjoint, have exactly the lengths of the program, of the input area and of the output area, and the output range ends two cells below the entry frame pointer. This holds for every program length and every argument and return slot count.",
 ["inputs"],"all program lengths and slot counts",
 "Tests check a few hand-picked layouts.",
 [C+"program.rs"],
 [("range construction",C+"program.rs")])

p("C08","Compile-time evaluation agrees with run-time evaluation",
 "Whenever the compiler evaluates an operator on constants at compile time, the result equals what the compiled code would compute at run time on the same operands: felt arithmetic modulo 2^31-1, u32 arithmetic modulo 2^32, comparisons and boolean operators. It declines to evaluate, and never crashes, where the run-time operation would fail, such as division by zero.",
 ["inputs"],"all operators x all constant operand values, including values at and above the field modulus",
 "Tests evaluate a few small constants; wrap-around, the modulus itself and division are value-dependent.",
 [M+"passes/const_eval.rs",M+"passes/constant_folding.rs"],
 [("constant evaluator",M+"passes/const_eval.rs"),("folding pass",M+"passes/constant_folding.rs")])

p("C09","Algebraic simplification never changes a computed value",
 "Replacing an operation by a simpler one because an operand is a known constant or both operands are the same preserves the value for every value of the remaining operand. Identities are applied only on the side on which they hold, and an operation that could fail at run time is not removed.",
 ["inputs","programs"],"all operators x all constants on either side x all values of the unknown operand",
 "Tests check that chosen identities fire, not that each rewriting is value-preserving for all operands.",
 [M+"passes/arithmetic_simplify.rs",M+"passes/const_eval.rs"],
 [("simplification pass",M+"passes/arithmetic_simplify.rs"),("identity tables",M+"passes/const_eval.rs")])

p("C10","Branch and comparison rewriting preserves which path is taken",
 "Folding a branch on a known condition, inverting a branch on a negated condition, or fusing a comparison into a branch leaves, for every operand value, the same successor taken as before. Fusion is used only where the fused test examines the whole operand.",
 ["inputs","programs"],"all conditions, comparison operators, operand types and operand values",
 "Tests look at the shape of the rewritten code for a few comparisons.",
 [M+"passes/simplify_branches.rs",M+"passes/fuse_cmp.rs"],
 [("branch simplification",M+"passes/simplify_branches.rs"),("compare-branch fusion",M+"passes/fuse_cmp.rs")])

p("C11","Leaving SSA form performs parallel copies correctly",
 "Replacing merge-point values by copies in the predecessors gives every merged variable the value it would have received if all copies of an edge happened simultaneously. In particular swaps, rotations and chains of copies do not overwrite a value that is still needed.",
 ["programs","inputs"],"all sets of copies on an edge, including cycles and chains, and all values",
 "Tests contain no cyclic copy pattern; the copy graph is arbitrary.",
 [M+"passes/phi_elimination.rs"],
 [("copy sequencing",M+"passes/phi_elimination.rs")])

p("C12","Optimisation never removes or merges observable effects",
 "Removing redundant or dead instructions keeps every call, assertion, memory store and debugging output that executed before, in the same order, and replaces a value only by one that is equal on every execution. Two instructions are merged only if they compute the same operation on the same operands.",
 ["programs"],"all instruction sequences within a function",
 "Tests check chosen snippets; which instructions are removable depends on arbitrary combinations.",
 [M+"passes/local_cse.rs",M+"passes/dead_code_elimination.rs",M+"passes/copy_propagation.rs",M+"instruction.rs"],
 [("common subexpression elimination",M+"passes/local_cse.rs"),("dead code elimination",M+"passes/dead_code_elimination.rs"),("side-effect classification",M+"instruction.rs")])

p("C13","Arithmetic and comparison operators compile to code computing them",
 "For every binary and unary operator of the language on felt, bool and u32, executing the generated machine code from any frame leaves in the destination exactly the value of the operator on the operand values, whichever operands are constants. It changes no cell other than the destination and fresh temporaries.",
 ["inputs","programs"],"all operators x operand kinds (variable, constant) x all values x all frame offsets",
 "Tests compare generated text with snapshots and run some programs; each operator has value-dependent corner cases.",
 [G+"builder/felt.rs",G+"builder/u32_ops.rs",G+"builder/normalize.rs",G+"builder/store.rs",G+"builder/ctrlflow.rs",G+"builder/emit.rs",G+"mir_passes/legalize.rs"],
 [("operator lowering",G+"builder/"),("u32 comparison legalisation",G+"mir_passes/legalize.rs")])

p("C14","Values in a stack frame never overlap",
 "Within a function's frame, distinct live values occupy disjoint cells of exactly the size of their type; parameters, return slots, saved registers and locals follow the calling convention, locals start at the frame pointer, and the frame size covers every local and reservation. Field and element offsets inside aggregates are disjoint and within the aggregate.",
 ["programs","histories"],"all signatures and all sequences of allocations of any sizes",
 "Tests lay out a few signatures.",
 [G+"layout.rs",M+"layout.rs"],
 [("frame layout",G+"layout.rs"),("aggregate layout",M+"layout.rs")],
 [("frame size","high-water mark of allocated cells",G+"layout.rs")])

p("C15","Jumps and calls reach the instruction their label names",
 "After code placement every jump and call transfers control to the first instruction at or after its label, computed from the actual sizes of the emitted instructions, for relative and absolute targets alike. Unresolved labels are reported rather than left as arbitrary targets.",
 ["programs"],"all instruction sequences with any mixture of instruction sizes and label positions",
 "Tests resolve labels in small fixed programs, mostly with single-word instructions.",
 [G+"generator.rs",G+"backend.rs",G+"builder/ctrlflow.rs"],
 [("memory layout of code and label resolution",G+"generator.rs")])

p("C16","Machine-level clean-up passes preserve meaning",
 "Rewriting machine instructions whose operands overlap, or whose immediates have a cheaper form, yields code that leaves the same values in the same cells for every starting state, apart from fresh temporaries. Labels keep pointing at the same instruction.",
 ["programs","inputs"],"all instructions x all operand offsets (including partially overlapping ones) x all memory contents",
 "Tests check selected overlapping patterns.",
 [G+"passes/mod.rs"],
 [("operand deduplication",G+"passes/mod.rs"),("immediate canonicalisation",G+"passes/mod.rs")])

p("C17","Numeric literals denote the number they spell",
 "A numeric literal in decimal, hexadecimal, octal or binary, with or without a type suffix, is read as exactly the value its digits spell, with exactly that suffix, or is rejected as too large or malformed. No digit is ever dropped, added or taken for part of a suffix.",
 ["inputs"],"all literal spellings, bases and suffixes",
 "Tests list a few dozen spellings.",
 [P+"lexer.rs"],[("literal recogniser",P+"lexer.rs")])

p("C18","Out-of-range literals are rejected and in-range ones accepted",
 "A literal initialising a variable or constant of type felt or u32 is accepted exactly when its value lies in the range of that type, and a negated literal is rejected. An accepted program never contains a felt literal outside 0..=2^31-1 in such a position or a u32 literal outside 0..=2^32-1.",
 ["inputs"],"all 64-bit literal values, both integer types",
 "Tests use a handful of boundary values.",
 [S+"validation/literal_validator.rs"],[("literal range check",S+"validation/literal_validator.rs")])

p("C19","Accepted functions return on every path",
 "If a function body is accepted, no execution of it can reach the end of the body without executing a return statement, whatever combination of nested blocks, conditionals, loops, breaks and continues it contains. A loop-free body that returns on every path is accepted. Break and continue are reported exactly when they stand outside loops, code reported unreachable can indeed never execute, and a statement directly after a return in the same block of a loop-free body is reported.",
 ["programs"],"all statement trees of any depth",
 "Tests list particular nestings; the statement tree is unbounded.",
 [S+"validation/control_flow_validator.rs"],
 [("return-path analysis",S+"validation/control_flow_validator.rs"),("unreachable-code analysis",S+"validation/control_flow_validator.rs")])

p("C20","Operators are accepted exactly on the operand types the language defines",
 "Every operator is accepted exactly on the operand types the language gives it and has exactly the defined result type: arithmetic and equality on felt and u32, ordering, remainder and bitwise operators on u32 only, logical operators on bool. Type compatibility is reflexive and symmetric, compares aggregates component by component, and never equates distinct concrete types.",
 ["inputs","programs"],"all operators x all type pairs of any nesting",
 "Tests check some operators on some types.",
 [S+"type_resolution.rs",S+"types.rs"],
 [("operator signature tables",S+"type_resolution.rs"),("type compatibility",S+"type_resolution.rs")])

p("C21","Import cycles are always found and modules are processed dependencies first",
 "An import cycle is reported exactly when the import graph of a project contains one, and the reported path is such a cycle. For an acyclic project, every module is processed once, and after every module it imports.",
 ["programs","configurations"],"all import graphs",
 "Tests use a two-module and a three-module cycle.",
 [S+"db.rs"],[("cycle detection",S+"db.rs"),("dependency ordering",S+"db.rs")])

p("C22","The formatter's layout engine emits all text, in order, and nothing else",
 "Rendering a formatted document prints every piece of text of the document exactly once and in order, adding only spaces and line breaks, whatever the line width. A group that fits on the rest of the line is printed on one line, a group wider than the page is broken at its soft breaks, and lines begun inside an indented part start with its indentation.",
 ["inputs"],"all documents and all widths",
 "Tests render a few documents.",
 [F+"doc.rs"],[("document renderer",F+"doc.rs")])

p("C23","Formatting preserves the program and is idempotent",
 "Formatting a syntactically valid source yields a source that parses to the same program, keeps every comment, and formatting the result again changes nothing.",
 ["inputs","programs"],"all valid source texts",
 "Tests format a few dozen snippets.",
 [F+"api.rs",F+"rules/expressions.rs",F+"rules/statements.rs",F+"comment_preserver.rs"],[("formatting rules",F+"rules/"),("comment attachment",F+"comment_attachment.rs")])

p("C24","Operator precedence and associativity parse as documented",
 "Expressions parse with the documented precedence levels, left-associatively within a level, and parentheses override both, for every nesting of operators.",
 ["inputs"],"all expressions",
 "Tests parse selected operator pairs.",
 [P+"parser.rs"],[("expression grammar",P+"parser.rs")])

p("C25","Accepted proofs exist only for correct executions",
 "A proof verifies only if the claimed public inputs and outputs belong to a real execution of the claimed program: every opcode circuit accepts a row only if it is a correct step of that opcode, and the memory argument is consistent.",
 ["inputs","histories"],"all traces and all witness values",
 "Tests prove and verify honest executions and cannot enumerate dishonest witnesses.",
 ["crates/prover/src/components/opcodes/mod.rs","crates/prover/src/components/memory.rs","crates/prover/src/verifier.rs"],
 [("opcode circuits","crates/prover/src/components/opcodes/"),("memory argument","crates/prover/src/components/memory.rs")])

p("C26","Every compiled program computes what its source means",
 "For every accepted source program and every input, the compiled program, with or without optimisation, terminates with the result the language semantics prescribes, or fails where the language says it fails.",
 ["programs","inputs"],"all programs and inputs",
 "Tests compile and run a fixed corpus.",
 [M+"lowering/expr.rs",M+"lowering/stmt.rs",M+"pipeline.rs",G+"generator.rs"],
 [("lowering to the intermediate form",M+"lowering/"),("optimisation pipeline",M+"pipeline.rs"),("code generation",G+"generator.rs")])

p("C27","Incremental and from-scratch diagnostics agree",
 "After any sequence of edits, file additions and removals, the diagnostics reported incrementally are those a fresh analysis of the current files reports.",
 ["histories"],"all edit histories",
 "Tests replay a few edits.",
 [S+"delta_diagnostics.rs","crates/cairo-m-ls/src/diagnostics/controller.rs"],[("incremental diagnostics tracker",S+"delta_diagnostics.rs")])

p("C28","Editor positions and byte offsets convert consistently",
 "Converting a byte offset of a document to an editor position and back gives the same offset, for every document including multi-byte characters and empty or missing final lines.",
 ["inputs"],"all texts and offsets",
 "Tests convert positions in a few ASCII texts.",
 ["crates/cairo-m-ls/src/backend.rs","crates/cairo-m-ls/src/utils.rs"],[("position conversion","crates/cairo-m-ls/src/backend.rs")])

with open("/verif/properties.jsonl","w") as f:
    for d in props: f.write(json.dumps(d)+"\n")
print(len(props))
