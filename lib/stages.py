"""The staging recipes: which real files, around which shims, with which contract modules."""
import re
from vlib import *

TRUSTED_COMMON = [
    "Kani 0.68 / CBMC 6.11 with its SAT back end, and rustc's MIR",
    "shims/stwo-prover: the M31/QM31 arithmetic of the (unavailable) stwo-prover dependency, written from its documented contract",
    "shims/smallvec: fixed-capacity stand-in for smallvec (reaching its capacity aborts the proof)",
    "shims/paste, shims/sonic-rs: build stand-ins with no run-time content",
]
TRUSTED_GHOST = ["harness/ghostvec.rs: assumed contract of std::vec::Vec (get, index, len, push, resize, iter, clone)"]
TRUSTED_UF = ["harness/uf.rs: field product and inverse, and u32 product, quotient and remainder, as uninterpreted functions satisfying stated laws (the reference semantics uses the same functions)"]


TRUSTED_FRONT = [TRUSTED_COMMON[0], "harness/semantic_lib.rs, types_lib.rs, diagnostics_lib.rs: stand-ins for the database, the index, interned identifiers and diagnostics",
                 "shims/chumsky: the span type"]
GHOST_VEC = "#[cfg(kani)]\n#[allow(unused_imports)]\nuse cairo_m_common::ghostvec::{Vec, vec};"


def use_ghost_map(st, rel, krate):
    """std's HashMap -> the association-list contract model, under Kani only"""
    st.sub(rel, r"use std::collections::HashMap;", f"#[cfg(not(kani))]\nuse std::collections::HashMap;\n#[cfg(kani)]\nuse {krate}::ghostmap::HashMap;",
           "std HashMap replaced by harness/ghostmap.rs under the verifier")


def stage_common(st, ghost=False):
    d = st.crate("cairo-m-common", ["num-traits", "paste", "serde", "serde_json", "thiserror", "smallvec", "anyhow", "stwo-prover"], dirname="common")
    st.copytree("crates/common/src", "common/src")
    if ghost:
        shutil.copy(os.path.join(HARN, "ghostvec.rs"), st.path("common/src/ghostvec.rs"))
        shutil.copy(os.path.join(HARN, "ghostmap.rs"), st.path("common/src/ghostmap.rs"))
        st.append("common/src/lib.rs", "#[cfg(kani)]\npub mod ghostvec;\n#[cfg(kani)]\npub mod ghostmap;")
        st.prepend("common/src/execution.rs", GHOST_VEC.replace("cairo_m_common", "crate"))
        use_ghost_map(st, "common/src/execution.rs", "crate")
        use_ghost_map(st, "common/src/program.rs", "crate")
    return d


def stage_vm(name, ghost=True):
    """common + the VM's memory and instruction handlers (run loop and I/O left out)."""
    st = Stage(name)
    stage_common(st, ghost)
    st.crate("cairo-m-runner", ["num-traits", "thiserror", "smallvec", "stwo-prover"], local=[("cairo-m-common", "common")], dirname="runner")
    st.copytree("crates/runner/src/memory", "runner/src/memory")
    st.copytree("crates/runner/src/vm", "runner/src/vm", skip=["mod.rs"])
    for root, _, files in os.walk(st.path("runner/src")):
        for f in files:
            if f.endswith("_tests.rs"):
                os.remove(os.path.join(root, f))
    st.put("runner/src/vm/mod.rs", "pub mod instructions;\npub mod state;\npub use crate::memory::{Memory, MemoryError};\n")
    st.put("runner/src/lib.rs", "pub mod memory;\npub mod vm;\n")
    if ghost:
        st.prepend("runner/src/memory/mod.rs", GHOST_VEC)
    return st


def stage_runner(name, leak=False):
    """common + the whole runner library (not its command line)."""
    st = Stage(name)
    stage_common(st, True)
    if leak:
        shutil.copy(os.path.join(HARN, "leak.rs"), st.path("common/src/leak.rs"))
        st.append("common/src/lib.rs", "#[cfg(kani)]\npub mod leak;")
        for rel in ("program.rs", "abi_codec.rs", "instruction.rs"):
            st.prepend(f"common/src/{rel}", "#[cfg(kani)]\n#[allow(unused_imports)]\nuse crate::leak::{Box, Vec, vec};",
                       note=f"common/src/{rel}: Vec and Box without destructors under the verifier (harness/leak.rs)")
    st.crate("cairo-m-runner", ["num-traits", "thiserror", "smallvec", "stwo-prover"], local=[("cairo-m-common", "common")], dirname="runner")
    st.copytree("crates/runner/src", "runner/src", skip=["main.rs"])
    for root, _, files in os.walk(st.path("runner/src")):
        for f in files:
            if f.endswith("_tests.rs"):
                os.remove(os.path.join(root, f))
    for rel in ("runner/src/memory/mod.rs", "runner/src/vm/mod.rs"):
        st.prepend(rel, GHOST_VEC)
    use_ghost_map(st, "runner/src/vm/mod.rs", "cairo_m_common")
    if leak:
        # the memory is replaced by its contract in these harnesses: no room for cells is needed
        st.sub("common/src/ghostvec.rs", r"pub const CELLS: usize = \d+;\npub const FILLS: usize = \d+;", "pub const CELLS: usize = 1;\npub const FILLS: usize = 1;", "ghost vectors of one cell")
        st.sub("common/src/ghostmap.rs", r"ENTRIES: usize = \d+;", "ENTRIES: usize = 1;", "ghost maps of one entry")
        st.put("runner/src/lib.rs", '#![recursion_limit = "512"]\n' + st.get("runner/src/lib.rs"))
        st.prepend("runner/src/lib.rs", "extern crate alloc;\n#[cfg(kani)]\n#[allow(unused_imports)]\nuse cairo_m_common::leak::{Box, Vec, vec};",
                   note="runner/src/lib.rs: Vec and Box without destructors under the verifier (harness/leak.rs)")
        for f in ("encode_value_for_call", "decode_value_with_custom_reader", "calculate_array_materialization_size_with_value"):
            st.unfold("runner/src/lib.rs", f)
        for f in ("size_in_slots", "call_slot_size"):
            st.unfold("common/src/program.rs", f)
    return st


def harness_names(file, mod, only=None):
    """Every proof harness declared in a contract file, as full paths under module `mod`."""
    t = open(os.path.join(HARN, file)).read()
    names = re.findall(r"^#\[kani::proof\](?:\s*#\[[^\n]*\])*\s*(?:pub )?fn (\w+)\s*\(", t, flags=re.M)
    names += [n + "::contract" for n in re.findall(r"^op!\((\w+)\s*,", t, flags=re.M)]
    names += re.findall(r"^step! \{\s*(?:///[^\n]*\n|#\[[^\n]*\n|\s)*fn (\w+)\(\)", t, flags=re.M)
    names = [n for n in names if only is None or re.search(only, n)]
    return [f"{mod}::{n}" for n in names]


def vm_ops(c, prop):
    """C02 / C04: every opcode's handler against the reference semantics in harness/vm_instr.rs."""
    st = stage_vm(f"C{prop:02d}")
    shutil.copy(os.path.join(HARN, "uf.rs"), st.path("runner/src/verif_uf.rs"))
    st.append("runner/src/lib.rs", f"#[cfg(kani)]\nmod verif_uf;\n#[cfg(kani)]\nconst PROP: u8 = {prop};")
    base = st.path("runner/src/vm/instructions")
    for fn in sorted(os.listdir(base)):
        rel = f"runner/src/vm/instructions/{fn}"
        t = st.get(rel)
        code = "\n".join(l if l.lstrip().startswith("//") else
                         re.sub(r"\b([a-z]\w*) / ([a-z]\w*)\b", r"\1.uf_div(\2)",
                                re.sub(r"\b([a-z]\w*) % ([a-z]\w*)\b", r"\1.uf_rem(\2)",
                                       re.sub(r"\.wrapping_mul\(", ".uf_wrapping_mul(", l))) for l in t.split("\n"))
        if code != t:
            st.put(rel, code)
            st.prepend(rel, "#[allow(unused_imports)]\nuse crate::verif_uf::Uf;",
                       note=f"{rel}: integer `x / y`, `x % y`, `x.wrapping_mul(y)` written as calls of an uninterpreted operation (harness/uf.rs)")
    mf = st.harness("runner/src/lib.rs", "vm_instr.rs", "verif_vm")
    st.finish()
    hs = harness_names("vm_instr.rs", "verif_vm")
    only = os.environ.get("ONLY")
    if only:
        hs = [h for h in hs if re.search(only, h)]
    c.kani(st, "cairo-m-runner", hs, modfile=mf, z=("stubbing",), hto=600, exact=lambda h: h.replace("::contract", "::exact"))


# --------------------------------------------------------------------------------------------
# The real front end (parser, semantic analysis, formatter, project), built natively
# --------------------------------------------------------------------------------------------
WS = "/opt/vp/shadow/ws"
FRONT_LIBS = ("cairo_m_compiler_parser", "cairo_m_compiler_semantic", "cairo_m_compiler_diagnostics", "cairo_m_formatter",
              "cairo_m_project", "salsa", "logos", "chumsky")


class Front:
    """The front-end crates of /repo, built in place by cargo (same workspace, profile and git-ignored target folder as
    /opt/vp/build.sh, whose incremental cache makes this seconds instead of ten minutes), and the driver linked to them.
    extract: (source file under /repo, function names, file name): functions copied verbatim into the driver because the
    crate keeps them private."""

    def __init__(self, name, extract=()):
        self.name = name
        self.dir = os.path.join(WORK, name)
        shutil.rmtree(self.dir, ignore_errors=True)
        shutil.copytree(os.path.join(VERIF, "front", "driver"), os.path.join(self.dir, "src"))
        self.verbatim = [f"crates/compiler/{c}/src (compiled in place)" for c in ("parser", "semantic", "diagnostics", "formatter", "cairo-m-project")]
        self.edits, self.cfgs, self.built, self.error = [], [], False, None
        for rel, fns, fname, cfg in extract:
            try:
                t = open(os.path.join(REPO, rel)).read()
                spans = [fn_span(t, f) for f in fns]
                open(os.path.join(self.dir, "src", fname), "w").write("\n".join("pub " + re.sub(r"^pub(\([a-z]+\))? ", "", t[a:b].lstrip()) for a, b in spans))
                self.cfgs.append(cfg)
                self.edits.append(f"{rel}: {', '.join(fns)} copied verbatim into the driver (private in the crate)")
            except (OSError, LostAnchor, ValueError, AttributeError, TypeError) as e:
                self.edits.append(f"{rel}: {', '.join(fns)} not found, obligations on them skipped ({e})")

    def path(self, rel):
        return os.path.join(self.dir, rel)

    def env(self):
        e = dict(HOME="/root", LANG="C.UTF-8", RUSTUP_TOOLCHAIN="nightly-2025-04-06", CARGO_INCREMENTAL="1",
                 CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTC_WRAPPER="", CARGO_TARGET_DIR=os.path.join(REPO, "target"),
                 INSTA_UPDATE="no", INSTA_WORKSPACE_ROOT=WS, RUST_MIN_STACK="33554432")
        e["PATH"] = "/root/.cargo/bin:" + os.environ["PATH"]
        return e

    def front_libs(self, timeout):
        if not os.path.exists(os.path.join(WS, "Cargo.toml")):
            sh(["python3", "/opt/vp/shadow/prepare.py"], timeout=60)
        rc, out, to = sh(["cargo", "build", "--workspace", "--lib", "--offline", "--message-format=json-render-diagnostics"],
                         cwd=WS, timeout=timeout, env=self.env())
        if rc != 0:
            i = out.find("error")
            self.error = ("timed out building the front end" if to else "the front end does not build:\n" + out[i:i + 2500])
            return None
        libs = {}
        for line in out.split("\n"):
            if not line.startswith("{"):
                continue
            m = json.loads(line)
            if m.get("reason") == "compiler-artifact" and m["target"]["name"].replace("-", "_") in FRONT_LIBS:
                rl = [f for f in m["filenames"] if f.endswith(".rlib")]
                if rl:
                    libs[m["target"]["name"].replace("-", "_")] = rl[0]
        missing = [l for l in FRONT_LIBS if l not in libs]
        if missing:
            self.error = f"libraries not built: {missing}"
            return None
        return libs

    def build(self, timeout):
        if self.built or self.error:
            return self.error
        libs = self.front_libs(timeout)
        if self.error:
            return self.error
        cmd = ["rustc", "--edition", "2021", "-C", "debuginfo=0", "-C", "opt-level=1", "--cap-lints", "allow", "src/main.rs", "-o", "driver",
               "-L", "dependency=" + os.path.join(REPO, "target/debug/deps")]
        for l, f in libs.items():
            cmd += ["--extern", f"{l}={f}"]
        for attempt in (self.cfgs, []):
            full = cmd + [x for c in attempt for x in ("--cfg", c)]
            rc, out, to = sh(full, cwd=self.dir, timeout=timeout, env=self.env())
            if rc == 0:
                if attempt != self.cfgs:
                    self.edits.append("the copied private functions no longer compile on their own: obligations on them skipped")
                self.built = True
                return None
        i = out.find("error")
        self.error = "the driver does not build against the front end:\n" + out[i:i + 2500]
        return self.error


def front_run(c, st, args, name, kind="bounded", bound="", timeout=700):
    """Build the driver and run one contract battery."""
    if st not in c.stages:
        c.stages.append(st)
    t0 = time.time()
    err = st.build(c.left() - 20)
    if err:
        c.undecided.append((name, err))
        return
    c.notes.append(f"front end built in {time.time() - t0:.0f} s")
    t0 = time.time()
    env = st.env()
    env["VERIF_SEED"] = os.environ.get("VERIF_SEED", "1")
    if TIER == "thorough":
        env["VERIF_DEPTH"] = "thorough"
    rc, out, to = sh([st.path("driver")] + args, cwd=st.dir, timeout=min(timeout, c.left()), env=env)
    c.cmds.append("driver " + " ".join(args))
    with open(os.path.join(WORK, "replay", c.prop, f"driver-{args[0]}.log"), "w") as f:
        f.write(out)
    obs = re.findall(r"^OBLIGATION (\S+) (\d+)$", out, flags=re.M)
    fails = re.findall(r"^FAIL (\S+) :: (.*?) :: (.*)$", out, flags=re.M)
    dt = time.time() - t0
    if to or "DONE" not in out:
        if not fails:
            c.undecided.append((name, "the run did not finish: " + out[-1500:]))
    hit_known, seen = {}, set()
    for ob, what, inp in fails:
        k = c.known.get(ob)
        if k and (k.get("match") or "") in (what + " :: " + inp):
            if ob not in hit_known:
                hit_known[ob] = k["what"]
                c.known_hit.append((ob, k["what"]))
            continue
        if ob in seen:
            continue
        seen.add(ob)
        c.native_violation(ob, what, "input (replayed on the real code):\n" + inp.replace("\\n", "\n").replace("\\\\", "\\"))
    for ob, n in obs:
        c.obl.append(dict(name=ob, backend="run-time contract check", status="violated" if ob in seen else ("known-finding" if ob in hit_known else "proved"),
                          checks=int(n), failed=0, time=dt / max(1, len(obs)), kind=kind, detail="", bound=bound))


def items(t, names):
    """The enum/struct definitions `names` and their impl blocks, cut verbatim out of a source text."""
    out = []
    for n in names:
        m = re.search(r"((?:^#\[[^\n]*\]\n|^///[^\n]*\n)*)^pub (?:enum|struct) " + n + r"\b[^;{(]*", t, flags=re.M)
        if not m:
            raise LostAnchor(f"type {n} not found")
        out.append(t[m.start():_close(t, m.end())])
        for m in re.finditer(r"^impl(?:<[^>]*>)? (?:[\w:]+(?:<[^>]*>)? for )?" + n + r"\b[^{]*", t, flags=re.M):
            out.append(t[m.start():_close(t, m.end())])
    return "\n".join(out) + "\n"


def _close(t, i):
    """index just past the item whose body opens at t[i]"""
    if t[i] == "(":
        return t.index(";", i) + 1
    d, j = 0, i
    while True:
        c = t[j]
        if t.startswith("//", j):
            j = t.index("\n", j)
            continue
        if c == '"':
            j += 1
            while t[j] != '"':
                j += 2 if t[j] == "\\" else 1
        if c == "{":
            d += 1
        elif c == "}":
            d -= 1
            if d == 0:
                return j + 1
        j += 1


AST_TYPES = ["NamedType", "TypeExpr", "UnaryOp", "BinaryOp", "Expression", "Parameter", "Pattern", "Statement", "TopLevelItem", "ConstDef",
             "Spanned", "FunctionDef", "StructDef", "UseItems", "UseStmt", "ParsedModule"]
SEMANTIC_LIB = open(os.path.join(HARN, "semantic_lib.rs")).read() if os.path.exists(os.path.join(HARN, "semantic_lib.rs")) else ""


def stage_semantic(name, files=(), unfold=()):
    """The semantic crate's validators and type rules, on their own: the AST types cut verbatim from the parser, and
    stand-ins for the database and the semantic index (harness/semantic_lib.rs)."""
    st = Stage(name)
    with open(os.path.join(REPO, "crates/compiler/parser/src/parser.rs")) as f:
        t = f.read()
    st.crate("cairo-m-compiler-parser", ["chumsky-shim"], dirname="parser")
    st.put("parser/src/lib.rs", "pub mod parser;\n")
    st.put("parser/src/parser.rs", "use chumsky::span::SimpleSpan;\n" + items(t, AST_TYPES) +
           "\npub struct Parsed { pub module: ParsedModule, pub diagnostics: Vec<()> }\n"
           "pub fn parse_file<D: ?Sized, F>(_db: &D, _file: F) -> Parsed { unimplemented!() }\n")
    st.verbatim.append("crates/compiler/parser/src/parser.rs (syntax tree types)")
    st.edits.append("the syntax tree types are cut verbatim out of parser.rs; the grammar itself is left out")
    st.crate("cairo-m-compiler-diagnostics", ["chumsky-shim"], dirname="diagnostics")
    st.put("diagnostics/src/lib.rs", open(os.path.join(HARN, "diagnostics_lib.rs")).read())
    st.crate("cairo-m-compiler-semantic", ["chumsky-shim"], local=[("cairo-m-compiler-parser", "parser"), ("cairo-m-compiler-diagnostics", "diagnostics")], dirname="semantic")
    mods = ""
    for f in files:
        st.copy("crates/compiler/semantic/src/" + f, "semantic/src/" + f)
    st.put("semantic/src/lib.rs", SEMANTIC_LIB)
    for rel, fn in unfold:
        st.unfold(rel, fn)
    return st


def stage_types(name):
    """The type relation and the operator tables of type_resolution.rs, with TypeData of types.rs, cut verbatim."""
    st = Stage(name)
    rd = lambda r: open(os.path.join(REPO, "crates/compiler", r)).read()
    t = rd("parser/src/parser.rs")
    st.crate("cairo-m-compiler-parser", ["chumsky-shim"], dirname="parser")
    st.put("parser/src/lib.rs", "pub mod parser;\n")
    st.put("parser/src/parser.rs", items(t, ["UnaryOp", "BinaryOp"]))
    st.crate("cairo-m-compiler-semantic", [], local=[("cairo-m-compiler-parser", "parser")], dirname="semantic")
    st.put("semantic/src/lib.rs", open(os.path.join(HARN, "types_lib.rs")).read())
    st.put("semantic/src/type_data.rs", items(rd("semantic/src/types.rs"), ["TypeData"]).split("impl")[0])
    r = rd("semantic/src/type_resolution.rs")
    out = items(r, ["UnaryOpSignature", "OperatorSignature"])
    for f in ("are_types_compatible", "get_unary_op_signatures", "get_binary_op_signatures"):
        i, j = fn_span(r, f)
        out += r[i:j] + "\n"
    st.put("semantic/src/rules.rs", out)
    st.unfold("semantic/src/rules.rs", "are_types_compatible")
    shutil.copy(os.path.join(HARN, "type_rules.rs"), st.path("semantic/src/verif_types.rs"))
    st.verbatim += ["crates/compiler/semantic/src/type_resolution.rs (are_types_compatible, operator tables)", "crates/compiler/semantic/src/types.rs (TypeData)",
                    "crates/compiler/parser/src/parser.rs (operators)"]
    st.edits.append("the functions and types named under sources are cut verbatim out of their files; interned identifiers are stand-ins (harness/types_lib.rs)")
    st.finish()
    return st


def stage_doc(name):
    """The formatter's document renderer on its own."""
    st = Stage(name)
    st.crate("cairo-m-formatter", [], dirname="formatter")
    st.put("formatter/src/lib.rs", "#![allow(dead_code, static_mut_refs)]\npub mod doc;\n")
    st.copy("crates/compiler/formatter/src/doc.rs", "formatter/src/doc.rs")
    for f in ("render_doc", "measure"):
        st.unfold("formatter/src/doc.rs", f)
    st.harness("formatter/src/doc.rs", "doc_render.rs", "verif_doc")
    st.finish()
    return st


CF = "semantic/src/validation/control_flow_validator.rs"


def stage_validators(name, lit=False, flow=False):
    st = stage_semantic(name, ["validation/literal_validator.rs", "validation/control_flow_validator.rs"])
    st.prepend("semantic/src/lib.rs", "extern crate alloc;")
    if flow:
        for f in ("statement_provides_return_value", "statement_guarantees_hard_return", "contains_break", "analyze_for_unreachable_code_in_statement"):
            st.unfold(CF, f)
        st.harness(CF, "control_flow.rs", "verif_control_flow")
    if lit:
        st.harness("semantic/src/validation/literal_validator.rs", "literal_range.rs", "verif_literal_range")
    st.finish()
    return st


def flow_harnesses():
    m = "validation::control_flow_validator::verif_control_flow::"
    kinds = "for_loop conditional while_loop endless_loop block_ assignment ret expression cont brk".split()
    out = [m + f"length_{n}::{h}" for n in (4, 3, 2, 1, 0) for h in ("reachability", "hard_return", "break_found", "returns")]
    out += [m + f"{k}::{h}" for k in kinds for h in ("reachability", "provides_return")]
    return out + [m + f"own::{k}::{h}" for k in kinds if k != "block_" for h in ("hard_return", "break_found")]


def type_harnesses():
    m = "verif_types::"
    return ([m + f"tuple_{a}::componentwise" for a in "3_3 2_3 2_2 1_3 1_2 1_1 0_1 0_0".split()]
            + [m + f"{k}::against_any_other_kind" for k in "tuple felt bool_ u32_ struct_ pointer array function unknown error".split()]
            + [m + "binary_operator_table", m + "unary_operator_table"])


# --------------------------------------------------------------------------------------------
# The whole tool chain: front end as above, then common, the middle end, code generation and the virtual machine, each compiled by
# rustc straight from /repo's sources against the front end's libraries
# --------------------------------------------------------------------------------------------
BACK_DEPS = ["index_vec", "rustc-hash-1", "log", "serde", "serde_json", "chrono", "smallvec-real", "num-traits", "thiserror", "anyhow",
             "paste", "sonic-rs", "stwo-prover"]
BACK_CRATES = [("cairo_m_common", "crates/common/src/lib.rs"), ("cairo_m_compiler_mir", "crates/compiler/mir/src/lib.rs"),
               ("cairo_m_compiler_codegen", "crates/compiler/codegen/src/lib.rs"), ("cairo_m_compiler", "crates/compiler/src/lib.rs"), ("cairo_m_runner", "crates/runner/src/lib.rs")]


class Back(Front):
    def __init__(self, name):
        Front.__init__(self, name)
        shutil.rmtree(self.path("src"))
        shutil.copytree(os.path.join(VERIF, "front", "back"), self.path("src"))
        self.verbatim += [os.path.dirname(r) + " (compiled in place)" for _, r in BACK_CRATES]

    def build(self, timeout):
        if self.built or self.error:
            return self.error
        t0 = time.time()
        left = lambda: max(5, timeout - (time.time() - t0))
        libs = self.front_libs(left())
        if self.error:
            return self.error
        d = self.path("deps")
        os.makedirs(d + "/src", exist_ok=True)
        open(d + "/src/lib.rs", "w").write("")
        open(d + "/Cargo.toml", "w").write('[package]\nname = "deps"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\n'
                                           + "\n".join(DEPS[x] for x in BACK_DEPS) + "\n[workspace]\n[profile.dev]\nopt-level = 1\ndebug = 0\n")
        shutil.copy(LOCK, d + "/Cargo.lock")
        env = self.env()
        env["CARGO_TARGET_DIR"] = os.path.join(WORK, "backdeps")
        rc, out, to = sh(["cargo", "build", "--offline", "--message-format=json-render-diagnostics"], cwd=d, timeout=left(), env=env)
        if rc != 0:
            self.error = "the stand-in dependencies do not build:\n" + out[-2500:]
            return self.error
        ext = {}
        for line in out.split("\n"):
            if line.startswith("{"):
                m = json.loads(line)
                if m.get("reason") == "compiler-artifact":
                    fs = [f for f in m["filenames"] if f.endswith((".rlib", ".so"))]
                    if fs:
                        ext[m["target"]["name"].replace("-", "_")] = fs[0]
        ext = {k: v for k, v in ext.items() if k in ("index_vec", "rustc_hash", "log", "serde", "serde_json", "chrono", "smallvec", "num_traits",
                                                     "thiserror", "anyhow", "paste", "sonic_rs", "stwo_prover")}
        allx = dict(ext, **libs)
        base = ["rustc", "--edition", "2024", "-C", "debuginfo=0", "-C", "opt-level=1", "-C", "debug-assertions=on", "--cap-lints", "allow",
                "-L", "dependency=" + os.path.join(REPO, "target/debug/deps"), "-L", "dependency=" + os.path.join(env["CARGO_TARGET_DIR"], "debug/deps"),
                "-L", "dependency=" + self.dir]
        procs = []
        for crate, rel in BACK_CRATES:
            cmd = base + ["--crate-type", "rlib", "--crate-name", crate, os.path.join(REPO, rel), "--out-dir", self.dir]
            for l, f in allx.items():
                cmd += ["--extern", f"{l}={f}"]
            e = dict(env, CARGO_PKG_VERSION="0.1.0", CARGO_MANIFEST_DIR=os.path.join(REPO, os.path.dirname(os.path.dirname(rel))), CARGO_PKG_NAME=crate)
            rc, out, to = sh(cmd, cwd=self.dir, timeout=left(), env=e)
            if rc != 0:
                i = out.find("error")
                self.error = f"{crate} does not build:\n" + out[max(0, i):i + 2500]
                return self.error
            allx[crate] = self.path(f"lib{crate}.rlib")
        cmd = base + ["src/main.rs", "-o", "driver"]
        for l, f in allx.items():
            cmd += ["--extern", f"{l}={f}"]
        rc, out, to = sh(cmd, cwd=self.dir, timeout=left(), env=env)
        if rc != 0:
            i = out.find("error")
            self.error = "the driver does not build:\n" + out[max(0, i):i + 3500]
            return self.error
        self.built = True
        return None
