"""Staging, verifier invocation, classification and evidence for every check in /verif."""
import json, os, re, shutil, subprocess, sys, time, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.environ.get("VERIF_WORK", os.path.join(VERIF, ".work"))
SHIMS = os.path.join(VERIF, "shims")
HARN = os.path.join(VERIF, "harness")
LOCK = "/opt/vp/shadow/ws/Cargo.lock"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
JOBS = int(os.environ.get("VERIF_JOBS", "8"))


class LostAnchor(Exception):
    """The code no longer has the shape the staging needs: no verdict."""


def sh(cmd, cwd=None, timeout=None, env=None):
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    for k in ("RUSTUP_TOOLCHAIN", "RUSTFLAGS", "RUSTC_WRAPPER"):
        e.pop(k, None)
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out, False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return -9, out, True


DEPS = {
    "num-traits": 'num-traits = "0.2.19"',
    "serde": 'serde = { version = "1.0", features = ["derive"] }',
    "serde_json": 'serde_json = "1.0"',
    "thiserror": 'thiserror = "2.0.12"',
    "anyhow": 'anyhow = "1"',
    "chumsky": 'chumsky = "0.10.1"',
    "smallvec-real": 'smallvec = "1.15"',
    "index_vec": 'index_vec = "0.1.4"',
    "rustc-hash": 'rustc-hash = "2.1.1"',
    "rustc-hash-1": 'rustc-hash = "1.1.0"',
    "log": 'log = "0.4"',
    "salsa": 'salsa = "0.22.0"',
    "chrono": 'chrono = "0.4"',
    "smallvec": f'smallvec = {{ path = "{SHIMS}/smallvec" }}',
    "paste": f'paste = {{ path = "{SHIMS}/paste" }}',
    "chumsky-shim": f'chumsky = {{ path = "{SHIMS}/chumsky" }}',
    "stwo-prover": f'stwo-prover = {{ path = "{SHIMS}/stwo-prover" }}',
    "sonic-rs": f'sonic-rs = {{ path = "{SHIMS}/sonic-rs" }}',
}


def fn_span(t, fn):
    """Span of the item `fn NAME ... { ... }` in Rust text (strings, chars and comments skipped)."""
    m = re.search(r"^[ \t]*(?:pub(?:\([^)]*\))? )?(?:const )?(?:unsafe )?fn " + fn + r"\b", t, flags=re.M)
    if not m:
        raise LostAnchor(f"function {fn} is gone")
    i = m.start()
    k = m.end()
    depth = par = 0
    while k < len(t):
        ch = t[k]
        if t.startswith("//", k):
            k = t.find("\n", k)
            continue
        if t.startswith("/*", k):
            k = t.find("*/", k) + 2
            continue
        if ch == '"':
            k += 1
            while t[k] != '"':
                k += 2 if t[k] == "\\" else 1
        elif ch == "'":
            mm = re.match(r"'(\\(?:x..|u\{[^}]*\}|.)|[^'\\])'", t[k:k + 14])
            if mm:
                k += mm.end()
                continue
        elif ch in "([":
            par += 1
        elif ch in ")]":
            par -= 1
        elif ch == "{":
            depth += 1
        elif ch == "}":
            depth -= 1
            if depth == 0 and par == 0:
                return i, k + 1
        elif ch == ";" and depth == 0 and par == 0:
            return i, k + 1
        k += 1
    raise LostAnchor(f"function {fn}: unbalanced text")


class Stage:
    """A scratch Cargo workspace holding verbatim copies of real source files."""

    def __init__(self, name):
        self.name = name
        self.dir = os.path.join(WORK, name)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.members = []
        self.verbatim = []      # (repo path, staged path)
        self.edits = []         # statement of every mechanical edit
        self.target = os.path.join(WORK, "target")

    def crate(self, name, deps, edition="2021", local=(), extra="", dirname=None):
        d = dirname or name
        self.members.append(d)
        os.makedirs(os.path.join(self.dir, d, "src"), exist_ok=True)
        lines = ["[package]", f'name = "{name}"', 'version = "0.1.0-alpha.1"', f'edition = "{edition}"', "[dependencies]"]
        lines += [DEPS.get(x, x) for x in deps]
        lines += [f'{n} = {{ path = "../{p}" }}' for n, p in local]
        lines += ["[lints.rust]", 'unexpected_cfgs = "allow"', extra, ""]
        with open(os.path.join(self.dir, d, "Cargo.toml"), "w") as f:
            f.write("\n".join(lines))
        return d

    def path(self, rel):
        return os.path.join(self.dir, rel)

    def put(self, rel, text):
        p = self.path(rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(text)

    def get(self, rel):
        with open(self.path(rel)) as f:
            return f.read()

    def copy(self, repo_rel, rel):
        """Verbatim copy; `#[cfg(test)]` items are disabled (they are not part of the product)."""
        src = os.path.join(REPO, repo_rel)
        if not os.path.exists(src):
            raise LostAnchor(f"source file {repo_rel} is gone")
        with open(src) as f:
            t = f.read()
        t = re.sub(r"#\[cfg\(test\)\]", "#[cfg(any())]", t)
        self.put(rel, t)
        self.verbatim.append(repo_rel)

    def copytree(self, repo_rel, rel, skip=()):
        base = os.path.join(REPO, repo_rel)
        if not os.path.isdir(base):
            raise LostAnchor(f"source directory {repo_rel} is gone")
        for root, _, files in os.walk(base):
            for fn in sorted(files):
                if not fn.endswith(".rs"):
                    continue
                full = os.path.join(root, fn)
                r = os.path.relpath(full, base)
                if any(r == s or r.startswith(s.rstrip("/") + "/") for s in skip):
                    continue
                self.copy(os.path.join(repo_rel, r), os.path.join(rel, r))

    def prepend(self, rel, text, note=None):
        t = self.get(rel)
        # keep inner doc comments / attributes first
        lines = t.split("\n")
        i = 0
        while i < len(lines) and (lines[i].startswith("//!") or lines[i].startswith("#![") or lines[i].strip() == ""):
            i += 1
        lines[i:i] = text.rstrip("\n").split("\n")
        self.put(rel, "\n".join(lines))
        self.edits.append(note or f"{rel}: prepended `{text.strip()}`")

    def append(self, rel, text, note=None):
        self.put(rel, self.get(rel).rstrip("\n") + "\n" + text + "\n")
        self.edits.append(note or f"{rel}: appended `{text.strip()}`")

    def sub(self, rel, pat, rep, note, count=0, must=True):
        t = self.get(rel)
        t2, n = re.subn(pat, rep, t, count=count, flags=re.S)
        if must and n == 0:
            raise LostAnchor(f"{rel}: pattern {pat!r} not found")
        self.put(rel, t2)
        if n:
            self.edits.append(f"{rel}: {note}")

    def unfold(self, rel, fn, suffix="__top"):
        """Duplicate a recursive function verbatim under NAME__top.  The contract of NAME__top is checked with
        NAME (hence every recursive call) replaced by its contract: one induction step."""
        t = self.get(rel)
        i, j = fn_span(t, fn)
        body = t[i:j]
        dup = re.sub(r"\bfn " + fn + r"\b", f"fn {fn}{suffix}", body, count=1)
        self.put(rel, t[:j] + "\n#[cfg(kani)]\n#[allow(dead_code, non_snake_case)]\n" + dup + t[j:])
        self.edits.append(f"{rel}: function {fn} duplicated verbatim as {fn}{suffix} (its recursive calls are then replaced by the contract)")

    def harness(self, rel_file, harness_file, modname):
        """Attach /verif/harness/<harness_file> as a child module of the staged module file."""
        dst = os.path.join(os.path.dirname(rel_file), f"{modname}.rs")
        shutil.copy(os.path.join(HARN, harness_file), self.path(dst))
        self.append(rel_file, f'#[cfg(kani)]\n#[path = "{self.path(dst)}"]\nmod {modname};',
                    note=f"{rel_file}: appended the contract module {harness_file} under #[cfg(kani)]")
        return dst

    def finish(self):
        m = ", ".join(f'"{x}"' for x in self.members)
        with open(self.path("Cargo.toml"), "w") as f:
            f.write(f'[workspace]\nmembers = [{m}]\nresolver = "2"\n')
        shutil.copy(LOCK, self.path("Cargo.lock"))


# --------------------------------------------------------------------------------------------
# Kani
# --------------------------------------------------------------------------------------------
KANI_FLAGS = ["-Z", "unstable-options", "--no-memory-safety-checks"]


def parse_kani(out):
    res, th, cur = {}, {}, None
    for line in out.split("\n"):
        m = re.match(r"(?:Thread (\d+): )?Checking harness (\S+?)\.\.\.", line)
        if m:
            th[m.group(1)] = m.group(2)
            res.setdefault(m.group(2), dict(status=None, failed=[], checks=0, nfailed=0, covers=(0, 0), time=None, note=""))
            if m.group(1) is None:
                cur = m.group(2)
            continue
        m = re.match(r"Thread (\d+):\s*(.*)$", line)
        if m and m.group(1) in th:
            cur = th[m.group(1)]
            line = m.group(2)
        if cur is None:
            continue
        r = res[cur]
        m = re.search(r"\*\* (\d+) of (\d+) failed(?: \((.*)\))?", line)
        if m:
            r["nfailed"], r["checks"] = int(m.group(1)), int(m.group(2))
            un = re.search(r"(\d+) unreachable", m.group(3) or "")
            r["unreachable"] = int(un.group(1)) if un else 0
        m = re.search(r"\*\* (\d+) of (\d+) cover properties satisfied", line)
        if m:
            r["covers"] = (int(m.group(1)), int(m.group(2)))
        m = re.match(r"Failed Checks: (.*)", line)
        if m:
            r["failed"].append(m.group(1).strip())
        m = re.search(r"VERIFICATION:- (\w+)", line)
        if m:
            r["status"] = m.group(1)
        m = re.search(r"Verification Time: ([\d.]+)s", line)
        if m:
            r["time"] = float(m.group(1))
        if re.search(r"timed out|out of memory|CBMC failed|CBMC crashed|exited with status|appears to have run", line):
            r["note"] += line.strip() + " "
        if line.startswith("Manual Harness Summary"):
            cur = None
    return res


LIMIT = re.compile(r"VERIF-LIMIT|unwinding assertion|is not currently supported by Kani|unsupported|recursion unwinding|smallvec stand-in", re.I)


def kani(stage, pkg, harnesses, flags=(), timeout=800, hto=None, jobs=None, z=()):
    """Run the named harnesses (full paths); returns (results, raw output, error or None)."""
    cmd = ["cargo", "kani", "-p", pkg, "--output-format", "terse", "-j", str(jobs or JOBS)] + KANI_FLAGS
    for x in z:
        cmd += ["-Z", x]
    for h in harnesses:
        cmd += ["--harness", h]
    if harnesses:
        cmd += ["--exact"]
    if hto:
        cmd += ["--harness-timeout", f"{hto}s"]
    cmd += list(flags)
    t0 = time.time()
    rc, out, to = sh(cmd, cwd=stage.dir, timeout=timeout, env={"CARGO_TARGET_DIR": stage.target})
    res = parse_kani(out)
    for r in res.values():
        r["wall"] = time.time() - t0
    err = None
    if to:
        err = f"verifier ran out of its {timeout} s"
    if not res:
        i = out.find("\nerror")
        err = "the staged code did not compile under the verifier:\n" + (out[i:i + 1800] if i >= 0 else out[-1500:])
    for h in harnesses:
        if h not in res and err is None:
            err = f"harness {h} was not run\n" + out[-1500:]
    return res, out, err


def classify(r):
    """proved / violated / undecided for one harness result"""
    if r["status"] == "SUCCESSFUL":
        if r["covers"][0] != r["covers"][1]:
            return "undecided", f"vacuity: only {r['covers'][0]} of {r['covers'][1]} reachability witnesses found"
        return "proved", ""
    if r["status"] is None or r["note"] and not r["failed"]:
        return "undecided", r["note"] or "no verdict"
    real = [f for f in r["failed"] if not LIMIT.search(f)]
    if real:
        return "violated", "; ".join(real)
    return "undecided", "; ".join(r["failed"]) or r["note"] or "verifier gave no reason"


def playback(stage, pkg, harness, z=(), timeout=240, modfile=None, why=""):
    """Obtain the verifier's counterexample and run it natively against the same staged code."""
    cmd = ["cargo", "kani", "-p", pkg, "--output-format", "terse"] + KANI_FLAGS
    for x in z:
        cmd += ["-Z", x]
    cmd += ["--harness", harness, "--exact", "-Z", "concrete-playback", "--concrete-playback=print"]
    rc, out, to = sh(cmd, cwd=stage.dir, timeout=timeout, env={"CARGO_TARGET_DIR": stage.target})
    tests = re.findall(r"```\n(.*?)```", out, flags=re.S)
    info = dict(test=None, native=None, confirmed=False, timed_out=to)
    if not tests or modfile is None:
        return info
    # prefer the test of a failed assertion over the cover witnesses
    def score(t):
        return 0 if "Check for `cover`" in t else 1
    tests.sort(key=score, reverse=True)
    test = tests[0]
    info["test"] = test
    m = re.search(r"fn (kani_concrete_playback_\w+)", test)
    if not m:
        return info
    p = stage.path(modfile)
    orig = open(p).read()
    with open(p, "w") as f:
        f.write(orig + "\n" + test + "\n")
    cmd = ["cargo", "kani", "playback", "-Z", "concrete-playback", "-p", pkg, "--", m.group(1)]
    rc, out, to = sh(cmd, cwd=stage.dir, timeout=timeout,
                     env={"CARGO_TARGET_DIR": stage.target + "-playback"})
    with open(p, "w") as f:
        f.write(orig)
    info["native"] = out[-3000:]
    # reproduced = the native run stops at one of the assertions the verifier reported as failed
    msgs = [m.strip().strip('"') for m in why.split("; ")]
    info["confirmed"] = any(len(m) > 6 and m in out for m in msgs) or (
        "panicked at" in out and not re.search(r"kani::assume|VERIF-LIMIT|concrete playback|Not enough", out))
    return info


# --------------------------------------------------------------------------------------------
# One check
# --------------------------------------------------------------------------------------------
def known_findings():
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


class Check:
    def __init__(self, prop, level="proof"):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.obl = []          # dicts: name, backend, status, checks, time, detail, kind
        self.violations = []
        self.undecided = []
        self.assumptions = []
        self.trusted = []
        self.functions = []
        self.notes = []
        self.cmds = []
        self.extra = {}
        self.stages = []
        self.replays = os.path.join(WORK, "replay", prop)
        shutil.rmtree(self.replays, ignore_errors=True)
        os.makedirs(self.replays)
        self.known = {k["obligation"]: k for k in known_findings() if k["property"] == prop}
        self.known_hit = []

    def left(self, total=840):
        return max(5, total - (time.time() - self.t0))

    def kani(self, stage, pkg, harnesses, modfile=None, kind="proof", flags=(), timeout=800, hto=None, z=(), jobs=None, bound=None, exact=None):
        """exact: maps a harness using uninterpreted operations to its variant with the machine's own;
        a failure of the former counts only if the latter does not prove the obligation."""
        if stage not in self.stages:
            self.stages.append(stage)
        if not os.path.exists(stage.path("Cargo.toml")):
            stage.finish()
        res, out, err = kani(stage, pkg, harnesses, flags=flags, timeout=min(timeout, self.left()), hto=hto, z=z, jobs=jobs)
        self.cmds.append("cargo kani -p %s --harness %s%s" % (pkg, harnesses[0] if harnesses else "*", " ..." if len(harnesses) > 1 else ""))
        log = os.path.join(WORK, "replay", self.prop, f"verifier-{pkg}-{len(self.cmds)}.log")
        with open(log, "w") as f:
            f.write(out)
        if err:
            self.undecided.append((pkg, err))
        for h in harnesses or sorted(res):
            r = res.get(h)
            if r is None:
                continue
            st, why = classify(r)
            kd = kind(h) if callable(kind) else kind
            self.obl.append(dict(name=h, backend="kani/cbmc", status=st, checks=r["checks"], failed=r["nfailed"],
                                 unreachable=r.get("unreachable", 0), covers=r["covers"][1], time=r["time"], kind=kd, detail=why,
                                 **({"bound": bound} if bound and kd != "proof" else {})))
            if st == "undecided":
                self.undecided.append((h, why))
            elif st == "violated":
                if h in self.known and (self.known[h].get("match") or "") in why:
                    self.known_hit.append((h, self.known[h]["what"]))
                    self.obl[-1]["status"] = "known-finding"
                    continue
                hx = exact(h) if exact else None
                if hx:
                    r2, out2, err2 = kani(stage, pkg, [hx], flags=flags, timeout=min(400, self.left() - 60), hto=min(400, int(self.left() - 60)), z=z, jobs=1)
                    st2, why2 = classify(r2[hx]) if hx in r2 else ("undecided", err2)
                    if st2 == "proved":
                        self.obl[-1].update(status="proved", detail="discharged with the machine operations")
                        self.notes.append(f"{h}: uninterpreted operations were too weak, discharged with the machine operations")
                        continue
                    if st2 == "violated":
                        with open(log, "a") as f:
                            f.write(out2)
                        self.violated(hx, why2, stage, pkg, z, modfile, log)
                    else:
                        self.violated(h, why, stage, pkg, z, None, log)
                    continue
                self.violated(h, why, stage, pkg, z, modfile, log)
        return res

    def core(self, make, pkg, harnesses, **kw):
        """A deductive core next to an executable check of the same contracts: when the code has been reshaped so that its
        obligations can no longer be generated or are left undecided, that is reported (and recorded in the evidence), and the
        verdict is left to the executable check."""
        keep = list(self.undecided)
        try:
            st = make()
            res = self.kani(st, pkg, harnesses, **kw)
        except LostAnchor as e:
            self.undecided.append(("staging", f"lost anchor: {e}"))
        lost = self.undecided[len(keep):]
        self.undecided = keep
        self.obl = [o for o in self.obl if o["status"] != "undecided"]
        for h, why in lost:
            self.notes.append(f"obligation not decided on this tree: {h}: {why[:600]}")
            print(f"NOT-DECIDED {h}: {why[:300]}")

    def violated(self, h, why, stage, pkg, z, modfile, log):
        path = os.path.join(self.replays, re.sub(r"\W+", "_", h) + ".txt")
        confirmed, info = False, None
        if modfile and len(self.violations) < 2 and self.left() > 60:
            info = playback(stage, pkg, h, z=z, timeout=min(300, self.left() - 30), modfile=modfile, why=why)
            confirmed = info["confirmed"]
        with open(path, "w") as f:
            f.write(f"property: {self.prop}\nfailed obligation: {h}\nreason: {why}\n")
            f.write(f"verifier log: {log}\n")
            if info and info["test"]:
                f.write("\nverifier counterexample (Kani concrete playback of the harness on the real code):\n" + info["test"])
                f.write(f"\nreplayed natively: {'reproduced (panics)' if confirmed else 'not reproduced'}\n" + (info["native"] or ""))
            else:
                f.write("\nno concrete counterexample extracted\n")
                f.write(open(log).read()[-6000:])
        self.violations.append((h, why, path, confirmed))

    def native_violation(self, name, why, text, confirmed=True):
        path = os.path.join(self.replays, re.sub(r"\W+", "_", name)[:80] + ".txt")
        with open(path, "w") as f:
            f.write(f"property: {self.prop}\nfailed obligation: {name}\nreason: {why}\n\n{text}\n")
        self.violations.append((name, why, path, confirmed))

    def done(self):
        n = len(self.obl)
        ok = [o for o in self.obl if o["status"] == "proved"]
        proofs = [o for o in self.obl if o["kind"] == "proof"]
        bounded = [o for o in self.obl if o["kind"] != "proof"]
        kf = [o for o in self.obl if o["status"] == "known-finding"]
        cov = dict(
            obligations=sum(max(1, o["checks"] - o.get("unreachable", 0)) for o in proofs if o["status"] != "known-finding"),
            discharged=sum(max(1, o["checks"] - o.get("unreachable", 0)) for o in proofs if o["status"] == "proved"),
            checker_cmd="; ".join(self.cmds),
            trusted_base=self.trusted,
            contracts=len(proofs), contracts_discharged=len([o for o in proofs if o["status"] == "proved"]),
            contracts_by_backend={b: len([o for o in proofs if o["backend"] == b]) for b in sorted({o["backend"] for o in proofs})},
            bounded_standins=[dict({k: o.get(k) for k in ("name", "checks", "bound")}, status="held within the bound" if o["status"] == "proved" else o["status"]) for o in bounded],
            known_findings=[o["name"] for o in kf],
            reachability_witnesses=sum(o.get("covers", 0) for o in self.obl),
            functions_under_contract=self.functions,
            solver_time_s=round(sum(o["time"] or 0 for o in self.obl), 2),
            obligations_detail=[{k: o.get(k) for k in ("name", "backend", "status", "checks", "time", "kind")} for o in self.obl],
            sources_verified=sorted({v for s in self.stages for v in s.verbatim}),
            staging_edits=sorted({e for s in self.stages for e in s.edits}),
            notes=self.notes,
        )
        cov.update(self.extra)
        if self.level == "model_checking":
            cov.setdefault("states", sum(o["checks"] for o in self.obl))
            cov.setdefault("transitions", len(self.obl))
            cov.setdefault("traces_validated_against_impl", len(ok))
            cov.setdefault("samples", [o["name"] for o in self.obl][:5])
        if self.level == "other":
            cov.setdefault("explanation", "executable contracts on the real code evaluated on "
                           + str(sum(o["checks"] for o in bounded)) + " generated instances (bounded, no obligation counted as proved); " + "; ".join(self.notes))
        ev = dict(property=self.prop, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level=self.level,
                  coverage=cov, assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        for h, what in self.known_hit:
            print(f"KNOWN-FINDING: property={self.prop} {h}: {what}")
        print(f"[{self.prop}] {len(ok)}/{n - len(kf)} contracts discharged, {cov['discharged']}/{cov['obligations']} obligations, "
              f"{cov['solver_time_s']} s solver, {ev['wall_s']} s wall")
        for h, why in self.undecided:
            print(f"UNDECIDED {h}: {why}")
        if self.violations:
            for h, why, path, confirmed in self.violations:
                print(f"  failed obligation {h}: {why}")
            # report one line per violation, those with a replayed input first
            for h, why, path, confirmed in sorted(self.violations, key=lambda v: not v[3]):
                print(f"VIOLATION property={self.prop} replay={path}" + ("" if confirmed else " no-failing-input-found"))
            sys.exit(1)
        if self.undecided:
            sys.exit(2)
        if n == 0:
            print("no obligations generated")
            sys.exit(2)
        sys.exit(0)


def run(prop, level, fn):
    c = Check(prop, level)
    try:
        fn(c)
    except LostAnchor as e:
        c.undecided.append(("staging", f"lost anchor: {e}"))
    c.done()
