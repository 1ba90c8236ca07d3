"""The deciding step: contracts on functions extracted from /repo, discharged by Verus."""
import fcntl, json, os, re, subprocess, sys, time
import common as C
sys.path.insert(0, os.path.join(C.VERIF, "verus"))
sys.dont_write_bytecode = True
import build

GEN = os.path.join(C.CACHE, "gen")
PINNED = os.path.join(C.VERIF, "verus", "pinned.json")
ALLOC = os.path.join(C.REPO, "crates", "craballoc", "src")
SOURCES = {"crabslab": os.path.join(GEN, "crabslab.rs"), "shapes": os.path.join(GEN, "shapes.rs"),
           **{k: os.path.join(ALLOC, k + ".rs") for k in ("range", "runtime", "slab", "value")},
           "wgpu_slab": os.path.join(ALLOC, "slab", "wgpu_slab.rs")}

class lock:
    """Checks may run at the same time; what they share is written by one at a time."""
    def __init__(self, name): self.name = name
    def __enter__(self):
        os.makedirs(C.CACHE, exist_ok=True)
        self.f = open(os.path.join(C.CACHE, self.name + ".lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): self.f.close()

def build_extractor():
    with lock("extract"):
        rc, out = C.sh(["cargo", "build", "--release", "--offline"], cwd=os.path.join(C.VERIF, "extract"),
                       CARGO_TARGET_DIR=os.path.join(C.CACHE, "extract"))
    if rc != 0:
        raise C.NoAnswer("the extractor does not build:\n" + out[-2000:])
    return os.path.join(C.CACHE, "extract", "release", "verif-extract")

def expand():
    """Macro expansion of crabslab, and of the derive macros on the shapes, from /repo's current tree."""
    with lock("expand"):
        os.makedirs(GEN, exist_ok=True)
        stamp = os.path.join(GEN, "tree")
        shapes = os.path.join(C.VERIF, "shapes")
        want = C.tree_hash() + C.file_hash(os.path.join(shapes, "src", "lib.rs"))
        if os.path.exists(stamp) and open(stamp).read() == want:
            return
        if os.path.exists(stamp):
            os.unlink(stamp)
        target = os.path.join(C.CACHE, "expand")
        for name, cwd in (("crabslab", os.path.join(C.REPO, "crates", "crabslab")), ("shapes", shapes)):
            C.sh(["cargo", "+nightly", "clean", "--offline", "-p", "crabslab", "-p", "crabslab-derive"], cwd=cwd, CARGO_TARGET_DIR=target)
            cmd = ["cargo", "+nightly", "rustc", "--offline", "--lib", "--profile", "dev"] + \
                  ([] if name == "crabslab" else []) + ["--", "-Zunpretty=expanded"]
            p = subprocess.run(cmd, cwd=cwd, env=C.env(CARGO_TARGET_DIR=target), stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, text=True, timeout=600)
            if p.returncode != 0 or "fn " not in p.stdout:
                raise C.NoAnswer(f"{name} cannot be expanded:\n" + p.stderr[-2000:])
            with open(os.path.join(GEN, name + ".rs"), "w") as f:
                f.write(p.stdout)
        with open(stamp, "w") as f:
            f.write(want)

UNITS = {
    # unit: (sources, modules verified; None: all)
    "core": (["crabslab"], None),
    "slabs": (["crabslab"], ["slabs"]),
    "derived": (["crabslab", "shapes"], "shape_"),
    "ranges": (["crabslab", "range", "runtime"], ["ranges", "range_specs", "word_lemmas", "updates"]),
    "alloc": (["crabslab", "range", "runtime", "slab", "value"],
              ["alloc_specs", "allocator", "runtimes", "value_specs", "values", "histories", "history", "history::client"]),
    "gpu": (["crabslab", "range", "runtime", "slab", "value", "wgpu_slab"], ["wgpu", "gpu"]),
}

# a third or less of it is used
RLIMIT = {"core": 60, "derived": 80, "alloc": 60, "gpu": 60}

def pinned():
    try:
        return json.load(open(PINNED))
    except OSError:
        return {"names": [], "skeletons": {}}

TRUST = re.compile(r"external_body|assume_specification|\baxiom\b|external_type_specification|assume\(|admit\(|\bexternal\b")

class Unit:
    """One verification run."""
    def __init__(self, name, extractor, outdir):
        self.name, self.extractor = name, extractor
        self.keys, mods = UNITS[name]
        self.tmpl, self.rs, self.json = (os.path.join(outdir, name + e) for e in (".tmpl", ".rs", ".json"))
        self.mods = mods
        self.aside, self.failed, self.undecided, self.verified, self.smt_ms, self.wall = set(), [], [], 0, 0, 0.0
        self.info, self.functions_checked = {"functions": [], "missing": [], "uncovered": []}, 0

    def extract(self):
        with open(self.tmpl, "w") as f:
            f.write(getattr(build, self.name)())
        names = os.path.join(os.path.dirname(self.tmpl), self.name + ".names")
        with open(names, "w") as f:
            f.write("\n".join(n for n in pinned()["names"]) + "\n")
        rc, out = C.sh([self.extractor, self.tmpl, self.rs, self.json] + (["--base", names] if pinned()["names"] else []) +
                       [f"{k}={SOURCES[k]}" for k in self.keys], timeout=60)
        if rc != 0:
            self.undecided.append("extraction failed: " + out[-800:])
            return False
        self.info = json.load(open(self.json))
        self.text = open(self.rs).read().split("\n")
        more = self.std_more()
        if more:
            self.text += more
            with open(self.rs, "w") as f:
                f.write("\n".join(self.text))
        for m in self.info["missing"]:
            self.undecided.append(f"{m}: not found in the source")
        for m in self.info["uncovered"]:
            # a new function of a trait implementation may override one that is under contract
            if " for " in m or ":: trait " in m:
                self.undecided.append(f"{m}: not under contract")
        return True

    def std_more(self):
        """Contracts of functions of std that the extracted text uses and the base tree does not."""
        used = "\n".join("\n".join(self.text[f["first"] - 1:f["last"]]) for f in self.info["functions"])
        used = re.sub(r"\s*([.(:])\s*", r"\1", used)
        out = []
        for b in re.split(r"(?m)^//@when ", open(os.path.join(C.VERIF, "verus", "std_more.tmpl")).read())[1:]:
            when, text = b.split("\n", 1)
            if re.search(when, used):
                out.append(text)
        return ["verus! {", "pub mod std_more {", "use super::*;"] + "\n".join(out).split("\n") + ["}", "}"] if out else []

    def owner(self, line):
        for f in self.info["functions"]:
            if f["first"] <= line <= f["last"]:
                return f["id"]
        for i in range(min(line, len(self.text)) - 1, -1, -1):
            m = re.search(r"\bfn\s+(\w+)", self.text[i])
            if m:
                return "lemma " + m.group(1)
        return "?"

    def own(self):
        """The extracted functions whose obligations this unit discharges."""
        if self.mods is None:
            return list(self.info["functions"])
        mods, cur, spans = set(self.modules()), None, []
        for i, l in enumerate(self.text):
            m = re.match(r"pub mod (\w+) \{", l)
            if m: cur = m.group(1)
            spans.append(cur in mods)
        return [f for f in self.info["functions"] if spans[f["first"] - 1]]

    def modules(self):
        if self.mods is None:
            return []
        if isinstance(self.mods, list):
            return self.mods
        return [m for m in re.findall(r"(?m)^pub mod (\w+) \{", "\n".join(self.text)) if m.startswith(self.mods)]

    def verify(self):
        """Discharges the unit's obligations. A function whose text the verifier cannot take is set aside with its
        contract (and is not decided), so that the others still are."""
        t0, rlimit = time.time(), RLIMIT.get(self.name, 15)
        for _ in range(4):
            left = 400 - (time.time() - t0)
            done, errors = self.run(rlimit, left) if left > 5 else (False, None)
            if done or not errors or not self.set_aside(errors):
                break
        self.wall = time.time() - t0
        if errors is None:
            self.undecided.append("the verifier does not finish within 400 s")
            return
        for who, e in errors:
            if not done or e.get("code") or "rlimit" in e["message"].lower():
                self.undecided.append(f"{who}: {e['message']}")
            else:
                self.failed.append({"function": who, "obligation": e["message"], "text": e["rendered"]})
        if not done and not errors:
            self.undecided.append("the verifier gives no result: " + self.stderr[-500:])
        if done and self.verified == 0:
            self.undecided.append("the verifier discharged no obligation")

    def set_aside(self, errors):
        """Replaces the bodies of the functions with these errors; False if an error lies elsewhere."""
        fns = {f["id"]: f for f in self.info["functions"] if f["kind"] == "fn"}
        bad = {who: e for who, e in reversed(errors)}
        if any(w not in fns or w in self.aside for w in bad):
            return False
        for w, e in bad.items():
            f = fns[w]
            at = next((i for i in range(f["first"] - 1, f["last"]) if self.text[i].strip() == "{"), None)
            head = next((i for i in range(f["first"] - 1, f["last"]) if re.search(r"\bfn\b", self.text[i])), None)
            if at is None or head is None or head >= at:
                return False
            # the lines of the other functions stay where they are
            self.text[head] = "#[verifier::external_body] " + self.text[head]
            self.text[at] = "{ unimplemented!() }"
            for i in range(at + 1, f["last"]): self.text[i] = ""
            self.aside.add(w)
            self.undecided.append(f"{w}: {e['message']}")
        with open(self.rs, "w") as f:
            f.write("\n".join(self.text))
        return True

    def run(self, rlimit, timeout):
        """(whether the verifier reached the proofs, the errors with the function each lies in)"""
        cmd = ["verus", self.rs, "--rlimit", str(rlimit), "--output-json", "--time-expanded", "--error-format=json", "--num-threads", "7"]
        for m in self.modules():
            cmd += ["--verify-module", m]
        self.cmd = " ".join(cmd)
        try:
            p = subprocess.run(cmd, cwd=os.path.dirname(self.rs), env=C.env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            return False, None
        self.stderr = p.stderr
        self.verified = 0
        try:
            d = json.loads(p.stdout)
            vr = d["verification-results"]
            self.verified = vr["verified"]
            fb = [f for m in d["times-ms"]["smt"]["smt-run-module-times"] for f in m["function-breakdown"]]
            self.smt_ms = sum(f["time-micros"] for f in fb) / 1000
            self.functions_checked = len(fb)
            done = not vr.get("encountered-vir-error") and "errors" in vr
        except (ValueError, KeyError):
            done = False
        errors = []
        for l in p.stderr.split("\n"):
            if not l.startswith("{"):
                continue
            e = json.loads(l)
            if e["level"] != "error" or e["message"].startswith("aborting"):
                continue
            spans = [s for s in e["spans"] if not (s["label"] or "").startswith("failed")] or e["spans"]
            owners = [self.owner(s["line_start"]) for s in spans if os.path.basename(s["file_name"]) == os.path.basename(self.rs)]
            known = [o for o in owners if not o.startswith("lemma")]
            errors.append(((known or owners or ["?"])[0], e))
        # (an error of the Rust compiler is no result either)
        return done and not (errors and self.verified == 0), errors

    def structure_differs(self, who):
        """Why a failed proof of `who` may be a limit of the proof text rather than of the code; None if what the
        function does, in order, is (part of) what it did when its proof was written."""
        pin = pinned()["skeletons"].get(self.name, {})
        loops = lambda s: [x for x in s if x.startswith(("for ", "while ", "loop", "unrolled", "fold"))]
        for f in self.info["functions"]:
            if who.startswith("lemma") or f["id"] == who:
                old, new = pin.get(f["id"]), f["skeleton"]
                if old is None: return f"{f['id']} is not pinned"
                if loops(old) != loops(new): return f"the loops of {f['id']} are not those the invariants were written for"
                it = iter(old)
                for x in new:
                    if x not in it: return f"{f['id']} is arranged differently from '{x}' on"
                if f["inlined"]: return f"{f['id']} calls the new function {f['inlined'][0]}"
                if f["unused_loops"]: return f"a part of the proof of {f['id']} has no place"
        return None

    def trusted(self):
        """Mechanical scan for what is assumed."""
        out = []
        for i, l in enumerate(self.text):
            if TRUST.search(l) and not l.strip().startswith("//"):
                t = l.strip()
                if t.startswith("#["):
                    j = i + 1
                    while j < len(self.text) and self.text[j].strip().startswith(("#", "//")): j += 1
                    t = t + " " + self.text[j].strip()
                out.append(re.sub(r"\s+", " ", t)[:200])
        return sorted(set(out))

    def vacuity(self):
        """Every extracted function gets an assertion that must fail; those whose assertion is proved have a
        contradictory precondition."""
        lines, marks = list(self.text), {}
        for f in self.own():
            if f["kind"] not in ("fn", "const"): continue
            # the body is the first line that is a lone brace after the contract
            for i in range(f["first"] - 1, f["last"]):
                if lines[i].strip() == "{":
                    lines[i] = "{ proof { assert(false); }"
                    marks[i + 1] = f["id"]
                    break
        rs = self.rs[:-3] + "_vacuity.rs"
        with open(rs, "w") as f:
            f.write("\n".join(lines))
        cmd = ["verus", rs, "--rlimit", "20", "--error-format=json", "--num-threads", "7"]
        for m in self.modules():
            cmd += ["--verify-module", m]
        try:
            p = subprocess.run(cmd, cwd=os.path.dirname(rs), env=C.env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
        except subprocess.TimeoutExpired:
            return None
        hit = set()
        for l in p.stderr.split("\n"):
            if l.startswith("{"):
                e = json.loads(l)
                if e["level"] == "error" and e["message"].startswith("assertion failed"):
                    hit |= {marks[s["line_start"]] for s in e["spans"] if s["line_start"] in marks}
        return {"marked": len(marks), "reachable": len(hit), "missing": sorted(set(marks.values()) - hit)}
