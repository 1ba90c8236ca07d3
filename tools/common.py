"""Shared machinery of the checks (see DESIGN.md)."""
import json, os, subprocess, time, hashlib, shutil, threading, re, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
CACHE = os.path.join(VERIF, ".cache")

class NoAnswer(Exception):
    pass

def env(**kw):
    e = dict(os.environ)
    e.pop("RUSTFLAGS", None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    e.update(kw)
    return e

def sh(cmd, timeout=600, cwd=VERIF, stop=None, **kw):
    """(rc, stdout+stderr); rc None on time-out, or once the event `stop` is set."""
    p = subprocess.Popen(cmd, cwd=cwd, env=env(**kw), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, errors="replace", start_new_session=True)
    end = time.time() + timeout
    while True:
        try:
            out, _ = p.communicate(timeout=timeout if stop is None else 0.5)
            return p.returncode, out
        except subprocess.TimeoutExpired:
            if stop and time.time() < end and not stop.is_set():
                continue
            import signal
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            out, _ = p.communicate()
            return None, out

def tree_hash():
    """Digest of everything of /repo that is compiled."""
    h = hashlib.sha256()
    for root, dirs, files in os.walk(os.path.join(REPO, "crates")):
        dirs[:] = sorted(d for d in dirs if d != "target")
        for f in sorted(files):
            if f.endswith((".rs", ".toml")):
                p = os.path.join(root, f)
                h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    h.update(open(os.path.join(REPO, "Cargo.toml"), "rb").read())
    return h.hexdigest()

def file_hash(p):
    return hashlib.sha256(open(p, "rb").read()).hexdigest()

def harness(prop):
    # C19 runs the wgpu runtime on a stand-in for wgpu
    return "harness-wgpu" if prop == "C19" else "harness"

def build_native(prop):
    """Builds the contract harness against /repo's working tree; path of the binary."""
    import contracts
    name = harness(prop)
    with contracts.lock("native-" + name):
        return _build_native(name)

def _build_native(name):
    target = os.path.join(CACHE, "native" if name == "harness" else name)
    cwd = os.path.join(VERIF, name)
    stamp = os.path.join(target, "tree")
    want = tree_hash()
    have = open(stamp).read() if os.path.exists(stamp) else ""
    if have != want and os.path.isdir(target):
        # never trust modification times: recompile the crates of /repo
        sh(["cargo", "clean", "--offline", "--release", "-p", "crabslab", "-p", "craballoc", "-p", "crabslab-derive",
            "-p", "verif-" + name], cwd=cwd, CARGO_TARGET_DIR=target)
    rc, out = sh(["cargo", "build", "--release", "--offline"], cwd=cwd, timeout=700, CARGO_TARGET_DIR=target)
    if rc != 0:
        raise NoAnswer("the contract harness does not build against /repo:\n" + out[-3000:])
    with open(stamp, "w") as f:
        f.write(want)
    return os.path.join(target, "release", "verif-" + name)

class Native:
    """Search for an input on which the real code breaks its contract."""
    def __init__(self, prop, seed, seconds, slot="", stop=None):
        self.prop, self.seed, self.seconds, self.slot, self.stop = prop, seed, seconds, slot, stop
        self.result, self.failure, self.error = {}, None, None

    def go(self):
        try:
            self._go()
        except NoAnswer as e:
            self.error = str(e)
        except Exception as e:
            self.error = f"internal: {e!r}"

    def _go(self):
        r = self
        binary = build_native(r.prop)
        d = os.path.join(CACHE, "run", r.prop)
        os.makedirs(d, exist_ok=True)
        out, prog = os.path.join(d, f"search{r.slot}.json"), os.path.join(d, f"progress{r.slot}")
        for f in (out, prog):
            if os.path.exists(f):
                os.unlink(f)
        t0 = time.time()
        # code that runs away must not take the sandbox's memory with it
        rc, text = sh(["bash", "-c", f'ulimit -v {5000000 if self.slot else 8000000}; exec "$@"', "search", binary, "search", r.prop, str(r.seed), str(self.seconds), out, prog],
                      timeout=self.seconds * 3 + 60, stop=self.stop)
        self.wall = time.time() - t0
        self.cmd = f"verif-harness search {r.prop} {r.seed} {self.seconds}"
        if os.path.exists(out):
            self.result = json.load(open(out))
            self.failure = self.result.get("failure")
            return
        if self.stop and self.stop.is_set():
            return
        # the code under test killed or hung the process: the case being run is the failing input
        where = open(prog).read().strip() if os.path.exists(prog) else ""
        if not where:
            raise NoAnswer(f"search ended with {rc}: {text[-2000:]}")
        what = "the code does not return" if rc is None else f"the code ends the process (status {rc})"
        self.failure = {"harness": r.prop + "/?", "what": what, "words": [], "case": where, "history": [text[-500:]]}


def search_more(prop, seed, seconds, workers=4):
    """Several searches at once, each from its own seed, until one fails."""
    stop = threading.Event()
    def one(n):
        n.go()
        if n.failure:
            stop.set()
    ns = [Native(prop, seed + 1000 * i, seconds, f"-{i}", stop) for i in range(workers)]
    ts = [threading.Thread(target=one, args=(n,)) for n in ns]
    for t in ts: t.start()
    for t in ts: t.join()
    return ns
