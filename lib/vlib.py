"""Shared machinery: building harnesses, running TLC, walking its state graph, reporting."""
import json, os, random, re, subprocess, sys, time, hashlib, shutil, tempfile, traceback
from collections import defaultdict, deque

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
NPROC = os.cpu_count() or 4


class ToolError(Exception):
    """The check itself failed: no verdict."""


def cargo_env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e.update(HOME="/root", PATH="/root/.cargo/bin:" + e.get("PATH", ""), RUSTUP_TOOLCHAIN="1.85",
             CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(BUILD, "target"),
             CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
    return e


def build(name, bins, extra=()):
    """Builds harness crate `name` against /repo's working tree; returns paths of its binaries."""
    d = os.path.join(VERIF, "harness", name)
    r = subprocess.run(["cargo", "build", "--offline", "--manifest-path", os.path.join(d, "Cargo.toml"), *extra],
                       env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=d)
    if r.returncode:
        raise ToolError(f"building harness {name} failed:\n{r.stdout[-6000:]}")
    out = [os.path.join(BUILD, "target", "debug", b) for b in bins]
    return out if len(out) > 1 else out[0]


# ------------------------------------------------------------------ TLC

def write_cfg(path, consts, spec=None, view=None, invariants=(), properties=(), action_constraint=None,
              constraint=None, init="Init", next_="Next", postcondition=None, deadlock=False, symmetry=None):
    L = ["CONSTANTS"]
    for k, v in consts.items():
        L.append(f"  {k} = {tla(v)}" if not (isinstance(v, str) and v.startswith("<-")) else f"  {k} {v}")
    if len(L) == 1:
        L = []
    if spec:
        L.append(f"SPECIFICATION {spec}")
    else:
        L += [f"INIT {init}", f"NEXT {next_}"]
    if view:
        L.append(f"VIEW {view}")
    if invariants:
        L.append("INVARIANTS " + " ".join(invariants))
    if properties:
        L.append("PROPERTIES " + " ".join(properties))
    if action_constraint:
        L.append(f"ACTION_CONSTRAINT {action_constraint}")
    if constraint:
        L.append(f"CONSTRAINT {constraint}")
    if postcondition:
        L.append(f"POSTCONDITION {postcondition}")
    if symmetry:
        L.append(f"SYMMETRY {symmetry}")
    L.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
    with open(path, "w") as f:
        f.write("\n".join(L) + "\n")


class Raw(str):
    """A constant given as TLA+ text."""


def tla(v):
    if isinstance(v, Raw):
        return str(v)
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"' + v.replace("\\", "\\\\").replace('"', '\\"') + '"'
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, dict):
        return "[" + ", ".join(f"{k} |-> {tla(x)}" for k, x in v.items()) + "]"
    raise TypeError(v)


TLC_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcResult:
    def __init__(self):
        self.edges = []
        self.prints = []
        self.states = self.distinct = self.depth = 0
        self.ok = False
        self.out = ""
        self.actions = {}
        self.violated = ""


def run_tlc(module, cfg_kwargs=None, consts=None, cfg_path=None, workers=None, emit=False, timeout=600, extra=(),
            mem="4g", props=(), specdir=SPEC, files=()):
    """Runs TLC on spec/module.tla in a scratch directory. emit: collect JSON lines printed by the model."""
    work = tempfile.mkdtemp(prefix="tlc_", dir=scratch())
    try:
        for f in os.listdir(specdir):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(specdir, f), work)
        for name, text in files:
            with open(os.path.join(work, name), "w") as f:
                f.write(text)
        cfg = os.path.join(work, "model.cfg")
        if cfg_path:
            shutil.copy(cfg_path, cfg)
        else:
            write_cfg(cfg, consts or {}, **(cfg_kwargs or {}))
        w = workers or (1 if emit else NPROC)
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{mem}", *props, "-cp", TLC_CP, "tlc2.TLC", "-config", cfg,
               "-metadir", os.path.join(work, "states"), "-workers", str(w), "-noGenerateSpecTE", *extra,
               os.path.join(work, module + ".tla")]
        res = TlcResult()
        p = subprocess.Popen(cmd, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        t0 = time.time()
        tail = deque(maxlen=int(os.environ.get("TLC_TAIL", "400")))
        try:
            for line in p.stdout:
                if line.startswith('"{') or line.startswith('"['):
                    res.prints.append(json.loads(json.loads(line)))
                    continue
                tail.append(line)
                if "is violated" in line:
                    res.violated = line.strip()
                if time.time() - t0 > timeout:
                    p.kill()
                    raise ToolError(f"TLC on {module} exceeded {timeout}s")
            p.wait()
        finally:
            if p.poll() is None:
                p.kill()
                p.wait()
        res.out = "".join(tail)
        m = re.search(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", res.out)
        if m:
            res.states, res.distinct = (int(x.replace(",", "")) for x in m.groups())
        m = re.search(r"depth of the complete state graph search is (\d+)", res.out)
        if m:
            res.depth = int(m.group(1))
        res.code = p.returncode
        res.ok = p.returncode == 0
        res.edges = res.prints if emit else []
        return res
    finally:
        shutil.rmtree(work, ignore_errors=True)


def tlc_checked(module, what, **kw):
    """TLC must accept: a failure here is an error of the specification, not a verdict on the code."""
    r = run_tlc(module, **kw)
    if not r.ok:
        raise ToolError(f"TLC rejects {module} ({what}):\n{r.out[-5000:]}")
    return r


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        base = os.path.join(BUILD, "scratch")
        os.makedirs(base, exist_ok=True)
        _scratch = tempfile.mkdtemp(prefix=f"run{os.getpid()}_", dir=base)
    return _scratch


def drop_scratch():
    global _scratch
    if _scratch:
        subprocess.run(["chmod", "-R", "u+rwX", _scratch], stderr=subprocess.DEVNULL)
        shutil.rmtree(_scratch, ignore_errors=True)
        _scratch = None


# ------------------------------------------------------------------ graph walks

class Graph:
    """The labelled state graph TLC printed: nodes are views, edges steps of the specification."""

    def __init__(self, edges):
        self.ids = {}
        self.nodes = []
        self.adj = defaultdict(list)   # node -> [(edge index)]
        self.edges = []
        seen = set()
        for e in edges:
            f, t = self.node(e["f"]), self.node(e["t"])
            key = (f, json.dumps(e["a"], sort_keys=True), t)
            if key in seen:
                continue
            seen.add(key)
            self.adj[f].append(len(self.edges))
            self.edges.append((f, e["a"], t))
        self.root = 0

    def node(self, v):
        k = json.dumps(v, sort_keys=True)
        if k not in self.ids:
            self.ids[k] = len(self.nodes)
            self.nodes.append(v)
        return self.ids[k]

    def cover(self, rng, maxlen=30, limit=None, weight=None):
        """Walks from the root that together take every edge (or `limit` walks)."""
        left = {n: list(es) for n, es in self.adj.items()}
        for es in left.values():
            rng.shuffle(es)
        nleft = len(self.edges)
        walks = []
        # distance to the nearest uncovered edge is recomputed lazily by BFS
        while nleft and (limit is None or len(walks) < limit):
            walk, cur = [], self.root
            progressed = False
            while len(walk) < maxlen:
                if left.get(cur):
                    e = left[cur].pop()
                    nleft -= 1
                    walk.append(e)
                    cur = self.edges[e][2]
                    progressed = True
                    continue
                path = self._nearest(cur, left, rng)
                if path is None:
                    break
                if walk and len(walk) + len(path) >= maxlen:
                    break
                walk += path
                cur = self.edges[path[-1]][2]
            if not progressed:
                break
            walks.append(self.view(walk))
        return walks

    def view(self, walk):
        return [(self.nodes[self.edges[e][0]], self.edges[e][1], self.nodes[self.edges[e][2]]) for e in walk]

    def _nearest(self, src, left, rng):
        prev = {src: None}
        q = deque([src])
        while q:
            n = q.popleft()
            if n != src and left.get(n):
                path = []
                while prev[n] is not None:
                    path.append(prev[n])
                    n = self.edges[prev[n]][0]
                return path[::-1]
            for e in self.adj.get(n, ()):
                t = self.edges[e][2]
                if t not in prev:
                    prev[t] = e
                    q.append(t)
        return None

    def paths_to(self, pred):
        """A shortest walk ending in each edge whose action satisfies pred."""
        prev, order, q = {self.root: None}, [], deque([self.root])
        while q:
            n = q.popleft()
            for e in self.adj.get(n, ()):
                t = self.edges[e][2]
                if t not in prev:
                    prev[t] = e
                    q.append(t)
        out = []
        for e, (f, a, t) in enumerate(self.edges):
            if pred(a) and f in prev:
                path, n = [e], f
                while prev[n] is not None:
                    path.append(prev[n])
                    n = self.edges[prev[n]][0]
                out.append(self.view(path[::-1]))
        return out

    def random_walks(self, rng, count, length, weight=lambda a: 1.0):
        out = []
        for _ in range(count):
            cur, walk = self.root, []
            while len(walk) < length:
                es = self.adj.get(cur)
                if not es:
                    break
                w = [weight(self.edges[e][1]) for e in es]
                e = rng.choices(es, w)[0]
                walk.append(self.edges[e])
                cur = self.edges[e][2]
            out.append(walk)
        return [[(self.nodes[f], a, self.nodes[t]) for f, a, t in w] for w in out]


# ------------------------------------------------------------------ reporting

class Check:
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.cov = {}
        self.assumptions = []
        self.violations = []
        self.known_hit = {}
        self.samples = []

    def violation(self, what, detail):
        """Records a violation unless the known-findings file lists this very failure."""
        key = detail.get("finding_key") if isinstance(detail, dict) else None
        if key is not None and key in known_findings(self.prop):
            self.known_hit[key] = known_findings(self.prop)[key]
            return False
        self.violations.append((what, detail))
        return True

    def add(self, **kw):
        for k, v in kw.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool) and k in self.cov:
                self.cov[k] += v
            else:
                self.cov[k] = v

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def finish(self):
        cov = dict(self.cov)
        cov["samples"] = self.samples
        ev = {"property": self.prop, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k, text in self.known_hit.items():
            print(f"KNOWN-FINDING: property={self.prop} {text}")
        if self.violations:
            d = os.path.join(BUILD, "replay")
            os.makedirs(d, exist_ok=True)
            what, detail = self.violations[0]
            path = os.path.join(d, f"{self.prop}.json")
            with open(path, "w") as f:
                json.dump({"property": self.prop, "violations": [{"what": w, "detail": x} for w, x in self.violations[:20]]},
                          f, indent=1, default=str)
            for w, x in self.violations[:5]:
                print(f"{self.prop}: {w}")
                print("  " + json.dumps(x, default=str)[:1500])
            print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        print(f"{self.prop}: held on everything explored ({TIER}, {ev['wall_s']}s) "
              + json.dumps({k: v for k, v in cov.items() if isinstance(v, (int, bool))}))
        return 0


_kf = None


def known_findings(prop):
    """known_findings.jsonl: {"property":..., "key":..., "what":...}; fixed entries suppress nothing."""
    global _kf
    if _kf is None:
        _kf = defaultdict(dict)
        p = os.path.join(VERIF, "known_findings.jsonl")
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if not line or not line.startswith("{"):
                    continue
                d = json.loads(line)
                _kf[d["property"]][d["key"]] = d["what"]
    return _kf[prop]


def pmap(fn, items, procs=None, chunk=None):
    """Parallel map in forked processes; order kept. A worker's exception is a tool error."""
    import multiprocessing as mp
    procs = procs or NPROC
    items = list(items)
    if not items:
        return []
    ctx = mp.get_context("fork")
    with ctx.Pool(min(procs, len(items))) as pool:
        return pool.map(fn, items, chunksize=chunk or max(1, len(items) // (procs * 8)))


def main(run):
    """run() -> exit code"""
    try:
        code = run()
    except ToolError as e:
        print(f"tool error: {e}", file=sys.stderr)
        code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    finally:
        drop_scratch()
    sys.stdout.flush()
    sys.exit(code)
