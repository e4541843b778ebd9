"""C12: atomic writes. AtomicWrite.tla; every system call of the real write is observed, failed and crashed at."""
import json, os, random, shutil, subprocess, tempfile
import vlib
from vlib import THOROUGH, SEED, Check, ToolError, run_tlc, tlc_checked, pmap
from c_paths import hx, Batch

ERR = {"EIO": 5, "ENOSPC": 28, "EINTR": 4, "EEXIST": 17, "EACCES": 13, "ENOENT": 2, "EDQUOT": 122, "EXDEV": 18}
UNLINK = (87, 263)
STAT = (4, 5, 6, 262, 332)
_job = {}


def scenarios():
    """name -> (make(dir) -> target path, contents, had old)"""
    S = {}

    def sc(name, old=None, mode=None, new=b"new content\n", extra=None, tname="target", uid=0, dirmode=0o777):
        S[name] = dict(old=old, mode=mode, new=new, extra=extra, tname=tname, uid=uid, dirmode=dirmode)
    sc("absent")
    sc("old", b"old\n", 0o644)
    sc("longer", b"a much longer old content " * 40, 0o640)
    sc("empty-new", b"old\n", 0o600, b"")
    sc("empty-old", b"", 0o664)
    sc("readonly", b"old\n", 0o444)
    sc("exec", b"old\n", 0o755)
    sc("open", b"old\n", 0o666)
    sc("nomode", b"old\n", 0o000)
    sc("writeonly", b"old\n", 0o222)
    sc("large", b"old\n", 0o640, bytes(range(256)) * 1200)
    sc("large-absent", None, None, bytes(range(256)) * 1200)
    sc("symlink", "link", None)
    sc("dangling", "dangling", None)
    sc("directory", "dir", None)
    sc("lookalike", b"old\n", 0o644, extra=["target.tmp", ".target", "target~", "targetAAAAAA", ".tmpAAAAAA", "target.bak", "tmp"])
    sc("odd-name", b"old\n", 0o644, tname=b"-\xff \n'{}.typ")
    sc("long-name", b"old\n", 0o644, tname="n" * 200)
    sc("too-long-name", None, None, tname="n" * 300)
    sc("no-parent", None, None, tname="nowhere/target")
    sc("user", b"old\n", 0o664, uid=65534)
    sc("user-absent", None, None, uid=65534)
    sc("user-denied", b"old\n", 0o666, uid=65534, dirmode=0o755)
    return S


def prepare(base, s):
    d = os.path.join(base, "d")
    os.mkdir(d)
    os.chmod(d, s["dirmode"])
    t = os.path.join(os.fsencode(d), s["tname"] if isinstance(s["tname"], bytes) else s["tname"].encode())
    with open(os.path.join(base, "elsewhere"), "wb") as f:
        f.write(b"linked")
    os.chmod(os.path.join(base, "elsewhere"), 0o604)
    for e in s["extra"] or ["sibling"]:
        with open(os.path.join(d, e), "w") as f:
            f.write("mine")
    old = s["old"]
    if isinstance(old, bytes):
        with open(t, "wb") as f:
            f.write(old)
        os.chmod(t, s["mode"])
    elif old == "link":
        os.symlink("../elsewhere", t)
    elif old == "dangling":
        os.symlink("../nothing", t)
    elif old == "dir":
        os.mkdir(t)
        with open(os.path.join(t, b"inside"), "w") as f:
            f.write("x")
    return t


class Tracer:
    def __init__(self, exe):
        self.p = subprocess.Popen([exe, "traced"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)

    def run(self, **c):
        self.p.stdin.write(json.dumps(c) + "\n")
        self.p.stdin.flush()
        l = self.p.stdout.readline()
        if not l:
            raise ToolError(f"the tracer ended: {self.p.wait()}")
        return json.loads(l)

    def close(self):
        self.p.stdin.close()
        self.p.wait()


def base_dir():
    d = tempfile.mkdtemp(prefix="vaw_", dir="/tmp")
    os.chmod(d, 0o755)
    return d


def one(tr, s, contents, faults, sched, umask):
    base = base_dir()
    try:
        t = prepare(base, s)
        return tr.run(root=hx(base), target=hx(t), contents=[hx(c) for c in contents], faults=faults, sched=sched,
                      uid=s["uid"], umask=umask)
    finally:
        subprocess.run(["chmod", "-R", "u+rwX", base])
        shutil.rmtree(base)


def record(res, faults, what):
    """The observations as a trace of AtomicTrace.tla."""
    hit = lambda nrs: any(f["kind"] != "kill" and e["w"] == f.get("w", 0) + 1 and e["sys"] in nrs and nth(res, e) == f["at"]
                          for f in faults for e in res["trace"] if e["w"] > 0)
    ev = []
    for e in res["trace"]:
        who = {"absent": 0, "old": -1}.get(e["t"], int(e["t"][3:]) if e["t"].startswith("new") else 99)
        ev.append({"w": e["w"], "r": e["r"], "who": who, "same": e["same"], "lit": e["n"] > 0, "intact": e["intact"]})
    # repetitions say nothing new
    ev = [e for i, e in enumerate(ev) if i == 0 or e != ev[i - 1]]
    return {"old": ev[0]["who"] == -1, "litter": hit(UNLINK), "blind": hit(STAT), "diag": False, "ev": ev}


def nth(res, e):
    """Which system call of its writer this event shows."""
    k = 0
    for x in res["trace"]:
        if x["w"] == e["w"]:
            k += 1
        if x is e:
            return k
    return None


def _work(job):
    kind, name, seed = job
    rng = random.Random(seed)
    s = scenarios()[name]
    tr = Tracer(_job["exe"])
    out = []
    um = rng.choice((0o22, 0o77, 0))

    def go(contents, faults, sched, tag):
        r = one(tr, s, contents, faults, sched, um)
        out.append(({"scenario": name, "faults": faults, "sched": sched, "umask": um, "results": r["res"],
                     "trace": [{k: v for k, v in e.items() if k != "strays"} for e in r["trace"]][-12:]}, record(r, faults, tag)))
        return r
    try:
        if kind == "faults":
            r = go([s["new"]], [], [], "plain")
            n = r["nsys"][0]
            errs = list(ERR.values()) if THOROUGH else [5, 28, 4, 17]
            for k in range(1, n + 3):
                fs = [{"kind": "kill"}, {"kind": "killafter"}, {"kind": "short"}] + [{"kind": "errno", "n": e} for e in errs]
                for f in fs:
                    go([s["new"]], [dict(f, at=k, w=0)], [], "fault")
            for _ in range(200 if THOROUGH else 12):
                fs = [dict(rng.choice([{"kind": "kill"}, {"kind": "short"}, {"kind": "errno", "n": rng.choice(list(ERR.values()))}]),
                           at=rng.randrange(1, n + 6), w=0) for _ in range(rng.randrange(2, 4))]
                go([s["new"]], fs, [], "faults")
        else:
            n = 8
            news = [b"first writer's content\n" * 30, b"second\n" * 5, b""]
            if kind == "pairs":
                for i in range(0, n + 1):
                    for j in range(0, n + 1):
                        go(news[:2], [], [0] * i + [1] * j + [0] * n, "pair")
            for _ in range(250 if THOROUGH else 25):
                nw = rng.choice((2, 2, 3))
                sched = [rng.randrange(nw) for _ in range(12 * nw)]
                fs = []
                if rng.random() < .6:
                    fs = [dict(rng.choice([{"kind": "kill"}, {"kind": "killafter"}, {"kind": "errno", "n": 28}, {"kind": "short"}]),
                               at=rng.randrange(1, n + 2), w=rng.randrange(nw))]
                go(news[:nw], fs, sched, "mix")
    finally:
        tr.close()
    return out


def judge(recs):
    ok = set()
    for i in range(0, len(recs), 3000):
        part = [r for _, r in recs[i:i + 3000]]
        res = run_tlc("AtomicTrace", emit=True, workers=1, files=[("traces.json", json.dumps(part))],
                      consts={"Writers": vlib.Raw("{1, 2, 3}"), "Chunks": 1, "HadOld": True, "Faulty": True},
                      cfg_kwargs=dict(spec="TSpec", invariants=["Report"]), mem="6g")
        if not res.ok:
            raise ToolError("AtomicTrace could not judge:\n" + res.out[-3000:])
        ok |= {p["acc"] - 1 + i for p in res.prints if "acc" in p}
    return [i for i in range(len(recs)) if i not in ok]


def odd_paths(exe, ck):
    """Paths that name no file, relative paths: an error or the write, never a panic."""
    base = base_dir()
    try:
        os.mkdir(os.path.join(base, "d"))
        b = Batch(exe, cwd=os.path.join(base, "d"))
        for t, want in (("", "err"), (".", None), ("..", "err"), ("/", "err"), ("a/..", "err"), ("plain", "ok"), ("./dot", "ok"),
                        ("../up", "ok"), ("d2/x", "err"), ("plain/", None), ("n\0ul", "err")):
            r = b.call(op="write_atomic", p=hx(t), c=hx(b"data"))
            got = next(iter(r))
            if want and got != want or got not in ("ok", "err"):
                ck.violation("an atomic write to an odd path neither happens nor reports an error", {"path": t, "got": r, "expected": want})
            elif want == "ok" and open(os.path.join(base, "d", t), "rb").read() != b"data":
                ck.violation("an atomic write to a relative path wrote something else", {"path": t})
            ck.add(odd_paths=1)
        b.close()
        got = sorted(os.listdir(base)), sorted(os.listdir(os.path.join(base, "d")))
        if got != (["d", "up"], ["dot", "plain"]):
            ck.violation("atomic writes left other files behind", {"files": got})
    finally:
        shutil.rmtree(base)


def run(prop):
    exe = vlib.build("fsx", ["fsx"])
    ck = Check(prop, "model_checking")
    ck.assumptions = ["a crash is the death of the process between two system calls; loss of power is not modelled",
                      "a fault put on the call that reads the old mode, or on the removal of the temporary file, excuses just that"]
    for old in (True, False):
        r = tlc_checked("AtomicWrite", "writers with faults", consts={"Writers": vlib.Raw("{1, 2, 3}" if THOROUGH else "{1, 2}"), "Chunks": 2, "HadOld": old, "Faulty": True},
                        cfg_kwargs=dict(spec="Spec", invariants=["Whole", "Earned", "OkWrote", "LastWins", "NoLitter", "ModeKept"],
                                        properties=["Atomic", "NeverBack", "Ends"]))
        ck.add(states=r.distinct)
    _job.update(exe=exe)
    S = scenarios()
    jobs = [("faults", n, SEED * 100 + i) for i, n in enumerate(S)]
    jobs += [("pairs", n, SEED * 100 + 50 + i) for i, n in enumerate(("absent", "old", "symlink"))]
    jobs += [("mix", n, SEED * 100 + 60 + i) for i, n in enumerate(("absent", "readonly", "user", "longer", "dangling", "directory"))]
    recs = [x for part in pmap(_work, jobs, chunk=1) for x in part]
    bad = judge(recs)
    for i in bad:
        d, r = recs[i]
        ck.violation("an atomic write was observed to do what the specification forbids", dict(d, events=r["ev"]))
    # every write without a fault that can succeed did
    for d, r in recs:
        if not d["faults"] and len(d["results"]) == 1:
            want = {"directory": "err", "too-long-name": "err", "no-parent": "err", "user-denied": "err"}.get(d["scenario"], "ok")
            if d["results"] != [want]:
                ck.violation("an atomic write without faults ended otherwise than expected", d)
    odd_paths(exe, ck)
    ck.add(runs_observed=len(recs), system_calls_observed=sum(len(r["ev"]) for _, r in recs), scenarios=len(S),
           killed=sum(1 for d, _ in recs if "dead" in d["results"]), failed=sum(1 for d, _ in recs if "err" in d["results"]),
           succeeded=sum(1 for d, _ in recs if "ok" in d["results"]))
    for i in random.Random(SEED).sample(range(len(recs)), 3):
        ck.sample({k: recs[i][0][k] for k in ("scenario", "faults", "results")})
    return ck.finish()
