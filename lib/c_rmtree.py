"""C15: removing trees. RmTree.tla enumerates small trees with links; the real removals of each are judged by RmJudge.tla.

The removing process is always uid 65534 and owns nothing but its scratch files; "root" is root of a user
namespace in which only that uid exists."""
import json, os, random, shutil, stat, subprocess, tempfile
import vlib
from vlib import THOROUGH, SEED, Check, ToolError, run_tlc, tlc_checked, pmap
from c_paths import Batch, hx

UID = 65534
MODE = {"f": 0o644, "r": 0o444, "d": 0o755, "o": 0o555, "x": 0o300}
_job = {}


def drop():
    os.setgroups([])
    os.setresgid(UID, UID, UID)
    os.setresuid(UID, UID, UID)


def ns_root():
    drop()
    os.unshare(os.CLONE_NEWUSER)
    for f, t in (("setgroups", "deny"), ("uid_map", f"0 {UID} 1"), ("gid_map", f"0 {UID} 1")):
        with open("/proc/self/" + f, "w") as h:
            h.write(t)


def have_ns():
    return subprocess.run(["true"], preexec_fn=drop).returncode == 0 and \
        subprocess.run(["python3", "-c", "import sys; sys.path.insert(0, %r); import c_rmtree; c_rmtree.ns_root()" % os.path.dirname(os.path.abspath(__file__))],
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0


NAMES = ["a", "b b", "lock2", ".lock", "\u00e9", "-rf", "lock.", "x\ny", "*", "lockk"]


def build(w, t, rng):
    """Makes the tree under w; node -> path."""
    names = rng.sample(NAMES, len(NAMES))
    n = len(t["par"])
    at = {0: w, 2: f"{w}/out-file", 3: f"{w}/out-dir", 4: f"{w}/out-dir/in", 1: f"{w}/named"}
    for i in range(5, n + 1):
        at[i] = at[t["par"][i - 1]] + "/" + names[i % len(names)]
    for i in sorted(at):
        if i == 0:
            continue
        k = t["kind"][i - 1]
        if k in "fr":
            with open(at[i], "w") as f:
                f.write(f"content of {i}")
        elif k in "dox":
            os.mkdir(at[i])
        else:
            g = t["tgt"][i - 1]
            to = at.get(g, w + "/nothing") if g else w + "/nothing"
            os.symlink(to if rng.random() < .5 else os.path.relpath(to, os.path.dirname(at[i])), at[i])
    if t["op"] == "siblings":
        with open(at[1] + "/lock", "w") as f:
            f.write("the lock")
    for r, ds, fs in os.walk(w, topdown=False):
        for x in ds + fs:
            os.lchown(os.path.join(r, x), UID, UID)
    for i in sorted(at, reverse=True):
        k = t["kind"][i - 1] if i else ""
        if k in MODE:
            os.chmod(at[i], MODE[k])
    return at


def snap(p):
    try:
        s = os.lstat(p)
    except FileNotFoundError:
        return None
    d = None
    if stat.S_ISREG(s.st_mode):
        d = open(p, "rb").read()
    elif stat.S_ISLNK(s.st_mode):
        d = os.readlink(p)
    return (stat.S_IFMT(s.st_mode), stat.S_IMODE(s.st_mode), s.st_uid, d)


def _work(job):
    seed, trees = job
    rng = random.Random(seed)
    bs = {}
    out = []
    try:
        for t in trees:
            u = t["user"]
            if u not in bs:
                bs[u] = Batch(_job["exe"], preexec=drop if u == "user" else ns_root, cwd="/")
            base = tempfile.mkdtemp(prefix="vrm_", dir="/tmp")
            try:
                os.chmod(base, 0o755)
                w = base + "/w"
                os.mkdir(w)
                at = build(w, t, rng)
                os.chown(w, UID, UID)
                before = {i: snap(p) for i, p in at.items() if i}
                if t["op"] == "siblings":
                    r = bs[u].call(op="siblings", p=hx(at[1]), q=hx("lock"))
                else:
                    p = at[1] + ("/" if t["kind"][0] == "d" and rng.random() < .1 else "")
                    r = bs[u].call(op={"tree": "remove_dir_all", "file": "remove_file"}[t["op"]], p=hx(p))
                after = {i: snap(p) for i, p in at.items() if i}
                dead = [i for i in after if after[i] is None]
                keep = [i for i in (2, 3, 4) if after[i] != before[i]]
                names = sorted(os.listdir(w))
                lock = t["op"] != "siblings" or snap(at[1] + "/lock") is not None and open(at[1] + "/lock").read() == "the lock"
                new = [x for x in names if x not in ("out-file", "out-dir", "named")]
                rec = dict(t, dead=dead, res=next(iter(r)), intact=not keep and lock and not new)
                out.append((rec, {"result": r, "changed_outside": {i: [before[i], after[i]] for i in keep}, "lock_kept": lock, "new": new,
                                  "paths": {i: p[len(base):] for i, p in at.items()}}))
                if "died" in r:
                    bs.pop(u)
            finally:
                subprocess.run(["chmod", "-R", "u+rwX", base], stderr=subprocess.DEVNULL)
                shutil.rmtree(base)
    finally:
        for b in bs.values():
            b.close()
    return out


def tlc(n, ops, explore, roots=("d", "o", "l", "f"), inner=("f", "r", "d", "o", "x", "l"), users=("user", "root")):
    return tlc_checked("RmTree", "small trees", emit=True, timeout=700, mem="6g",
                       consts=dict(N=n, RootKinds=set(roots), InnerKinds=set(inner), Ops=set(ops), Users=set(users), Explore=explore),
                       cfg_kwargs=dict(spec="Spec", invariants=["Outside", "ClosedUpwards", "OkIsAll", "RootCanAll", "LockDirStays", "EmitInv"],
                                       properties=["Ends"] if explore else []))


def run(prop):
    exe = vlib.build("fsx", ["fsx"])
    ck = Check(prop, "model_checking")
    rng = random.Random(SEED)
    _job["exe"] = exe
    ns = have_ns()
    if not ns:
        ck.assumptions.append("no user namespace: removals with the power over permissions were not run")
    trees = []
    for n, ops, explore, roots in ((4, ["tree", "file"], True, "doflxr"), (5, ["tree", "siblings"], True, "dol"), (6, ["tree", "siblings"], True, "do")):
        r = tlc(n, ops, explore, roots)
        ck.add(states=r.distinct, trees=len(r.prints))
        trees += r.prints
    r = tlc(7, ["tree", "siblings"], False, "d", ("f", "d", "o", "l"), ("user",) if not THOROUGH else ("user", "root"))
    ck.add(trees=len(r.prints))
    more = rng.sample(r.prints, min(len(r.prints), 40000 if THOROUGH else 2500))
    if not THOROUGH and len(trees) > 5000:
        small = [t for t in trees if len(t["par"]) <= 5]
        trees = small + rng.sample([t for t in trees if len(t["par"]) > 5], 5000)
    trees += more
    if not ns:
        trees = [t for t in trees if t["user"] == "user"]
    jobs = [(SEED * 77 + i, trees[i:i + 100]) for i in range(0, len(trees), 100)]
    recs = [x for part in pmap(_work, jobs, chunk=1) for x in part]
    ok = set()
    for i in range(0, len(recs), 10000):
        part = [r for r, _ in recs[i:i + 10000]]
        j = run_tlc("RmJudge", emit=True, workers=1, files=[("traces.json", json.dumps(part))], mem="6g",
                    consts=dict(N=4, RootKinds={"d"}, InnerKinds={"d"}, Ops={"tree"}, Users={"user"}, Explore=True),
                    cfg_kwargs=dict(init="JInit", next_="JNext", invariants=["Report"]))
        if not j.ok:
            raise ToolError("RmJudge could not judge:\n" + j.out[-3000:])
        ok |= {p["acc"] - 1 + i for p in j.prints}
    for i in range(len(recs)):
        if i not in ok:
            ck.violation("a removal left behind what the specification does not allow", dict(tree=recs[i][0], **recs[i][1]))
    ck.add(removals=len(recs), failed=sum(1 for r, _ in recs if r["res"] == "err"), with_links=sum(1 for r, _ in recs if "l" in r["kind"]))
    for i in rng.sample(range(len(recs)), 3):
        ck.sample(recs[i][0])
    return ck.finish()
