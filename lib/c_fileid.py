"""C25: file identities and compilation entries. PathOps.tla enumerates paths, FileIdJudge.tla judges what the real functions give."""
import json, random, subprocess
import vlib
from vlib import THOROUGH, SEED, Check, ToolError, run_tlc, tlc_checked, pmap
from c_paths import NAMESETS, render, judge

_job = {}
PKG = [("@preview/x:0.1.0", ["pkg", "x", "0.1.0"], False), ("@local/x:0.1.0", ["pkg", "x", "0.1.0"], False),
       ("@preview/missing:1.0.0", ["pkg", "missing", "1.0.0"], True)]


def entries(cmds):
    p = subprocess.run([_job["exe"], "entries"], input="".join(json.dumps(c) + "\n" for c in cmds), stdout=subprocess.PIPE,
                       stderr=subprocess.DEVNULL, text=True)
    out = [json.loads(l) for l in p.stdout.split("\n") if l]
    return out if len(out) == len(cmds) else out + [{"died": p.returncode}] * (len(cmds) - len(out))


def back(names, text):
    """Components of a path that came back. Unknown ones stay as they are."""
    m = {names[0]: "a", names[1]: "b"}
    return [m.get(c, c) for c in text.split("/") if c]


def at(names, a):
    if a is None or "cls" in a:
        a = a and a["at"]
    if "path" in a:
        return dict(t="path", c=back(names, a["path"]))
    if "rootless" in a:
        return dict(t="rootless", c=back(names, a["rootless"]))
    return dict(t={-1: "denied", -5: "package"}.get(a["e"], str(a["e"])), c=[])


def state(names, s):
    o = dict(hasmain=s["main"] is not None, mainat=at(names, s["main"]) if s["main"] else dict(t="none", c=[]),
             hasroot=s["root"] is not None, rootc=back(names, s["root"] or ""), haswsroot=s["wsroot"] is not None,
             wsrootc=back(names, s["wsroot"] or ""), inactive=s["inactive"], detached=s["detached"], pkg=s["pkg"])
    return o


def _ids(job):
    cmds, keep = [], []
    for seed, tag in job:
        rng = random.Random(seed)
        names = [n + (f" {tag}" if i == 0 else "") for i, n in enumerate(rng.choice(NAMESETS))]
        few = rng.sample(_job["abs"], 3) + [[]]
        vs = rng.sample(_job["rel"], 4) + [[], ["a"]]
        items, files = [], []
        for _ in range(rng.choice([8, 20])):
            k = rng.choice(["ws", "ws", "ws", "untitled", "rootless", "pkg"])
            v = rng.choice(vs)
            text = ("/" if rng.random() < .5 else "") + render(rng, False, v, names).lstrip("/")
            if k == "pkg":
                spec, r, missing = rng.choice(PKG)
                files.append(dict(k=k, pkg=spec, v=text))
                items.append(dict(k=k, hasroot=False, r=r if spec.startswith("@preview") or missing else r, pkg=spec, v=v, missing=missing))
                continue
            r = rng.choice(few)
            root = render(rng, True, r, names) if k != "rootless" and rng.random() < .85 else None
            if root is not None and rng.random() < .3 and r:
                # Another spelling of the same place.
                i = rng.randrange(len(r) + 1)
                r = r[:i] + rng.choice([["."], ["a", ".."], ["b", ".."]]) + r[i:]
                root = render(rng, True, r, names)
            files.append(dict(k=k, root=root, v=text))
            items.append(dict(k=k, hasroot=root is not None, r=r if root is not None else [], v=v, missing=False, pkg=""))
        cmds.append(dict(op="ids", threads=rng.choice([1, 2, 4]), files=files))
        keep.append((names, items))
    recs = []
    for c, (names, items), got in zip(cmds, keep, entries(cmds)):
        if not isinstance(got, list):
            recs.append((None, dict(command=c, got=got)))
            continue
        out = []
        for l in got:
            for x, g in zip(items, l):
                x = dict(x)
                # Packages of two namespaces are kept where the resolver says; they are two packages.
                r = g["root"]
                x.update(cls=g["cls"], ws=g["ws"], pk=g["pk"], toerr=g["to_err"], at=at(names, g["at"]),
                         aspath=back(names, g["as_path"] or ""), shown=back(names, g["shown"]),
                         rt=dict(t={-1: "denied", -5: "package"}.get(r["e"], "?"), c=[]) if "e" in r
                         else dict(t="path", c=back(names, r["r"])) if r["r"] is not None else dict(t="none", c=[]))
                out.append(x)
        recs.append((dict(op="ids", items=out), dict(command=c, got=got)))
    return recs


def _entry(job):
    cmds, keep = [], []
    for seed, p in job:
        rng = random.Random(seed)
        names = rng.choice(NAMESETS)
        for op in ("make", "parent", "file_parent", "select", "try", "try", "try", "opts"):
            r = rng.choice(_job["abs"]) if rng.random() < .7 else p[:rng.randrange(len(p) + 1)]
            if op == "try" and rng.random() < .7:
                r = [c for c in r if c not in (".", "..")]
            if op == "try" and rng.random() < .5:
                q = r + [c for c in p if c not in ("..",)][:2] + (["a"] if rng.random() < .5 else [])
            else:
                q = p
            v = rng.choice(_job["rel"])
            c = dict(op=op)
            x = dict(op=op, r=r, v=v, p=q, abs=True)
            if op in ("make", "select", "try"):
                x["from"] = c["from"] = rng.choice(["detached", "workspace", "rooted", "rootless", "by_id"] if op == "make" else
                                                   ["detached", "workspace", "workspace", "rooted", "rootless"])
                c.update(root=render(rng, True, r, names), main=render(rng, False, v, names), path=render(rng, op == "try", q, names))
                if c["from"] == "by_id":
                    c["id"] = rng.choice([dict(k="ws", root="/elsewhere", v=c["main"]), dict(k="pkg", pkg=PKG[0][0], v=c["main"]), dict(k="rootless", v=c["main"])])
            elif op in ("parent", "file_parent"):
                x["abs"] = op == "parent" or rng.random() < .8
                c["path"] = render(rng, x["abs"], q, names)
                if not x["abs"]:
                    c["path"] = c["path"].lstrip("/")
            else:
                f = rng.choice(["detached", "workspace", "rooted", "from_rootless", "by_parent"])
                x["from"], c["from"] = f, {"from_rootless": "rootless"}.get(f, f)
                x["abs"] = rng.random() < .8
                c.update(root=render(rng, True, r, names), main=render(rng, f != "rooted" and x["abs"], v if f == "rooted" else q, names))
            cmds.append(c)
            keep.append((names, x))
    recs = []
    for c, (names, x), got in zip(cmds, keep, entries(cmds)):
        if isinstance(got, dict) and ("panicked" in got or "died" in got):
            recs.append((None, dict(command=c, got=got)))
            continue
        x.update(some=got is not None and "err" not in got, err=got is not None and "err" in got)
        if x["some"]:
            if x["op"] == "file_parent":
                x["mainat"] = at(names, got["at"])
            else:
                x["got"] = state(names, got)
        recs.append((x, dict(command=c, got=got)))
    return recs


def run(prop):
    _job["exe"] = vlib.build("core", ["vfs"])
    ck = Check(prop, "model_checking")
    rng = random.Random(SEED)
    n = 5 if THOROUGH else 4
    g = tlc_checked("PathOps", "paths", emit=True, consts=dict(Names={"a", "b"}, MaxLen=n),
                    cfg_kwargs=dict(spec="Spec", invariants=["EmitInv", "CanonDenotes", "CanonIsCanon", "CanonUnique"]))
    paths = [(p["a"], p["c"]) for p in g.prints]
    ck.add(paths=len(paths))
    _job["abs"] = [c for a, c in paths if a]
    _job["rel"] = [c for a, c in paths if not a]
    k = 6000 if THOROUGH else 700
    jobs = [(SEED * 100000 + i, f"{SEED}.{i}") for i in range(k)]
    recs = [x for l in pmap(_ids, [jobs[i:i + 25] for i in range(0, k, 25)], chunk=1) for x in l]
    jobs = [(SEED * 7 + i, p) for i, p in enumerate(_job["abs"] * (3 if THOROUGH else 2))]
    recs += [x for l in pmap(_entry, [jobs[i:i + 50] for i in range(0, len(jobs), 50)], chunk=1) for x in l]
    good = []
    for x, d in recs:
        if x is None:
            ck.violation("a file id could not be made", d)
        else:
            good.append((x, d))
    ops = {}
    for x, _ in good:
        ops[x["op"]] = ops.get(x["op"], 0) + 1
    parts = [good[i:i + 800] for i in range(0, len(good), 800)]
    for part, bad in zip(parts, pmap(_judge, [[x for x, _ in p] for p in parts], procs=6, chunk=1)):
        for i in bad:
            ck.violation("a file id or entry is not what its root and path say", dict(record=part[i][0] if part[i][0]["op"] != "ids" else None, **part[i][1]))
    ck.add(**ops)
    ck.sample(good[-1][0] if good else None)
    ck.assumptions.append("typst's VirtualPath and FileId are stand-ins that behave as typst 0.13 does; paths are judged lexically")
    return ck.finish()


def _judge(part):
    return judge("FileIdJudge", part, consts=dict(Names={"a"}, MaxLen=0), cfg_kwargs=dict(spec="Spec"))
