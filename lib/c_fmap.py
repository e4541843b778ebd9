"""C17: fingerprint-keyed maps. FMap.tla's behaviours replayed; long and concurrent histories judged by
FMapSeq.tla and FMapTrace.tla."""
import json, random, subprocess
import vlib
from vlib import THOROUGH, SEED, Check, Graph, ToolError, run_tlc, tlc_checked, pmap

M64 = (1 << 64) - 1
SHARDS = [1, 2, 3, 5, 8, 9, 64, 511, 512, 513, 1000, 65536, 2**31, 2**31 + 1, 2**32 - 1, None]
_job = {}


def fp(lo, hi):
    return ((hi & M64) << 64 | lo & M64).to_bytes(16, "little").hex()


def families(rng):
    """Triples of distinct fingerprints, alike in different parts."""
    r = lambda: rng.getrandbits(64)
    lo, hi = r(), r()
    b = rng.randrange(64)
    return [
        [fp(lo, 0), fp(lo, 1), fp(lo, hi | 2)],                                   # same low half
        [fp(lo, hi), fp(lo ^ 1 << 32, hi), fp(lo ^ 1 << 63, hi)],                  # same lower 32 bits and high half
        [fp(lo, hi), fp(lo, hi ^ 1 << b), fp(lo ^ 1 << b, hi)],                    # one bit apart
        [fp(0, 0), fp(0, 1), fp(1, 0)],
        [fp(M64, M64), fp(M64, 0), fp(0, M64)],
        [fp(lo, hi), fp(hi, lo), fp(lo ^ hi, 0)],                                  # halves exchanged
        [fp(lo & ~0xffff, hi), fp(lo | 0xffff, hi), fp(lo ^ 0x8000, hi)],          # first and last shard
        [fp(511, hi), fp(512, hi), fp(1023, hi)],
        [fp(r(), r()), fp(r(), r()), fp(r(), r())],
    ]


def fmap(cmds):
    p = subprocess.run([_job["exe"], "fmap"], input="".join(json.dumps(c) + "\n" for c in cmds), stdout=subprocess.PIPE,
                       stderr=subprocess.DEVNULL, text=True)
    out = [json.loads(l) for l in p.stdout.split("\n") if l]
    return out, p.returncode


def _replay(job):
    """Walks on one map each; everything returned is compared with the specification's step."""
    cmds, want = [], []
    for shards, keys, walk in job:
        cmds.append(dict(op="new", shards=shards)); want.append(True)
        cur = {}
        for f, a, t in walk:
            c = dict(op=a["o"])
            if a["k"]:
                c.update(f=keys[a["k"] - 1], v=a["v"])
                want.append(a["r"])
            else:
                want.append(sorted([keys[i], v] for i, v in enumerate(f) if v))
            cmds.append(c)
        for o in ("slice", "items"):
            cmds.append(dict(op=o)); want.append(sorted([keys[i], v] for i, v in enumerate(walk[-1][2]) if v))
    got, rc = fmap(cmds)
    for i, (c, w) in enumerate(zip(cmds, want)):
        g = got[i] if i < len(got) else {"died": rc}
        if g != w:
            b = max(j for j in range(i + 1) if cmds[j]["op"] == "new")
            return len(cmds), dict(history=cmds[b:i + 1], got=g, expected=w)
    return len(cmds), None


def _long(job):
    seed, shards = job
    rng = random.Random(seed)
    n = 1100
    lo0, hi0 = rng.getrandbits(64) & ~0x7ff, rng.getrandbits(64)
    fs = [fp(lo0 + i, hi0) if i % 3 else fp(lo0 + i, rng.getrandbits(64)) for i in range(n)]
    back = {f: i + 1 for i, f in enumerate(fs)}
    cmds, hist = [dict(op="new", shards=shards)], []
    order = list(range(n))
    rng.shuffle(order)
    script = [("put", k, rng.randrange(1, 9)) for k in order]
    script += [("slice", 0, 0)]
    script += [(rng.choice(["get", "has", "has", "del", "ini", "put"]), rng.randrange(n), rng.randrange(1, 9)) for _ in range(900)]
    script += [("slice", 0, 0), ("items", 0, 0), ("slice", 0, 0)] + [("has", k, 0) for k in rng.sample(order, 20)]
    for o, k, v in script:
        c = dict(op=o)
        if o not in ("slice", "items"):
            c.update(f=fs[k], v=v)
        cmds.append(c)
    got, rc = fmap(cmds)
    for (o, k, v), g in zip(script, got[1:]):
        if isinstance(g, dict):
            return None, dict(shards=shards, op=o, got=g)
        if o in ("slice", "items"):
            hist.append(dict(o=o, k=0, v=0, r=0, l=[[back.get(f, 0), x] for f, x in g]))
        else:
            hist.append(dict(o=o, k=k + 1, v=v, r=g, l=[]))
    if len(got) != len(cmds):
        return None, dict(shards=shards, died=rc)
    return dict(keys=n, hist=hist), None


def _storm(job):
    seed, shards, threads, ops, keys = job
    got, rc = fmap([dict(op="storm", threads=threads, ops=ops, seed=seed, keys=keys, shards=shards)])
    if len(got) != 1 or "panic" in got[0]:
        return None, dict(got=got, rc=rc, job=job)
    g = got[0]
    back = {f: i for i, f in enumerate(keys)}
    fin = [0] * len(keys)
    for f, v in g["final"]:
        if f not in back or fin[back[f]]:
            return None, dict(final=g["final"], job=job, what="an entry that is not there, or twice")
        fin[back[f]] = v
    return dict(keys=len(keys), hist=[{k: h[k] for k in "okvrbe"} for h in g["hist"]], final=fin), None


def judge(module, recs, **kw):
    ok = set()
    r = run_tlc(module, emit=True, workers=1, mem="6g", files=[("traces.json", json.dumps(recs))],
                consts=dict(Keys={1}, Vals={1}), timeout=700,
                cfg_kwargs=dict(init="JInit", next_="JNext", invariants=["Report"]))
    if not r.ok:
        raise ToolError(f"{module} could not judge:\n{r.out[-3000:]}")
    stuck = {p["stuck"] - 1: p for p in r.prints if "stuck" in p}
    return {p["acc"] - 1 for p in r.prints if "acc" in p}, stuck


def run(prop):
    _job["exe"] = vlib.build("fsx", ["fsx"])
    ck = Check(prop, "model_checking")
    rng = random.Random(SEED)
    g = tlc_checked("FMap", "one map", emit=True, consts=dict(Keys={1, 2, 3}, Vals={1, 2}),
                    cfg_kwargs=dict(spec="Spec", view="View", invariants=["TypeOK"], properties=["Local", "Reads"], action_constraint="Emit"))
    graph = Graph(g.edges)
    ck.add(states=g.distinct, edges=len(graph.edges))
    reps = 12 if THOROUGH else 2
    jobs = []
    for rep in range(reps):
        for shards in SHARDS:
            for keys in families(rng):
                keys = rng.sample(keys, 3)
                jobs.append([(shards, keys, w) for w in graph.cover(rng, maxlen=60)])
    for n, bad in pmap(_replay, jobs, chunk=2):
        ck.add(operations=n)
        if bad:
            ck.violation("the map did not answer like one map", bad)
    longs, ls = [], []
    for rec, bad in pmap(_long, [(SEED * 31 + i, s) for i, s in enumerate(SHARDS * (4 if THOROUGH else 1))], chunk=1):
        if bad:
            ck.violation("a long history could not be performed", bad)
        else:
            longs.append(rec)
    ok, stuck = judge("FMapSeq", longs)
    for i in range(len(longs)):
        if i not in ok:
            ck.violation("the map did not answer like one map in a long history", stuck.get(i) or dict(index=i))
    ck.add(long_histories=len(longs), long_operations=sum(len(l["hist"]) for l in longs))
    jobs = []
    for i in range(2500 if THOROUGH else 240):
        keys = rng.choice(families(rng))
        jobs.append((SEED * 1000 + i, rng.choice([1, 2, 8, 512]), rng.randrange(2, 7), rng.randrange(4, 12), rng.sample(keys, rng.randrange(1, 4))))
    storms = []
    for rec, bad in pmap(_storm, jobs, chunk=8):
        if bad:
            ck.violation("a concurrent history could not be performed", bad)
        else:
            storms.append(rec)
    ok, _ = judge("FMapTrace", storms)
    for i in range(len(storms)):
        if i not in ok:
            ck.violation("a concurrent history is not linearizable", storms[i])
    ck.add(concurrent_histories=len(storms), overlapping=sum(1 for s in storms if any(a["b"] < b["b"] < a["e"] for a in s["hist"] for b in s["hist"])))
    ck.sample(storms[0]["hist"][:6] if storms else None)
    ck.assumptions.append("interleavings of concurrent operations are those the machine produced")
    return ck.finish()
