"""C16: path functions. PathOps.tla enumerates the paths, PathJudge.tla judges what the real functions return."""
import json, os, random, subprocess
import vlib
from vlib import THOROUGH, SEED, Check, ToolError, run_tlc, tlc_checked

NAMESETS = [("a", "b"), ("b c", "\u00e9"), ("...", "..a"), (".b", "a."), ("x" * 60, "a..b"), ("-", "\\"), ("a\n", "~")]


class Batch:
    """fsx batch: one JSON command per line, one result per line."""

    def __init__(self, exe, preexec=None, env=None, cwd=None):
        self.p = subprocess.Popen([exe, "batch"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True,
                                  preexec_fn=preexec, env=env, cwd=cwd)

    def call(self, **c):
        c["flush"] = True
        self.p.stdin.write(json.dumps(c) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            return {"died": self.p.wait()}
        return json.loads(line)

    def close(self):
        self.p.stdin.close()
        return self.p.wait()


def batch(exe, cmds, env=None):
    p = subprocess.run([exe, "batch"], input="".join(json.dumps(c) + "\n" for c in cmds), stdout=subprocess.PIPE, text=True, env=env)
    out = [json.loads(l) for l in p.stdout.split("\n") if l]
    if p.returncode or len(out) != len(cmds):
        return out, p.returncode
    return out, 0


def hx(s):
    return (s if isinstance(s, bytes) else os.fsencode(s)).hex()


def render(rng, a, cs, names):
    """A text for the path: separators doubled here and there, perhaps a trailing one."""
    sep = lambda: "/" * (1 if rng.random() < .8 else rng.randrange(2, 4))
    m = {"a": names[0], "b": names[1]}
    parts = [m.get(c, c) for c in cs]
    t = (sep() if a else "")
    for i, p in enumerate(parts):
        t += (sep() if i else "") + p
    if parts and rng.random() < .2:
        t += sep()
    return t


def parse(text, names):
    back = {names[0]: "a", names[1]: "b"}
    a = text.startswith("/")
    return a, [back.get(c, "?" + c if c not in (".", "..") else c) for c in text.split("/") if c]


def unhex(h):
    return os.fsdecode(bytes.fromhex(h))


def judge(module, records, **kw):
    bad = []
    parts = [records[i:i + 20000] for i in range(0, len(records), 20000)]
    for k, part in enumerate(parts):
        r = run_tlc(module, emit=True, files=[("traces.json", json.dumps(part))], workers=1, **kw)
        if not r.ok or not r.prints:
            raise ToolError(f"{module} could not judge:\n{r.out[-3000:]}")
        if r.prints[0]["n"] != len(part):
            raise ToolError("judge read another number of records")
        bad += [i - 1 + k * 20000 for i in r.prints[0]["bad"]]
    return sorted(bad)


def run(prop):
    exe = vlib.build("fsx", ["fsx"])
    ck = Check(prop, "model_checking")
    rng = random.Random(SEED)
    n1, n2 = (6, 4) if THOROUGH else (5, 3)
    consts = lambda n: {"Names": {"a", "b"}, "MaxLen": n}
    invs = ["Denotes", "CanonDenotes", "CanonIsCanon", "CanonFixed", "NoDotDenotes", "CanonUnique"]
    r = tlc_checked("PathOps", "all short paths", consts=consts(n1), emit=True,
                    cfg_kwargs=dict(spec="Spec", invariants=invs + ["EmitInv"], properties=["Resolution"]))
    ones = [(p["a"], p["c"]) for p in r.prints]
    short = [p for p in ones if len(p[1]) <= n2]
    ck.add(states=r.distinct, paths=len(ones))
    cmds, recs = [], []

    def add(cmd, rec):
        cmds.append(cmd)
        recs.append(rec)

    for a, c in ones:
        names = NAMESETS[0] if rng.random() < .4 else rng.choice(NAMESETS)
        t = render(rng, a, c, names)
        for op in ("clean", "normalize", "unix_slash"):
            add({"op": op, "p": hx(t)}, {"op": op, "a": a, "c": c, "names": names, "t": t})
        # a stop: one of its ancestors, itself, something else, none
        k = rng.randrange(4)
        qa, qc = (a, c[:rng.randrange(len(c) + 1)]) if k < 2 else rng.choice(short)
        add({"op": "ancestors", "p": hx(t), **({"q": hx(render(rng, qa, qc, names))} if k else {})},
            {"op": "ancestors", "a": a, "c": c, "qa": qa, "qc": qc, "stop": k > 0, "names": names, "t": t})
    pairs = [(p, q) for p in short for q in short]
    if len(pairs) > 120000:
        pairs = rng.sample(pairs, 120000)
    for (a, c), (qa, qc) in pairs:
        names = NAMESETS[0] if rng.random() < .6 else rng.choice(NAMESETS)
        t, u = render(rng, a, c, names), render(rng, qa, qc, names)
        add({"op": "diff", "p": hx(t), "q": hx(u)}, {"op": "diff", "a": a, "c": c, "qa": qa, "qc": qc, "names": names, "t": t, "u": u})
    env = {k: v for k, v in os.environ.items() if k != "__CARGO_TEST_ROOT"}
    out, rc = batch(exe, cmds, env)
    if rc:
        ck.violation("a path function ends the process", {"cmd": cmds[len(out)], "status": rc})
        return ck.finish()
    # the cleaned paths once more
    again = [i for i, r in enumerate(recs) if r["op"] in ("clean", "normalize") and isinstance(out[i], str)]
    out2, rc = batch(exe, [{"op": recs[i]["op"], "p": out[i]} for i in again], env)
    twice = dict(zip(again, out2))
    judged, ix = [], []
    for i, (rec, o) in enumerate(zip(recs, out)):
        d = {k: rec[k] for k in ("op", "a", "c", "qa", "qc", "stop") if k in rec}
        if isinstance(o, dict):
            ck.violation(f"{rec['op']} panics", {"path": rec["t"], "base": rec.get("u"), "panic": o})
            continue
        if rec["op"] == "ancestors":
            d["list"] = [dict(zip("ac", parse(unhex(x), rec["names"]))) for x in o]
        elif o is None:
            d.update(none=True, ra=False, rc=[])
        else:
            text = unhex(o)
            d["none"] = False
            d["ra"], d["rc"] = parse(text, rec["names"])
            d["again"] = i not in twice or twice[i] == o
            d["text"] = "//" not in text and (text == "/" or not text.endswith("/")) and text != ""
        judged.append(d)
        ix.append(i)
    for b in judge("PathJudge", judged, consts=consts(0), cfg_kwargs=dict(spec="Spec")):
        i = ix[b]
        got = [unhex(x) for x in out[i]] if isinstance(out[i], list) else out[i] and unhex(out[i])
        ck.violation(f"{recs[i]['op']} is not what the specification allows",
                     {"path": recs[i]["t"], "base": recs[i].get("u"), "got": got, "record": judged[b]})
    ck.add(results_judged=len(judged), by_op={o: sum(1 for d in judged if d["op"] == o) for o in {d["op"] for d in judged}})
    for i in rng.sample(range(len(recs)), 5):
        ck.sample({"op": recs[i]["op"], "path": recs[i]["t"], "got": out[i]})
    return ck.finish()
