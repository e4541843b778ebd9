"""C36: the root of a document. Every transition of Roots.tla, each with a way to it, and random histories, performed by the real resolver
on real directories; what the model answers is what it answers."""
import json
import os
import random
import shutil
import subprocess
import tempfile
import vlib
from vlib import THOROUGH, SEED, Check, ToolError, run_tlc, tlc_checked

INV = dict(properties=["Whole", "Configured", "Folders", "Disk", "Again", "Kept"])
NAMES = ["a", "b.typ", "sp ace", "\u00fc", ".hid", "typst.toml.d", "a\\b", "x y.z", "$dir", "100%", "~", "#"]


def opt(x):
    return None if x == ["-"] else x


def run(prop):
    exe = vlib.build("proj", ["texts"])
    ck = Check(prop, "model_checking")
    consts = dict(Forgets=False)
    r = tlc_checked("Roots", "what holds of roots", consts=consts, cfg_kwargs=dict(spec="Spec", **INV))
    ck.add(states=r.distinct)
    bad = run_tlc("Roots", consts=dict(consts, Forgets=True), cfg_kwargs=dict(spec="Spec", properties=["Again"]))
    if not bad.violated:
        raise ToolError("the model holds with Forgets")
    ck.add(faults_shown=1)
    r = run_tlc("RootsMC", emit=True, consts=consts, cfg_kwargs=dict(spec="MCSpec", view="View", action_constraint="Emit"))
    if not r.ok:
        raise ToolError(r.out[-2000:])
    keys = {json.dumps(w) for w in r.prints}
    begun = {json.dumps(dict(w, way=w["way"][:-1])) for w in r.prints}
    ways = [json.loads(k) for k in sorted(keys - begun)]
    r = run_tlc("RootsMC", emit=True, consts=consts, cfg_kwargs=dict(spec="MCSpec", action_constraint="AtEnd"),
                extra=["-simulate", f"num={20000 if THOROUGH else 400}", "-depth", "41", "-seed", str(SEED)])
    ways += r.prints
    ck.add(transitions=len(keys), ways=len(ways))
    scratch = os.path.realpath(tempfile.mkdtemp(prefix="roots"))
    try:
        go(ck, exe, ways, scratch, random.Random(SEED))
    finally:
        shutil.rmtree(scratch)
    return ck.finish()


def go(ck, exe, ways, scratch, rng):
    orders, where = [], []
    kinds = [rng.sample(NAMES, 5) for _ in range(100)]
    for i, w in enumerate(ways):
        # There can only be so many different files in one process.
        k = 0 if i % 4 else 1 + i // 4 % len(kinds)
        base = os.path.join(scratch, str(k))
        names = dict(zip("wvsfg", kinds[k - 1] if k else "wvsfg"))
        at = lambda p, base=base, names=names: None if p is None or p == ["-"] else "/".join([base] + [names[x] for x in p])
        where.append((base, names, at))
        steps = []
        for s in w["way"]:
            a = s["act"]
            steps.append(dict(op=a["op"], dir=at(a["dir"]), on=a["on"]) if a["op"] == "toml" else dict(op=a["op"], f=at(a.get("f")), g=at(a.get("g"))))
        d = w["cfg"]["default"]
        default = None if opt(d["path"]) is None else "/".join(names[x] for x in d["path"]) if d["rel"] else at(d["path"])
        orders.append(dict(roots=dict(dirs=[at(x) for x in ([], ["w"], ["w", "s"], ["v"])], root=at(w["cfg"]["root"]), roots=[at(r) for r in w["cfg"]["roots"]], default=default, steps=steps)))
    out = subprocess.run([exe], input="".join(json.dumps(o) + "\n" for o in orders), stdout=subprocess.PIPE, text=True)
    seen = [json.loads(l) for l in out.stdout.split("\n") if l]
    if out.returncode or len(seen) != len(orders):
        raise ToolError("the driver failed")
    for w, o, (base, names, at), answers in zip(ways, orders, where, seen):
        rel = lambda p, names=names: "/".join(names[x] for x in p)
        for i, (s, a) in enumerate(zip(w["way"], answers)):
            ck.add(steps=1)
            g = s["got"]
            due = {}
            if s["act"]["op"] != "toml":
                if "answer" in g:
                    due["answer"] = at(g["answer"])
                if "default" in g:
                    due["default"] = at(g["default"])
                e = g["entry"]
                if "error" in e:
                    due["entry"] = "error"
                else:
                    root, main = at(e["root"]), opt(e["main"])
                    due["entry"] = dict(root=root, main=None if main is None else rel(main), lock=root, single=None)
            if due != a:
                ck.violation("the root of a document is another one", dict(order=o, step=i, due=due, seen=a, base=base))
                break
    ck.sample(dict(cfg=ways[-1]["cfg"], way=ways[-1]["way"][:6]))
