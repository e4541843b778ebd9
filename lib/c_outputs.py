"""C35: where an export is written to. All short patterns of Outputs.tla, for documents here and there, with awkward names, by the real code."""
import json
import random
import subprocess
import vlib
from vlib import THOROUGH, SEED, Check, ToolError, tlc_checked

NAMES = ["a", "main.typ", "a.b.typ", "sp ace", "\u00fcn\u00ef", "$root", "$dir", "$name", "a$name", "x$dir.typ", "$", "$$", "100%", "a\\b", "...", ".hid", "{n}", "$names"]
OWN = ["x", "v1.0", "\u00fc", "out put", "%20", "Name", "dir", "{name}", "-", "x$", "$x", "$ROOT", "$Dir"]


def render(c, names):
    return "".join(names.get(x, x) for x in c)


def run(prop):
    exe = vlib.build("proj", ["texts"])
    ck = Check(prop, "model_checking")
    rng = random.Random(SEED)
    r = tlc_checked("Outputs", "where exports go", emit=True, workers=1, consts=dict(N=6 if THOROUGH else 5),
                    cfg_kwargs=dict(spec="Spec", invariants=["Begins", "Inside", "Own", "EmitInv"]))
    ck.add(states=r.distinct)
    orders, due = [], []
    for p in r.prints:
        for k in range(3 if THOROUGH or len(p["pat"]) < 5 else 1):
            names = dict(zip("rden", rng.sample(NAMES, 4) if k else ["root", "sub", "e", "doc.typ"]))
            names["x"] = rng.choice(OWN) if k else "x"
            # What a name and a dot next to it make is no component of dots.
            pat = "".join(names["x"] if t == "x" else t for t in p["pat"])
            if names["x"].endswith("$") and any(a == "x" and b == "x" for a, b in zip(p["pat"], p["pat"][1:])):
                continue
            # Some names make other variables of what comes next to them.
            toks = []
            rest = pat
            while rest:
                t = next((v for v in ("$root", "$dir", "$name") if rest.startswith(v)), rest[0])
                toks.append(t)
                rest = rest[len(t):]
            if [t for t in toks if len(t) > 1] != [t for t in p["pat"] if t[0] == "$"]:
                continue
            at = [render(c, names) for c in p["is"]["at"]]
            # Names of dots next to dots of the pattern.
            text = [c for c in at]
            if any(set(c) == {"."} and c != ".." for c in text) or any(c == ".." for c, q in zip(text, p["is"]["at"]) if q != [".."]):
                continue
            orders.append([pat, "/" + names["r"], "/" + "/".join([names[d] for d in p["dir"]] + [names["n"]])])
            due.append(("/" if p["is"]["abs"] else "") + "/".join(at) or ".")
    out = subprocess.run([exe], input="".join(json.dumps(dict(outputs=orders[i:i + 500])) + "\n" for i in range(0, len(orders), 500)), stdout=subprocess.PIPE, text=True)
    seen = [x for l in out.stdout.split("\n") if l for x in json.loads(l)]
    if out.returncode or len(seen) != len(orders):
        raise ToolError("the driver failed")
    for o, d, s in zip(orders, due, seen):
        ck.add(patterns=1)
        if s != d:
            ck.violation("an export goes elsewhere than its pattern says", dict(pattern=o[0], root=o[1], document=o[2], due=d, seen=s))
    ck.sample(dict(pattern=orders[-1][0], root=orders[-1][1], document=orders[-1][2], seen=seen[-1]))
    return ck.finish()
