"""C34: in which document a file is worked on. Histories of Owner.tla performed with the real server code on real lock files."""
import json
import random
import vlib
from vlib import THOROUGH, SEED, Check, ToolError, run_tlc, tlc_checked
from c_proj import Drivers

FILES = ["a", "b", "s/x", "s/y"]


class Way:
    def __init__(self, way, rng):
        self.way = way
        self.steps, self.at = [dict(op="mkdir", f="s")], []
        n = self.name = {f: f + rng.choice(["", "", ".typ", ":c.typ", "%20", "\u00fc.t"]) for f in FILES}
        # Exporting what has errors notes it all the same.
        word = {f: f.replace("/", "") for f in FILES}
        self.steps += [dict(op="open", f=n[f], t=word[f]) for f in FILES]
        for w in way:
            if w["op"] == "edit":
                g = w["g"]
                g = "" if g == "none" else " include:" + (n[g][2:] if w["f"].startswith("s/") else n[g])
                t = word[w["f"]] + g + (" error:e" if rng.random() < .2 else "")
                self.steps.append(dict(op="edit", f=n[w["f"]], changes=[dict(t=t)]))
            else:
                self.steps += [dict(op="focus", f=n[w["f"]])] * (w["op"] == "export") + [dict(op="remember", dir=w["dir"], f=n[w["f"]])]
            self.at.append({f: len(self.steps) + i for i, f in enumerate(FILES)})
            self.steps += [dict(op="task", f=n[f]) for f in FILES]

    def order(self):
        return json.dumps(dict(cfg=dict(lint="never", export="never"), disk={}, steps=self.steps))


# b is exported while a is the main document, of which it has nothing.
OTHER = dict(op="export other", dir=".", f="b", due={f: dict(dir="." if f == "b" else "none", main=f) for f in FILES})


def run(prop):
    exe = vlib.build("proj", ["proj"])
    ck = Check(prop, "model_checking")
    rng = random.Random(SEED)
    r = tlc_checked("OwnerMC", "who owns what", consts=dict(Len0=7 if THOROUGH else 5),
                    cfg_kwargs=dict(spec="Spec", view="View", invariants=["Once", "Own"], properties=["Takes", "Stays"]))
    ck.add(states=r.distinct)
    r = run_tlc("OwnerMC", emit=True, consts=dict(Len0=4), cfg_kwargs=dict(spec="Spec", view="View", action_constraint="Emit"))
    if not r.ok:
        raise ToolError(r.out[-2000:])
    ways = [w for w in r.prints if w[-1]["op"] == "export"]
    ways = rng.sample(ways, min(len(ways), 4000 if THOROUGH else 400))
    r = run_tlc("OwnerMC", emit=True, consts=dict(Len0=14), cfg_kwargs=dict(spec="Spec", action_constraint="All"),
                extra=["-simulate", f"num={2000 if THOROUGH else 300}", "-depth", "15", "-seed", str(SEED)])
    ways += rng.sample(r.prints, min(len(r.prints), 4000 if THOROUGH else 300))
    ways = [Way(w, rng) for w in ways]
    known = Way([OTHER], rng)
    i = known.steps.index(dict(op="remember", dir=".", f=known.name["b"]))
    known.steps[i:i] = [dict(op="focus", f=known.name["a"]), dict(op="quiesce")]
    known.at = [{f: k + 2 for f, k in at.items()} for at in known.at]
    ways.append(known)
    ck.add(ways=len(ways))
    for w, out in zip(ways, Drivers(exe).perform(ways)):
        if out is None:
            raise ToolError("the driver failed: " + w.order())
        bad = next((o["panic"] for o in out if "panic" in o), None)
        if bad:
            ck.violation("the server panicked", dict(way=w.way, panic=bad))
            continue
        for s, at in zip(w.way, w.at):
            got = {f: out[i]["task"] for f, i in at.items()}
            norm = lambda p: "/".join(x for x in p.split("/") if x not in ("", ".")) or "."
            wrong = {f: (s["due"][f], got[f]) for f in FILES if norm(got[f]["main"]) != w.name[s["due"][f]["main"]]
                     or s["due"][f]["dir"] != "none" and norm(got[f]["root"]) != s["due"][f]["dir"]}
            ck.add(steps=1)
            if wrong:
                ck.violation("a file is worked on in another document than the one it was exported in last", dict(steps=w.steps, file=sorted(wrong)[0], due_and_seen=wrong, **(dict(finding_key="exported while another is the main document") if w is known else {})))
                break
    ck.sample(dict(way=ways[-1].way))
    return ck.finish()
