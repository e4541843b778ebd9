"""C32: which document is the main one. Every transition of Focus.tla, each with a way to it, and random histories, performed with the real
server code; what the model says is what is to be seen."""
import json
import vlib
from vlib import THOROUGH, SEED, Check, ToolError, run_tlc, tlc_checked
from c_proj import Drivers

INV = dict(invariants=["Place"], properties=["Stay", "PreviewStays", "DefaultStays", "Told", "Follows", "Released", "TellsFocus"])


class Way:
    def __init__(self, default, way):
        self.default, self.way = default, way

    def order(self):
        steps = []
        for w in self.way:
            a = {k: v for k, v in w["act"].items() if v != "none"}
            if a["op"] == "open":
                a["t"] = "w"
            if a["op"] == "unpreview":
                a = dict(op="pinpreview", on=False)
            if a["op"] == "position":
                a["at"] = "ab".index(a["f"])
            steps += [a, dict(op="main")]
        cfg = dict(lint="never", export="never")
        if self.default:
            cfg["main"] = self.default
        return json.dumps(dict(cfg=cfg, disk=dict(a="1", b="2", d="3"), steps=steps))


def run(prop):
    exe = vlib.build("proj", ["proj"])
    ck = Check(prop, "model_checking")
    ways = []
    for default in (None, "d"):
        consts = dict(Files={"a", "b"}, Default=default or "none", KeepsFocus=True)
        consts["None"] = "none"
        r = tlc_checked("Focus", "what holds of the main document", consts=consts, cfg_kwargs=dict(spec="Spec", **INV))
        ck.add(states=r.distinct)
        bad = run_tlc("Focus", consts=dict(consts, KeepsFocus=False), cfg_kwargs=dict(spec="Spec", **INV))
        if not bad.violated:
            raise ToolError("the model holds without KeepsFocus")
        ck.add(faults_shown=1)
        r = run_tlc("FocusMC", emit=True, consts=consts, cfg_kwargs=dict(spec="MCSpec", view="View", action_constraint="Emit"))
        if not r.ok:
            raise ToolError(r.out[-2000:])
        # Ways that are the beginning of others need not be gone by themselves.
        keys = {json.dumps(w) for w in r.prints}
        begun = {json.dumps(w[:-1]) for w in r.prints}
        ways += [Way(default, w) for w in r.prints if json.dumps(w) not in begun]
        r = run_tlc("FocusMC", emit=True, consts=consts, cfg_kwargs=dict(spec="MCSpec", action_constraint="Last"),
                    extra=["-simulate", f"num={2000 if THOROUGH else 200}", "-depth", "41", "-seed", str(SEED)])
        ways += [Way(default, w) for w in r.prints]
        ck.add(transitions=len(keys))
    ck.add(ways=len(ways))
    for w, out in zip(ways, Drivers(exe).perform(ways)):
        if out is None:
            raise ToolError("the driver failed: " + w.order())
        for i, s in enumerate(w.way):
            got, due = out[2 * i + 1].get("main"), s
            panic = next((o["panic"] for o in out[: 2 * i + 2] if "panic" in o), None)
            if panic:
                ck.violation("the server panicked", dict(default=w.default, way=w.way[: i + 1], panic=panic))
                break
            seen = dict(main=got["main"], focus=got["focus"], pos=None if got["pos"] is None else "ab"[got["pos"]])
            want = {k: None if due[k] == "none" else due[k] for k in seen}
            ck.add(steps=1)
            if seen != want or (got["main"] and got["root"] != ""):
                ck.violation("another document is the main one, or in focus, than what was told", dict(default=w.default, way=[x["act"] for x in w.way[: i + 1]], due=want, seen=got))
                break
    ck.sample(dict(default=ways[-1].default, way=ways[-1].way))
    return ck.finish()
