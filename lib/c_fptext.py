"""C18: fingerprint texts. FpText.tla enumerates fingerprints and near-texts; FpJudge.tla judges what the code makes of them."""
import base64, json, random
import vlib
from vlib import THOROUGH, SEED, Check, ToolError, run_tlc, tlc_checked, pmap
from c_paths import batch

_job = {}
DIGITS = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


def _batch(cmds):
    out, rc = batch(_job["exe"], cmds)
    return out if not rc else out + [{"died": rc}] * (len(cmds) - len(out))


def many(cmds):
    n = 2000
    return [x for part in pmap(_batch, [cmds[i:i + n] for i in range(0, len(cmds), n)], chunk=1) for x in part]


def edits(rng, s):
    """Texts that look like the id s."""
    i = rng.randrange(len(s)) if s else 0
    c = rng.choice(DIGITS)
    return [s[:i], s[:i] + s[i + 1:], s[:i] + c + s[i:], s[:i] + c + s[i + 1:], s + c, s + c + rng.choice(DIGITS), s + "A", s + "AA", s + "=",
            s[:i] + rng.choice("\u00e9\u4e2d -_=\n\0\\\"<&%") + s[i + 1:], " " + s, s + "\n", s[::-1], s + s, s.lower(), s[:10], s[:11], s[:12], s + s[:1]]


def run(prop):
    _job["exe"] = vlib.build("fsx", ["fsx"])
    ck = Check(prop, "model_checking")
    rng = random.Random(SEED)
    base = [0, 1, 255]
    more = sorted(rng.sample(range(2, 255), 1))
    fps, near = set(), set()
    configs = [(dict(LoBytes={0, 255}, LoSplit=2, HiBytes={0, 1, 255}, HiSplit=8), "Emit"),
               (dict(LoBytes={0, 1, 255}, LoSplit=7, HiBytes={0, 128}, HiSplit=2), "Emit"),
               (dict(LoBytes={0, more[0]}, LoSplit=2, HiBytes={0, 1, more[0]}, HiSplit=3), "EmitNear")]
    if THOROUGH:
        configs += [(dict(LoBytes={0, 3, 64}, LoSplit=3, HiBytes={0, 2, 16, 192}, HiSplit=8), "Emit"),
                    (dict(LoBytes={0, 1, 254}, LoSplit=3, HiBytes={0, 15, 240}, HiSplit=4), "EmitNear")]
    for consts, em in configs:
        r = tlc_checked("FpText", "texts", emit=True, consts=consts, timeout=700,
                        cfg_kwargs=dict(spec="Spec", invariants=["RoundTrip", em] + (["OnlyTexts"] if em == "EmitNear" or THOROUGH else [])))
        ck.add(states=r.distinct)
        for p in r.prints:
            fps.add(bytes(p["lo"] + p["hi"]).hex())
            near.update(p.get("near", ()))
    fps = sorted(fps)
    for _ in range(200000 if THOROUGH else 20000):
        b = bytearray(rng.randbytes(16))
        for k in range(rng.randrange(0, 9)):
            b[rng.randrange(16)] = 0
        if rng.random() < .3:
            z = rng.randrange(0, 9)
            b[16 - z:] = bytes(z)
        fps.append(b.hex())
    fps = sorted(set(fps))
    ids = [dict(r, f=f) for f, r in zip(fps, many([dict(op="fp_all", f=f) for f in fps]))]
    broken = [i for i in ids if "s" not in i]
    if broken:
        ck.violation("the text of a fingerprint could not be had", broken[0])
        return ck.finish()
    texts = set(near)
    for r in rng.sample(ids, min(len(ids), 40000 if THOROUGH else 4000)):
        texts.update(edits(rng, r["s"]))
    for n in range(64):
        for _ in range(40):
            texts.add("".join(rng.choice(DIGITS if rng.random() < .98 else "=-_ \u00e9") for _ in range(n)))
    for n in range(24):
        texts.add(base64.b64encode(bytes(n)).decode())
        texts.add(base64.b64encode(bytes(n)).decode().rstrip("="))
        texts.add("\u4e2d" * n)
    texts = sorted(texts)
    probes = many([dict(op="fp_probe", s=t.encode().hex()) for t in texts])
    broken = [(t, p) for t, p in zip(texts, probes) if "got" not in p]
    if broken:
        ck.violation("a text could not be parsed or rejected", broken[0])
        return ck.finish()
    pl = []
    for _ in range(3000):
        f = bytearray.fromhex(rng.choice(fps))
        g = bytearray(f)
        k = rng.randrange(4)
        if k == 1:
            g[rng.randrange(16)] ^= 1 << rng.randrange(8)
        elif k == 2:
            g = g[8:] + g[:8]
        elif k == 3:
            g = g[:8] + bytes(8)
        pl.append((f.hex(), g.hex()))
    pairs = [dict(f=f, g=g, eq=r[0], lt=r[1]) for (f, g), r in zip(pl, many([dict(op="fp_cmp", f=f, g=g) for f, g in pl]))]
    # texts with characters TLC's JSON reader may not keep are compared by their hex form
    hexs = lambda s: s if s.isascii() and s.isprintable() else s.encode().hex() + "!"
    n = 40000
    for i in range(0, max(len(ids), len(probes)), n):
        part = dict(ids=ids[i:i + n], probes=[dict(p, s=hexs(p["s"]), id=hexs(p["id"])) for p in probes[i:i + n]], pairs=pairs if i == 0 else [])
        r = run_tlc("FpJudge", emit=True, workers=1, mem="6g", files=[("traces.json", json.dumps(part))], cfg_kwargs=dict(spec="Spec"))
        if not r.prints:
            raise ToolError("FpJudge could not judge:\n" + r.out[-3000:])
        j = r.prints[0]
        for k in j["wrong"]:
            ck.violation("a fingerprint does not come back from its text, JSON or integer form", part["ids"][k - 1])
        for k in j["probes"]:
            ck.violation("a text that is no fingerprint's id was not rejected", part["probes"][k - 1])
        for k in j["pairs"]:
            ck.violation("comparing fingerprints disagrees with their identity", part["pairs"][k - 1])
        if j["n"] != len(part["ids"]):
            raise ToolError("judge read another number of records")
    by = {}
    for r in ids:
        if by.setdefault(r["s"], r["f"]) != r["f"]:
            ck.violation("two fingerprints have the same text", [by[r["s"]], r])
    ck.add(fingerprints=len(ids), texts=len(texts), accepted=sum(1 for p in probes if p["got"]), pairs=len(pairs))
    for r in rng.sample(ids, 2) + rng.sample(probes, 2):
        ck.sample(r)
    return ck.finish()
