"""C30: positions and texts. Every short text with every position, and editing sessions, are performed with the real conversions and the
real server state; TextsJudge.tla judges what comes out."""
import json, random, subprocess
import vlib
from vlib import THOROUGH, SEED, Check, ToolError, run_tlc, tlc_checked, pmap
from c_paths import judge
from c_proj import Drivers

CHARS = dict(a="abz 0#$_\t", e="\u00e9\u00df\u03b1\u0439", u="\u20ac\u4e2d\u3042\ufeff", s="\U0001d11e\U0001f600\U0001f97a", n="\n", r="\r", f="\x0b\x0c")
KINDS = "aeusnr"
B8 = dict(a=1, e=2, u=3, s=4, n=1, r=1, f=1, v=1)
SWITCHES = dict(Counts="units", Clamps=True, OwnLines=True)


def width(enc, k):
    return B8[k] if enc == "utf8" else 2 if k == "s" else 1


def render(rng, t):
    return "".join(rng.choice(CHARS[k]) for k in t)


def kinds(text):
    return [next((k for k, cs in CHARS.items() if c in cs), "?") for c in text]


def ends(t):
    return [i + 1 for i, k in enumerate(t) if k in "nv" or k == "r" and t[i + 1:i + 2] != ["n"]]


def where(t, i, enc):
    """What an editor says offset i is."""
    es = [e for e in ends(t) if e <= i]
    s = es[-1] if es else 0
    return [len(es), sum(width(enc, k) for k in t[s:i])]


def says(rng, t, i, enc):
    p = where(t, i, enc)
    if rng.random() < .15:
        if i == len(t):
            return rng.choice([[p[0] + 1, 0], [p[0] + 1, 0], [p[0] + 3, 7], [p[0], p[1] + 5]])
        if t[i] in "nr" and not (i and t[i - 1] == "r" and t[i] == "n"):
            return [p[0], p[1] + rng.choice([1, 3, 1000])]
    return p


def new_text(rng, n, alphabet=KINDS):
    return [rng.choice(alphabet) for _ in range(n)]


class Session:
    """An editor changing one text."""

    def __init__(self, rng, enc, alphabet, most):
        self.rng, self.enc, self.t0 = rng, enc, new_text(rng, rng.randrange(most), alphabet)
        self.text = render(rng, self.t0)
        self.cfg = dict(enc=enc)
        self.steps, self.notes = [dict(op="open", f="a", t=self.text)], []
        t = list(self.t0)
        for _ in range(rng.randint(1, 6)):
            note, real = [], []
            for _ in range(rng.choice([1, 1, 2, 4])):
                w = new_text(rng, rng.choice([0, 1, 1, 2, 5]), alphabet)
                s = render(rng, w)
                if rng.random() < .07:
                    note.append({"whole": True, "t": w})
                    real.append(dict(t=s))
                    t = w
                    continue
                ok = [i for i in range(len(t) + 1) if not (0 < i < len(t) and t[i - 1] == "r" and t[i] == "n")]
                i, j = sorted((rng.choice(ok), rng.choice(ok)))
                if rng.random() < .4:
                    j = i
                p, q = says(rng, t, i, enc), says(rng, t, j, enc)
                if q < p:
                    q = p
                note.append({"whole": False, "from": p, "to": q, "t": w})
                real.append(dict(range=p + q, t=s))
                t = t[:i] + w + t[j:]
            self.notes.append(note)
            self.steps += [dict(op="edit", f="a", changes=real), dict(op="text", f="a")]

    def order(self):
        return json.dumps(dict(cfg=self.cfg, disk={}, steps=self.steps))


def positions(exe, asked):
    p = subprocess.run([exe], input="".join(json.dumps(a) + "\n" for a in asked), capture_output=True, text=True)
    out = [json.loads(l) for l in p.stdout.splitlines()]
    if len(out) != len(asked):
        raise ToolError(f"the driver stopped at {asked[len(out)]}: {p.stderr[-500:]}")
    return out


def _judge(part):
    return judge("TextsJudge", part, consts=SWITCHES, cfg_kwargs=dict(spec="Spec"))


def judged(recs):
    parts = [recs[i::8] for i in range(8)]
    return [i * 8 + k for k, bad in enumerate(pmap(_judge, [p for p in parts if p], procs=8, chunk=1)) for i in bad]


def model(ck):
    invs = ["Same", "Agreed", "Allowed"]
    for kinds, most, edits in ([(KINDS + "f", 3, 2), ("anr", 5, 1)] if THOROUGH else [(KINDS + "f", 2, 2), ("asnr", 4, 1)]):
        kw = dict(Kinds=set(kinds), MaxLen=most, MaxEdits=edits)
        ck.add(states=tlc_checked("TextsMC", "texts", consts=dict(SWITCHES, **kw), cfg_kwargs=dict(spec="Spec", invariants=invs)).distinct)
    for k, v in dict(Counts="chars", Clamps=False, OwnLines=False).items():
        r = run_tlc("TextsMC", consts=dict(SWITCHES, Kinds=set(KINDS + "f"), MaxLen=3, MaxEdits=1) | {k: v}, cfg_kwargs=dict(spec="Spec", invariants=["Same"]))
        if not r.violated:
            raise ToolError(f"texts stay the same without {k}")
        ck.add(faults_shown=1)


def run(prop):
    exe, conv = vlib.build("proj", ["proj", "texts"])
    ck = Check(prop, "model_checking")
    rng = random.Random(SEED * 77)
    model(ck)
    texts = [[]]
    level = [[]]
    for _ in range(5 if THOROUGH else 4):
        level = [t + [k] for t in level for k in KINDS]
        texts += level
    texts += [new_text(rng, rng.randint(5, 40)) for _ in range(4000 if THOROUGH else 300)]
    texts += [new_text(rng, rng.randint(1, 8), KINDS + "ff") for _ in range(200)]
    asked, recs = [], []
    for t in texts:
        for enc in ("utf8", "utf16"):
            text = render(rng, t)
            lines = len(ends(t)) + 1
            cols = sorted({0, 1, 2, 3, 4, 5, 7, 9, 12, 99, *(rng.randrange(60) for _ in range(4))} if len(t) < 9 else {0, 1, 2, *(rng.randrange(30) for _ in range(5)), 500})
            rows = range(lines + 2) if lines < 6 else sorted({0, lines - 1, lines, lines + 1, *(rng.randrange(lines) for _ in range(4))})
            at = [[l, c] for l in rows for c in cols]
            offs = range(len(t) + 1)
            asked.append(dict(enc=enc, text=text, at=at, **{"is": [sum(B8[k] for k in t[:i]) for i in offs]}))
            recs.append((dict(k="positions", t=t, enc=enc), asked[-1]))
    every = []
    for (r, a), o in zip(recs, positions(conv, asked)):
        r["at"] = [[*p, b] for p, b in zip(a["at"], o["at"])]
        r["is"] = [[i, *p] for i, p in enumerate(o["is"])]
        every.append((r, "positions and offsets do not agree", dict(a, **o)))
    n = 6000 if THOROUGH else 600
    ss = [Session(rng, rng.choice(["utf8", "utf16"]), KINDS + ("ff" if rng.random() < .1 else ""), rng.choice([4, 12, 40])) for _ in range(n)]
    ck.add(texts=len(asked), positions=sum(len(a["at"]) + len(a["is"]) for a in asked), sessions=len(ss), changes=sum(len(c) for s in ss for c in s.notes))
    for s, out in zip(ss, Drivers(exe).perform(ss)):
        what = dict(enc=s.enc, steps=s.steps)
        if out is None or "panic" in out[-1]:
            ck.violation("the server panicked at a change" if out else "the server died or fell silent", dict(what, panic=out and out[-1]["panic"]))
            continue
        now = [o["text"] for o in out if "text" in o]
        every.append((dict(k="session", t=s.t0, enc=s.enc, steps=[dict(changes=c, now=kinds(t or "")) for c, t in zip(s.notes, now)]),
                      "the server's text is not the editor's", dict(what, texts=now)))
    bad = sorted((every[i] for i in judged([r for r, *_ in every])), key=lambda x: len(json.dumps(x[0])))
    # Texts with characters that end lines for typst only: known if it is as if they did.
    odd = [x for x in bad if '"f"' in json.dumps(x[0])]
    still = set(judged([json.loads(json.dumps(r).replace('"f"', '"v"')) for r, *_ in odd])) if odd else set()
    for r, what, d in bad:
        k = next((i for i, x in enumerate(odd) if x[0] is r), None)
        ck.violation(what, dict(d, record=r, finding_key="unusual line ends" if k is not None and k not in still else None))
    ck.add(judged=len(every))
    ck.sample(dict(every[len(every) // 2][2]))
    ck.assumptions += ["typst's Source is a stand-in with typst's line ends, and columns counted in characters, as its documentation has it"]
    return ck.finish()
