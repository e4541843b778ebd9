"""C19 (locales), C20 (placeholders), C21 (catalogues): L10n.tla, L10nFormat.tla and Catalogue.tla replayed into tinymist-l10n."""
import json, os, random, shutil, subprocess, tempfile
from collections import defaultdict
import vlib
from vlib import THOROUGH, SEED, Check, Graph, Raw, ToolError, run_tlc, tlc_checked, pmap

_job = {}


def l10n(cmds, threads=2):
    p = subprocess.run([_job["exe"]], input="".join(json.dumps(c) + "\n" for c in cmds), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                       text=True, env=dict(os.environ, RAYON_NUM_THREADS=str(threads)))
    out = [json.loads(l) for l in p.stdout.split("\n") if l]
    return out + [{"died": p.returncode}] * (len(cmds) - len(out))


# ------------------------------------------------------------------ C19

def case(rng, tags, how):
    s = "-".join(tags)
    if how == "lower":
        return s
    if how == "upper":
        return s.upper()
    if how == "usual":
        return "-".join(t if i == 0 else t.upper() if len(t) == 2 else t.capitalize() for i, t in enumerate(tags))
    return "".join(rng.choice((c, c.upper())) for c in s)


def toml(cat, texts, keys):
    L = ["", "# generated"]
    for k in sorted({k for ks in cat.values() for k in ks}):
        L.append(f"\n[{keys[k]}]")
        for l, ks in cat.items():
            if k in ks:
                L.append(f"{l} = {json.dumps(texts[l, k])}")
    return "\n".join(L) + "\n"


def _walks(job):
    """All walks over one catalogue; one process each, because the library keeps one catalogue per process."""
    seed, edges = job
    rng = random.Random(seed)
    g = Graph(edges)
    n = 0
    for walk in g.cover(rng, maxlen=200):
        how = rng.choice(["lower", "usual", "usual", "mixed", "upper"])
        name = {}
        for c in walk[0][0]["cat"]:
            name[tuple(c["l"])] = case(rng, c["l"], how)
        cat = {name[tuple(c["l"])]: c["ks"] for c in walk[0][0]["cat"]}
        keys = {k: x for k, x in zip((0, 1, 2, 3), rng.sample(["a.b", "tinymist.x-y", "[k]", "\u952e", "A", "a"], 4))}
        texts = {(l, k): f"{l}:{k} " + rng.choice(["", "\"q\"", "{x}", "\n", "\u4e2d"]) for l in cat for k in cat[l]}
        cmds, want = [], []
        for f, a, t in walk:
            o = a["o"]
            if o == "set":
                if rng.random() < .5:
                    cmds.append(dict(op="set", text=toml(cat, texts, keys)))
                else:
                    cmds.append(dict(op="set", map={l: {keys[k]: texts[l, k] for k in cat[l]} for l in cat}))
                want.append(True)
            elif o == "again":
                cmds.append(dict(op="set", map={l: {x: "other" for x in keys.values()} for l in ["zh", "en", "fr", "zh-TW"]}))
                want.append(True)
            elif o == "select":
                cmds.append(dict(op="select", l=case(rng, a["l"], rng.choice(["lower", "usual", "mixed", "upper"]))))
                want.append(a["r"])
            else:
                m = f"program's own {n}"
                cmds.append(dict(op="look", k=keys[a["k"]], m=m, macro=rng.random() < .3))
                want.append(m if a["r"] == ["program"] else texts[name[tuple(a["r"])], a["k"]])
            n += 1
        got = l10n(cmds, rng.choice((1, 2)))
        for i, (x, w) in enumerate(zip(got, want)):
            if x != w:
                return n, dict(catalogue={l: sorted(keys[k] for k in cat[l]) for l in cat}, calls=cmds[:i + 1][-12:], got=x, expected=w)
    return n, None


def _storm(job):
    seed, threads, ops = job
    rng = random.Random(seed)
    locs = [("en",), ("zh",), ("zh", "TW")]
    cat = {l: [k for k in (1, 2, 3) if rng.random() < .7] for l in locs}
    cat["en",].append(0)
    reqs = [("en",), ("zh",), ("zh", "tw"), ("zh", "hk"), ("fr",), ("EN", "us")]
    serves = []
    for r in reqs:
        low = tuple(t.lower() for t in r)
        c = [l for l in locs if cat[l] and low[:len(l)] == tuple(t.lower() for t in l)]
        serves.append(0 if not c else 2 + locs.index(max(c, key=len)))
    m = {"-".join(l): {f"k{k}": f"{'-'.join(l)}/{k}" for k in cat[l]} for l in locs if cat[l]}
    texts = [["the message"] * 3] + [[f"{'-'.join(l)}/{k}" if k in cat[l] else "the message" for k in (1, 2, 3)] for l in locs]
    got = l10n([dict(op="set", map=m), dict(op="storm", seed=seed, threads=threads, ops=ops, keys=["k1", "k2", "k3"], locales=["-".join(r) for r in reqs])])
    if not isinstance(got[1], list):
        return None, dict(got=got[1], job=job)
    return dict(hist=got[1], serves=serves, texts=texts), None


def run19(ck, rng):
    r = tlc_checked("L10n", "locales", emit=True, mem="6g", timeout=700,
                    consts=dict(Locales=Raw("<- TheLocales"), Requests=Raw("<- TheRequests"), Keys={1, 2}, MaxLocales=4 if THOROUGH else 3),
                    cfg_kwargs=dict(spec="Spec", view="View", invariants=["CurThere"], properties=["Exact", "SameLanguage", "FailKeeps", "NothingLost"],
                                    action_constraint="Emit"))
    groups = defaultdict(list)
    for e in r.edges:
        groups[json.dumps(e["f"]["cat"])].append(e)
    ck.add(states=r.distinct, edges=len(r.edges), catalogues=len(groups))
    for n, bad in pmap(_walks, [(SEED * 1000 + i, es) for i, es in enumerate(groups.values())], chunk=4):
        ck.add(calls=n)
        if bad:
            ck.violation("a selection or lookup differs from the specification's", bad)
    storms = []
    for rec, bad in pmap(_storm, [(SEED * 500 + i, rng.randrange(2, 6), rng.randrange(5, 12)) for i in range(1500 if THOROUGH else 150)], chunk=4):
        if bad:
            ck.violation("concurrent selections and lookups failed", bad)
        else:
            storms.append(rec)
    j = run_tlc("L10nTrace", emit=True, workers=1, mem="6g", timeout=700, files=[("traces.json", json.dumps(storms))],
                cfg_kwargs=dict(init="Init", next_="Next", invariants=["Report"]))
    if not j.ok:
        raise ToolError("L10nTrace could not judge:\n" + j.out[-3000:])
    ok = {p["acc"] - 1 for p in j.prints}
    for i in range(len(storms)):
        if i not in ok:
            ck.violation("a concurrent history of selections and lookups is not linearizable", storms[i])
    ck.add(concurrent_histories=len(storms))
    ck.sample(storms[0]["hist"][:5] if storms else None)


# ------------------------------------------------------------------ C20

FILL = ["a", "Z", " ", "\u00e9", "\u4e2d", "\\", "\"", ":?", "\n", "%s", "$", "<b>", "'", "\U0001f600", "0", "\u0301"]
VALS = ["value", "", "{err}", "}", "{", "\u00e9", "{}", "a b", "{value}", "\\n", -7, 0, 9223372036854775807, 2.5, 1e21, 0.1, "$1", "{{err}}"]


def fnum(v):
    """Rust's display of a number."""
    if isinstance(v, float):
        s = f"{v:f}" if v == int(v) else repr(v)
        return s.rstrip("0").rstrip(".") if "." in s else s
    return str(v)


def _format(job):
    seed, cases = job
    rng = random.Random(seed)
    cmds, want = [], []
    for c in cases:
        names = rng.choice([("err", "value"), ("x", "y"), ("a", "_b"), ("v", "1")])
        nm = {"x": names[0], "y": names[1]}
        if len(c["args"]) == 2 and rng.random() < .5:
            c["args"].reverse()
        special = rng.choice(VALS)
        nameof = lambda n: {("err", "value"): {"x": "err", "xy": "value"}}.get(names, {}).get("".join(n)) or "".join(nm[t] for t in n)
        tok = {}

        def text(seq, fill):
            out, i = "", 0
            while i < len(seq):
                # a whole name stands for the argument's name, elsewhere its letters are text
                if names == ("err", "value") and seq[i:i + 2] == ["x", "y"]:
                    out += "value"; i += 2; continue
                if names == ("err", "value") and seq[i] == "y":
                    out += "y"
                else:
                    out += nm.get(seq[i], seq[i]) if seq[i] in ("x", "y") else fill if seq[i] in ("t", "A") else seq[i]
                i += 1
            return out
        fill = rng.choice([f for f in FILL if f not in "".join(names)])
        m = text(c["m"], fill)
        mapped = []
        for a in c["args"]:
            if a["v"] == ["A"]:
                mapped.append((nameof(a["n"]), special))
            else:
                mapped.append((nameof(a["n"]), text(a["v"], fill)))
        if names == ("err", "value"):
            exp = substitute(m, mapped)
        else:
            # the values marked A are the special one
            exp = ""
            for t in c["out"]:
                exp += nm.get(t, t) if t in ("x", "y") else fill if t == "t" else fnum(special) if t == "A" else t
        cmds.append(dict(op="fmt", k="no.such.key", m=m, args=[[n, v] for n, v in mapped]))
        want.append(exp)
    for c, g, w in zip(cmds, l10n(cmds), want):
        if g != w:
            return len(cmds), dict(call=c, got=g, expected=w)
    return len(cmds), None


def substitute(m, args):
    out, i = "", 0
    while i < len(m):
        for n, v in args:
            h = "{" + n + "}"
            if m.startswith(h, i):
                out += fnum(v)
                i += len(h)
                break
        else:
            out += m[i]
            i += 1
    return out


def run20(ck, rng):
    cases = []
    for n, toks in ((5, {"{", "}", "x", "y", "t"}),) + (((7, {"{", "}", "x"}), (6, {"{", "}", "x", "y", "t"})) if THOROUGH else ((6, {"{", "}", "x"}),)):
        r = tlc_checked("L10nFormat", "messages", emit=True, mem="8g", timeout=800,
                        consts=dict(MaxLen=n, Tokens=toks, Values=Raw("<- TheValues")),
                        cfg_kwargs=dict(spec="Spec", invariants=["Same", "Verbatim", "Emit"]))
        ck.add(states=r.distinct)
        cases += r.prints
    rng.shuffle(cases)
    for n, bad in pmap(_format, [(SEED * 100 + i, cases[i:i + 4000]) for i in range(0, len(cases), 4000)], chunk=1):
        ck.add(messages=n)
        if bad:
            ck.violation("a message was not formatted as it is written", bad)
    # through a catalogue, by the selected locale
    cmds = [dict(op="set", map={"zh": {"k": "\u4e2d{err}\u6587 {nope} {", "plain": "{err}"}}), dict(op="select", l="zh"),
            dict(op="fmt", k="k", m="unused", args=[["err", "E{err}"]]), dict(op="look", k="plain", m="x"),
            dict(op="fmt", k="other", m="{err}{err}", args=[["err", 5]]), dict(op="fmt", k="k", m="unused", args=[]), dict(op="debug", v="a\"b")]
    want = [True, True, "\u4e2dE{err}\u6587 {nope} {", "{err}", "55", "\u4e2d{err}\u6587 {nope} {", "\"a\\\"b\""]
    for c, g, w in zip(cmds, l10n(cmds), want):
        if g != w:
            ck.violation("a translated message was not formatted as it is written", dict(call=c, got=g, expected=w))
    for c in cases[:3]:
        ck.sample(c)


# ------------------------------------------------------------------ C21

KEYS = ["a.b", "a", "b", "zz-top.x_y", "\" (Preview)\"", "\"Export [x] = y\"", "\"]\"", "\"[\"", "\"#no comment\"", "a=b", "\u952e", "tinymist.config",
        "\"say \\\"hi\\\"\"", "x#y", "A", "_", "\"\"", "a b", "0"]
TEXTS = ["", "plain", "with \"quotes\"", "back\\slash", "line\nbreak", "tab\t", "\u4e2d\u6587", " leading and trailing ", "a = b", "# hash", "[section]", "{err:?}",
         "\U0001f600", "\\n", "\"", "'", "en = \"x\"", "\r\n", "\u2028", "\u00a0"]
LOCS = ["zh", "zh-TW", "pt-PT", "ar", "de", "a", "z", "enx", "e", "EN"]


def quoted(rng, t):
    return json.dumps(t, ensure_ascii=rng.random() < .3)


def write_catalogue(rng, cat):
    """A file a translator might leave, for key -> locale -> raw text."""
    L = rng.choice([[], ["# a comment"], ["", "  ", "#[x]"]])
    for k in rng.sample(sorted(cat), len(cat)):
        L.append(rng.choice(["", "# about it = x", "\t"]))
        L.append(rng.choice(["", " "]) + f"[{k}]" + rng.choice(["", "  "]))
        for l in rng.sample(sorted(cat[k]), len(cat[k])):
            L.append(rng.choice(["", " ", "\t"]) + l + rng.choice(["", " ", "  "]) + "=" + rng.choice(["", " ", "\t"]) + cat[k][l] + rng.choice(["", " "]))
    return rng.choice(["\n", "\r\n"]).join(L) + rng.choice(["", "\n", "\n\n"])


def _life(job):
    """Walks of Catalogue.tla, each on one file."""
    seed, walks = job
    rng = random.Random(seed)
    d = tempfile.mkdtemp(prefix="cat", dir=_job["dir"])
    n = 0
    try:
        for wi, walk in enumerate(walks):
            ks = rng.sample(KEYS, 3)
            key = {str(i + 1): k for i, k in enumerate(ks)}
            txt = {i: quoted(rng, t) for i, t in enumerate(rng.sample(TEXTS, 4))}
            loc = {"en": "en", **dict(zip(("l1", "l2"), rng.sample(LOCS, 2)))}
            path = f"{d}/{wi}.toml"
            raw = lambda f: {key[str(k + 1)]: {loc[l]: txt[t] for l, t in f[k].items() if t} for k in range(len(f)) if any(f[k].values())}
            hist = []
            for f, a, t in walk:
                n += 1
                want = raw(t)
                if a["o"] == "translate":
                    # a translator edits the file
                    with open(path, "w", newline="") as h:
                        h.write(write_catalogue(rng, want))
                    hist.append(("file", open(path, newline="").read()))
                    continue
                kv = [[key[str(u["k"])], txt[u["t"]]] for u in a["used"]]
                rng.shuffle(kv)
                if kv and rng.random() < .3:
                    kv.append(rng.choice(kv))
                hist.append(("update", kv))
                got = l10n([dict(op="update_disk", path=path, kv=kv)])[0]
                if got != {"ok": True}:
                    return n, dict(history=hist, got=got, expected="ok")
                text = open(path, newline="").read()
                rest = l10n([dict(op="update_disk", path=path, kv=kv), dict(op="deserialize", text=text, key_first=True), dict(op="deserialize", text=text, key_first=False),
                             dict(op="load", text=text), dict(op="serialize", map=want), dict(op="update", map=raw(f), kv=kv)])
                by = {}
                for k in want:
                    for l, v in want[k].items():
                        by.setdefault(l, {})[k] = v
                exp = [{"ok": True}, {"ok": want}, {"ok": by}, {"ok": {l: {k: json.loads(v) for k, v in m.items()} for l, m in by.items()}}]
                names = ["a second update", "reading the file", "reading it by locale", "loading it"]
                for nm, g, w in zip(names, rest, exp):
                    if g != w:
                        return n, dict(history=hist, what=nm, file=text, got=g, expected=w)
                if open(path, newline="").read() != text:
                    return n, dict(history=hist, what="a second update changed the file", before=text, after=open(path, newline="").read())
                back = l10n([dict(op="deserialize", text=rest[4], key_first=True)])[0] if isinstance(rest[4], str) else rest[4]
                if back != {"ok": want}:
                    return n, dict(history=hist, what="reading back what was written", file=rest[4], got=back, expected=want)
                if rest[5] != want:
                    return n, dict(history=hist, what="updating in memory", got=rest[5], expected=want)
            if os.path.exists(path):
                os.unlink(path)
    finally:
        shutil.rmtree(d)
    return n, None


MALFORMED = ["[", "[a", "[\u00e9", "a]\n", "[a]\nen\n", "[a]\nzh \"x\"\n", "just text", "[a]\nen = \"x\"\n[", "[a]\nen = \"x\"\nzz"]
BADTEXT = ["[a]\nen = \"x", "[a]\nen = \"\\q\"", "[a]\nen = \"a\" b", "[a]\nen = \"\\u{1F600}\""]


def run21(ck, rng):
    r = tlc_checked("Catalogue", "catalogue life", emit=True, mem="6g",
                    consts=dict(Keys={1, 2}, Others={"l1", "l2"} if THOROUGH else {"l1"}, Texts={1, 2}),
                    cfg_kwargs=dict(spec="Spec", view="View", invariants=["Sources", "Idempotent"], properties=["Keeps", "Drops"], action_constraint="Emit"))
    g = Graph(r.edges)
    walks = g.cover(rng, maxlen=12, limit=4000 if THOROUGH else None)
    r3 = tlc_checked("Catalogue", "catalogue life, three keys", emit=True, mem="6g",
                     consts=dict(Keys={1, 2, 3}, Others={"l1"}, Texts={1}),
                     cfg_kwargs=dict(spec="Spec", view="View", invariants=["Sources", "Idempotent"], properties=["Keeps", "Drops"], action_constraint="Emit"))
    walks += Graph(r3.edges).cover(rng, maxlen=12)
    ck.add(states=r.distinct + r3.distinct, edges=len(g.edges) + len(r3.edges), walks=len(walks))
    walks = [w for _ in range(20 if THOROUGH else 5) for w in walks]
    for n, bad in pmap(_life, [(SEED * 10000 + i, walks[i:i + 5]) for i in range(0, len(walks), 5)], chunk=1):
        ck.add(steps=n)
        if bad:
            ck.violation("a catalogue is not what the specification says", bad)
    d = tempfile.mkdtemp(dir=_job["dir"])
    for i, t in enumerate(MALFORMED):
        path = f"{d}/m{i}"
        with open(path, "w") as f:
            f.write(t)
        for got in l10n([dict(op="update_disk", path=path, kv=[["a", "\"x\""]]), dict(op="deserialize", text=t, key_first=True), dict(op="load", text=t)]):
            if "err" not in got:
                ck.violation("a malformed catalogue was not reported", dict(file=t, got=got))
        if open(path).read() != t:
            ck.violation("a malformed catalogue was overwritten", dict(file=t, now=open(path).read()))
    for t in BADTEXT:
        got = l10n([dict(op="load", text=t)])[0]
        if "err" not in got:
            ck.violation("a malformed catalogue was not reported", dict(file=t, got=got))
    # keys that have no English message yet
    for m in ({"a": {"zh": "\"x\""}}, {"a": {"zh": "\"x\"", "en": "\"e\""}, "b": {"de": "\"y\""}}, {}):
        t = l10n([dict(op="serialize", map=m)])[0]
        got = l10n([dict(op="deserialize", text=t, key_first=True)])[0] if isinstance(t, str) else t
        if got != {"ok": m}:
            ck.violation("a written catalogue does not read back", dict(catalogue=m, got=got))
    ck.add(malformed=len(MALFORMED) + len(BADTEXT))
    for w in walks[:2]:
        ck.sample([a for _, a, _ in w][:6])


def run(prop):
    _job["exe"] = vlib.build("l10n", ["l10n"])
    _job["dir"] = vlib.scratch()
    ck = Check(prop, "model_checking")
    {"C19": run19, "C20": run20, "C21": run21}[prop](ck, random.Random(SEED))
    return ck.finish()
