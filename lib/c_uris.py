"""C31: documents' URIs and paths. TLC spells every short path in every way; the real conversions are to give the path, and a URI of it."""
import json, random, subprocess, urllib.parse
import vlib
from vlib import THOROUGH, SEED, Check, ToolError, run_tlc, tlc_checked

CHARS = dict(a="bcxyzBZ059-_.~:&=+@!$'(),;*\u00e9\u4e2d\U0001f600", q="#?[ ]{}|^`\"<>\\\u2003", p="%", h=["41", "2f", "c3", "zz", "4"])


def render(rng, path, uri, scheme):
    """The path's text and the URI's."""
    names, parts = [], []
    for n, u in zip(path, uri):
        cs = [rng.choice(CHARS[k]) for k in n]
        if set(cs) == {"."} and len(cs) < 3:
            cs[0] = "b"
        names.append("".join(cs))
        parts.append("".join(c if how == "lit" and (ord(c[0]) < 128 or rng.random() < .5) else pct(rng, c) for c, (how, _) in zip(cs, u)))
    return "/" + "/".join(names), ("file:///" if scheme == "file" else "untitled:") + "/".join(parts)


def pct(rng, c):
    return "".join(("%%%02x" if rng.random() < .5 else "%%%02X") % b for b in c.encode())


def read(uri):
    """What an editor takes a URI for."""
    scheme, rest = uri.split(":", 1)
    rest = rest.split("#")[0].split("?")[0]
    if rest.startswith("//"):
        host, _, rest = rest[2:].partition("/")
        rest = "/" + rest
    return scheme, urllib.parse.unquote(rest)


def convert(exe, uris):
    p = subprocess.run([exe], input=json.dumps(dict(uris=uris)) + "\n", capture_output=True, text=True)
    if p.returncode:
        raise ToolError("the driver failed: " + p.stderr[-1000:])
    return json.loads(p.stdout)


def run(prop):
    exe, conv = vlib.build("proj", ["proj", "texts"])
    ck = Check(prop, "model_checking")
    rng = random.Random(SEED * 31)
    cases = []
    for names, most in ([(1, 5), (2, 3), (3, 1)] if THOROUGH else [(1, 4), (2, 2), (3, 1)]):
        kw = dict(consts=dict(Kinds=set("aqph"), MaxNames=names, MaxLen=most, Encodes=True))
        r = tlc_checked("Uris", "documents", cfg_kwargs=dict(spec="Spec", invariants=["Kept", "Told"]), **kw)
        ck.add(states=r.distinct)
        r = run_tlc("UrisMC", emit=True, cfg_kwargs=dict(spec="Spec", invariants=["Emit"]), **kw)
        cases += r.prints
    r = run_tlc("Uris", consts=dict(Kinds=set("aqph"), MaxNames=1, MaxLen=2, Encodes=False), cfg_kwargs=dict(spec="Spec", invariants=["Kept", "Told"]))
    if not r.violated:
        raise ToolError("the model holds without Encodes")
    ck.add(faults_shown=1)
    if not cases:
        raise ToolError("no cases were printed")
    made = [(c["scheme"], *render(rng, c["path"], c["uri"], c["scheme"])) for c in cases for _ in range(4)]
    made += [("rooted", p, u.replace("untitled:", "untitled:/")) for s, p, u in made if s == "untitled"][:20]
    ck.add(documents=len(made))
    for (scheme, path, uri), got in zip(made, convert(conv, [u for *_, u in made])):
        d = dict(uri=uri, path=path, got=got, finding_key="untitled with a path of its own" if scheme == "rooted" else None)
        due = path if scheme == "file" else "/untitled" + path
        if got is None:
            ck.violation("converting a document's URI panicked", dict(d, finding_key=None))
        elif got[0].rstrip("/") != due:        # a path is the same with a slash at its end
            ck.violation("a document's URI is taken for another path", dict(d, finding_key=None))
        elif read(got[1]) != ("file" if scheme == "file" else "untitled", path if scheme == "file" else path[1:]):
            ck.violation("the URI told for a path is that of another document", dict(d, finding_key=None))
        elif scheme == "rooted":
            ck.violation("the URI told for a path is that of another document", d)
    for u in ("file:///", "file://"):
        if convert(conv, [u])[0][1] != "file:///" and convert(conv, [u])[0][1] != "file://":
            ck.violation("the unnamed buffer's URI is told as another", dict(uri=u, got=convert(conv, [u])))
    ck.sample(dict(uri=made[0][2], path=made[0][1]))
    return ck.finish()
