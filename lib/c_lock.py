"""C33: lock files. Histories of the model, and processes at the same time, performed by the real code on real files; what each saw, and what the
file is afterwards, has to be explained by some order of the operations (LockTrace.tla)."""
import json
import os
import random
import shutil
import subprocess
import vlib
from vlib import THOROUGH, SEED, Check, Raw, ToolError, run_tlc, tlc_checked, scratch, pmap

STRS = ["a", "sp ace", "q\"uo'te", "new\nline\r\n\ttab", "\u00fcn\u00ef\U0001f600", "col:on", "a:b:c", "", "'''", '"""', "back\\u0041\\", "#", "[x]", "a = 1",
        "\x01\x7f", " lead ", "{{x}}", "a.b", "version", "[[route]]\nid = \"x\"", "\ufeff", "\u2028"]
PATHS = [s for s in STRS if s and "\\" not in s] + ["../up.typ", "sub/a.typ", "sub/d:e/f.typ", "x.typ"]
OTHER = dict(blank=["", "\n \n"],
             future=['version = "99.0.0"\n', 'version = "0.1.0"\n[[document]]\nid = "x"\n', 'version = "0.1.0-beta1"\nnew = 1\n'],
             past=['version = "0.0.1"\n', 'version = "0.1.0-alpha0"\n[[document]]\nid = "x"\ninputs = []\nmain = "file:a"\n'],
             garbage=["<<<<<<< HEAD\n", "version = \n", '[[document]]\nid = "x"\n', "no version = 1\n", "{}"],
             wrong=['version = "0.1.0-beta0"\ndocument = 1\n', 'version = "0.1.0-beta0"\n[[document]]\nid = 1\n', 'version = 1\n', 'version = "new"\n',
                    'version = "0.1.0-beta0"\n[[task]]\nid = "a"\ndocument = "b"\ntype = "unheard-of"\n'])


def plain(v):
    """Without what is not there."""
    if isinstance(v, dict):
        v = {k: plain(x) for k, x in v.items()}
        return {k: x for k, x in v.items() if x is not None and x is not False and x != [] and x != {}}
    return [plain(x) for x in v] if isinstance(v, list) else v


def document(rng, id):
    opt = lambda x: x if rng.random() < .5 else None
    path = lambda: rng.choice(PATHS)
    return {"id": id, "main": path(), "root": opt(path()), "inputs": [[rng.choice(STRS), rng.choice(STRS)] for _ in range(rng.choice((0, 0, 1, 3)))],
            "font-paths": [path() for _ in range(rng.choice((0, 0, 1, 2)))], "system-fonts": rng.random() < .5,
            "package-path": opt("file:" + path()), "package-cache-path": opt("file:" + path())}


def document_kept(d):
    d = dict(d, main="file:" + d["main"], root=d["root"] and "file:" + d["root"])
    d["font-paths"] = ["file:" + p for p in d["font-paths"]]
    return plain(d)


def task(rng, id, doc):
    t = {"id": id, "document": doc, "when": rng.choice(["never", "onSave", "onType", "onDocumentHasTitle"])}
    kind = rng.choice(["preview", "export-pdf", "export-png", "export-svg", "export-html", "export-md", "export-text", "query"])
    t["type"] = kind
    if kind != "preview":
        t["output"] = rng.choice([None] + STRS)
        t["transform"] = rng.sample([{"pages": {"ranges": ["1-2", "3-", "-4", "7-7"]}}, {"merge": {"gap": rng.choice(STRS)}}, {"pretty": {}},
                                     {"script": {"script": rng.choice(STRS)}}, {"pretty": {"script": rng.choice(STRS)}}], rng.choice((0, 0, 1, 3)))
    if kind == "export-pdf":
        t["creation-timestamp"] = rng.choice([None, 0, 1700000000, -5])
        t["pdf-standards"] = rng.choice([[], ["1.7"], ["a-2b"]])
    if kind == "export-png":
        t["ppi"] = rng.choice([144.5, 72.0, 0.25])
        t["fill"] = rng.choice([None] + STRS)
    if kind == "query":
        t.update({"format": rng.choice(STRS), "output-extension": rng.choice([None] + STRS), "selector": rng.choice(STRS), "field": rng.choice([None] + STRS), "one": rng.random() < .5})
    return t


class Numbers(dict):
    def of(self, x):
        return self.setdefault(json.dumps(x, sort_keys=True), len(self) + 1)


class Story:
    """What processes do to one file: phases of lists of orders, of one process each."""

    def __init__(self, rng):
        self.rng, self.phases, self.num = rng, [], Numbers()
        ids = rng.sample(STRS + ["file:a.typ", "file:b:c.typ", "Z", "z"], 3)
        self.ids = dict(x=ids[0], y=ids[1], z=ids[2])
        self.things = {}

    def thing(self, kind, x):
        """The same for the same."""
        k = json.dumps([kind, x], sort_keys=True)
        if k not in self.things:
            id = self.ids[x["id"]]
            self.things[k] = document(self.rng, id) if kind == "docs" else dict(id=id, priority=x["v"]) if kind == "routes" else task(self.rng, id, self.ids[x["doc"]])
        return self.things[k]

    def update(self, c, fail=False, wait=0):
        o = dict(op="update", fail=fail, wait=wait, **{k: [self.thing(k, x) for x in c[k]] for k in ("docs", "tasks", "routes")})
        return o

    def put(self, kind):
        return dict(op="put", kind="blank" if kind == "blank" else "bad", text=self.rng.choice(OTHER[kind]))

    def state(self, docs, tasks, routes):
        n = self.num.of
        rest = lambda x, *ks: n({k: v for k, v in x.items() if k not in ks})
        return dict(docs=[dict(id=n(d["id"]), v=rest(d, "id")) for d in map(plain, docs)],
                    tasks=[dict(id=n(d["id"]), doc=n(d["document"]), v=rest(d, "id", "document")) for d in map(plain, tasks)],
                    routes=[dict(id=n(d["id"]), v=rest(d, "id")) for d in map(plain, routes)])

    def seen(self, s):
        s = s or {}
        return self.state(s.get("document", []), s.get("task", []), s.get("route", []))

    def record(self, outs):
        """outs: like phases, answers for orders."""
        ops = []
        for ph, (orders, answers) in enumerate(zip(self.phases, outs)):
            for p, (os_, as_) in enumerate(zip(orders, answers)):
                for k, (o, a) in enumerate(zip(os_, as_)):
                    r = dict(op=o["op"], phase=ph, proc=p, k=k)
                    if o["op"] == "update":
                        saw = a["saw"]
                        r.update(ok=a["ok"], called=saw is not None, saw=self.seen(saw), fail=o["fail"],
                                 c=self.state([document_kept(d) for d in o["docs"]], o["tasks"], o["routes"]))
                    elif o["op"] == "read":
                        r.update(ok="state" in a, saw=self.seen(a.get("state")))
                    elif o["op"] == "put":
                        r["kind"] = o["kind"]
                    else:
                        r.update(text=self.num.of(["text", a["text"]]), at=self.num.of(["at", a["at"]]))
                    ops.append(r)
        return ops


def one_after_another(way, rng):
    s = Story(rng)
    orders = []
    docs, tasks, routes = {}, {}, {}
    for a in way:
        orders.append(s.update(a["c"], a["fail"]) if a["op"] == "update" else s.put(a["kind"]))
        orders.append(dict(op="text"))
        if rng.random() < .5:
            orders.append(dict(op="read"))
        if a["op"] == "put":
            docs, tasks, routes = {}, {}, {}
        elif not a["fail"]:
            for to, k in ((docs, "docs"), (tasks, "tasks"), (routes, "routes")):
                for x in a["c"][k]:
                    to.pop(x["id"], None)
                    to[x["id"]] = x
    # The same once more, in another order.
    shuffled = lambda d: rng.sample(list(d.values()), len(d))
    orders += [s.put("blank"), s.update(dict(docs=shuffled(docs), tasks=shuffled(tasks), routes=list(routes.values()))), dict(op="text")]
    s.phases = [[orders], [[dict(op="read"), dict(op="text")]]]
    return s


def together(rng):
    s = Story(rng)
    none = dict(docs=[], tasks=[], routes=[])

    def change():
        # Values that no other change has tell whose is there.
        x = lambda **k: dict(id=rng.choice("xyz"), v=rng.randrange(1 << 30), **k)
        return dict(none, docs=[x() for _ in range(rng.choice((0, 1, 2)))], tasks=[x(doc=rng.choice("xyz")) for _ in range(rng.choice((0, 1)))], routes=[x() for _ in range(rng.choice((0, 1, 1, 2)))])

    def orders():
        out = []
        for _ in range(rng.choice((5, 8))):
            out.append(dict(op="read") if rng.random() < .3 else s.update(change(), rng.random() < .15, rng.choice((0, 0, 300, 2000))))
        return out
    first = rng.choice([None, None, s.put("blank"), s.put("future"), s.update(change())])
    s.phases = ([[[first]]] if first else []) + [[orders() for _ in range(3)], [[dict(op="read"), dict(op="text")]]]
    return s


def perform(exe, s, dir):
    shutil.rmtree(dir, ignore_errors=True)
    os.makedirs(dir)
    outs = []
    for orders in s.phases:
        procs = [subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, cwd=dir) for _ in orders]
        for p, os_ in zip(procs, orders):
            p.stdin.write("".join(json.dumps(dict(o, dir=dir)) + "\n" for o in os_))
        for p in procs:
            p.stdin.close()
        outs.append([[json.loads(l) for l in p.stdout.read().split("\n") if l] for p in procs])
        for p, os_, as_ in zip(procs, orders, outs[-1]):
            if p.wait() or len(os_) != len(as_):
                raise ToolError("the driver failed: " + json.dumps(os_))
    shutil.rmtree(dir, ignore_errors=True)
    return outs


def _perform(job):
    return [perform(job[0], s, job[2]) for s in job[1]]


def judge(recs):
    """The first operation of each that nothing explains, if there is one."""
    bad = {}
    for k in range(0, len(recs), 4000):
        part = recs[k:k + 4000]

        def reached(part, act):
            r = run_tlc("LockTrace", emit=True, files=[("traces.json", json.dumps(part))], cfg_kwargs=dict(spec="Spec", view="View", action_constraint=act))
            if not r.ok:
                raise ToolError(r.out[-3000:])
            return r.prints
        ok = {p["r"] - 1 for p in reached(part, "Done")}
        left = [i for i in range(len(part)) if i not in ok]
        if left:
            deep = {}
            for p in reached([part[i] for i in left[:20]], "Deep"):
                if p["n"] > deep.get(p["r"] - 1, [0])[0]:
                    deep[p["r"] - 1] = [p["n"], p["done"]]
            for j, i in enumerate(left):
                bad[k + i] = deep.get(j, [0, []])
    return bad


def run(prop):
    exe = vlib.build("proj", ["locks"])
    ck = Check(prop, "model_checking")
    # One worker: several of them sort the fields of shared records at the same time.
    inv = ["Kept", "Whole", "Unreadable", "Once", "Newest"]
    consts = dict(Procs={"p", "q", "r"} if THOROUGH else {"p", "q"}, Changes=Raw("<- MCChanges"), N=2, Locks=True)
    r = tlc_checked("Lock", "what is in the file", workers=1, consts=consts, cfg_kwargs=dict(spec="Spec", invariants=inv))
    ck.add(states=r.distinct)
    for i in ("Kept", "Whole"):
        if not run_tlc("Lock", workers=1, consts=dict(consts, Locks=False), cfg_kwargs=dict(spec="Spec", invariants=[i])).violated:
            raise ToolError(f"{i} holds without locks")
        ck.add(faults_shown=1)
    rng = random.Random(SEED)
    mc = lambda n: dict(Names={"x", "y"}, Vals={1, 2}, Len0=n)
    r = run_tlc("LockMC", emit=True, consts=mc(10), cfg_kwargs=dict(spec="Spec", view="View", action_constraint="Emit"))
    ways = r.prints
    ck.add(transitions=len(ways))
    ways = ways if THOROUGH else rng.sample(ways, 1200)
    r = run_tlc("LockMC", emit=True, consts=mc(25), cfg_kwargs=dict(spec="Spec", action_constraint="All"),
                extra=["-simulate", f"num={2000 if THOROUGH else 200}", "-depth", "26", "-seed", str(SEED)])
    # All last steps of a way are printed.
    ways += rng.sample(r.prints, min(len(r.prints), 2000 if THOROUGH else 200))
    stories = [one_after_another(w, rng) for w in ways] + [together(rng) for _ in range(600 if THOROUGH else 80)]
    base = scratch()
    jobs = [(exe, stories[i::16], os.path.join(base, f"lock{i}")) for i in range(16)]
    outs = [None] * len(stories)
    for i, part in enumerate(pmap(_perform, jobs, procs=8, chunk=1)):
        outs[i::16] = part
    recs, at = [], []
    for i, (s, out) in enumerate(zip(stories, outs)):
        panic = next((a["panic"] for ph in out for as_ in ph for a in as_ if "panic" in a), None)
        if panic is not None:
            ck.violation("changing or reading the lock file panicked", dict(phases=s.phases, panic=panic))
            continue
        at.append(i)
        recs.append(s.record(out))
    ck.add(stories=len(stories), operations=sum(map(len, recs)))
    for k, (n, done) in judge(recs).items():
        s, ops = stories[at[k]], recs[k]
        nxt = [o for i, o in enumerate(ops) if i + 1 not in done]
        o = nxt[0] if nxt else ops[-1]
        ck.violation("no order of the operations explains what the lock file was seen to be, or whether it was rewritten",
                     dict(phases=s.phases, explained=n, next=s.phases[o["phase"]][o["proc"]][o["k"]], answer=outs[at[k]][o["phase"]][o["proc"]][o["k"]]))
    ck.sample(dict(phases=stories[-1].phases, answers=outs[-1]))
    return ck.finish()
