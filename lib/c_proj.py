"""C26, C27, C28, C29: the server's projects. Behaviours of Projects.tla and random histories are performed with the real project, watcher,
server and editor-actor code (typst, notify and rayon replaced by stand-ins); ProjectsJudge.tla judges what was seen."""
import json, os, queue, random, re, select, subprocess, threading
import vlib
from vlib import THOROUGH, SEED, Check, ToolError, run_tlc, tlc_checked, Raw, pmap
from c_paths import judge

SWITCHES = ["TicksGrow", "PrevIsSent", "KeepsOthers", "WatchesAgain", "RevisionsGoOn", "DropsLate", "TakesOver", "Rechecks", "DelaysAreEdits", "KeepsMain"]
FS = ["a", "b", "c"]
PROCS = 24


def text(c):
    """The file's text, as the stand-in of typst reads it."""
    return " ".join(([c["lit"]] if c["lit"] else []) + (["include:" + c["inc"]] if c["inc"] else []) + (["error:" + c["err"]] if c["err"] else []))


def j(c):
    return dict(has=c is not None, lit=c["lit"] if c else "", inc=c["inc"] if c else "", err=c["err"] if c else "")


def words(t):
    return re.findall(r"[a-c]\d+", t or "")


class Story:
    """What is done, and what is true then."""

    def __init__(self, rng, disk, cfg=None, focus=None):
        self.rng, self.disk, self.buf, self.live = rng, dict(disk), {}, {"primary": ""}
        self.cfg, self.chosen = cfg or {}, False
        self.start = {f: text(c) for f, c in disk.items() if c}
        self.steps, self.rests, self.views, self.written, self.marks = [], [], [], set(), []
        # Of the exports: Due, Told and Calls of Projects.tla, as far as they can be told from outside.
        self.resting, self.mixed, self.due, self.stale = False, {"entry"}, {}, set()
        self.watched, self.base, self.served = set(), {}, {}
        self.note()
        if focus:
            self.focus(focus)

    def view(self):
        return {f: j(self.buf.get(f) or self.disk.get(f)) for f in FS}

    def note(self):
        v = self.view()
        if not self.views or self.views[-1] != v:
            self.views.append(v)

    def uses(self, f):
        seen = set()
        while f and f not in seen:
            seen.add(f)
            c = self.buf.get(f) or self.disk.get(f)
            f = c and c["inc"]
        return seen

    def called(self, kind, of):
        """What must be exported now: `of` gives it for a project, None where nothing changes."""
        self.mixed = {kind} if self.resting else self.mixed | {kind}
        may = (set() if "disk" in self.mixed else {"type"}) | (set() if "mem" in self.mixed else {"save"})
        keep = {} if self.resting else self.due
        self.due = {p: may & (keep.get(p, set()) if of(p) is None else of(p)) for p in self.live}
        self.resting = False
        self.sees()

    def anything(self):
        self.mixed, self.due, self.resting = {"mem", "disk"}, {}, False
        self.sees()

    def sees(self):
        """What is watched for certain."""
        for p, e in self.live.items():
            self.served.setdefault(e, set()).add(p)
        self.watched &= set().union(*map(self.uses, self.live.values()))

    def changed(self, kind, f, changes):
        def of(p):
            u = self.uses(self.live[p])
            return set() if (u - {f}) & self.stale else None if f not in u else {"type", "save"} if changes else set()
        self.called(kind, of)

    def enters(self, p):
        u = self.uses(self.live[p])
        self.called("entry", lambda q: None if q != p else set() if not u or u & self.stale else {"type", "save"})

    def do(self, op, **kw):
        self.note()
        self.steps.append(dict(op=op, **kw))
        self.marks.append(len(self.views))

    def changes(self, f, c):
        """The whole text, or only where it differs."""
        old, new = text(self.buf[f]), text(c)
        if self.rng.random() < .5:
            return [dict(t=new)]
        k = 0
        while k < min(len(old), len(new)) and old[k] == new[k]:
            k += 1
        e = 0
        while e < min(len(old), len(new)) - k and old[-1 - e] == new[-1 - e]:
            e += 1
        one = dict(range=[0, k, 0, len(old) - e], t=new[k:len(new) - e])
        if self.rng.random() < .3:
            return [dict(range=[0, 0, 0, 0], t="x "), dict(one, range=[0, k + 2, 0, len(old) - e + 2]), dict(range=[0, 0, 0, 2], t="")]
        return [one]

    def edit(self, f, c):
        old = self.buf.get(f) or self.disk.get(f)
        if f in self.buf:
            ch = self.changes(f, c)
            self.buf[f] = c
            self.changed("mem", f, old != c)
            self.do("edit", f=f, changes=ch)
        else:
            self.buf[f] = c
            self.changed("mem", f, old != c)
            if not self.chosen and self.live["primary"] != f:
                self.live["primary"] = f
                self.enters("primary")
            self.do("open", f=f, t=text(c))

    def close(self, f):
        old = self.buf[f]
        del self.buf[f]
        self.changed("mem", f, old != self.disk.get(f))
        self.do("close", f=f)

    def focus(self, f):
        was, self.live["primary"], self.chosen = self.live["primary"], f, True
        if was != f:
            self.enters("primary")
        self.do("focus", f=f or None)

    def write(self, f, c, kind):
        self.written.add(f)
        new = self.disk.get(f) is None
        self.disk[f] = c
        if f not in self.watched or kind != "modify" or new:
            self.anything()
        else:
            self.changed("disk", f, c != self.base[f])
        self.stale.add(f)
        self.do("write", f=f, t=text(c))
        if new:
            # Nothing watches what was not there: it is found at the next compilation.
            for p in self.live:
                self.do("compile", id=p)
        else:
            self.do("notice", f=f, kind=kind)

    def remove(self, f):
        self.written.add(f)
        self.disk[f] = None
        self.anything()
        self.stale.add(f)
        self.do("remove", f=f)
        self.do("notice", f=f, kind="remove")

    def launch(self, p, f):
        self.live[p] = f
        self.enters(p)
        self.do("start", id=p, f=f)

    def settle(self, p):
        del self.live[p]
        self.due.pop(p, None)
        self.do("settle", id=p)

    def reload(self):
        self.live = {"primary": self.live["primary"]}
        self.enters("primary")
        self.do("reload")

    def goes_on(self, n):
        for _ in range(n):
            for op in ("watcher", "deliver", "job", "deliver"):
                self.do(op, n=0)

    def backwards(self):
        """Everything goes on but exports; then the newest of them go first."""
        self.goes_on(4)
        for _ in range(self.rng.randint(1, 5)):
            self.do("export", n=9)

    def rest(self):
        self.do("quiesce")
        self.rests.append((len(self.steps) - 1, self.view(), dict(self.live), {p: sorted(d) for p, d in self.due.items()}))
        self.resting, self.watched, self.base = True, set().union(*map(self.uses, self.live.values())), dict(self.disk)
        self.stale -= self.watched
        self.watched = {f for f in self.watched if self.disk.get(f)}

    def probe(self, content):
        """Everything being at rest, a change on disk is still found."""
        there = [f for f in FS if self.disk.get(f)]
        if there:
            f = self.rng.choice(there)
            self.write(f, content(f), "modify")
            self.rest()

    def order(self):
        return json.dumps(dict(cfg=self.cfg, disk=self.start, steps=self.steps))


def from_spec(hist, rng, cfg={}):
    """A behaviour of Projects.tla."""
    c = lambda x: {k: x[k] for k in ("lit", "inc", "err")} if x["has"] else None
    s = Story(rng, {f: c(x) for f, x in hist[0]["disk"].items()}, cfg, focus="a")
    if cfg.get("export"):
        s.do("hold")
    for a in hist[1:]:
        op, f = a["op"], a.get("f")
        if op in ("open", "edit"):
            s.edit(f, c(a["t"]))
        elif op == "close":
            s.close(f)
        elif op == "focus":
            s.focus(f)
        elif op in ("write", "create"):
            s.write(f, c(a["t"]), a.get("kind"))
        elif op == "remove":
            s.remove(f)
        elif op == "start":
            s.launch(a["id"], f)
        elif op == "settle":
            s.settle(a["id"])
        elif op == "reload":
            s.reload()
        elif op == "rest":
            if s.view() != a["view"] or s.live != a["live"] or any(set(d) - set(a["due"][p]) for p, d in s.due.items()):
                raise ToolError(f"the behaviour was misread: {a} {s.view()} {s.live} {s.due}")
            s.rest()
        elif op == "job":
            s.do("job", n=a["n"])
            if cfg.get("export") and rng.random() < .3:
                s.do("export", n=rng.choice([0, 0, 1, 9]))
        else:
            s.do(op)
    if s.steps[-1]["op"] != "quiesce":
        s.rest()
    for t in ("7", "8") if not (cfg.get("export") and not s.written) else ():
        s.probe(lambda f: dict(lit=f + t, inc=(s.disk[f] or {}).get("inc", ""), err=""))
    return s


def free(rng, prop):
    """A random history: each content is new."""
    n = [0]

    def content(f):
        n[0] += 1
        k = rng.random()
        if k < .07:
            return dict(lit="", inc="", err="")
        later = [x for x in FS if x > f]
        return dict(lit=f"{f}{n[0]}", inc=rng.choice(later) if later and k < .75 else "", err=f"e{f}{n[0]}" if rng.random() < .2 else "")
    cfg = dict(lint=rng.choice([None, None, "type", "save"]))
    s = Story(rng, {f: content(f) if rng.random() < .85 else None for f in FS}, cfg, focus=rng.choice("aab") if rng.random() < .9 else None)
    kinds = {"C26": "eeeeccfdddddrrsSR", "C27": "eeecffdddrrssSSRR", "C28": "eeeeeecfd" if rng.random() < .5 else "eeeeeeecfs",
             "C29": "eeeeecfssSRR" if rng.random() < .5 else "eedddddfsS"}[prop]
    if prop == "C29":
        cfg.update(export=rng.choice(["type", "type", "save", "save", "never"]), words=rng.random() < .6)
        if rng.random() < .8:
            s.do("hold")
    if rng.random() < .3:
        kinds = "".join(k for k in kinds if k not in rng.sample("cfdrsSR", 3)) + "e"
    lazy = rng.random()
    for _ in range(rng.randint(3, 40)):
        if rng.random() < .35 + lazy / 2:
            s.do(rng.choice(["watcher", "deliver", "deliver", "job", "editor"]), n=rng.choice([0, 0, 0, 1, 2]))
            continue
        if rng.random() < .02:
            s.do("recheck")
        if prop == "C29" and rng.random() < .3:
            s.do("export", n=rng.choice([0, 0, 0, 1, 2, 9]))
            continue
        k, f = rng.choice(kinds), rng.choice(FS)
        if k == "e":
            t = content(f)
            if f not in s.buf and s.disk.get(f) and rng.random() < .4:
                t = s.disk[f]
            s.edit(f, t)
        elif k == "c" and s.buf:
            s.close(rng.choice(sorted(s.buf)))
        elif k == "f":
            s.focus(rng.choice(FS + [""] if rng.random() < .3 else FS))
        elif prop == "C28" and f in s.buf:
            continue        # a compilation begun before that was opened still reads the disk
        elif k == "d":
            kind = "modify" if prop == "C29" else rng.choice(["modify", "modify", "remove", "rename"])
            s.write(f, s.buf[f] if f in s.buf and rng.random() < .5 else content(f), kind)
        elif k == "r" and s.disk.get(f):
            s.remove(f)
            if rng.random() < .3:
                s.do("watcher")
        elif k == "s":
            s.launch(rng.choice(["d1", "d2"]), f)
        elif k == "S" and len(s.live) > 1:
            s.settle(rng.choice(sorted(p for p in s.live if p != "primary")))
        elif k == "R" and rng.random() < (.8 if prop == "C29" else .3):
            if prop == "C29":
                s.goes_on(2)
            s.reload()
            main = s.live["primary"]
            if prop == "C29" and main in s.buf and rng.random() < .5:
                s.edit(main, content(main))
            elif rng.random() < .7:
                s.focus(f)
        if rng.random() < (.2 if prop == "C29" else .05):
            if prop == "C29" and rng.random() < .5:
                s.backwards()
            s.rest()
            if prop == "C29" and rng.random() < .8:
                s.do("hold")
    if prop == "C29" and rng.random() < .5:
        s.backwards()
    s.rest()
    if prop in ("C26", "C27"):
        s.probe(content)
        s.probe(content)
    return s


class Drivers:
    """Performs stories, several at a time: most of the time they wait for files to settle."""

    def __init__(self, exe):
        self.exe = exe

    def one(self, q, out, k):
        p = None
        d = os.path.join(vlib.scratch(), f"proj{k}")
        while True:
            try:
                i, s = q.get_nowait()
            except queue.Empty:
                break
            if p is None:
                p = subprocess.Popen([self.exe, d], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            line = b""
            try:
                p.stdin.write(s.order().encode() + b"\n")
                p.stdin.flush()
                if select.select([p.stdout], [], [], 120)[0]:
                    line = p.stdout.readline()
            except BrokenPipeError:
                pass
            if line:
                out[i] = json.loads(line)
            else:
                p.kill()
                p.wait()
                p = None
        if p:
            p.stdin.close()
            p.wait()

    def perform(self, stories):
        q, out = queue.Queue(), [None] * len(stories)
        for x in enumerate(stories):
            q.put(x)
        ts = [threading.Thread(target=self.one, args=(q, out, k)) for k in range(PROCS)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        return out


def shown(p):
    return dict(words=words(p["text"]), none=p["text"] is None)


def ordered(kind, s, by):
    """The results in the order they were shown. Every content of a history is new, so that words and errors tell which it was."""
    known = {}
    for v in s.views:
        for f, c in v.items():
            if c["lit"]:
                known[c["lit"]] = (f, c)
            if c["err"]:
                known[c["err"]] = (f, c)
    for p, xs in by.items():
        res = []
        for t, ws in xs:
            fs = {}
            for w in ws:
                if w != "missing":
                    if w not in known:
                        yield None, dict(shown=w), 0
                        continue
                    f, c = known[w]
                    fs[f] = c
            res.append(dict(t=t, files=fs))
        yield dict(k=kind, views=s.views, results=res, written=sorted(s.written)), p, len(s.steps) - 1


def records(prop, s, out):
    """What ProjectsJudge judges: (record, step)."""
    if prop == "C28":
        by = {}
        for o, t in zip(out, s.marks):
            for x in o.get("seen", []):
                if "result" in x:
                    by.setdefault(x["result"], []).append((t, words(x["text"]) + list(x["errors"])))
        yield from ordered("C28", s, by)
        return
    if prop == "C29" and not s.written:
        # A file is exported for one project, in the order of its compilations.
        by, was = {}, {}
        for o, t in zip(out, s.marks):
            for f, x in (o.get("exports") or o.get("look", {}).get("exports", {})).items():
                if was.get(f) != x and len(s.served.get(f, ())) == 1:
                    was[f] = x
                    by.setdefault(f, []).append((t, words(x)))
        yield from ordered("order", s, by)
    for at, view, live, due in s.rests:
        lk = out[at]["look"]
        r = dict(k=prop, view=view, live=live)
        if prop == "C29":
            r.update(due=due, when=s.cfg["export"], exports={f: words(t) for f, t in lk["exports"].items()}, counts=bool(s.cfg.get("words")),
                     words=-1 if lk["words"] is None else lk["words"])
            yield r, lk, at
            continue
        if prop == "C26":
            r["projects"] = {p: dict(entry=q["entry"] or "", compiling=q["compiling"], errs=q["errs"], **shown(q)) for p, q in lk["projects"].items()}
            r["previews"] = {p: dict(status=q["status"], **shown(q)) for p, q in lk["previews"].items() if p in live}
        else:
            r["diags"] = [dict(f=f, m=m, n=n) for f, ms in lk["diags"].items() for m, n in ms.items()]
            st = lk["status"] or ["", ""]
            r["status"] = [st[0], st[1].lstrip("/")]
        yield r, lk, at


def _judge(part):
    return judge("ProjectsJudge", part, consts={"None": Raw("None")}, cfg_kwargs=dict(spec="Spec"))


CONSTS = {"None": Raw("None"), "Unk": Raw("Unk")}
MC = dict(C26=[("files", 3, {"disk", "edit"}, set()), ("all", 2, {"edit", "disk", "focus", "ded", "reload"}, {"d"})],
          C27=[("projects", 3, {"edit", "focus", "ded", "reload"}, {"d"})],
          C28=[("edits", 4, {"edit"}, set())],
          C29=[("exports", 4, {"edit"}, set()), ("all", 2, {"edit", "disk", "focus", "ded", "reload"}, {"d"}), ("files", 3, {"edit", "disk"}, set())])
MC_DEEP = dict(C26=[("files", 4, {"disk", "edit"}, set()), ("all", 3, {"edit", "disk", "focus", "ded", "reload"}, {"d"})],
               C27=[("projects", 4, {"edit", "focus", "ded", "reload"}, {"d"})],
               C28=[("edits", 5, {"edit"}, set())],
               C29=[("exports", 5, {"edit"}, set()), ("all", 3, {"edit", "disk", "focus", "ded", "reload"}, {"d"})])
SABOTAGE = dict(C26=[("TicksGrow", 4, {"edit"}, set()), ("PrevIsSent", 2, {"disk"}, set()), ("Rechecks", 3, {"disk"}, set()), ("KeepsOthers", 3, {"disk", "edit"}, set()), ("WatchesAgain", 2, {"disk"}, set())],
                C27=[("RevisionsGoOn", 3, {"ded", "edit"}, {"d"}), ("DropsLate", 2, {"edit", "focus"}, set()), ("TakesOver", 2, {"reload", "edit"}, set()), ("KeepsMain", 1, {"reload"}, set())],
                C28=[("TicksGrow", 4, {"edit"}, set())],
                C29=[("DelaysAreEdits", 3, {"edit"}, set())])


def consts(n, does, deds, off=None, files=("a", "b"), of="<- SmallOf", disk="<- SmallDisk"):
    return dict(CONSTS, Files=set(files), Deds=deds, Of=of, Init0=disk, Entry0="a", MaxEnv=n, Does=does,
                **{s: s != off for s in SWITCHES})


INVS = ["Converged", "Screened", "StatusLine", "Watched", "MainKept", "Forward"]


def queue_model(ck):
    """The export queue by itself."""
    switches = ["PerProject", "Requeues", "OneQueue"]
    for off in [None] + switches:
        kw = dict(consts=dict(Projects={"p", "q", "r"}, Shared={"p", "q"}, Most=6 if THOROUGH else 5, **{"None": Raw("None")}, **{s: s != off for s in switches}),
                  cfg_kwargs=dict(spec="Spec", invariants=["UpToDate", "Works"], properties=["Forward"]))
        if off is None:
            ck.add(states=tlc_checked("Exports", "the export queue", **kw).distinct)
        elif not run_tlc("Exports", **kw).violated:
            raise ToolError(f"the export queue holds without {off}")
        else:
            ck.add(faults_shown=1)


def model(ck, prop):
    exported, view = (["Exported"], "ViewExports") if prop == "C29" else ([], "View")
    if exported:
        queue_model(ck)
    for name, n, does, deds in (MC_DEEP if THOROUGH else MC)[prop]:
        r = tlc_checked("ProjectsMC", f"projects, {name}", consts=consts(n, does, deds), timeout=3000, mem="12g",
                        cfg_kwargs=dict(spec="Spec", invariants=INVS + exported, view=view, action_constraint="Eager"))
        ck.add(states=r.distinct)
    for off, n, does, deds in SABOTAGE[prop]:
        r = run_tlc("ProjectsMC", consts=consts(n, does, deds, off),
                    cfg_kwargs=dict(spec="Spec", invariants=INVS[:5] + exported, view=view, action_constraint="Eager"))
        if not r.violated:
            raise ToolError(f"the model holds without {off}:\n{r.out[-2000:]}")
        ck.add(faults_shown=1)


def simulate(num, seed, does, deds):
    r = run_tlc("ProjectsSim", emit=True, consts=consts(10, does, deds, files=FS, of="<- SimOf", disk="<- SimDisk"),
                cfg_kwargs=dict(init="SInit", next_="SNext", invariants=["Good", "Whole"]),
                extra=("-simulate", f"num={num}", "-depth", "500", "-seed", str(seed)))
    if "is violated" in r.out or not r.prints:
        raise ToolError("simulating the projects failed:\n" + r.out[-3000:])
    seen, out = set(), []
    for h in r.prints:
        k = json.dumps([a for a in h[:-3]])
        if k not in seen:
            seen.add(k)
            out.append(h)
    return out


def run(prop):
    exe = vlib.build("proj", ["proj"])
    ck = Check(prop, "model_checking")
    rng = random.Random(SEED * 1000 + int(prop[1:]))
    model(ck, prop)
    k = 6000 if THOROUGH else 500
    stories = []
    if prop != "C28":
        does = {"C26": [{"edit", "disk", "focus", "ded", "reload"}], "C27": [{"edit", "focus", "ded", "reload"}],
                "C29": [{"edit", "focus", "ded"}, {"edit", "disk", "focus", "ded", "reload"}]}[prop]
        hs = [h for d in does for h in simulate(k // len(does), SEED * 17 + int(prop[1:]), d, {"d1", "d2"})]
        stories += [from_spec(h, rng, dict(export=rng.choice(["type", "save"]), words=rng.random() < .5) if prop == "C29" else {}) for h in rng.sample(hs, min(k, len(hs)))]
    ck.add(behaviours=len(stories))
    stories += [free(rng, prop) for _ in range(2 * k if prop == "C28" else k)]
    ck.add(histories=len(stories), steps=sum(len(s.steps) for s in stories))
    outs = Drivers(exe).perform(stories)
    recs, rests = [], 0
    for s, out in zip(stories, outs):
        if out is None:
            ck.violation("the server died or fell silent", dict(story=json.loads(s.order())))
            continue
        if "panic" in out[-1]:
            ck.violation(f"the server panicked: {out[-1]['panic']}", dict(story=dict(json.loads(s.order()), steps=s.steps[:len(out)])))
            continue
        if any(o.get("rounds", 0) > 150 for o in out):
            ck.violation("it never comes to rest", dict(story=json.loads(s.order())))
            continue
        for r, d, at in records(prop, s, out):
            if r is None:
                ck.violation("something is shown that never was in any file", dict(story=json.loads(s.order()), **d))
            else:
                recs.append((r, s, d, at))
    parts = [recs[i::8] for i in range(8)]
    what = {"C26": "at rest, a project does not show what its files are", "C27": "at rest, the diagnostics or the status shown are not those of the projects",
            "C28": "results go back, or mix what never was together",
            "C29": "what is exported, or the count of words, is not what was typed or saved last"}[prop]
    for part, bad in zip(parts, pmap(_judge, [[r for r, *_ in p] for p in parts], procs=8, chunk=1)):
        for i in bad:
            r, s, d, at = part[i]
            ck.violation(what, dict(record=r if "results" not in r else dict(of=d, results=r["results"]), seen=d,
                                    story=dict(json.loads(s.order()), steps=s.steps[:at + 1])))
    ck.violations.sort(key=lambda v: len(v[1]["story"]["steps"]))
    ck.add(judged=len(recs))
    if recs:
        ck.sample(dict(record=recs[0][0], story=recs[0][1].steps[:30]))
    ck.assumptions += ["typst, notify and rayon are stand-ins: a file's text is words, an include and an error of its own; changes of watched files are noticed",
                       "files that did not exist when they were looked for are noticed at the next compilation only"]
    return ck.finish()
