"""C23, C24: the virtual file system. Behaviours of Vfs.tla and random histories performed with the real tinymist-vfs (typst itself
replaced by a stand-in); what it gave is judged by VfsTrace.tla."""
import json, multiprocessing, random, select, subprocess
import vlib
from vlib import THOROUGH, SEED, Check, Raw, ToolError, run_tlc, tlc_checked, pmap

CONTENTS = [b"", b"one", b"two", b"\xff\xfenot text", b"\xef\xbb\xbfone", b"", "été 😀\r\nx".encode(), b"\xef\xbb\xbf",
            b"one two", b"\xef\xbb\xbf\xef\xbb\xbftwo"]
BOM = b"\xef\xbb\xbf"
# Values whose bytes, and whose texts, are all different.
PALETTES = [[1, 2, 3, 5, 6, 8], [2, 3, 4, 7, 8, 9], [0, 1, 2, -2, -3, 3], [0, 4, 5, 9, -2, 6], [1, 2, 8, 6], [0, 1]]
_job = {}
_bad = multiprocessing.Value("i", 0)   # histories that failed, in all processes: a few are enough

# Files of the real system: several ids for one file, other roots, packages, no root at all.
POOL = [
    (dict(k="ws", root="/w", v="/a.typ"), "/w/a.typ"),
    (dict(k="ws", root="/", v="/w/a.typ"), "/w/a.typ"),
    (dict(k="ws", root="/w/sub", v="/b.typ"), "/w/sub/b.typ"),
    (dict(k="ws", root="/w", v="/sub/b.typ"), "/w/sub/b.typ"),
    (dict(k="ws", root="/w", v="/é ü/img.png"), "/w/é ü/img.png"),
    (dict(k="pkg", pkg="@preview/x:0.1.0", v="/lib.typ"), "/pkg/x/0.1.0/lib.typ"),
    (dict(k="ws", root="/pkg/x/0.1.0", v="/lib.typ"), "/pkg/x/0.1.0/lib.typ"),
    (dict(k="pkg", pkg="@preview/x:0.2.0", v="/lib.typ"), "/pkg/x/0.2.0/lib.typ"),
    (dict(k="pkg", pkg="@preview/missing:0.1.0", v="/lib.typ"), -5),
    (dict(k="pkg", pkg="@local/x:0.2.0", v="/../../lib.typ"), -1),
    (dict(k="untitled", root="/w", v="/a.typ"), -1),
    (dict(k="untitled", root=None, v="/Untitled-1"), -1),
    (dict(k="rootless", v="/a.typ"), -1),
    (dict(k="ws", root="/w", v="../../etc/passwd"), -1),
    (dict(k="ws", root="/w", v="/../a.typ"), -1),
]


class Sys:
    def __init__(self):
        self.p = subprocess.Popen([_job["exe"], "vfs"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)

    def __call__(self, **c):
        try:
            self.p.stdin.write((json.dumps(c) + "\n").encode())
            self.p.stdin.flush()
            if not select.select([self.p.stdout], [], [], 40)[0]:
                return {"silent": True}
            l = self.p.stdout.readline()
        except BrokenPipeError:
            l = b""
        return json.loads(l) if l else {"died": self.p.wait()}

    def close(self):
        self.p.kill()
        self.p.wait()


def value(got, how, palette):
    """The number of what was read."""
    if "e" in got:
        e = got["e"]
        if e == -4:
            return next((v for v in palette if v == 3 and how == "source"), -97)
        return e if isinstance(e, int) else -97
    raw = bytes.fromhex(got.get("b" if how == "bytes" else "t", "zz")) if got.get("b", got.get("t", "")).isalnum() or not got.get("b", got.get("t", "")) else b"?"
    for v in palette:
        if v > 0:
            c = CONTENTS[v]
            if how == "source":
                if v == 3:
                    continue
                c = c[3:] if c.startswith(BOM) else c
            if c == raw:
                return v
    return -97


class History:
    """One history: performs it, and records what VfsTrace judges."""

    def __init__(self, sys, files, palette, rng):
        self.s, self.palette, self.rng = sys, palette, rng
        self.paths = sorted({p for _, p in files if isinstance(p, str)})
        self.files = files
        self.log = []
        self.bad = None
        disk = {p: rng.choice(palette) for p in self.paths}
        rev = self.cmd(op="new", files=[f for f, _ in files], disk=disk)
        self.rec = dict(files=[self.paths.index(p) + 1 if isinstance(p, str) else p for _, p in files],
                        disk=[disk[p] for p in self.paths], rev=rev if isinstance(rev, int) else 0, ev=[])
        self.view = [0]          # a token for each handle's revision
        self.revs = [rev]        # and the revision itself
        self.next = 1
        self.threads = []        # [view token, file, handle it holds or None, how, ended]
        self.resets = 0

    def cmd(self, **c):
        out = self.s(**c)
        self.log.append([c, out])
        if isinstance(out, dict) and ("died" in out or "silent" in out):
            self.bad = dict(what="it never answered" if "silent" in out else "it died", history=self.log[-40:])
            raise StopIteration
        return out

    def shown(self, got):
        return dict(paths=[self.paths.index(p) + 1 if p in self.paths else 0 for p in got["paths"]], ids=got["ids"])

    def busy(self, h, f):
        return any(not t[4] and t[0] == self.view[h - 1] and t[1] == f for t in self.threads)

    def held(self, h):
        return any(not t[4] and t[2] == h for t in self.threads)

    def disk(self, p, v):
        self.cmd(op="disk", p=self.paths[p - 1], v=v)
        self.rec["ev"].append(dict(o="disk", p=p, v=v))

    def edit(self, h, ops):
        real = []
        for o in ops:
            o = dict(o)
            if "p" in o:
                o["p"] = self.paths[o["p"] - 1]
            if o["k"] == "notify":
                o.update(ins=[[self.paths[p - 1], v] for p, v in o["ins"]], rem=[self.paths[p - 1] for p in o["rem"]], event=self.rng.random() < .3)
            real.append(o)
        got = self.cmd(op="edit", h=h, ops=real)
        self.edited(h, ops, got)

    def edited(self, h, ops, got):
        if got["rev"] != self.revs[h - 1]:
            self.view[h - 1], self.next = self.next, self.next + 1
            self.revs[h - 1] = got["rev"]
        self.rec["ev"].append(dict(o="edit", h=h, ops=ops, rev=got["rev"], **self.shown(got)))

    def snap(self, h, fork=False):
        got = self.cmd(op="fork" if fork else "snap", h=h)
        if fork:
            self.view.append(self.next)
            self.next += 1
        else:
            self.view.append(self.view[h - 1])
        self.revs.append(got["rev"])
        self.rec["ev"].append(dict(o="fork" if fork else "snap", h=h, rev=got["rev"], **self.shown(got)))

    def read(self, h, f):
        if self.busy(h, f):
            return
        how = self.rng.choice(["bytes", "source"])
        got = self.cmd(op="read", h=h, f=f, how=how)
        self.rec["ev"].append(dict(o="read", h=h, f=f, x=value(got, how, self.palette)))

    def begin(self, h, f, late=None, own=None):
        if self.busy(h, f):
            return False
        how = self.rng.choice(["bytes", "source"])
        own = self.rng.random() < .5 if own is None else own
        self.cmd(op="begin", h=h, f=f, how=how, late=self.rng.random() < .6 if late is None else late, own=own)
        self.threads.append([self.view[h - 1], f, None if own or h == 1 else h, how, False])
        self.rec["ev"].append(dict(o="begin", h=h, f=f))
        return True

    def end(self, t):
        th = self.threads[t - 1]
        if th[4]:
            return
        th[4] = True
        got = self.cmd(op="end", t=t)
        if got == "never ended":
            self.bad = dict(what="a read never ended", history=self.log[-40:])
            raise StopIteration
        self.rec["ev"].append(dict(o="end", t=t, x=value(got, th[3], self.palette)))

    def evict(self, h, n):
        self.cmd(op="evict", h=h, n=n)
        self.rec["ev"].append(dict(o="evict", h=h, n=n))

    def clean(self, h, r, ids):
        got = self.cmd(op="clean", h=h, r=r, ids=ids)
        self.rec["ev"].append(dict(o="clean", h=h, r=r, ids=ids, ans=got))

    def reset(self):
        if self.rng.random() < .5:
            self.edited(1, [dict(k="reset_cache")], self.cmd(op="reset_all"))
        else:
            self.resets += 1
            self.cmd(op="reset_am")

    def places(self):
        """Where the files are."""
        for i, (f, p) in enumerate(self.files):
            got = self.cmd(op="path", f=i + 1)
            want = ({"path": p} if isinstance(p, str) else {"e": p} if p == -5 or ".." in f["v"] else {"rootless": f["v"]})
            if got != want:
                self.bad = dict(what="a file is resolved to another place", file=f, got=got, expected=want)

    def finish(self):
        for t in range(1, len(self.threads) + 1):
            self.end(t)
        for h in range(1, len(self.view) + 1):
            for f in range(1, len(self.files) + 1):
                self.read(h, f)
        self.places()


def random_ops(rng, H):
    n = len(H.paths)
    out = []
    for _ in range(rng.choice([1, 1, 1, 2, 3, 4])):
        k = rng.choice(["map", "map", "unmap", "mapid", "mapid", "unmapid", "notify", "notify", "notify", "reset_shadow", "reset_cache"])
        if k == "reset_cache" and rng.random() < .6:
            k = "notify"
        o = dict(k=k)
        if k in ("map", "unmap", "notify") and not n:
            continue
        if k in ("map", "unmap"):
            o["p"] = rng.randrange(n) + 1
        if k in ("mapid", "unmapid"):
            o["f"] = rng.randrange(len(H.files)) + 1
        if k in ("map", "mapid"):
            o["v"] = rng.choice(H.palette)
        if k == "notify":
            o["ins"] = [[rng.randrange(n) + 1, rng.choice(H.palette)] for _ in range(rng.choice([0, 1, 1, 2, 3]))]
            o["rem"] = [rng.randrange(n) + 1 for _ in range(rng.choice([0, 0, 1, 2]))]
        out.append(o)
    return out


def again(rng, H, f):
    """A file is read, others are edited, it may be forgotten, changes on the disk, is read again: is it clean?"""
    revs = [H.revs[0]]
    H.read(1, f)
    for _ in range(rng.choice([1, 2, 4])):
        if H.held(1):
            return
        ops = random_ops(rng, H) if rng.random() < .3 else [dict(k="mapid", f=rng.randrange(len(H.files)) + 1, v=rng.choice(H.palette))]
        H.edit(1, ops)
        revs.append(H.revs[0])
    if rng.random() < .7:
        H.evict(1, rng.choice([0, 0, 1, 2]))
    if H.rec["files"][f - 1] > 0 and rng.random() < .8:
        H.disk(H.rec["files"][f - 1], rng.choice(H.palette))
    if rng.random() < .8:
        H.read(1, f)
    for r in rng.sample(revs, rng.randrange(1, len(revs) + 1)):
        H.clean(1, r, [f])


def _random(job):
    out = []
    s = Sys()
    for seed, steps in job:
        if _bad.value > 5:
            break
        rng = random.Random(seed)
        files = rng.sample(POOL, rng.choice([1, 2, 3, 4, 6]))
        if rng.random() < .5:
            files += [f for f in POOL if f not in files and any(f[1] == g[1] and isinstance(g[1], str) for g in files)]
        H = None
        try:
            H = History(s, files, rng.choice(PALETTES), rng)
            edits, hot = rng.choice([1, 3]), rng.choice([1, 4])
            for _ in range(steps):
                nh = len(H.view)
                h = rng.randrange(nh) + 1 if rng.random() < .6 else 1
                f = rng.randrange(len(files)) + 1
                k = rng.choices(["disk", "edit", "snap", "fork", "read", "begin", "end", "evict", "sources", "clean", "reset", "again"],
                                [2, 2 * edits, 1 if nh < 6 else 0, .2 if nh < 6 else 0, 5, hot, hot, .5, .3, 2, .1, .5])[0]
                if k == "disk" and H.paths:
                    H.disk(rng.randrange(len(H.paths)) + 1, rng.choice(H.palette))
                elif k == "edit":
                    if rng.random() < .8:
                        h = 1
                    if not H.held(h):
                        H.edit(h, random_ops(rng, H))
                elif k in ("snap", "fork"):
                    H.snap(h, k == "fork")
                elif k == "read":
                    H.read(h, f)
                elif k == "begin" and sum(not t[4] for t in H.threads) < 5:
                    H.begin(h, f)
                elif k == "end":
                    live = [i + 1 for i, t in enumerate(H.threads) if not t[4]]
                    if live:
                        H.end(rng.choice(live))
                elif k == "evict":
                    H.evict(h, rng.choice([0, 1, 2, 5, 30]))
                elif k == "sources":
                    H.cmd(op="evict_sources", h=h, n=rng.choice([0, 1, 3]))
                elif k == "clean":
                    H.clean(h, rng.choice([r for r in H.revs if r <= H.revs[h - 1]] + [max(1, H.revs[h - 1] - rng.randrange(4))]),
                            rng.sample(range(1, len(files) + 1), rng.randrange(1, len(files) + 1)))
                elif k == "again":
                    again(rng, H, f)
                elif k == "reset" and rng.random() < .5:
                    H.reset()
            H.finish()
        except StopIteration:
            s.close()
            s = Sys()
        if H and H.bad:
            with _bad.get_lock():
                _bad.value += 1
        out.append((H and H.rec, H and H.bad, H and H.log))
    s.close()
    return out


def _replay(job):
    """Behaviours of Vfs.tla."""
    out = []
    s = Sys()
    for seed, npaths, nfiles, acts in job:
        if _bad.value > 5:
            break
        rng = random.Random(seed)
        pool = [[POOL[0], POOL[1]], [POOL[2], POOL[3]], [POOL[5], POOL[6]]]
        rng.shuffle(pool)
        files = pool[0][:nfiles] if npaths == 1 else [p[0] for p in pool[:nfiles]]
        H = None
        try:
            H = History(s, files, rng.sample([1, 2, 5, 6, 8, 0, -2], 2), rng)
            val = {1: H.palette[0], 2: H.palette[1]}
            for p in range(len(H.paths)):
                H.disk(p + 1, val[1])
            t = {}
            for a in acts:
                o = a["o"]
                if o == "read":
                    H.read(a["h"], a["f"])
                elif o == "begin":
                    if H.begin(a["h"], a["f"]):
                        t[len(t) + 1] = len(H.threads)
                    else:
                        t[len(t) + 1] = None
                elif o == "end":
                    if t.get(a["t"]):
                        H.end(t[a["t"]])
                elif o == "edit":
                    ops = json.loads(json.dumps(a["ops"]))
                    for x in ops:
                        if "v" in x:
                            x["v"] = val[x["v"]]
                        if "ins" in x:
                            x["ins"] = [[p, val[v]] for p, v in x["ins"]]
                    H.edit(1, ops)
                elif o == "disk":
                    H.disk(a["p"], val[a["v"]])
                elif o in ("snap", "fork"):
                    H.snap(1, o == "fork")
                elif o == "evict":
                    H.evict(a["h"], a["n"])
                elif o == "clean":
                    H.clean(1, a["r"], a["ids"])
            H.finish()
        except StopIteration:
            s.close()
            s = Sys()
        if H and H.bad:
            with _bad.get_lock():
                _bad.value += 1
        out.append((H and H.rec, H and H.bad, H and H.log))
    s.close()
    return out


def _judge(recs):
    r = run_tlc("VfsTrace", emit=True, workers=1, mem="3g", files=[("traces.json", json.dumps(recs))], timeout=800,
                cfg_kwargs=dict(init="JInit", next_="JNext", invariants=["Report"]))
    if not r.ok:
        raise ToolError(f"VfsTrace could not judge:\n{r.out[-3000:]}")
    acc = {p["acc"] - 1 for p in r.prints if "acc" in p}
    stuck = {p["stuck"] - 1: p for p in r.prints if "stuck" in p}
    return acc, stuck


def consts(files, npaths, steps, handles=2, threads=1, thr=(0,), fixed=True):
    return dict(PathOf="<- " + files, NPaths=npaths, Vals={1, 2}, Batches="<- SmallBatches", MaxHandles=handles, MaxSteps=steps,
                Threads=threads, Thresholds=set(thr), DropUnread=fixed, Bumps=fixed, NewChanged=fixed)


def run(prop):
    _job["exe"] = vlib.build("core", ["vfs"])
    ck = Check(prop, "model_checking")
    rng = random.Random(SEED)
    r = tlc_checked("Vfs", "caching", consts=consts("PO1", 1, 7 if THOROUGH else 5), timeout=800,
                    cfg_kwargs=dict(spec="Spec", view="VfsV", invariants=["Sound"]))
    ck.add(states=r.distinct)
    jobs = []
    plans = [("PO1", 1, 1, 9, 2, 1), ("PO2", 1, 2, 12, 3, 2), ("PO12", 2, 2, 14, 3, 2)]
    for po, npaths, nfiles, steps, handles, threads in plans:
        num = 6000 if THOROUGH else 400
        r = run_tlc("VfsSim", emit=True, workers=1, consts=consts(po, npaths, steps, handles, threads, (0, 1)), timeout=400,
                    cfg_kwargs=dict(init="SInit", next_="SNext", invariants=["Whole", "Good"]),
                    extra=("-simulate", f"num={num}", "-depth", str(steps + 1), "-seed", str(SEED)))
        by = {}
        for h in r.prints:
            by.setdefault(json.dumps(h[:-1]), []).append(h)
        if not by:
            raise ToolError("no behaviours:\n" + r.out[-3000:])
        for k in sorted(by):
            jobs += [(rng.random(), npaths, nfiles, h) for h in rng.sample(by[k], min(2, len(by[k])))]
    rng.shuffle(jobs)
    res = [x for c in pmap(_replay, [jobs[i:i + 60] for i in range(0, len(jobs), 60)], chunk=1) for x in c]
    n1 = len(res)
    k = 12000 if THOROUGH else 1600
    hs = [(SEED * 100000 + i, rng.choice([12, 30, 60])) for i in range(k)]
    res += [x for c in pmap(_random, [hs[i:i + 40] for i in range(0, k, 40)], chunk=1) for x in c]
    recs = []
    for rec, bad, log in res:
        if bad and prop == "C23":
            ck.violation(bad["what"], bad)
        elif rec and not bad:
            # C23 is judged without what was said to be clean.
            recs.append((rec if prop == "C24" else dict(rec, ev=[e for e in rec["ev"] if e["o"] != "clean"]), log))
    if not recs and not ck.violations:
        raise ToolError("no history could be performed")
    size = 400
    parts = [recs[i:i + size] for i in range(0, len(recs), size)]
    for part, (acc, stuck) in zip(parts, pmap(_judge, [[r for r, _ in p] for p in parts], procs=6, chunk=1)):
        bad = [i for i in range(len(part)) if i not in acc]
        if prop == "C24" and bad:
            # Only what a history without these answers could not have is theirs.
            plain, _ = _judge([dict(part[i][0], ev=[e for e in part[i][0]["ev"] if e["o"] != "clean"]) for i in bad])
            bad = [i for k, i in enumerate(bad) if k in plain]
        for i, (rec, log) in enumerate(part):
            if i in bad:
                st = stuck.get(i, {})
                ck.violation("a history is none of a virtual file system" if prop == "C23" else "files were said to be unchanged that are not, or the other way round",
                             dict(at=st.get("at"), event=rec["ev"][st["at"] - 1] if st else None, allowed=st.get("may"), files=rec["files"],
                                  disk=rec["disk"], events=rec["ev"][:st.get("at", 0)], commands=log[-60:]))
    ck.add(replayed=n1, random_histories=len(res) - n1, events=sum(len(r["ev"]) for r, _ in recs),
           held_reads=sum(1 for r, _ in recs for e in r["ev"] if e["o"] == "end"),
           edits=sum(1 for r, _ in recs for e in r["ev"] if e["o"] == "edit"))
    ck.sample(recs[0][0]["ev"][:5] if recs else None)
    ck.assumptions += ["typst's own types (Bytes, Source, FileId, VirtualPath, errors) are stand-ins that behave as typst 0.13 does",
                       "reads are interleaved with edits at the look at the disk"]
    return ck.finish()
