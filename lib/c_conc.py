"""C13 (file locks) and C14 (lazy queries): free-running threads and processes, recorded and judged by
FileLockTrace.tla and QueryTrace.tla. `quiet` events record that nothing came although it should have."""
import json, multiprocessing, os, random, select, shutil, signal, subprocess, tempfile, time
import vlib
from vlib import THOROUGH, SEED, Check, ToolError, run_tlc, tlc_checked, pmap

_job = {}
_stuck = multiprocessing.Value("i", 0)
PATIENCE = 20.0 if THOROUGH else 8.0


class Proc:
    def __init__(self, args):
        self.p = subprocess.Popen(args, stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        self.buf = b""
        self.eof = False

    def send(self, **c):
        try:
            self.p.stdin.write(json.dumps(c).encode() + b"\n")
            self.p.stdin.flush()
        except BrokenPipeError:
            pass

    def take(self):
        """Whole lines that are there; call when readable."""
        d = os.read(self.p.stdout.fileno(), 65536)
        if not d:
            self.eof = True
        self.buf += d
        *ls, self.buf = self.buf.split(b"\n")
        return [json.loads(l) for l in ls if l]

    def end(self):
        """Kills it; what it had said before."""
        self.p.send_signal(signal.SIGKILL)
        out = []
        while not self.eof:
            out += self.take()
        self.p.wait()
        self.p.stdin.close()
        self.p.stdout.close()
        return out


class Rig:
    """Events in the order seen; subclasses know which results are still to come."""

    def __init__(self):
        self.ev = []
        self.procs = {}
        self.stuck = False   # something did not come in time; the judge sees it as a false quiet

    def absorb(self, timeout):
        fds = {q.p.stdout.fileno(): (k, q) for k, q in self.procs.items() if not q.eof}
        r, _, _ = select.select(list(fds), [], [], timeout)
        for fd in r:
            k, q = fds[fd]
            for m in q.take():
                self.output(k, m)
        return bool(r)

    def settle(self, rng):
        t0 = time.time()
        while self.expecting() and time.time() - t0 < PATIENCE:
            self.absorb(0.05)
            if any(q.eof for q in self.procs.values()):
                break
        if self.expecting() and not self.stuck:
            self.stuck = True
            with _stuck.get_lock():
                _stuck.value += 1
        while self.absorb(rng.choice((0.0005, 0.002))):
            pass
        self.ev.append({"e": "quiet"})


# ------------------------------------------------------------------ locks

FILES = {1: "d1/d2/lock file", 2: "plain.lock"}
VALS = ["v1", "v2"]


class Locks(Rig):
    def __init__(self, exe, rng):
        super().__init__()
        self.exe, self.rng = exe, rng
        self.root = tempfile.mkdtemp(prefix="vlk_", dir="/tmp")
        self.st = {(p, t): ("idle",) for p in (1, 2) for t in (1, 2)}
        self.init = {}
        for f, name in FILES.items():
            w = rng.choice(["absent", "absent", "empty", "v1", "v2"])
            self.init[f] = w
            if w != "absent":
                path = os.path.join(self.root, name)
                os.makedirs(os.path.dirname(path), exist_ok=True)
                with open(path, "w") as h:
                    h.write("" if w == "empty" else self.content(w))
        self.odd = []
        self.exists = {f for f, w in self.init.items() if w != "absent"}
        self.exists_at = {}
        for p in (1, 2):
            self.spawn(p)

    def content(self, v):
        return v * (3 if v == "v1" else 2000)

    def spawn(self, p):
        q = self.procs[p] = Proc([self.exe, "lock"])
        h = lambda s: s.encode().hex()
        a, b = os.path.split(self.root)
        q.send(**self.rng.choice([{"root": h(self.root)}, {"root": h(a), "push": h(b)}, {"root": h(a), "join": h(b)}]))

    def output(self, p, m):
        a = (p, m["t"])
        e = {"e": m["e"], "p": p, "t": m["t"]}
        s = self.st[a]
        if m["e"] == "read":
            c = bytes.fromhex(m["c"]).decode("latin1")
            e["v"] = "empty" if c == "" else next((v for v in VALS if c == self.content(v)), "other:" + c[:40])
            want = os.path.join(self.root, FILES[s[2]]) if len(s) > 2 else None
            if bytes.fromhex(m["path"]).decode() != want or bytes.fromhex(m["parent"]).decode() != os.path.dirname(want):
                self.odd.append({"path": bytes.fromhex(m["path"]).decode(), "expected": want})
        self.ev.append(e)
        if m["e"] == "got":
            self.exists.add(s[2])
        if m["e"] in ("got", "read", "wrote"):
            self.st[a] = ("hold", s[1], s[2]) if len(s) > 2 else ("idle",)
        elif m["e"] in ("busy", "err", "dropped"):
            self.st[a] = ("idle",)

    def expecting(self):
        """A rough view that only decides how long to wait."""
        for a, s in self.st.items():
            if s[0] in ("idle", "hold"):
                continue
            if s[0] == "want" and (s[1] in ("ex", "shc") or s[1] == "sh" and s[2] in self.exists_at[a]):
                if any(b != a and len(x) > 2 and x[2] == s[2] and x[0] != "want" and ("ex" in s[1] or "ex" in x[1]) for b, x in self.st.items()):
                    continue
            return True
        return False

    def say(self, a, e, **c):
        self.ev.append(dict(e, p=a[0], t=a[1]))
        self.procs[a[0]].send(t=a[1], **c)

    def step(self):
        rng = self.rng
        if rng.random() < .03:
            p = rng.choice((1, 2))
            if any(self.st[a][0] == "writing" for a in self.st if a[0] == p):
                return
            q = self.procs[p]
            for m in q.end():
                self.output(p, m)
            self.ev.append({"e": "kill", "p": p, "t": 0})
            for a in self.st:
                if a[0] == p:
                    self.st[a] = ("idle",)
            self.spawn(p)
            return
        ready = [a for a, s in self.st.items() if s[0] in ("idle", "hold")]
        if not ready:
            return self.absorb(0.01)
        a = rng.choice(ready)
        s = self.st[a]
        if s[0] == "idle":
            k = rng.choice(["ex", "ex", "shc", "shc", "sh", "tryex", "trysh"])
            f = 1 if rng.random() < .7 else 2
            self.st[a] = ("want", k, f)
            # a shared lock of a file that may not be there yet can fail at any time
            self.exists_at[a] = set(self.exists)
            self.say(a, {"e": "ask", "k": k, "f": f}, op=k, f=FILES[f].encode().hex())
        else:
            x = rng.random()
            if x < .5:
                self.st[a] = ("dropping",) + s[1:]
                self.say(a, {"e": "drop"}, op="drop", dup=rng.random() < .3)
            elif x < .75 or "ex" not in s[1]:
                self.st[a] = ("reading",) + s[1:]
                self.say(a, {"e": "read?"}, op="read")
            else:
                v = rng.choice(VALS)
                self.st[a] = ("writing",) + s[1:]
                self.say(a, {"e": "write", "v": v}, op="write", c=self.content(v).encode().hex())

    def run(self, steps):
        rng = self.rng
        calm = rng.choice((.9, .5, .2))
        for _ in range(steps):
            self.step()
            if rng.random() < calm:
                self.settle(rng)
            if any(q.eof for q in self.procs.values()):
                self.ev.append({"e": "ended"})
            if self.ev and self.ev[-1]["e"] == "ended" or self.stuck:
                break
        # everyone lets go: all waiting ones must come through
        for _ in range(12):
            if self.stuck:
                break
            self.settle(rng)
            held = [a for a, s in self.st.items() if s[0] == "hold"]
            if not held:
                break
            for a in held:
                self.st[a] = ("dropping",) + self.st[a][1:]
                self.say(a, {"e": "drop"}, op="drop")
        if not self.stuck:
            self.settle(rng)
        return {"file": [self.init[f] for f in FILES], "ev": self.ev, "diag": False}

    def close(self):
        for q in self.procs.values():
            q.end()
        shutil.rmtree(self.root)


# ------------------------------------------------------------------ queries

class Query(Rig):
    def __init__(self, exe, rng, kind):
        super().__init__()
        self.exe, self.rng, self.kind = exe, rng, kind
        q = self.procs[1] = Proc([exe, "query"])
        q.send(new=kind)
        q.p.stdout.readline()
        self.n = rng.choice((2, 3, 4))
        self.st = {c: "idle" for c in range(1, self.n + 1)}
        self.plain = {}
        self.settled = kind == "value"
        self.at = None

    def outcome(self, m):
        if m["r"] == "none":
            return ["none"]
        return [m["r"], m.get("v", 0)]

    def output(self, _, m):
        c = m["t"]
        e = {"e": m["e"], "c": c}
        if m["e"] == "start":
            e["ctx"] = m["ctx"] == (42 if self.kind == "ctx" and not self.plain[c] else 77)
            self.st[c] = "computing"
        elif m["e"] in ("ret", "got"):
            e["o"] = self.outcome(m)
            e["at"] = True
            if m["r"] == "ok":
                # one and the same value, not a copy
                self.at = self.at or m["at"]
                e["at"] = self.at == m["at"]
            if m["r"] != "none":
                self.settled = True
            self.st[c] = "idle"
        else:
            self.st[c] = "idle"
        self.ev.append(e)

    def expecting(self):
        comp = any(s == "computing" for s in self.st.values())
        return any(s in ("looking", "finishing", "showing") or s == "asked" and not comp for s in self.st.values())

    def say(self, c, e, **x):
        self.ev.append(dict(e, c=c))
        self.procs[1].send(t=c, **x)

    def finish(self, c):
        r, v = self.rng.choice(("ok", "err")), self.rng.randrange(1, 1000)
        self.st[c] = "finishing"
        self.say(c, {"e": "finish", "o": [r, v]}, op="finish", r=r, v=v)

    def step(self):
        rng = self.rng
        ready = [c for c, s in self.st.items() if s in ("idle", "computing")]
        if not ready:
            return self.absorb(0.01)
        c = rng.choice(ready)
        if self.st[c] == "computing":
            if rng.random() < .25:
                self.finish(c)
            return
        x = rng.random()
        if x < .5:
            self.st[c] = "asked"
            self.plain[c] = rng.random() < .5
            self.say(c, {"e": "call"}, op="call", plain=self.plain[c])
        elif x < .85:
            self.st[c] = "looking"
            self.say(c, {"e": "get"}, op="get")
        else:
            self.st[c] = "showing"
            self.say(c, {"e": "show"}, op="show")

    def run(self, steps):
        rng = self.rng
        calm = rng.choice((.9, .4, 0))
        for _ in range(steps):
            self.step()
            if rng.random() < calm:
                self.settle(rng)
            if self.procs[1].eof:
                self.ev.append({"e": "ended"})
            if self.ev and self.ev[-1]["e"] == "ended" or self.stuck:
                break
        for _ in range(3):
            if self.stuck:
                break
            self.settle(rng)
            for c, s in list(self.st.items()):
                if s == "computing":
                    self.finish(c)
        if not self.stuck:
            self.settle(rng)
        return {"given": ["ok", 9] if self.kind == "value" else ["none"], "ev": self.ev, "diag": False}

    def close(self):
        self.procs[1].end()


def _walk(job):
    what, seed, steps = job
    if _stuck.value > 6:
        return None
    rng = random.Random(seed)
    if what == "lock":
        r = Locks(_job["exe"], rng)
    else:
        r = Query(_job["exe"], rng, rng.choice(("default", "ctx", "ctx", "value")))
    try:
        tr = r.run(steps)
        return tr, getattr(r, "odd", [])
    finally:
        r.close()


def judge(module, traces, consts, diag=False):
    ok, far = set(), {}
    for i in range(0, len(traces), 400):
        part = [dict(t, diag=diag) for t in traces[i:i + 400]]
        res = run_tlc(module, emit=True, workers=1, files=[("traces.json", json.dumps(part))], consts=consts,
                      cfg_kwargs=dict(spec="TSpec", invariants=["Report"]), mem="6g")
        if not res.ok:
            raise ToolError(f"{module} could not judge:\n" + res.out[-3000:])
        for p in res.prints:
            if "acc" in p:
                ok.add(p["acc"] - 1 + i)
            else:
                far[p["far"] - 1 + i] = max(far.get(p["far"] - 1 + i, 0), p["i"])
    return [i for i in range(len(traces)) if i not in ok], far


def run(prop):
    exe = vlib.build("fsx", ["fsx"])
    ck = Check(prop, "model_checking")
    _job["exe"] = exe
    if prop == "C13":
        what, module = "lock", "FileLockTrace"
        mc = dict(Procs={1}, Threads={1, 2} if not THOROUGH else {1, 2, 3}, Files={1}, Vals={"v1"})
        r = tlc_checked("FileLock", "safety", consts=dict(mc, Procs={1, 2}, Threads={1, 2} if THOROUGH else {1}),
                        cfg_kwargs=dict(spec=None, invariants=["Exclusion", "TypeOK", "HeldExists"], properties=["OnlyExWrites"]))
        r2 = tlc_checked("FileLock", "three threads", consts=dict(mc, Threads={1, 2, 3}),
                         cfg_kwargs=dict(spec=None, invariants=["Exclusion", "TypeOK", "HeldExists"], properties=["OnlyExWrites"]))
        ck.add(states=r2.distinct)
        r2 = tlc_checked("FileLock", "liveness", consts=mc, cfg_kwargs=dict(spec="Spec", properties=["TryReturns", "BlockReturns"]), timeout=800)
        consts = dict(Procs={1, 2}, Threads={1, 2}, Files={1, 2}, Vals={"v1", "v2"})
        n, steps = (2500, 70) if THOROUGH else (400, 45)
    else:
        what, module = "query", "QueryTrace"
        mc = dict(Callers={1, 2, 3}, Outcomes=vlib.Raw('<- TwoOutcomes'), Given=vlib.Raw('<- Fresh'))
        r = tlc_checked("QueryRef", "fresh", consts=mc, cfg_kwargs=dict(spec="Spec", invariants=["Once", "OneRunner", "Waits", "SameAnswer"],
                        properties=["NeverChanges", "LookNeverRuns", "Returns"]))
        r2 = r
        consts = dict(Callers={1, 2, 3, 4}, Outcomes=vlib.Raw('{}'), Given=vlib.Raw('<- Fresh'))
        n, steps = (4000, 40) if THOROUGH else (800, 24)
    ck.add(states=r.distinct + r2.distinct)
    jobs = [(what, SEED * 1000003 + i, steps) for i in range(n)]
    t0 = time.time()
    got = pmap(_walk, jobs, procs=2 * vlib.NPROC, chunk=4)
    got, jobs = [g for g in got if g], [j for j, g in zip(jobs, got) if g]
    for tr, odd in got:
        for o in odd:
            ck.violation("a lock names another file than the one it locks", o)
    traces = [g[0] for g in got]
    ck.add(walk_s=round(time.time() - t0))
    t0 = time.time()
    bad, _ = judge(module, traces, consts)
    ck.add(judge_s=round(time.time() - t0))
    if bad:
        bad = bad[:5]
        _, far = judge(module, [traces[b] for b in bad], consts, diag=True)
        for k, b in enumerate(bad):
            at = far.get(k, 0)
            tr = traces[b]
            ck.violation("what the threads saw is not allowed by the specification",
                         {"first_impossible_event": tr["ev"][at] if at < len(tr["ev"]) else None, "after": tr["ev"][max(0, at - 25):at],
                          "start": tr.get("file", tr.get("given")), "seed": jobs[b][1]})
    from collections import Counter
    kinds = Counter(e["e"] for t in traces for e in t["ev"])
    ck.add(walks=len(traces), events=sum(kinds.values()), by_kind=dict(kinds))
    ck.sample(traces[0]["ev"][:12])
    return ck.finish()
