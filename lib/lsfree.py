"""Free-running sessions on the real driver, recorded as traces for LsTrace.tla."""
import os, random, time
import vlib, lsdrive
from lsdrive import Session, Replayer, Mismatch, KIND_REQ

NIDS, NTH = 24, 6
MAXOUT = 400
STALL = 8.0 if vlib.THOROUGH else 1.5


def pad(prefix, tag):
    if tag % 1000000 == 999999:
        n = 60000
    elif tag < 1000000:
        n = 0
    elif tag % 17 == 0:
        n = 4000
    elif tag % 7 == 0:
        n = 300
    else:
        n = tag % 3
    return prefix + "é\r\n\"{" * n


class Free(Replayer):
    """One recorded session; `mix` weighs what happens in it."""

    def __init__(self, exe, proto, seed, mix, steps=40):
        super().__init__(exe, proto, rng=random.Random(seed))
        self.seed, self.mix, self.steps = seed, mix, steps

    def record(self):
        r = self.rng
        self.init_s = None
        flags = []
        if r.random() < 0.7:
            flags.append(f"jitter={r.randrange(1, 1000)}")
        if self.mix.get("spin") and r.random() < 0.5:
            flags.append("spin")
        cpu = r.choice([None, r.randrange(vlib.NPROC)])
        self.s = s = Session(self.exe, self.proto, flags)
        try:
            if cpu is not None:
                for t in os.listdir(f"/proc/{s.p.pid}/task"):
                    try:
                        os.sched_setaffinity(int(t), {cpu})
                    except OSError:
                        pass
            return {"trace": self.drive(), "seed": self.seed}
        except Mismatch as e:
            return {"bad": {"what": e.what, "info": e.kw, "seed": self.seed, "proto": self.proto, "mix": self.mix,
                            "out": s.all_out[-4:], "log": s.all_log[-6:]}}
        finally:
            s.kill()

    # -- the client
    def get(self):
        """Reads what has arrived; every message is placed after the inputs sent so far."""
        s = self.s
        s.pump(0)
        new, s.out = s.out, []
        for m in new:
            self.outs.append(self.parse(m))

    def put(self, rec):
        rec["rb"] = len(self.outs)
        self.ins.append(rec)

    def parse(self, m):
        sb = len(self.ins)
        if "method" in m or m.get("type") == "event":
            p = m.get("params") if self.proto == "lsp" else m.get("body")
            tag = p.get("tag") if isinstance(p, dict) else None
            if not isinstance(tag, int) or not (tag in self.prog):
                raise Mismatch("a message nobody sent", got=str(m)[:300])
            isreq = self.prog[tag][0] == "req"
            want = {"tag": tag, "mode": pad("q" if isreq else "n", tag)}
            name = "srv/req" if isreq else "srv/note"
            if p != want or (m.get("method") or m.get("event")) != name or ("id" in m) != isreq:
                raise Mismatch("wrong server message", got=str(m)[:300])
            kind, th, sq = self.prog[tag]
            self.seen.add(tag)
            if not isreq:
                return {"e": "srvnote", "th": th, "sq": sq, "tag": tag, "sb": sb, "i": 0, "r": ""}
            j = self.otx.setdefault(repr(m["id"]), len(self.otx))
            if j in self.oids:
                raise Mismatch("the id of a server request is not unique", got=str(m)[:200])
            self.oids[j] = m["id"]
            self.otags[j] = tag
            self.unanswered.append(j)
            return {"e": "srvreq", "th": th, "sq": sq, "tag": tag, "sb": sb, "i": j, "r": ""}
        rid = m.get("id") if self.proto == "lsp" else m.get("request_seq")
        i = next((k for k, v in self.ids.items() if v == rid and type(v) is type(rid)), None)
        if i is None:
            raise Mismatch("a response to an id never used", got=str(m)[:300])
        tag, r = 0, None
        if self.proto == "lsp" and "error" in m:
            r = next((k for k, c in lsdrive.CODES.items() if c == m["error"].get("code")), "?")
            if r == "failed":
                tag = int(m["error"]["message"].split()[-1])
        elif self.proto == "lsp":
            r = "ok" if isinstance(m.get("result"), dict) else "null"
            tag = (m.get("result") or {}).get("tag", 0)
        elif m.get("success"):
            r = "ok" if isinstance(m.get("body"), dict) else "null"
            tag = (m.get("body") or {}).get("tag", 0)
        else:
            msg = m.get("message") or ""
            r = "failed" if msg.startswith("failed ") else \
                {"method not found": "no_method", "not initialized yet": "not_init"}.get(msg, "invalid_req")
            if r == "failed":
                tag = int(msg.split()[-1])
        self.check_resp(m, rid, r, tag if r in ("ok", "failed") else None, None, "free")
        self.inuse.discard(i)
        return {"e": "resp", "i": i, "r": r, "tag": tag, "sb": sb, "th": 0, "sq": 0}

    def request(self, k, tag, mode=None):
        free = [i for i in self.ids if i not in self.inuse and i not in self.burnt]
        if not free:
            return None
        i = self.rng.choice(free)
        self.inuse.add(i)
        self.get_now = False
        self.put({"n": "Request", "i": i, "k": k, "tag": tag})
        rid = self.ids[i]
        if mode:
            if k == "cmdasync":
                self.s.request(rid, "workspace/executeCommand", {"command": "t.cmd", "arguments": [{"tag": tag, "mode": mode}]})
                self.hname[tag] = "cmd"
            else:
                m = self.rng.choice(["t/req", "t/req2"])
                self.hname[tag] = m[2:]
                self.s.request(rid, m, {"tag": tag, "mode": mode})
        else:
            self.cur = (tag, k)
            self.curm = self.curc = None
            self.send_request(rid, k, tag, None)
        return i

    def wait(self, cond, what, timeout=60):
        t0 = time.time()
        while not cond():
            if time.time() - t0 > timeout:
                raise Mismatch("timeout: never observed " + what)
            if self.s.out_eof:
                raise Mismatch("the server went away while waiting for " + what)
            self.s.pump(0.5)
            self.get()

    def calls(self, tag):
        return any(e["e"] == "call" and e["tag"] == tag for e in self.s.all_log)

    def drive(self):
        r, s, mix = self.rng, self.s, self.mix
        lsp = self.proto == "lsp"
        self.ins, self.outs, self.hname, self.prog = [], [], {}, {}
        self.ids = {i: (i if i % 3 else str(i - 1)) if lsp else i * 1000 + 7 for i in range(1, NIDS + 1)}
        self.burnt = set()
        self.inuse, self.otx, self.oids, self.otags, self.unanswered = set(), {}, {}, {}, []
        self.seen, self.answers = set(), {}
        self.sent = [0] * NTH
        self.evs = [0] * NTH
        self.tag = 0
        evtags, conts = set(), 0
        ctls = []

        if r.random() < 0.3:
            self.request("ok", self.newtag())          # too early
        self.init_tag = self.newtag()
        i0 = self.request("init", self.init_tag)
        if lsp:
            if r.random() < 0.3:
                self.wait(lambda: i0 not in self.inuse, "the answer to initialize")
            t = self.newtag()
            self.put({"n": "Note", "k": "initialized", "tag": t, "i": 0})
            self.send_note("initialized", t)
        storm_no = 0
        stall = slow = mix.get("stall") and self.seed % 6 == 0
        answered = []
        for _ in range(self.steps):
            self.get()
            op = r.choices(["req", "async", "storm", "answer", "bogus", "note", "race", "sleep"],
                           [mix.get("req", 2), mix.get("async", 4), mix.get("storm", 1), mix.get("answer", 4),
                            mix.get("bogus", .5), mix.get("note", 1), mix.get("race", 1), .5])[0]
            if op == "req":
                k = r.choice(["ok", "err", "reject", "bad", "unknown", "null", "rawerr", "tnull"] +
                             (["cmd", "cmderr", "cmdbad", "cmdunknown", "res"] if lsp else []))
                if k == "bad":
                    k = "tbad"
                self.request(k, self.newtag())
            elif op == "async":
                self.request("cmdasync" if lsp and r.random() < .3 else "async", self.newtag(), "free")
            elif op == "note":
                t = self.newtag()
                k = r.choice(["note", "rawnote", "notefail", "notebad", "noteunknown"])
                self.put({"n": "Note", "k": k, "tag": t, "i": 0})
                self.send_note(k, t)
            elif op == "storm" and storm_no < 3:
                nth, m = r.randrange(2, NTH), r.randrange(3, mix.get("stormlen", 12))
                if stall:
                    nth, m = NTH - 1, 30
                reqs = lsp and r.random() < mix.get("stormreqs", .6)
                evs = r.random() < mix.get("stormevs", .5)
                base = storm_no * 1000
                for t in range(nth):
                    for j in range(m):
                        tag = (t + 1) * 1000000 + base + j
                        if evs and j % 3 == 0:
                            self.evs[t] += 1
                            self.prog[tag] = ("ev", t, self.evs[t])
                            evtags.add(tag)
                        else:
                            self.sent[t] += 1
                            self.prog[tag] = ("req" if reqs and j % 2 == 1 else "note", t, self.sent[t])
                if sum(1 for v in self.prog.values() if v[0] == "req") >= MAXOUT:
                    continue
                stalled = stall and m * nth >= 40
                if stalled:
                    # the client stops reading for a while: nobody's message may be lost, late answers included
                    stall = False
                    self.get()
                    s.sel.unregister(s.p.stdout.fileno())
                ctls.append(s.ctl(c="storm", n=nth, m=m, reqs=reqs, evs=evs, base=base, low=r.random() < .5))
                storm_no += 1
                if stalled:
                    for _ in range(4):
                        k = r.choice(["cmdasync" if lsp else "async", "async", "ok", "note"])
                        t = self.newtag()
                        if k == "note":
                            self.put({"n": "Note", "k": k, "tag": t, "i": 0})
                            self.send_note(k, t)
                        else:
                            self.request(k, t, None if k == "ok" else "free")
                    t0 = time.time()
                    while time.time() - t0 < STALL:
                        s.pump(0.1)
                    s.sel.register(s.p.stdout.fileno(), 1, "o")
            elif op == "answer" and self.unanswered:
                js = r.sample(self.unanswered, r.randrange(1, len(self.unanswered) + 1))
                for j in js:
                    self.unanswered.remove(j)
                    self.answer_srv(j)
                    conts += 1
                    answered.append(j)
                    if r.random() < .1:
                        self.answer_srv(j, again=True)
            elif op == "bogus" and lsp:
                self.put({"n": "Bogus", "tag": 0, "i": 0})
                s.respond(r.choice(["0", "1", "x", 77777, -1]), result=1)
            elif op == "race":
                t = self.newtag()
                i = self.request("async", t, "async")
                if i is not None:
                    self.burnt.add(i)      # a late racer must not answer a later request of that id
                    self.wait(lambda: self.calls(t), "the call of a handler")
                    ctls.append(s.ctl(c="race", tag=t, id=self.ids[i], n=r.randrange(2, 5)))
            elif op == "sleep":
                time.sleep(r.random() * 0.004)
        self.get()
        # Everything sent gets through while the session is open.
        for c in ctls:
            s.ctl_done_pumping(c, self.get)
        want = {t for t, p in self.prog.items() if p[0] != "ev"}
        self.wait(lambda: want <= self.seen, "every message sent")
        while self.unanswered:
            j = self.unanswered.pop()
            self.answer_srv(j)
            conts += 1
        self.wait(lambda: not self.inuse, "an answer to every request")
        got = lambda k: [e for e in s.all_log if e["e"] == k]
        self.wait(lambda: len(got("cont")) >= conts, "every continuation")
        self.wait(lambda: evtags <= {e["tag"] for e in got("event")}, "every event")
        # The end, sometimes while the client is slow to read.
        big = r.random() < mix.get("flush", .3)
        if big:
            tag = NTH * 1000000 - 1
            self.sent[NTH - 1] += 1
            self.prog[tag] = ("note", NTH - 1, self.sent[NTH - 1])
            s.sel.unregister(s.p.stdout.fileno())
            q = s.ctl(c="srvnote", tag=tag)
            s.ctl_done(q)
        end = r.choice(["eof", "err"] + (["exit"] if lsp else []))
        if end == "eof":
            self.put({"n": "Eof", "tag": 0, "i": 0})
            s.close_stdin()
        elif end == "exit":
            self.put({"n": "Note", "k": "exit", "tag": 0, "i": 0})
            s.notify("exit", None)
        else:
            t = self.newtag()
            self.evs[NTH - 1] += 1
            self.prog[t] = ("ev", NTH - 1, self.evs[NTH - 1])
            s.ctl(c="event", k="everr", tag=t)
        if big:
            s.wait_log("return of the session", lambda e: e["e"] == "return")
            time.sleep(STALL if slow else 0.03)
            s.sel.register(s.p.stdout.fileno(), 1, "o")
            self.ins_end = True
        t0 = time.time()
        while not (s.out_eof and s.log_eof):
            if time.time() - t0 > 60:
                raise Mismatch("timeout: the process never ended")
            s.pump(0.5)
            self.get()
        if s.ob:
            raise Mismatch("incomplete frame at the end of the output", rest=repr(s.ob[:100]), length=len(s.ob))
        for e in ("return", "transport"):
            if [x["r"] for x in s.all_log if x["e"] == e] != ["err" if end == "err" else "ok"]:
                raise Mismatch(f"wrong end of the session ({e})", end=end, log=s.all_log[-4:])
        if not got("exit"):
            raise Mismatch("the server process did not exit normally")
        return self.trace()

    def answer_srv(self, j, again=False):
        t = self.newtag()
        self.put({"n": "Response", "i": j, "tag": t})
        self.s.respond(self.oids[j], result={"tag": t, "mode": "r"})
        self.answers[j] = t

    def trace(self):
        log = []
        for e in self.s.all_log:
            if e["e"] == "call":
                h = e["h"]
                if h in ("req2", "cmd2"):
                    h = h[:-1]
                log.append({"e": "call", "h": h, "tag": e["tag"], "i": 0, "k": "", "s": "", "th": 0, "sq": 0, "ans": 0})
                if not self.check_params(e):
                    raise Mismatch("a handler got other parameters than were sent", got=str(e)[:500])
                if e["tag"] in self.hname and self.hname[e["tag"]] != e["h"]:
                    raise Mismatch("another handler was called", got=e, expected=self.hname[e["tag"]])
            elif e["e"] == "cont":
                j = self.otx.get(repr(e["id"]))
                if j is None or e["svc"] != self.init_tag or not isinstance(e["result"], dict) or e["error"] is not None:
                    raise Mismatch("wrong continuation", got=e)
                log.append({"e": "cont", "h": "", "tag": e["tag"], "i": j, "k": "", "s": "", "th": 0, "sq": 0,
                            "ans": e["result"].get("tag")})
            elif e["e"] == "event":
                p = self.prog.get(e["tag"])
                if p is None or p[0] != "ev" or (e["s"] == "service" and e["svc"] != self.init_tag):
                    raise Mismatch("an event nobody sent", got=e)
                log.append({"e": "event", "h": "", "tag": e["tag"], "i": 0, "k": e["k"], "s": e["s"], "th": p[1], "sq": p[2],
                            "ans": 0})
        ins = [{"n": x["n"], "i": x.get("i", 0), "k": x.get("k", ""), "tag": x["tag"], "rb": x["rb"]} for x in self.ins]
        th = lambda a: list(a)
        outs = [dict(o, th=o["th"] + 1) for o in self.outs]
        log = [dict(e, th=e["th"] + 1) for e in log]
        return {"in": ins, "out": outs, "log": log, "sent": th(self.sent), "evs": th(self.evs), "diag": 0}
