"""Drives the real sync-ls driver (harness ls_srv) and replays behaviours of LsServer.tla against it."""
import json, os, selectors, subprocess, time, fcntl, random

TIMEOUT = 30.0
CODES = {"not_init": -32002, "invalid_req": -32600, "no_method": -32601, "bad_params": -32602, "failed": -32803}


class Mismatch(Exception):
    def __init__(self, what, **kw):
        super().__init__(what)
        self.what, self.kw = what, kw


class FrameError(Mismatch):
    pass


def parse_frames(buf):
    """Strict, independent parser of the outgoing framing. Returns (messages, rest)."""
    out, pos = [], 0
    while True:
        end = buf.find(b"\r\n\r\n", pos)
        if end < 0:
            return out, buf[pos:]
        head = bytes(buf[pos:end]).decode("ascii", "replace").split("\r\n")
        n = None
        for h in head:
            if ": " not in h:
                raise FrameError("malformed outgoing header", header=h)
            k, v = h.split(": ", 1)
            if k.lower() == "content-length":
                if not v.isdigit():
                    raise FrameError("malformed outgoing length", header=h)
                n = int(v)
        if n is None:
            raise FrameError("outgoing frame without Content-Length", header=head)
        if len(buf) - end - 4 < n:
            return out, buf[pos:]
        body = bytes(buf[end + 4:end + 4 + n])
        try:
            out.append(json.loads(body.decode("utf-8")))
        except ValueError as e:
            raise FrameError("outgoing body is not JSON", body=repr(body[:200]), err=str(e))
        pos = end + 4 + n


def frame(msg):
    b = json.dumps(msg, ensure_ascii=False).encode()
    return b"Content-Length: %d\r\n\r\n" % len(b) + b


class Session:
    def __init__(self, exe, proto, flags=(), env=None, cwd=None, stdin=None):
        self.proto = proto
        cr, self.cw = os.pipe()
        self.lr, lw = os.pipe()
        e = dict(os.environ)
        e.update(env or {})
        self.p = subprocess.Popen([exe, proto, str(cr), str(lw), *flags], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, pass_fds=(cr, lw), env=e,
                                  cwd=cwd, bufsize=0)
        os.close(cr)
        os.close(lw)
        self.out, self.log = [], []          # unread messages / log entries
        self.all_out, self.all_log = [], []
        self.ob, self.lb = b"", b""
        self.raw_out = b""
        self.out_eof = self.log_eof = False
        self.sel = selectors.DefaultSelector()
        for f, k in ((self.p.stdout.fileno(), "o"), (self.lr, "l")):
            os.set_blocking(f, False)
            self.sel.register(f, selectors.EVENT_READ, k)
        self.seq = 0
        self.allow_panic = False
        self.wait_log("up", lambda e: e["e"] == "up")

    # -- reading
    def pump(self, timeout):
        for key, _ in self.sel.select(timeout):
            try:
                d = os.read(key.fd, 1 << 16)
            except BlockingIOError:
                continue
            if not d:
                self.sel.unregister(key.fd)
                if key.data == "o":
                    self.out_eof = True
                else:
                    self.log_eof = True
                continue
            if key.data == "o":
                self.raw_out += d
                self.ob += d
                ms, self.ob = parse_frames(self.ob)
                self.out += ms
                self.all_out += ms
            else:
                self.lb += d
                *lines, self.lb = self.lb.split(b"\n")
                for l in lines:
                    ev = json.loads(l)
                    self.log.append(ev)
                    self.all_log.append(ev)
                    if ev["e"] == "panic" and not self.allow_panic:
                        raise Mismatch("the server panicked", panic=ev["msg"])

    def until(self, cond, what, timeout=TIMEOUT):
        t0 = time.time()
        while not cond():
            if self.out_eof and self.log_eof:
                raise Mismatch("the server went away while waiting for " + what)
            left = timeout - (time.time() - t0)
            if left <= 0:
                raise Mismatch(f"timeout: never observed {what}")
            self.pump(min(left, 1.0))

    def wait_log(self, what, pred, timeout=TIMEOUT):
        """Waits for a log entry satisfying pred, removes and returns it."""
        found = []

        def cond():
            for i, e in enumerate(self.log):
                if pred(e):
                    found.append(self.log.pop(i))
                    return True
            return False
        self.until(cond, what, timeout)
        return found[0]

    # -- writing
    def write(self, data):
        try:
            self.p.stdin.write(data)
        except BrokenPipeError:
            raise Mismatch("the server stopped reading its input")

    def send(self, msg):
        if self.proto == "lsp":
            msg = {"jsonrpc": "2.0", **msg}
        self.write(frame(msg))

    def ctl(self, **kw):
        self.seq += 1
        kw["seq"] = self.seq
        try:
            os.write(self.cw, (json.dumps(kw) + "\n").encode())
        except BrokenPipeError:
            raise Mismatch("the server process died")
        return self.seq

    def ctl_done(self, seq):
        self.wait_log(f"completion of control {seq}", lambda e: e["e"] == "ctl" and e["seq"] == seq)

    def ctl_done_pumping(self, seq, get):
        t0 = time.time()
        while not any(e["e"] == "ctl" and e["seq"] == seq for e in self.all_log):
            if time.time() - t0 > 60:
                raise Mismatch("timeout: a sender is blocked although the client reads")
            self.pump(0.5)
            get()

    def close_ctl(self):
        if self.cw >= 0:
            os.close(self.cw)
            self.cw = -1

    def close_stdin(self):
        if not self.p.stdin.closed:
            self.p.stdin.close()

    def kill(self):
        try:
            self.p.kill()
        except ProcessLookupError:
            pass
        self.p.wait()
        for f in (self.p.stdin, self.p.stdout):
            try:
                f.close()
            except OSError:
                pass
        self.close_ctl()
        os.close(self.lr)
        self.sel.close()

    # -- message constructors, per protocol
    def request(self, rid, method, params):
        if self.proto == "lsp":
            m = {"id": rid, "method": method}
            if params is not None:
                m["params"] = params
        else:
            m = {"seq": rid, "type": "request", "command": method}
            if params is not None:
                m["arguments"] = params
        self.send(m)

    def notify(self, method, params):
        if self.proto == "lsp":
            m = {"method": method}
            if params is not None:
                m["params"] = params
        else:
            m = {"seq": 77, "type": "event", "event": method}
            if params is not None:
                m["body"] = params
        self.send(m)

    def respond(self, rid, result=None, error=None):
        if self.proto == "lsp":
            m = {"id": rid}
            if error is not None:
                m["error"] = error
            else:
                m["result"] = result
        else:
            m = {"seq": 5, "type": "response", "request_seq": rid, "success": error is None, "command": "x"}
            if result is not None:
                m["body"] = result
        self.send(m)


KIND_REQ = {
    # kind: (method, mode, wrap)
    "ok": ("t/req", "ok"), "err": ("t/req", "err"), "reject": ("t/req", "reject"), "async": ("t/req", "async"),
    "null": ("t/raw", "null"), "late": ("t/raw", "late"), "rawerr": ("t/raw", "rawerr"),
    "tnull": ("t/treq", "null"), "tlate": ("t/treq", "late"),
}
NAMES = ["", "k", "tag", "mode ", "jsonrpc", "id", "params", "\u00e9\"", "a/b", "command", "arguments", "result", "error", "\u0000"]
TXT = ["", "x", "\u00e9\u4e2d\U0001f600", "a\u0000\u0001\u001f\u007f", "\r\n\r\nContent-Length: 5\r\n\r\n", "\"\\/\b", "\\/", "\u2028\ufeff",
       "{}[]", " lead and trail ", "null", "1"]
VALS = [None, None, True, False, 0, -1, 1.5, 1.0, 2 ** 53 + 1, 2 ** 63, -2 ** 63, 1e300, "", [], {}, [None], [[], [1, "2"]], {"": None}]


def payload(r, depth=0):
    c = r.random()
    if c < .5:
        return r.choice(VALS)
    if c < .75 or depth > 2:
        return r.choice(TXT)
    if c < .87:
        return [payload(r, depth + 1) for _ in range(r.randrange(4))]
    return {r.choice(NAMES) + str(i): payload(r, depth + 1) for i in range(r.randrange(4))}


def same(a, b):
    """Equal as JSON: 1, 1.0 and true are three values."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(map(same, a, b))
    return a == b


DISTRACT = [None, 0, "", "x", [], {}, True, {"tag": "x", "mode": "ok"}, {"tag": 1}, {"tag": 1.5, "mode": "ok"},
            {"tag": None, "mode": "ok"}, {"mode": "ok"}, [1, "ok", 3]]


class Replayer:
    """Runs one walk of LsServer.tla against one real session and compares step by step."""

    def __init__(self, exe, proto, has_shutdown=True, replay=False, rng=None, idmap=None, extra_flags=()):
        self.exe, self.proto, self.replay, self.has_shutdown = exe, proto, replay, has_shutdown
        self.rng = rng or random.Random(1)
        self.extra_flags = list(extra_flags)
        if idmap:
            self.idmap = idmap
        elif proto == "lsp":
            # same texts as the server's own ids and as each other; equal when truncated
            self.idmap = self.rng.choice([{1: 0, 2: "0", 3: 1}, {1: 0, 2: 1 << 32, 3: "4294967296"}, {1: 1, 2: -1, 3: "-1"},
                                          {1: "", 2: 2147483648, 3: -2147483648}])
        else:
            self.idmap = self.rng.choice([{1: 1, 2: 2, 3: 2147483647}, {1: 1, 2: (1 << 32) + 1, 3: 0},
                                          {1: 2147483648, 2: -2147483648, 3: (1 << 53) - 1}])
        self.nbar = 0
        self.pars, self.cargs = {}, {}

    def run(self, walk):
        """Returns None or a dict describing the first divergence."""
        flags = list(self.extra_flags)
        if not self.has_shutdown:
            flags.append("no-shutdown")
        if self.replay:
            flags.append("is-replay")
        trace = []
        s = None
        try:
            self.giveup = any(a["n"] == "GiveUp" for _, a, _ in walk)
            self.linger = self.replay or any(a["n"] == "Close" for _, a, _ in walk)
            if self.linger:
                flags.append("linger")
            s = Session(self.exe, self.proto, flags, env={"REPLAY_TIMEOUT": "3" if self.giveup else "600"})
            self.s = s
            s.allow_panic = self.giveup
            self.closed = False
            self.tag = 0
            self.owner = {}     # model id -> (tag, kind) of the request outstanding under it
            self.otag = {}      # model's server request id -> tag
            self.oid = {}       # model's server request id -> the id the server chose
            self.born = -1
            self.initk = None
            ended = False
            for frm, act, to in walk:
                trace.append(act)
                if act["n"] in ("Return", "GiveUp"):
                    continue
                if act["n"] == "Close":
                    self.finish(frm, ended)
                    self.closed = True
                elif act["n"] in ("ClosedUse", "ClosedAnswer"):
                    self.closed_use(act)
                else:
                    ended = self.step(frm, act, to, ended)
            if not self.closed:
                self.finish(to if walk else None, ended)
            self.process_end()
            return None
        except Mismatch as e:
            return {"what": e.what, "info": e.kw, "steps": [brief(a) for a in trace],
                    "out": s.all_out[-6:] if s else [], "log": s.all_log[-8:] if s else []}
        finally:
            if s:
                s.kill()

    # -- steps
    def closed_use(self, act):
        s = self.s
        if act["n"] == "ClosedAnswer":
            tag, _ = self.owner[act["i"]]
            q = s.ctl(c="answer", tag=tag, ok=True)
        elif act["k"] == "srvreq":
            q = s.ctl(c="srvreq" if self.proto == "lsp" else "srvnote", tag=self.newtag())
        elif act["k"] == "srvnote":
            q = s.ctl(c="srvnote", tag=self.newtag())
        elif act["k"] == "event":
            q = s.ctl(c="event", k="ev", tag=self.newtag())
        else:
            q = s.ctl(c="again", id=self.idmap[1], tag=self.newtag(), how=self.rng.randrange(3))
        s.ctl_done(q)
        s.pump(0)
        x = [e for e in s.log if e["e"] in ("call", "cont", "event")]
        if s.out or x:
            raise Mismatch("a closed connection is not silent", out=s.out, log=x, step=brief(act))

    def newtag(self):
        self.tag += 1
        return self.tag

    def step(self, frm, act, to, ended):
        s, n = self.s, act["n"]
        frm, to = self.g(frm), self.g(to)
        ctl = None
        if n == "Request":
            tag = self.newtag()
            self.cur = (tag, act["k"])
            self.send_request(self.idmap[act["i"]], act["k"], tag, frm)
        elif n == "Answer":
            tag, k = self.owner[act["i"]]
            ctl = s.ctl(c="answer", tag=tag, ok=act["r"] == "ok")
        elif n == "AnswerAgain":
            how = self.rng.randrange(3)
            ctl = s.ctl(c="again", id=self.idmap[act["i"]], tag=self.newtag(), how=how)
        elif n == "Note":
            tag = self.newtag()
            self.cur = (tag, act["k"])
            self.send_note(act["k"], tag)
        elif n == "Response":
            j = self.oid.get(act["i"], act["i"] + 500)
            t = self.newtag()
            self.cur = (t, "resp")
            self.resp_err = self.rng.random() < 0.3
            if self.resp_err:
                s.respond(j, error={"code": -7, "message": f"no {t}"})
            else:
                s.respond(j, result=self.params(t, "r"))
        elif n == "BogusResponse":
            s.respond(self.rng.choice(["0", "1", "x", 7777, -1, 2147483647, 1 << 32, (1 << 32) + 1] if self.proto == "lsp" else [77, -1, 1 << 32]), result=1)
        elif n == "SrvRequest":
            self.cur = (self.newtag(), "srvreq")
            ctl = s.ctl(c="srvreq", tag=self.cur[0])
        elif n == "SrvNote":
            self.cur = (self.newtag(), "srvnote")
            ctl = s.ctl(c="srvnote", tag=self.cur[0])
        elif n == "Event":
            self.cur = (self.newtag(), act["k"])
            ctl = s.ctl(c="event", k=act["k"], tag=self.cur[0])
        elif n == "Eof":
            s.close_stdin()
        else:
            raise AssertionError(n)

        outs, logs = [], []
        for o in act["o"]:
            (outs if o["e"] in ("resp", "srvreq", "srvnote") else logs).append(o)
        # The end of the session shows as the return of `start`, which replay mode may delay.
        ends = [o for o in logs if o["e"] == "end"]
        logs = [o for o in logs if o["e"] != "end"]
        for o in outs:
            s.until(lambda: s.out, f"{o} after {brief(act)}")
            self.check_out(s.out.pop(0), o, act)
        for o in logs:
            pick = lambda e: e["e"] in ("call", "cont", "event", "return")
            e = s.wait_log(f"{o} after {brief(act)}", pick)
            self.check_log(e, o, act)
        if ctl is not None and not ends:
            s.ctl_done(ctl)
        if n == "Request" and to["pend"][str(act["i"])] != "free":
            self.owner[act["i"]] = self.cur
        if ends:
            ended = ends[0]["r"]
        silent = not act["o"]
        if silent and not ended and n in ("Note", "Response", "BogusResponse", "AnswerAgain"):
            self.barrier(to)
        self.nothing_else(act, to, ended)
        return ended

    def g(self, v):
        p = v["pend"]
        if isinstance(p, list):
            v = dict(v)
            v["pend"] = {str(i + 1): x for i, x in enumerate(p)}
        return v

    def nothing_else(self, act, to, ended):
        s = self.s
        s.pump(0)
        if s.out:
            raise Mismatch(f"unexpected output after {brief(act)}", extra=list(s.out))
        x = [e for e in s.log if e["e"] in ("call", "cont", "event", "return")]
        if x and x[0]["e"] == "return" and ended:
            owed = [i for i, p in to["pend"].items() if p != "free"]
            if self.replay and owed:
                raise Mismatch("a replayed session returned although a request was unanswered", owed=owed)
            return
        if x:
            raise Mismatch(f"unexpected handler activity after {brief(act)}", extra=x)

    def barrier(self, st):
        """A request whose answer tells the phase: everything before it has been processed."""
        self.nbar += 1
        want = {"uninit": "not_init", "initializing": "not_init", "ready": "no_method", "shutting": "invalid_req"}[st["phase"]]
        rid = f"bar{self.nbar}" if self.proto == "lsp" else 900000 + self.nbar
        self.s.request(rid, "t/barrier", {"x": 1})
        self.s.until(lambda: self.s.out, "the answer to a probing request")
        self.check_resp(self.s.out.pop(0), rid, want, None, None, "probe")

    def finish(self, st, ended):
        s = self.s
        st = self.g(st) if st else {"phase": "uninit", "pend": {}}
        if st["phase"] in ("uninit", "initializing", "ready", "shutting"):
            self.barrier(st)
            s.close_stdin()
            ended = "ok"
        elif ended and not s.p.stdin.closed:
            # whatever comes after the end is not processed
            try:
                s.request(self.idmap[1] if self.proto == "lsp" else 99, "t/req", {"tag": 1, "mode": "ok"})
                s.notify("t/note", {"tag": 1, "mode": "ok"})
            except Mismatch:
                pass
            try:
                s.close_stdin()
            except OSError:
                pass
        t_end = time.time()
        if self.giveup and any(x != "free" for x in st["pend"].values()):
            while time.time() - t_end < 3.0:
                s.pump(0.1)
                if any(e["e"] == "return" for e in s.all_log):
                    raise Mismatch("a replayed session gave up before the replay timeout")
        elif self.replay:
            # requests still owed: the session must wait for them
            todo = [i for i, x in st["pend"].items() if x != "free"]
            todo = [i for i in todo if int(i) in self.owner]
            self.rng.shuffle(todo)
            for i in todo:
                if self.rng.random() < 0.3:
                    t0 = time.time()
                    while time.time() - t0 < 0.04:
                        s.pump(0.02)
                if any(e["e"] == "return" for e in s.all_log):
                    raise Mismatch("a replayed session returned although a request was unanswered", pending=todo)
                ok = self.rng.random() < 0.7
                tag, k = self.owner[int(i)]
                q = s.ctl(c="answer", tag=tag, ok=ok)
                s.until(lambda: s.out, f"the late answer to request {i}")
                self.check_resp(s.out.pop(0), self.idmap[int(i)], "ok" if ok else "failed", tag, k, "drain")
        e = s.wait_log("return of the session", lambda e: e["e"] in ("return", "call", "cont", "event"))
        if e["e"] != "return" or e["r"] != ended:
            raise Mismatch(f"the session should have ended with {ended}", got=e)
        e = s.wait_log("end of the transport", lambda e: e["e"] in ("transport", "call", "cont", "event"))
        if e["e"] != "transport" or e["r"] != ended:
            raise Mismatch(f"the transport should have finished with {ended}", got=e)

    def process_end(self):
        s = self.s
        s.close_ctl()
        s.until(lambda: s.out_eof and s.log_eof, "end of the process")
        if s.out:
            raise Mismatch("unexpected output at the end", extra=s.out)
        if s.ob:
            raise Mismatch("incomplete frame at the end of the output", rest=repr(s.ob[:100]))
        x = [e for e in s.log if e["e"] in ("call", "cont", "event", "return")]
        if x:
            raise Mismatch("handler activity after the end of the session", extra=x)
        if not any(e["e"] == "exit" for e in s.all_log):
            raise Mismatch("the server process did not exit normally")

    # -- inputs
    def params(self, tag, mode="ok"):
        """Parameters of a message, with more in them than their tag."""
        r = self.rng
        p = {"tag": tag, "mode": mode}
        if r.random() < .4:
            for i in range(r.randrange(1, 4)):
                p[r.choice(NAMES) + str(i)] = payload(r)
        self.pars[tag] = p
        return p

    def send_request(self, rid, k, tag, frm):
        s, r = self.s, self.rng
        p = self.params(tag)

        def cmd(c, args):
            if r.random() < .5:
                args = args + [payload(r) for _ in range(r.randrange(4))]
            self.cargs[tag] = args
            s.request(rid, "workspace/executeCommand", {"command": c, "arguments": args})
        lsp = self.proto == "lsp"
        if k in KIND_REQ:
            m, mode = KIND_REQ[k]
            if m == "t/req" and tag % 3 == 0:
                m = "t/req2"
            p["mode"] = mode
            self.curm = m
            s.request(rid, m, p)
        elif k in ("bad", "tbad"):
            s.request(rid, "t/req" if k == "bad" else "t/treq", r.choice(DISTRACT))
        elif k == "unknown":
            s.request(rid, r.choice(["t/nope", "", "t/re", "t/req ", "T/req", "t/note", "t.cmd", "srv/req", "$/x",
                                     "cancelRequest", "launch"]), r.choice([None, p, 3]))
        elif k in ("cmd", "cmdasync", "cmderr"):
            p["mode"] = {"cmd": "ok", "cmdasync": "async", "cmderr": r.choice(["err", "reject"])}[k]
            self.curc = "t.cmd" if tag % 2 else "t.cmd2"
            cmd(self.curc, [p])
        elif k in ("rawcmd", "rawcmdlate"):
            p["mode"] = "null" if k == "rawcmd" else "late"
            cmd("t.rawcmd", [p])
        elif k == "cmdunknown":
            cmd(r.choice(["t.nope", "", "t.cm", "t/req", "shutdown", "tinymist.getResource"]), [p])
        elif k == "cmdbad":
            s.request(rid, "workspace/executeCommand", r.choice([None, 1, [], {}, {"command": 3}, {"arguments": [p]},
                                                                {"command": "t.cmd", "arguments": 7}, "t.cmd"]))
        elif k in ("res", "resasync"):
            p["mode"] = "ok" if k == "res" else "async"
            cmd("tinymist.getResources", ["/res/a", p])
        elif k == "rawres":
            p["mode"] = "null"
            cmd("tinymist.getResources", ["/res/raw", p])
        elif k == "resunknown":
            cmd("tinymist.getResources", [r.choice(["/res/b", "", "/res", "res/a", "t.cmd"]), p])
        elif k == "resbad":
            cmd("tinymist.getResources", [r.choice([1, None, {}, ["/res/a"]]), p])
        elif k == "resempty":
            s.request(rid, "workspace/executeCommand", {"command": "tinymist.getResources", "arguments": []})
        elif k in ("init", "initasync", "initerr"):
            p["mode"] = {"init": "ok", "initasync": "async", "initerr": r.choice(["err", "reject"])}[k]
            s.request(rid, "initialize", p)
            self.curinit = tag
        elif k == "initbad":
            s.request(rid, "initialize", r.choice([None, {}, [], 1, {"tag": "x", "mode": "ok"}]))
        elif k in ("shutdown", "shutasync", "shuterr"):
            p["mode"] = {"shutdown": "ok", "shutasync": "async", "shuterr": r.choice(["err", "reject"])}[k]
            s.request(rid, "shutdown" if lsp else "disconnect", p)
        else:
            raise AssertionError(k)

    def send_note(self, k, tag):
        s, r = self.s, self.rng
        p = self.params(tag)
        if k == "note":
            s.notify("t/note", p)
        elif k == "notefail":
            p["mode"] = "fail"
            s.notify("t/note", p)
        elif k == "rawnote":
            s.notify("t/rawnote", p)
        elif k == "notebad":
            s.notify("t/note", r.choice(DISTRACT))
        elif k == "noteunknown":
            s.notify(r.choice(["t/nope", "", "t/req", "t/not", "Exit", "$/cancelRequest", "shutdown"]), r.choice([None, p]))
        elif k == "initialized":
            s.notify("initialized", p)
        elif k == "exit":
            s.notify("exit", r.choice([None, p]))
        else:
            raise AssertionError(k)

    # -- observations
    def check_result(self, m, v, tag):
        p = self.pars.get(tag)
        if not isinstance(v, dict) or v.get("tag") != tag:
            return False
        return p is None or same(v, {"tag": tag, "mode": "late"} if v.get("mode") == "late" else p)

    def check_params(self, e):
        """Did a handler get what was sent?"""
        p, args = self.pars.get(e["tag"]), self.cargs.get(e["tag"])
        if p is None:
            return True
        if "all" in e:
            return same(e["all"], p)
        return e["mode"] == p["mode"] and same(e["rest"], {k: v for k, v in p.items() if k not in ("tag", "mode")}) and \
            (args is None or same(e["args"], args))

    def check_resp(self, m, rid, r, tag, kind, act):
        bad = lambda why: Mismatch(f"wrong response: {why}", got=m, expected={"id": rid, "r": r, "tag": tag}, step=act)
        mode = None
        if self.proto == "lsp":
            if m.get("jsonrpc") != "2.0":
                raise bad("not jsonrpc 2.0")
            if "method" in m or "id" not in m:
                raise bad("not a response")
            if m["id"] != rid or type(m["id"]) is not type(rid):
                raise bad("id")
            if ("result" in m) == ("error" in m):
                raise bad("not exactly one of result and error")
            if r == "null":
                if "result" not in m or m["result"] is not None:
                    raise bad("expected a null result")
            elif r == "ok":
                if "result" not in m:
                    raise bad("expected success")
                if tag is not None and not self.check_result(m, m["result"], tag):
                    raise bad("another request's result")
            else:
                if "error" not in m:
                    raise bad("expected an error")
                if m["error"].get("code") != CODES[r]:
                    raise bad("error code")
                if r == "failed" and m["error"].get("message") != f"failed {tag}":
                    raise bad("another request's error")
        else:
            if m.get("type") != "response":
                raise bad("not a response")
            if m.get("request_seq") != rid:
                raise bad("id")
            if m.get("success") is not (r in ("ok", "null")):
                raise bad("success flag")
            if r == "ok" and tag is not None and not self.check_result(m, m.get("body"), tag):
                raise bad("another request's result")
            if r == "null" and m.get("body") is not None:
                raise bad("expected a null result")
            if r == "failed" and m.get("message") != f"failed {tag}":
                raise bad("another request's error")

    def check_out(self, m, o, act):
        if o["e"] == "resp":
            if act["n"] == "Answer":
                tag, kind = self.owner.pop(act["i"])
            else:
                tag, kind = self.cur
            self.check_resp(m, self.idmap[o["i"]], o["r"], tag if o["r"] in ("ok", "failed") else None, kind, brief(act))
        elif o["e"] == "srvreq":
            want = {"jsonrpc": "2.0", "id": m.get("id"), "method": "srv/req", "params": {"tag": self.cur[0], "mode": "q"}}
            if m != want or type(m["id"]) not in (int, str):
                raise Mismatch("wrong server request", got=m, expected=want)
            if m["id"] in self.oid.values():
                raise Mismatch("the id of a server request is not unique", got=m)
            self.oid[o["i"]] = m["id"]
            self.otag[o["i"]] = self.cur[0]
        elif o["e"] == "srvnote":
            p = {"tag": self.cur[0], "mode": "n"}
            if self.proto == "lsp":
                ok = m == {"jsonrpc": "2.0", "method": "srv/note", "params": p}
            else:
                ok = m.get("type") == "event" and m.get("event") == "srv/note" and m.get("body") == p
            if not ok:
                raise Mismatch("wrong server notification", got=m, expected=p)

    def check_log(self, e, o, act):
        bad = lambda why: Mismatch(f"wrong handler activity: {why}", got=e, expected=o, step=brief(act))
        if e["e"] != o["e"]:
            raise bad("kind")
        tag, kind = self.cur
        if e["e"] == "call":
            h = o["h"]
            if h == "req":
                h = self.curm[2:]
            elif h == "cmd":
                h = self.curc[2:]
            if e["h"] != h:
                raise bad("another handler")
            if e["tag"] != tag or not self.check_params(e):
                raise bad("not the message's parameters")
            if "id" in e and (e["id"] != self.idmap[o["i"]] or type(e["id"]) is not type(self.idmap[o["i"]])):
                raise bad("another id")
            if h == "init":
                self.born = tag
        elif e["e"] == "cont":
            if e["tag"] != self.otag.get(o["i"]):
                raise bad("another request's continuation")
            if e["svc"] != self.born:
                raise bad("another service")
            if e["id"] != self.oid[o["i"]]:
                raise bad("another id")
            if self.resp_err:
                if e["error"] != -7:
                    raise bad("answer content")
            elif not same(e["result"], self.pars[tag]) or e["error"] is not None:
                raise bad("answer content")
        elif e["e"] == "event":
            if e["k"] != o["k"] or e["tag"] != tag:
                raise bad("another event")
            if e["s"] != o["s"]:
                raise bad("view of the session")
            if e["svc"] != (self.born if o["s"] == "service" else -1):
                raise bad("another service")


def brief(a):
    return a["n"] + "(" + ",".join(f"{a[k]}" for k in ("i", "k", "r") if k in a) + ")"
