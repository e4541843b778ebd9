"""C09-C11: framing and the mirror, specified in Framing.tla."""
import json, os, random, re, subprocess, time
import vlib, lsdrive, c_ls
from vlib import Check, Graph, tlc_checked, THOROUGH, SEED, ToolError

INV = ["NeverMisread", "AllDelivered", "FaultReported", "RoundTrip", "MirrorExact", "Replays"]
TXT = ["", "x", "\u00e9\u4e2d\U0001f600", "a\u0000\u0001\u001f\u007f", "\r\n\r\nContent-Length: 5\r\n\r\n", "Content-Length: 3\r\n",
       "\"\\/\b", "\u2028\u2029\ufeff", "{}[]", " lead and trail ", "\u00fc" * 41, "line\nline\r\n"]
VALS = [None, True, False, 0, -1, 1.5, 2 ** 53 + 1, 2 ** 63, -2 ** 63, 1e300, 0.1, "", [], {}, [None], [[], [1, "2"]],
        {"": 1}, {"jsonrpc": "1.0"}, {"id": 7, "method": "m"}]


def payload(rng, depth=0):
    c = rng.random()
    if c < .4:
        return rng.choice(VALS)
    if c < .7 or depth > 3:
        return rng.choice(TXT)
    if c < .85:
        return [payload(rng, depth + 1) for _ in range(rng.randrange(4))]
    return {rng.choice(TXT + ["k", "tag"]) + str(i): payload(rng, depth + 1) for i in range(rng.randrange(4))}


def lsp_id(rng):
    return rng.choice([0, 1, -1, 2147483647, -2147483648, 1 << 40, -(1 << 62), "", "0", "1", "\u00e9\r\n", "x" * 50, 7])


def message(rng, proto, kind, big=False):
    """A message of a kind: (shown kind, wire form, form with null/absent normalised)."""
    p = payload(rng)
    if big:
        p = {"big": rng.choice(["x", "\u00e9", "\r\n\""]) * rng.randrange(3000, 60000), "p": p}
    if proto == "lsp":
        m = rng.choice(["m", "$/x", "\u00e9", "", "textDocument/didOpen", "exit\u0000"])
        if kind == "exit":
            v = {"method": "exit"}
            if rng.random() < .3:
                v["params"] = None
            return "note", v
        if kind == "req":
            v = {"id": lsp_id(rng), "method": rng.choice([m, "exit"])}
            if p is not None or rng.random() < .5:
                v["params"] = p
            return "req", v
        if kind == "note":
            v = {"method": m}
            if p is not None or rng.random() < .5:
                v["params"] = p
            return "note", v
        if kind == "ok":
            return "resp", {"id": lsp_id(rng), "result": p}
        return "resp", {"id": lsp_id(rng), "error": {"code": rng.choice([-32700, 0, 1, -2147483648, 2147483647]),
                                                     "message": rng.choice(TXT)}}
    seq = rng.choice([0, 1, 2, 2 ** 31, 2 ** 53, -1])
    if kind in ("req", "exit"):
        return "req", {"type": "request", "seq": seq, "command": rng.choice(["launch", "", "\u00e9"]), "arguments": p}
    if kind == "note":
        return "note", {"type": "event", "seq": seq, "event": rng.choice(["exit", "stopped", "\r\n"]), "body": p}
    if kind == "ok":
        return "resp", {"type": "response", "seq": seq, "request_seq": seq, "success": True, "command": "c", "body": p}
    return "resp", {"type": "response", "seq": seq, "request_seq": seq, "success": False, "command": "c",
                    "message": rng.choice(TXT)}


def norm(v):
    """Null and absent params/results are the same thing; jsonrpc is framing."""
    v = {k: x for k, x in v.items() if k != "jsonrpc"}
    for k in ("params", "result", "error", "body", "arguments", "message", "command"):
        if v.get(k, 0) is None:
            del v[k]
    return v


def same(a, b):
    """Equality that tells 1 from 1.0 and true."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(map(same, a, b))
    return a == b


def dap_seen(got):
    """dapts keeps no seq/command in responses."""
    return got


def is_json(b):
    try:
        json.loads(b.decode())
        return True
    except (ValueError, RecursionError):
        return False


class Maker:
    """Turns a token sequence of the specification into bytes."""

    def __init__(self, rng, proto):
        self.rng, self.proto = rng, proto

    def build(self, toks):
        """-> bytes, messages per token (or None)"""
        r, lsp = self.rng, self.proto == "lsp"
        # bodies first: the length lines before them need their size
        bodies = {}
        for i, t in enumerate(toks):
            if t in ("req", "note", "ok", "fail", "exit"):
                big = r.random() < .02
                kind, v = message(r, self.proto, t, big)
                w = dict(v)
                if lsp and r.random() < .9:
                    w = {"jsonrpc": "2.0", **w}
                if r.random() < .2:
                    w["extra"] = 1 if lsp else "e"
                items = list(w.items())
                r.shuffle(items)
                txt = json.dumps(dict(items), ensure_ascii=r.random() < .5,
                                 separators=r.choice([(",", ":"), (", ", ": "), (" ,\r\n", " :\t")]))
                if r.random() < .1:
                    txt = r.choice([" ", "\r\n", "\n"]) + txt + r.choice(["", "\r\n\r\n", " "])
                bodies[i] = (txt.encode(), kind, v)
            elif t == "nonutf8":
                good = json.dumps(message(r, self.proto, "note")[1]).encode()
                bad = r.choice([b"\xff", b"\xc3", b"\xed\xa0\x80", b"\xf8\x88\x80\x80\x80", b"\xc0\x80"])
                k = r.randrange(len(good) + 1)
                body = b'{"method":"' + bad + b'"}' if r.random() < .5 and lsp else good[:k] + bad + good[k:]
                bodies[i] = (body, None, None)
            elif t == "nonjson":
                bodies[i] = (r.choice([b"hello", b'{"id":1', b"", b"{}}", b'{"id":1,"method":"m"},', b"{'id':1,'method':'m'}",
                                       b'{"method":"a\nb"}', b"\xef\xbb\xbf{}"]), None, None)
            elif t == "notmsg":
                L = ["[]", "3", "{}", '{"jsonrpc":"2.0"}', "null", '{"method":5}', '"exit"', '[{"method":"exit"}]']
                if not lsp:
                    L = ["[]", "3", "{}", '{"type":"x","seq":1}', '{"type":"request","seq":"1","command":"x"}',
                         '{"seq":1,"command":"x","arguments":null}', '"request"']
                bodies[i] = (r.choice(L).encode(), None, None)
            elif t == "cutbody":
                bodies[i] = (json.dumps(message(r, self.proto, "note")[1]).encode(), None, None)
        msgs, ends, rest = [], [], b""
        starts = {}                     # length of the stream's rest from each body on
        for i, t in reversed(list(enumerate(toks))):
            nxt = next((bodies[j][0] for j in range(i + 1, len(toks)) if j in bodies), b"0123456789")
            n = len(nxt)
            m = None
            if t == "len":
                x = b"Content-Length: %d\r\n" % n
            elif t == "lencase":
                x = r.choice([b"content-length: %d\r\n", b"CONTENT-LENGTH: %d\r\n", b"cOnTeNt-LeNgTh: %d\r\n",
                              b"Content-length: 00%d\r\n"]) % n
            elif t == "lenoff":
                # a wrong length that never makes a message of what follows
                j = next((j for j in range(i + 1, len(toks)) if j in bodies), None)
                after = rest[len(rest) - starts[j]:] if j is not None else b""
                off = r.choice([k for k in (0, 1, n // 2, n - 1, n + 1, n + 5, 2 * n + 40)
                                if k >= 0 and k != n and not is_json(after[:k])])
                x = b"Content-Length: %d\r\n" % off
            elif t == "lenhuge":
                x = b"Content-Length: %d\r\n" % r.choice([10 ** 15, 2 ** 62, 2 ** 63, 2 ** 64 - 1])
            elif t == "other":
                x = r.choice([b"Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n", b"X: \r\n", b"Content-Lengthy: 3\r\n",
                              b"Content-Lengt: 3\r\n", b"a: b: c\r\n", b"X-\xc3\xa9: \xe4\xb8\xad\r\n", b"Y: Content-Length: 7\r\n",
                              b" Content-Length: 9\r\n", b"Content-Length : 9\r\n", b"Long: " + b"z" * 9000 + b"\r\n", b": \r\n"])
            elif t == "lenbad":
                x = b"Content-Length: " + r.choice([b"abc", b"", b"-1", b"5 ", b" 5", b"1.0", b"0x10", b"1e3", b"18446744073709551616",
                                                    b"5;", b"\xc2\xb2"]) + b"\r\n"
            elif t == "nosep":
                x = r.choice([b"garbage", b"Content-Length:5", b":", b"X:y", b" ", b'{"method":"exit"}', b"Content-Length"]) + b"\r\n"
            elif t == "lf":
                x = r.choice([b"Content-Length: 5\n", b"\n", b"X: y\n", b"X: y\r\r\n"[:-2] + b"\n" if False else b"Content-Type: a\n"])
            elif t == "bin":
                x = r.choice([b"X: \xff\r\n", b"\xc3: y\r\n", b"Content-Length: 5\xff\r\n"])
            elif t == "blank":
                x = b"\r\n"
            elif t == "cutline":
                x = r.choice([b"Content-Le", b"Content-Length: 5", b"Content-Length: 5\r", b"\r", b"X: y"])
            elif t == "cutbody":
                x = bodies[i][0]
                x = x[:r.randrange(len(x))]
            elif t == "ioerr":
                x = b""
            else:
                x, kind, v = bodies[i]
                if v is not None:
                    m = (kind, v)
            rest = x + rest
            if i in bodies:
                starts[i] = len(rest)
            msgs.append(m)
            ends.append(len(rest) - len(x))
        self.ends = [len(rest) - e for e in reversed(ends)]
        return rest, msgs[::-1]


class Harness:
    def __init__(self, exe):
        self.exe = exe
        self.start()

    def start(self):
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)

    def ask(self, **kw):
        self.p.stdin.write((json.dumps(kw) + "\n").encode())
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            self.p.wait()
            self.start()
            return None
        return json.loads(line)

    def close(self):
        self.p.kill()
        self.p.wait()


def behaviours(chk, proto, peer, kinds, rng, count, length):
    """Token sequences with what the specification says of them."""
    # the properties, exhaustively for short histories
    depth = 5 if peer == "any" and THOROUGH else 4 if peer == "any" else 9
    r = tlc_checked("Framing", "properties", workers=vlib.NPROC, timeout=800,
                    consts=dict(Proto=proto, Peer=peer, MaxTok=depth, MsgKinds={"req", "exit"}),
                    cfg_kwargs=dict(spec="Spec", invariants=INV, properties=["StepMirror", "Ends"]))
    chk.add(states=r.distinct, transitions=r.states)
    e = tlc_checked("Framing", "behaviours", emit=True, timeout=300,
                    consts=dict(Proto=proto, Peer=peer, MaxTok=10 ** 6, MsgKinds=set(kinds)),
                    cfg_kwargs=dict(init="Init", next_="Next", view="View", action_constraint="EmitEager"))
    g = Graph(e.edges)
    walks = g.cover(rng, maxlen=length) + g.random_walks(
        rng, count, length, weight=lambda a: {"len": 6, "blank": 6, "cutline": .3, "cutbody": .3, "ioerr": .3, "lenoff": .7,
                                              "lenhuge": .3, "lenbad": .3, "nosep": .3, "lf": .3, "bin": .3, "nonutf8": .7,
                                              "nonjson": .7, "notmsg": .7, "exit": .4 if proto == "lsp" else 1}.get(a.get("t"), 2 if a["n"] != "CloseWire" else .15))
    out, seen = [], set()
    for w in walks:
        toks = [a["t"] for _, a, _ in w if a["n"] == "Put"]
        reads = [a for _, a, _ in w if a["n"] in ("Read", "ReadEof")]
        last = w[-1][2] if w else None
        if last is None:
            continue
        closed = last["closed"]
        rs = last["rs"]
        deliv = [bool(a.get("d")) for a in reads if a["n"] == "Read"]
        nread = len(deliv)
        # let the reader finish what is on the wire, then close
        node = last
        guard = 0
        while rs in ("head", "body"):
            es = g.adj[g.node(node)]
            nxt = [g.edges[x] for x in es if g.edges[x][1]["n"] in ("Read", "ReadEof")] or \
                  [g.edges[x] for x in es if g.edges[x][1]["n"] == "CloseWire"]
            if not nxt:
                raise ToolError("Framing: dead end")
            _, a, t = nxt[0]
            node = g.nodes[t]
            if a["n"] == "Read":
                deliv.append(bool(a["d"]))
                nread += 1
            rs = node["rs"]
            guard += 1
            if guard > 10:
                raise ToolError("Framing: reader does not finish")
        key = tuple(toks)
        if key in seen:
            continue
        seen.add(key)
        out.append((toks, deliv, rs, nread))
    return out


_job = {}


def _reads(args):
    lo, hi = args
    h = Harness(_job["exe"])
    bad, runs = [], 0
    for ix in range(lo, hi):
        toks, deliv, rs, _ = _job["b"][ix]
        rng = random.Random(_job["seed"] * 1000003 + ix)
        for rep in range(_job["reps"]):
            data, msgs = Maker(rng, _job["proto"]).build(toks)
            want = [msgs[i] for i, d in enumerate(deliv) if d]
            assert None not in want
            small = len(data) < 400 and ix % 4 == 0
            cuts = [sorted(rng.sample(range(1, len(data)), min(len(data) - 1, rng.randrange(1, 6)))) for _ in range(3)] if len(data) > 2 else []
            ans = h.ask(c="read", kind=_job["proto"], hex=data.hex(), bytes=len(data) < 20000, splits=small and rep == 0, cuts=cuts,
                        fail="ioerr" in toks[-1:])
            where = {"tokens": toks, "bytes": repr(data[:600]), "proto": _job["proto"], "expected": {"messages": want, "end": rs}}
            if ans is None:
                bad.append(("the reader crashed the process", where))
                break
            runs += ans["n"]
            for res, cut in ans["results"]:
                got = res["msgs"]
                ok = res["res"] == rs and len(got) == len(want) and all(
                    a[0] == b[0] and same(norm(strip(a[1], _job["proto"])), norm(strip(b[1], _job["proto"]))) for a, b in zip(got, want))
                if not ok:
                    bad.append(("the reader does not read what was sent", dict(where, got=json.dumps(res)[:900], cuts=cut)))
                    break
            if bad:
                break
        if len(bad) > 3:
            break
    h.close()
    return bad, runs


def strip(v, proto):
    v = dict(v)
    v.pop("extra", None)
    if proto == "dap" and v.get("type") == "response":
        v.pop("seq", None)
        v.pop("command", None)
    return v


def reading(chk, exe, proto, peer, kinds, rng, count, reps):
    b = behaviours(chk, proto, peer, kinds, rng, count, 30)
    _job.update(exe=exe, b=b, proto=proto, seed=rng.randrange(1 << 30), reps=reps)
    n = max(1, len(b) // (vlib.NPROC * 4))
    runs = 0
    for bad, r in vlib.pmap(_reads, [(i, min(i + n, len(b))) for i in range(0, len(b), n)], chunk=1):
        runs += r
        for what, d in bad:
            chk.violation(what, d)
    chk.add(traces_validated_against_impl=len(b) * reps, stream_runs=runs)
    chk.sample({"proto": proto, "tokens": b[len(b) // 2][0], "end": b[len(b) // 2][2]})


# ---------------------------------------------------------------- writing

def _writes(args):
    lo, hi = args
    h = Harness(_job["exe"])
    bad, runs = [], 0
    proto = _job["proto"]
    for ix in range(lo, hi):
        toks = _job["b"][ix][0]
        kinds = [t for t in toks if t in _job["kinds"]]
        rng = random.Random(_job["seed"] * 1000003 + ix)
        ms = []
        for t in kinds:
            big = rng.random() < .03
            kind, v = message(rng, proto, t, big)
            if proto == "lsp" and t in ("req", "note", "exit"):
                v.setdefault("params", None)
            ms.append({"t": t if t in ("req", "ok", "fail") else "note", "v": v})
        for short, intr in ((10 ** 9, False), (rng.choice([1, 2, 3, 7]), True), (4096, False)):
            ans = h.ask(c="write", kind=proto, msgs=ms, short=short, intr=intr)
            where = {"proto": proto, "messages": json.dumps(ms)[:900], "short": short}
            if ans is None:
                bad.append(("the writer crashed the process", where))
                break
            runs += 1
            try:
                got, rest = lsdrive.parse_frames(bytes.fromhex(ans["hex"]))
                if rest or ans["res"] != "end" or ans["refused"]:
                    raise lsdrive.FrameError("output ends inside a frame", rest=repr(rest[:80]), res=ans["res"])
                if len(got) != len(ms):
                    raise lsdrive.FrameError("number of frames", got=len(got), expected=len(ms))
                for a, m in zip(got, ms):
                    if a.get("jsonrpc") != "2.0":
                        raise lsdrive.FrameError("not jsonrpc 2.0", got=str(a)[:200])
                    if m["t"] in ("ok", "fail") and proto == "lsp" and ("result" in a) == ("error" in a):
                        raise lsdrive.FrameError("a response needs exactly one of result and error", got=str(a)[:200])
                    if not same(norm(strip(a, proto)), norm(strip(m["v"], proto))):
                        raise lsdrive.FrameError("content", got=str(a)[:300], expected=str(m["v"])[:300])
                # and back through the reader, cut at random
                data = bytes.fromhex(ans["hex"])
                if short != 4096 and len(data) > 2:
                    cuts = [sorted(rng.sample(range(1, len(data)), min(len(data) - 1, 4))) for _ in range(2)]
                    back = h.ask(c="read", kind=proto, hex=ans["hex"], bytes=len(data) < 5000, splits=len(data) < 400 and ix % 8 == 0, cuts=cuts)
                    if back is None:
                        raise lsdrive.FrameError("the reader crashed the process")
                    runs += back["n"]
                    upto = len(ms)
                    if proto == "lsp":
                        upto = next((i + 1 for i, m in enumerate(ms) if m["v"].get("method") == "exit" and "id" not in m["v"]), upto)
                    for res, cut in back["results"]:
                        if res["res"] != "end" or len(res["msgs"]) != upto or not all(
                                same(norm(strip(x[1], proto)), norm(strip(m["v"], proto))) for x, m in zip(res["msgs"], ms)):
                            raise lsdrive.FrameError("what was written is not what is read", got=json.dumps(res)[:600], cuts=cut)
            except lsdrive.FrameError as e:
                bad.append((e.what, dict(where, **e.kw)))
                break
        # output that breaks: a prefix of the frames, and no panic
        if not bad and ms and ix % 4 == 0:
            full = bytes.fromhex(h.ask(c="write", kind=proto, msgs=ms)["hex"])
            k = rng.randrange(len(full))
            ans = h.ask(c="write", kind=proto, msgs=ms, fail_at=k, short=rng.choice([1, 5, 10 ** 9]))
            if ans is None or ans["res"] != "err" or not full.startswith(bytes.fromhex(ans["hex"])):
                bad.append(("broken output is not reported", {"proto": proto, "messages": json.dumps(ms)[:500], "at": k,
                                                              "got": None if ans is None else ans["res"]}))
        if len(bad) > 3:
            break
    h.close()
    return bad, runs


def writing(chk, exe, proto, kinds, rng, count):
    b = behaviours(chk, proto, "writer", kinds, rng, count, 45)
    _job.update(exe=exe, b=b, proto=proto, seed=rng.randrange(1 << 30), kinds=kinds)
    n = max(1, len(b) // (vlib.NPROC * 4))
    runs = 0
    for bad, r in vlib.pmap(_writes, [(i, min(i + n, len(b))) for i in range(0, len(b), n)], chunk=1):
        runs += r
        for what, d in bad:
            chk.violation(what, d)
    chk.add(traces_validated_against_impl=len(b), stream_runs=runs)
    chk.sample({"proto": proto, "written": b[len(b) // 2][0]})


def run(prop):
    chk = Check(prop, "model_checking")
    rng = random.Random(SEED)
    kinds = ["req", "note", "ok", "fail", "exit"]
    k = 1 if not THOROUGH else 12
    if prop == "C11":
        import c_mirror
        return c_mirror.run(chk, rng)
    exe = vlib.build("tr", ["tr"])
    for proto in ("lsp", "dap"):
        if prop == "C09":
            writing(chk, exe, proto, kinds, rng, 500 * k)
        else:
            reading(chk, exe, proto, "any", kinds, rng, 900 * k, 2)
    return chk.finish()
