"""C11: the mirror of the input, specified in Framing.tla (mirror, consumed) and LsServer.tla (sessions)."""
import array, fcntl, json, os, random, termios, time
import vlib, lsdrive, c_transport, c_ls
from lsdrive import Session, Mismatch
from vlib import Graph, tlc_checked, THOROUGH, SEED

_job = {}


def drained(fd, s, limit=2.0):
    """Waits until the session took everything from the pipe (or is gone)."""
    n = array.array("i", [0])
    t0 = time.time()
    while time.time() - t0 < limit:
        try:
            fcntl.ioctl(fd, termios.FIONREAD, n)
        except OSError:
            return
        if n[0] == 0:
            return
        s.pump(0.0005)
        if s.out_eof:
            return


def feed(exe, proto, chunks, flags):
    """Feeds a fresh session, chunk by chunk. -> (raw output, outcome)"""
    s = Session(exe, proto, flags, env={"REPLAY_TIMEOUT": "600"})
    try:
        fd = s.p.stdin.fileno()
        try:
            for c in chunks:
                view = memoryview(c)
                while view:
                    k = os.write(fd, view[:60000])
                    view = view[k:]
                    drained(fd, s)
        except BrokenPipeError:
            pass
        s.close_stdin()
        e = s.wait_log("return of the session", lambda e: e["e"] == "return")
        t = s.wait_log("end of the transport", lambda e: e["e"] == "transport")
        s.close_ctl()
        s.until(lambda: s.out_eof and s.log_eof, "end of the process")
        if s.ob:
            raise Mismatch("incomplete frame at the end of the output", rest=repr(s.ob[:100]))
        return s.raw_out, [e["r"], t["r"]], [x for x in s.all_log if x["e"] in ("call", "event", "cont")]
    finally:
        s.kill()


def pieces(rng, data):
    how = rng.random()
    if how < .15:
        return [data]
    if how < .3 and len(data) < 400:
        return [data[i:i + 1] for i in range(len(data))]
    k = min(len(data), rng.randrange(1, 12))
    cuts = sorted(rng.sample(range(len(data) + 1), k)) if data else []
    return [data[a:b] for a, b in zip([0] + cuts, cuts + [len(data)])]


def reset(path, rng):
    """An old mirror, longer than the new one, must not shine through."""
    if rng.random() < .5:
        with open(path, "wb") as f:
            f.write(b"old" * 5000)
    elif os.path.exists(path):
        os.unlink(path)


def _stream(ix):
    """A token stream of Framing.tla, well formed or not."""
    proto, toks, deliv, rs, nread, closed_by_exit = _job["b"][ix]
    rng = random.Random(_job["seed"] * 1000003 + ix)
    mk = c_transport.Maker(rng, proto)
    data, msgs = mk.build(toks)
    want = [msgs[i] for i, d in enumerate(deliv) if d]
    path = os.path.join(vlib.scratch(), f"mirror{os.getpid()}")
    where = {"proto": proto, "tokens": toks, "bytes": repr(data[:500])}
    try:
        reset(path, rng)
        ch = pieces(rng, data)
        out, end, _ = feed(_job["exe"], proto, ch, [f"mirror={path}"])
        got = open(path, "rb").read()
        where["chunks"] = [len(c) for c in ch]
        # what the specification's reader consumed: these tokens, the last one perhaps in part if it is faulty
        if not data.startswith(got):
            return "the mirror is not a prefix of the input", dict(where, mirror=repr(got[:300]), size=len(got))
        offs = [0] + mk.ends
        lo = offs[nread] if rs == "end" else offs[max(nread - 1, 0)]
        if rs == "end" and not closed_by_exit:
            lo = len(data)
        hi = lo if rs == "end" else len(data)
        if not lo <= len(got) <= hi:
            return "the mirror is not what was consumed", dict(where, size=len(got), expected=[lo, hi])
        nreq = sum(1 for k, _ in want if k == "req")
        frames, _ = lsdrive.parse_frames(out)
        if len(frames) != nreq:
            return "a request of a mirrored session was not answered once", dict(where, answers=len(frames), requests=nreq)
        out2, end2, _ = feed(_job["exe"], proto, [], [f"replay={path}", "is-replay"])
        if out2 != out:
            return "replaying the mirror does not give the same answers", dict(where, mirrored=repr(out[-300:]), replayed=repr(out2[-300:]))
        if ix % 5 == 0:
            out3, end3, _ = feed(_job["exe"], proto, ch, ["mirror=/dev/full"])
            if out3 != out or end3 != end:
                return "a mirror that cannot be written disturbs the session", dict(where, got=repr(out3[-300:]), expected=repr(out[-300:]))
        if ix % 5 == 1:
            out3, end3, _ = feed(_job["exe"], proto, ch, [])
            if out3 != out or end3 != end:
                return "mirroring disturbs the session", dict(where, got=repr(out3[-300:]), expected=repr(out[-300:]))
    except Mismatch as e:
        return e.what, dict(where, **e.kw)
    finally:
        if os.path.exists(path):
            os.unlink(path)
    return None


class Recorder(lsdrive.Replayer):
    """Replays a walk of LsServer.tla and keeps what was written to the session."""

    def run(self, walk):
        orig = Session.write
        sent = self.sent = []

        def write(s, data):
            try:
                cut = self.rng.randrange(1, len(data)) if len(data) > 1 and self.rng.random() < .6 else 0
                if cut:
                    s.p.stdin.write(data[:cut])
                    drained(s.p.stdin.fileno(), s, .2)
                s.p.stdin.write(data[cut:])
            except BrokenPipeError:
                raise Mismatch("the server stopped reading its input")
            sent.append(data)
        Session.write = write
        try:
            return super().run(walk)
        finally:
            Session.write = orig


def answers(raw):
    return [m for m in lsdrive.parse_frames(raw)[0] if m.get("method") != "srv/note" and m.get("event") != "srv/note"]


def _session(ix):
    """A behaviour of LsServer.tla mirrored, then replayed."""
    consts, walk, seed = _job["walks"][ix]
    rng = random.Random(seed)
    path = os.path.join(vlib.scratch(), f"smirror{os.getpid()}")
    steps = [lsdrive.brief(a) for _, a, _ in walk]
    try:
        reset(path, rng)
        r = Recorder(_job["exe"], consts["Proto"], consts["HasShutdown"], False, rng, extra_flags=[f"mirror={path}"])
        res = r.run(walk)
        if res is not None:
            return "a mirrored session diverges from the specified behaviour", res
        data, got = b"".join(r.sent), open(path, "rb").read()
        if any(a.get("k") == "exit" for _, a, _ in walk):
            cut, pos = 0, 0
            for d in r.sent:
                pos += len(d)
                if b'"method": "exit"' in d:
                    cut = pos
                    break
            data = data[:cut]
        where = {"proto": consts["Proto"], "steps": steps}
        if got != data:
            k = next((i for i, (a, b) in enumerate(zip(got, data)) if a != b), min(len(got), len(data)))
            return "the mirror is not what was consumed", dict(where, size=len(got), expected=len(data), differs_at=k,
                                                               mirror=repr(got[max(0, k - 40):k + 80]), sent=repr(data[max(0, k - 40):k + 80]))
        out, _, calls = feed(_job["exe"], consts["Proto"], [], [f"replay={path}", "is-replay"])
        # what the server says by itself is not an answer
        a, b = answers(r.s.raw_out), answers(out)
        if a != b:
            return "replaying the mirror does not give the same answers", dict(where, mirrored=a[-3:], replayed=b[-3:])
        was = [x for x in r.s.all_log if x["e"] in ("call", "event", "cont")]
        if calls != was:
            return "replaying the mirror does not call the same handlers", dict(where, mirrored=was[-5:], replayed=calls[-5:])
    finally:
        if os.path.exists(path):
            os.unlink(path)
    return None


def run(chk, rng):
    exe = vlib.build("ls", ["ls_srv"])
    vlib.scratch()
    k = 1 if not THOROUGH else 12
    kinds = ["req", "note", "ok", "fail", "exit"]
    bs = []
    for proto in ("lsp", "dap"):
        for toks, deliv, rs, nread in c_transport.behaviours(chk, proto, "any", kinds, rng, 350 * k, 30):
            if "ioerr" in toks:
                continue
            ex = proto == "lsp" and any(d and t == "exit" for t, d in zip(toks, deliv))
            bs.append((proto, toks, deliv, rs, nread, ex))
    rng.shuffle(bs)
    bs = bs[:900 * k]
    _job.update(exe=exe, b=bs, seed=rng.randrange(1 << 30))
    for r in vlib.pmap(_stream, range(len(bs))):
        if r is not None:
            chk.violation(r[0], r[1])
    chk.add(streams_mirrored=len(bs))
    # whole sessions
    walks = []
    req = {"init", "initerr", "initbad", "ok", "err", "reject", "null", "rawerr", "tnull", "bad", "tbad", "unknown", "cmd", "cmderr",
           "rawcmd", "cmdunknown", "cmdbad", "res", "rawres", "resunknown", "resbad", "shutdown", "shuterr"}
    for proto in ("lsp", "dap"):
        consts = c_ls.cfg(proto, 1, req, {"initialized", "exit", "note", "rawnote", "notefail", "notebad", "noteunknown"})
        r = tlc_checked("LsServer", f"C11/{proto}", emit=True, consts=consts, timeout=600,
                        cfg_kwargs=dict(spec="Spec", view="View", invariants=c_ls.INV, properties=c_ls.PROPS, action_constraint="Emit"))
        g = Graph(r.edges)
        chk.add(states=r.distinct, transitions=len(g.edges))
        ws = g.cover(rng, maxlen=25) + g.random_walks(rng, 120 * k, 25, weight=lambda a: .05 if a["n"] in ("Eof", "Return") or a.get("k") in ("exit", "shutdown", "shuterr") else 1)
        walks += [(consts, w, rng.randrange(1 << 30)) for w in ws]
        chk.sample({"proto": proto, "session": [lsdrive.brief(a) for _, a, _ in ws[len(ws) // 2]]})
    _job["walks"] = walks
    if not chk.violations:
        for r in vlib.pmap(_session, range(len(walks))):
            if r is not None:
                chk.violation(r[0], r[1])
    chk.add(traces_validated_against_impl=len(bs) + len(walks), sessions_mirrored=len(walks))
    return chk.finish()
