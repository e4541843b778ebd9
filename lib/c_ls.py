"""C01-C08: the sync-ls session, specified in LsServer.tla."""
import json, multiprocessing, random, time
import vlib, lsdrive, lsfree
from vlib import Check, Graph, tlc_checked, THOROUGH, SEED

INV = ["TypeOK", "AnsweredOnce", "BornOnce", "ReadyOnlyAfterInit", "OutIdsFresh", "ReplayDrains"]
PROPS = ["StepAnswers", "HandlersGated", "RejectedOutside", "PhaseOrder", "NothingAfterEnd", "ContOnlyForOutstanding",
         "EventsGated", "SilentWhenClosed"]

SERVED = {"ok", "err", "reject", "async", "null", "late", "rawerr", "tnull", "tlate", "bad", "tbad", "unknown"}
CMDS = {"cmd", "cmdasync", "cmderr", "rawcmd", "rawcmdlate", "cmdunknown", "cmdbad"}
RES = {"res", "resasync", "rawres", "resunknown", "resbad", "resempty"}
INIT = {"init", "initasync", "initerr", "initbad"}
SHUT = {"shutdown", "shutasync", "shuterr"}
NOTES = {"note", "rawnote", "notefail", "notebad", "noteunknown"}


def cfg(proto, ids, req, notes, evs=frozenset(), maxout=0, shutdown=True, replay=False, giveup=False, linger=False):
    if proto == "dap":
        req = set(req) - CMDS - RES
        notes = set(notes) - {"initialized", "exit"}
    return dict(Proto=proto, Ids=set(range(1, ids + 1)), MaxOut=maxout, ReqKinds=set(req), NoteKinds=set(notes),
                EvKinds=set(evs), HasShutdown=shutdown, Replay=replay, CanGiveUp=giveup, Linger=linger)


def configs(prop):
    """The bounded models of each property: (name, constants)."""
    T = THOROUGH
    one = {"init", "ok", "async", "late", "unknown", "shutdown"}
    C = []
    if prop == "C01":
        for proto in ("lsp", "dap"):
            C.append((f"{proto}-mix", cfg(proto, 3, INIT | {"ok", "err", "async", "late", "bad", "unknown", "tlate",
                                                            "cmdasync", "cmderr", "shutasync"}, {"initialized"})))
            C.append((f"{proto}-kinds", cfg(proto, 2, INIT | SERVED | CMDS | RES | SHUT, {"initialized", "note", "exit"})))
            C.append((f"{proto}-noshut", cfg(proto, 2, one | {"shutasync"}, {"initialized"}, shutdown=False)))
        if T:
            C.append(("lsp-deep", cfg("lsp", 3, INIT | SERVED | CMDS | RES | SHUT, {"initialized", "note"}, maxout=1)))
    elif prop in ("C02", "C03"):
        proto = "lsp" if prop == "C02" else "dap"
        C.append(("life", cfg(proto, 2, INIT | SHUT | {"ok", "async", "late", "unknown", "bad", "cmd", "cmdasync", "cmdbad", "res"},
                              {"initialized", "exit"} | NOTES, {"ev"}, maxout=1)))
        C.append(("noshut", cfg(proto, 1, INIT | SHUT | {"ok", "async"}, {"initialized", "exit", "note"}, {"ev"}, shutdown=False)))
        C.append(("all1", cfg(proto, 1, INIT | SHUT | SERVED | CMDS | RES, {"initialized", "exit"} | NOTES,
                              {"ev", "everr", "evunk"}, maxout=1)))
        if T:
            C.append(("deep", cfg(proto, 3, INIT | SHUT | SERVED | CMDS | RES, {"initialized", "exit"} | NOTES,
                                  {"ev", "everr", "evunk"}, maxout=1)))
    elif prop == "C04":
        for proto in ("lsp", "dap"):
            C.append((f"{proto}-all", cfg(proto, 2, {"init"} | SERVED | CMDS | RES | SHUT, {"initialized"} | NOTES, {"ev"})))
        if T:
            C.append(("lsp-deep", cfg("lsp", 3, {"init"} | SERVED | CMDS | RES | SHUT, {"initialized"} | NOTES, {"ev"}, maxout=1)))
    elif prop == "C05":
        C.append(("out", cfg("lsp", 2, {"init", "ok", "async", "unknown", "shutdown"}, {"initialized", "note", "exit"}, maxout=4)))
        C.append(("dap", cfg("dap", 1, {"init", "ok", "async", "shutdown"}, {"note"}, maxout=0)))
        if T:
            C.append(("deep", cfg("lsp", 2, {"init", "ok", "async", "late"}, {"initialized", "note"}, maxout=6)))
    elif prop == "C07":
        for proto in ("lsp", "dap"):
            C.append((f"{proto}-ev", cfg(proto, 2, INIT | {"ok", "async", "unknown"} | SHUT, {"initialized", "note", "exit"},
                                         {"ev", "everr", "evunk"}, maxout=1 if proto == "lsp" else 0)))
    elif prop == "C08":
        for proto in ("lsp", "dap"):
            for rep in (True, False):
                C.append((f"{proto}-{'replay' if rep else 'live'}",
                          cfg(proto, 3 if rep else 2, {"init", "initasync", "ok", "async", "late", "shutasync"},
                              {"initialized", "exit"}, {"everr"}, replay=rep)))
            C.append((f"{proto}-giveup", cfg(proto, 2, {"init", "initasync", "async", "late", "shutasync"},
                                             {"initialized", "exit"}, {"everr"}, replay=True, giveup=True)))
    elif prop == "C06":
        for proto in ("lsp", "dap"):
            C.append((f"{proto}-send", cfg(proto, 2, {"init", "ok", "async"}, {"initialized", "exit"}, maxout=2 if proto == "lsp" else 0)))
            for rep in (False, True):
                C.append((f"{proto}-linger{int(rep)}", cfg(proto, 2, {"init", "async", "late"}, {"initialized", "exit"}, {"everr"},
                                               maxout=2 if proto == "lsp" else 0, linger=True, replay=rep)))
    return C


_job = {}


def _run_walk(ix):
    r, walk, seed = _job["walks"][ix]
    if _job["stop"].value >= 4:
        return None                 # enough has been found
    rep = lsdrive.Replayer(_job["exe"], r["Proto"], r["HasShutdown"], r["Replay"], random.Random(seed),
                           extra_flags=[f"jitter={seed % 997 + 1}"] if seed % 3 == 0 else [])
    res = rep.run(walk)
    if res is not None:
        with _job["stop"].get_lock():
            _job["stop"].value += 1
    return res


def dap_outgoing_fix(c):
    """DAP servers have no API for server->client requests; their model has MaxOut = 0."""
    if c["Proto"] == "dap":
        c["MaxOut"] = 0
    return c


def conformance(chk, exe, prop, budget):
    rng = random.Random(SEED)
    walks, slow = [], []
    for name, consts in configs(prop):
        consts = dap_outgoing_fix(consts)
        r = tlc_checked("LsServer", f"{prop}/{name}", emit=True, consts=consts, timeout=600,
                        cfg_kwargs=dict(spec="Spec", view="View", invariants=INV, properties=PROPS, action_constraint="Emit"))
        g = Graph(r.edges)
        chk.add(states=r.distinct, transitions=len(g.edges))
        if consts["CanGiveUp"]:
            ws = g.paths_to(lambda a: a["n"] == "GiveUp")
            rng.shuffle(ws)
            slow += [(consts, w, rng.randrange(1 << 30)) for w in ws[:24 if not THOROUGH else 400]]
            continue
        cov = g.cover(rng, maxlen=40)
        extra = g.random_walks(rng, 200 if not THOROUGH else 2000, 30,
                               weight=lambda a: 0.05 if a["n"] in ("Eof", "Return") or a.get("k") in ("exit", "everr", "shutdown", "shutasync", "shuterr") else 1)
        walks += [(consts, w, rng.randrange(1 << 30)) for w in cov + extra]
        chk.sample({"config": name, "behaviour": [lsdrive.brief(a) for _, a, _ in cov[len(cov) // 2]] if cov else []})
    rng.shuffle(walks)
    nw = len(walks)
    walks += slow
    _job.update(walks=walks, exe=exe, stop=multiprocessing.Value("i", 0))
    t0 = time.time()
    done = 0
    step = 800
    for lo in range(0, nw, step):
        hi = min(lo + step, nw)
        for ix, res in zip(range(lo, hi), vlib.pmap(_run_walk, range(lo, hi))):
            done += 1
            if res is not None:
                chk.violation("the implementation diverges from the specified behaviour", {"config": walks[ix][0]["Proto"], **res})
        if chk.violations or time.time() - t0 > budget:
            break
    if slow and not chk.violations:
        for ix, res in zip(range(nw, len(walks)), vlib.pmap(_run_walk, range(nw, len(walks)), procs=24, chunk=1)):
            done += 1
            if res is not None:
                chk.violation("the implementation diverges from the specified behaviour", {"config": walks[ix][0]["Proto"], **res})
    chk.add(traces_validated_against_impl=done, steps_replayed=sum(len(w[1]) for w in walks[:done]))
    chk.cov["behaviours_generated"] = len(walks)
    chk.cov["exhaustive"] = done == len(walks)


MIX = {
    "C01": dict(stall=1, req=3, **{"async": 8}, storm=.5, race=2),
    "C04": dict(req=6, note=5, **{"async": 3}, storm=.3, race=.3),
    "C05": dict(stall=1, storm=2, stormreqs=1, stormevs=.2, answer=8, bogus=2, spin=True, race=.3),
    "C06": dict(stall=1, storm=3, stormlen=30, stormreqs=.4, stormevs=.1, flush=.7, spin=True, race=.5),
    "C07": dict(stall=1, storm=3, stormlen=30, stormevs=1, stormreqs=.3, spin=True),
}


def _record(a):
    proto, seed, mix, steps = a
    return lsfree.Free(_job["exe"], proto, seed, mix, steps).record()


def free_running(chk, exe, prop, count, steps=40):
    """Records free-running sessions and asks TLC whether LsServer allows them."""
    _job["exe"] = exe
    rng = random.Random(SEED * 7919 + 1)
    for proto in ("lsp", "dap"):
        if prop == "C05" and proto == "dap":
            continue
        mix = dict(MIX[prop])
        if proto == "dap":
            mix.update(answer=0, bogus=0, stormreqs=0)
        recs = vlib.pmap(_record, [(proto, rng.randrange(1 << 30), mix, steps) for _ in range(count)], procs=8, chunk=1)
        bad = [x["bad"] for x in recs if "bad" in x]
        for b in bad:
            chk.violation("a free-running session diverges from the specified behaviour", b)
        if bad:
            return
        traces = [x["trace"] for x in recs]
        rej = validate(chk, proto, traces)
        for ix, far in rej:
            t = traces[ix]
            chk.violation("no behaviour of the specification explains the recorded session",
                          {"seed": recs[ix]["seed"], "proto": proto, "mix": mix, "far": far,
                           "in": t["in"][:far["k"] + 1][-4:] if far else None, "out": t["out"][far["o"]:far["o"] + 3] if far else None,
                           "log": t["log"][far["l"]:far["l"] + 3] if far else None})
        if rej:
            return


def validate(chk, proto, traces, diag=False):
    consts = cfg(proto, lsfree.NIDS, SERVED | CMDS | RES | INIT | SHUT, NOTES | {"initialized", "exit"}, {"ev", "everr"},
                 maxout=lsfree.MAXOUT)
    consts["Threads"] = set(range(1, lsfree.NTH + 1))
    r = tlc_checked("LsTrace", "traces", emit=True, workers=vlib.NPROC, consts=consts, timeout=800,
                    cfg_kwargs=dict(spec="TSpec", view="TView", invariants=["Report", "AnsweredOnce", "OutIdsFresh"]),
                    files=[("traces.json", json.dumps(traces))])
    acc = {e["acc"] for e in r.edges if "acc" in e}
    if not diag:
        chk.add(traces_validated_against_impl=len(traces), trace_states=r.distinct, recorded_steps=sum(len(t["in"]) + len(t["out"]) for t in traces))
    rej = [i for i in range(len(traces)) if i + 1 not in acc]
    if diag:
        far = max((e for e in r.edges if "far" in e), key=lambda e: e["k"] + e["o"] + e["l"], default=None)
        return far
    out = []
    for i in rej[:3]:
        out.append((i, validate(chk, proto, [dict(traces[i], diag=1)], diag=True)))
    return out


def run(prop):
    chk = Check(prop, "model_checking")
    vlib.scratch()
    exe = vlib.build("ls", ["ls_srv"])
    conformance(chk, exe, prop, 400 if not THOROUGH else 3000)
    if prop in MIX and not chk.violations:
        free_running(chk, exe, prop, 60 if not THOROUGH else 600, 40 if not THOROUGH else 80)
    return chk.finish()
