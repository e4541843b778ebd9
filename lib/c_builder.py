"""C22: fingerprint builders. FpBuilder.tla; what real builders return under contention is judged by FpBuilderJudge.tla."""
import json, subprocess
import vlib
from vlib import THOROUGH, SEED, Check, Raw, ToolError, run_tlc, tlc_checked, pmap

_job = {}


def _run(job):
    which, seed, checked, threads, rounds, search = job
    p = subprocess.run(_job[which], input=json.dumps(dict(seed=seed, checked=checked, threads=threads, rounds=rounds, search=search)) + "\n",
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    if p.returncode or not p.stdout:
        return dict(died=p.returncode, job=job)
    return json.loads(p.stdout)


def run(prop):
    _job["plain"] = [vlib.build("fsx", ["fsx"]), "builder"]
    _job["bi"] = [vlib.build("fb", ["fb"])]
    ck = Check(prop, "model_checking")
    consts = lambda split, t, s: dict(Items={1, 2, 3}, Threads=set(range(1, t + 1)), Steps=s, Fast=Raw("<- FastMod"), Split=split)
    t, s = (3, 3) if THOROUGH else (3, 2)
    r = tlc_checked("FpBuilder", "claim at once", consts=consts(False, t, s), cfg_kwargs=dict(spec="Spec", invariants=["Unique"], properties=["OwnerKept"]))
    ck.add(states=r.distinct)
    if run_tlc("FpBuilder", consts=consts(True, 2, 2), cfg_kwargs=dict(spec="Spec", invariants=["Unique"])).ok:
        raise ToolError("FpBuilder does not tell a racy claim from an atomic one")
    jobs = []
    for i in range(24 if THOROUGH else 8):
        for checked in (True, False):
            jobs.append(("bi", SEED * 100 + i, checked, (1, 2, 2, 3, 4, 6, 8, 8)[i % 8], 6000 if THOROUGH else 1500, 800000 if THOROUGH else 200000))
    for i in range(3):
        jobs.append(("plain", SEED * 100 + i, True, 4, 1000, 1000))
        jobs.append(("plain", SEED * 100 + i, False, 4, 1000, 1000))
    recs = []
    for job, r in zip(jobs, pmap(_run, jobs, procs=3, chunk=1)):
        if "died" in r:
            ck.violation("resolving fingerprints died", r)
            continue
        ck.add(collisions=r["collisions"])
        recs += [dict(x, build=job[0], checked=job[2]) for x in r["rounds"]]
    for i in range(0, len(recs), 20000):
        part = recs[i:i + 20000]
        r = run_tlc("FpBuilderJudge", emit=True, workers=1, mem="6g", files=[("traces.json", json.dumps(part))], cfg_kwargs=dict(spec="Spec"))
        if not r.prints or r.prints[0]["n"] != len(part):
            raise ToolError("FpBuilderJudge could not judge:\n" + r.out[-3000:])
        for b in r.prints[0]["bad"]:
            ck.violation("different items share a fingerprint, or equal ones do not", part[b - 1])
    ck.add(rounds=len(recs))
    for x in recs[:2]:
        ck.sample(x)
    ck.assumptions.append("two different items never have the same 128-bit hash; interleavings are those the machine produced")
    return ck.finish()
