#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below; unclaimed properties go under not_applicable."""
import json, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SESS = ("TLC checks the session specification exhaustively within the bounds; every transition of its state graph is then "
        "replayed, step by step, into the real driver over real stdio and every observation compared. Assumes the "
        "bounds (ids, kinds, pending requests) are representative; trusts TLC, the replayer and the scripted service.")
CLAIMS = {
 "C01": ("TLA+ (LsServer.tla) checked with TLC; edge-covering behaviours replayed into the real driver", "model_checking", SESS),
 "C02": ("TLA+ (LsServer.tla) checked with TLC; edge-covering behaviours replayed into the real driver", "model_checking", SESS),
 "C03": ("TLA+ (LsServer.tla) checked with TLC; edge-covering behaviours replayed into the real driver", "model_checking", SESS),
 "C04": ("TLA+ (LsServer.tla) checked with TLC; edge-covering behaviours replayed into the real driver", "model_checking", SESS),
 "C05": ("TLA+ (LsServer.tla) checked with TLC; edge-covering behaviours replayed into the real driver", "model_checking", SESS),
 "C06": ("TLA+ (LsServer.tla) checked with TLC; edge-covering behaviours replayed into the real driver", "model_checking", SESS),
 "C07": ("TLA+ (LsServer.tla) checked with TLC; edge-covering behaviours replayed into the real driver", "model_checking", SESS),
 "C08": ("TLA+ (LsServer.tla) checked with TLC; edge-covering behaviours replayed into the real driver", "model_checking", SESS),
}
FRAME = ("TLC checks the framing specification exhaustively for short token sequences; behaviours covering every transition of "
         "its reader (well-formed and faulty) are turned into bytes and run through the real reader, writer and mirror, whole "
         "and in pieces. Assumes the token classes represent the inputs; trusts TLC and the test's own framing and JSON code.")
for p, what in (("C09", "written and read back by the real transport"), ("C10", "fed to the real reader"),
                ("C11", "mirrored and replayed by the real transport; LsServer.tla sessions likewise")):
    CLAIMS[p] = (f"TLA+ (Framing.tla) checked with TLC; its behaviours {what}", "model_checking", FRAME)
CLAIMS["C12"] = ("TLA+ (AtomicWrite.tla) checked with TLC; traces of the real write, stepped, failed and killed at every system call and interleaved with other writers, checked against it with TLC (AtomicTrace.tla)",
  "model_checking", "Every file system call of the write is a step: the tree is observed after each, and each is made to fail or be the last one. Single faults exhaustively, several and concurrent ones sampled. Trusts TLC and the ptrace harness.")
CONC = "TLC checks the specification exhaustively within small bounds; recorded executions of the real code by free-running threads and processes are accepted only if TLC finds a behaviour of the specification with the same events. Interleavings are sampled. Trusts TLC and the recorder."
CLAIMS["C13"] = ("TLA+ (FileLock.tla) checked with TLC; recorded executions of threads and processes, with kills, checked against it with TLC (FileLockTrace.tla)", "model_checking", CONC)
CLAIMS["C14"] = ("TLA+ (QueryRef.tla) checked with TLC; recorded executions with gated computations checked against it with TLC (QueryTrace.tla)", "model_checking", CONC)
CLAIMS["C16"] = ("TLA+ (PathOps.tla): TLC enumerates all short paths; results of the real functions judged by TLC (PathJudge.tla)", "model_checking",
  "All paths up to 5 components (pairs up to 3) over two names, . and .., in several spellings. Trusts TLC and the text conversion.")
CLAIMS["C15"] = ("TLA+ (RmTree.tla): TLC enumerates all small trees with links; what the real removals leave is judged by TLC (RmJudge.tla)", "model_checking",
  "Trees of up to three entries below the root exhaustively (sampled at the top end), as an unprivileged user and as root of a user namespace. Hard links and trees changing meanwhile are outside. Trusts TLC and the recorder.")
CLAIMS["C17"] = ("TLA+ (FMap.tla): its behaviours replayed into the real map; long and concurrent histories judged by TLC (FMapSeq.tla, FMapTrace.tla)", "model_checking",
  "Every transition over three keys and two values, for keys alike in every part and many shard counts; histories over 1100 keys; sampled concurrent histories checked for linearizability. Trusts TLC and the recorder.")
CLAIMS["C18"] = ("TLA+ (FpText.tla): TLC shows the text scheme unique and enumerates fingerprints and near-texts; the real conversions of them judged by TLC (FpJudge.tla)", "model_checking",
  "All fingerprints over byte classes in the low or high half, and random ones; texts a character away from ids, and random ones. Trusts TLC and the recorder.")
CLAIMS["C22"] = ("TLA+ (FpBuilder.tla) checked with TLC; fingerprints given by the real builder under contention judged by TLC (FpBuilderJudge.tla)", "model_checking",
  "Items colliding in the fast hash are found by search; interleavings are sampled. Assumes 128-bit hashes do not collide. Trusts TLC and the recorder.")
L10N = "Trusts TLC, the driver and the rendering of tokens as text. "
CLAIMS["C19"] = ("TLA+ (L10n.tla) checked with TLC; every transition replayed into the real library; concurrent histories judged by TLC (L10nTrace.tla)", "model_checking",
  L10N + "All catalogues of up to three of six nested locales over two keys, all selections of fourteen requests in them; concurrent interleavings are sampled.")
CLAIMS["C20"] = ("TLA+ (L10nFormat.tla): TLC enumerates messages, arguments and the text due; the real formatting compared", "model_checking",
  L10N + "All messages up to five tokens (six over fewer), with every set of two arguments and four kinds of values.")
CLAIMS["C21"] = ("TLA+ (Catalogue.tla) checked with TLC; every transition replayed on a catalogue file with the real library", "model_checking",
  L10N + "Two or three keys, two or three locales, two texts per walk, drawn from pools of awkward ones.")
STAND = " The real crates are compiled against stand-ins for typst's types, which behave as typst 0.13's."
CLAIMS["C23"] = ("TLA+ (Vfs.tla against VfsView.tla) checked with TLC; its behaviours and random histories, with reads held across edits, performed with the real tinymist-vfs and judged by TLC (VfsTrace.tla)", "model_checking",
  "Small systems exhaustively in the model; the real one on sampled behaviours of it and on random histories over up to nine file ids. Trusts TLC and the recorder." + STAND)
CLAIMS["C24"] = ("TLA+ (Vfs.tla against VfsView.tla) checked with TLC; its behaviours and random histories performed with the real tinymist-vfs, the answers judged by TLC (VfsTrace.tla)", "model_checking",
  "Small systems exhaustively in the model; the real one on sampled behaviours of it and on random histories. Trusts TLC and the recorder." + STAND)
CLAIMS["C25"] = ("TLA+ (PathOps.tla): TLC enumerates roots and paths; ids and entries the real code makes of them judged by TLC (FileIdJudge.tla)", "model_checking",
  "Roots and paths up to four components; groups of ids and spellings are sampled. Trusts TLC and the text conversion." + STAND)
PROJ = (" The real file watcher, project loop, server state and editor actor run against stand-ins for typst (files are words, an include and an error), "
        "notify and rayon (scripted). Small systems exhaustively in the model; the real one on sampled behaviours of it and on random histories. Trusts TLC and the recorder.")
CLAIMS["C26"] = ("TLA+ (Projects.tla) checked with TLC; its behaviours and random histories performed with the real watcher, project and server code, what is shown at rest judged by TLC (ProjectsJudge.tla)", "model_checking", "Up to four user actions exhaustively." + PROJ)
CLAIMS["C27"] = ("TLA+ (Projects.tla) checked with TLC; its behaviours and random histories performed with the real project, server and editor-actor code, what is on the screen at rest judged by TLC (ProjectsJudge.tla)", "model_checking", "Up to four user actions exhaustively." + PROJ)
CLAIMS["C28"] = ("TLA+ (Projects.tla) checked with TLC; random histories performed with the real project and server code, the order of all results judged by TLC (ProjectsJudge.tla)", "model_checking", "Up to five edits exhaustively." + PROJ)
CLAIMS["C29"] = ("TLA+ (Exports.tla, Projects.tla) checked with TLC; simulated behaviours of Projects.tla and random histories performed with the real project, export and editor-actor code, exports held back and let go in any order; what is exported judged by TLC (ProjectsJudge.tla)", "model_checking", "Export queues of three projects, up to four edits exhaustively." + PROJ)
CLAIMS["C30"] = ("TLA+ (Texts.tla) checked with TLC; its edits, and random histories of change notifications, performed with the real document code in both encodings; what is kept judged by TLC (TextsJudge.tla)", "model_checking", "Texts of up to three characters exhaustively, of every width and line end; longer ones at random. typst's Source is a stand-in written to its documentation." )
CLAIMS["C31"] = ("TLA+ (Uris.tla) checked with TLC; every spelling of every short path converted by the real code", "model_checking", "Paths of up to three names, names of up to four characters of four kinds, rendered with many characters of each kind.")
CLAIMS["C32"] = ("TLA+ (Focus.tla) checked with TLC; every transition of it, and random histories, performed with the real server code, which has to be in the model's state after each step", "model_checking", "All reachable states with two files, with and without a default one. What starts a preview is in the harness." )
CLAIMS["C33"] = ("TLA+ (Lock.tla, LockState.tla) checked with TLC; its histories, and processes at the same time, performed by the real code, and what they saw explained by the specification (LockTrace.tla)", "model_checking", "Two names and two values of each kind in histories, three names and three processes at the same time; names, paths and settings of awkward characters. A process killed while it writes is left out.")
CLAIMS["C34"] = ("TLA+ (Owner.tla) checked with TLC; its histories performed with the real server code on real lock files, and where each file is worked on compared after every step", "model_checking", "Four files in two directories; documents are exported while they are the main one, with one priority, and the lock files are read anew each time.")
CLAIMS["C35"] = ("TLA+ (Outputs.tla) checked with TLC; every short pattern it generates, rendered with names of many kinds, replaced by the real code", "model_checking", "Patterns of up to five parts (six when thorough), three places of the document; dots next to dots are left out, as are documents in packages and untitled ones.")
CLAIMS["C36"] = ("TLA+ (Roots.tla) checked with TLC; every transition of it, and random histories, performed by the real resolver on real directories", "model_checking", "Two documents in four directories, up to two workspace folders, three defaults; names of many kinds. Paths are as they are: no links, and nothing relative.")
NA = {}
ids = [json.loads(l)["id"] for l in open(os.path.join(D, "properties.jsonl")) if l.strip()]
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh",
     "checks": [{"property": p, "quick_cmd": f"python3 /verif/check.py {p}", "thorough_cmd": f"env VERIF_TIER=thorough python3 /verif/check.py {p}",
                 "technique": t, "level": l, "level_note": n} for p, (t, l, n) in sorted(CLAIMS.items())],
     "not_applicable": [{"property": p, "reason": NA.get(p, "not claimed: the check for it is not built yet")} for p in ids if p not in CLAIMS]}
assert all(p in ids for p in CLAIMS)
json.dump(m, open(os.path.join(D, "MANIFEST.json"), "w"), indent=1)
