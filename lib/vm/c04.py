"""C04: ambiguous matches."""
from . import journal as J, merge_model as M, mergegen as G, mergeobs as O

BUDGET = {"quick": (3500, 70), "thorough": (60000, 800)}
RULE = ("A case is a history of journals with many equal amounts and unknown accounts. The unmerged journal is compared in full, "
        "candidate tags included, with the model; the merge is then repeated without the transactions that were set aside (same "
        "merged journal expected, byte for byte) and without --unmerged (refusal that writes nothing expected). Non-trivial: some "
        "posting had two or more candidates.")
REQUIRED = ["ambiguous postings", "candidates", "3 or more candidates", "siblings set aside", "refusals without --unmerged",
            "candidate with several fingerprints"]


def gen(rng, tier, i):
    for _ in range(6):
        g = G.Gen(rng, tier, files=rng.choice([2, 3, 3, 4]), unknown=rng.choice([0.2, 0.5, 0.8]), fresh=rng.choice([0.3, 0.5]))
        g.amts = g.amts[:rng.choice([1, 2, 4])]
        g.days = g.days[:rng.choice([1, 1, 2])]
        files, m = g.history()
        if m is not None and m.unmerged:
            break
    return {"files": files}


def check(case, box, res):
    files = case["files"]
    names = G.write_files(box, files)
    try:
        m = G.model_of(files)
    except M.Reject:
        res.feat("faulty input")
        return
    o = O.run_merge(box, names)
    if o.rc != 0:
        res.bad("merge of valid journals failed: " + o.brief())
        return
    got = O.outputs(box, res)
    if not got:
        return
    d = J.diff_trns(m.unmerged, got[1], "unmerged journal: ")
    if d:
        res.bad(d)
        return
    if not m.unmerged:
        return
    out = box.read("out.j")
    # As if they had not been there.
    ob = O.Obs(files, *got)
    gone = {id(ob.inputs[i][2]) for i, _ in ob.set_aside}
    rest = [dict(f, trns=[t for t in f["trns"] if id(t) not in gone]) for f in files]
    for f in files:
        box.write("w/" + f["name"], J.styled([t for t in f["trns"] if id(t) not in gone], f["style"]))
    o2 = O.run_merge(box, names, out="../out2.j", unm="../unm2.j", cwd=box.path("w"))
    if o2.rc != 0:
        res.bad("merge without the ambiguous transactions failed: " + o2.brief())
    elif box.read("out2.j") != out:
        d = J.diff_trns(J.read_trns(box.read("out2.j")), got[0], "with the ambiguous transactions: ")
        res.bad("transactions that were set aside influenced the merged journal: %s" % d)
    # Nowhere to put them.
    box.write("keep.j", "; precious\n")
    for target in ("keep.j", "fresh.j"):
        o3 = O.run_merge(box, names, out=target, unm=None)
        if o3.rc == 0:
            res.bad("merge succeeded although transactions went unmerged without --unmerged")
        if o3.crashed:
            res.bad("crash without --unmerged: " + o3.brief())
    if box.read("keep.j") != b"; precious\n":
        res.bad("output was written although transactions went unmerged without --unmerged")
    if box.read("fresh.j") is not None:
        res.bad("output was created although transactions went unmerged without --unmerged")
    o4 = box.run(["merge"] + names)
    if o4.rc == 0 or o4.out:
        res.bad("merge to standard output without --unmerged: rc=%d, wrote %r" % (o4.rc, o4.out[:100]))
    res.feat("refusals without --unmerged", 3)
    cands = [f for t in m.unmerged for p in t["posts"] for f in p["c"]["f"] if f.startswith(M.CAND)]
    res.feat("ambiguous postings", m.stats["ambiguous postings"])
    res.feat("candidates", len(cands))
    for t in m.unmerged:
        amb = [p for p in t["posts"] if any(f.startswith(M.CAND) for f in p["c"]["f"])]
        if len(amb) < len(t["posts"]):
            res.feat("siblings set aside")
        for p in amb:
            if sum(f.startswith(M.CAND) for f in p["c"]["f"]) > 2:
                res.feat("3 or more candidates")
    named = {f[len(M.CAND):] for f in cands}
    if any(len(J.fps(p)) > 1 and set(J.fps(p)) & named for t in m.trns for p in t["posts"]):
        res.feat("candidate with several fingerprints")
    res.nontrivial = True


def shrink(case):
    for f in G.shrink_files(case["files"]):
        yield {"files": f}
