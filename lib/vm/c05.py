"""C05: re-merging changes nothing."""
from . import core, journal as J, merge_model as M, mergegen as G, mergeobs as O

BUDGET = {"quick": (3500, 60), "thorough": (60000, 800)}
RULE = ("A case is a history of 1-5 journals that leaves nothing unmerged. Its merged journal is merged alone, with all of the "
        "journals, with the last few of them, and again two or three times with all; every result must equal the first byte "
        "for byte, with no unmerged journal written. Non-trivial: the first merge matched postings.")
REQUIRED = ["merged alone", "re-merged with all", "re-merged with the last", "repeated"]


def gen(rng, tier, i):
    files, _ = G.Gen(rng, tier, ambiguous=False, files=rng.choice([1, 2, 3, 3, 4, 5]), fresh=rng.choice([0.25, 0.45])).history()
    return {"files": files, "suffix": rng.randint(1, max(1, len(files))), "times": rng.choice([0, 0, 1, 2])}


def check(case, box, res):
    files = case["files"]
    names = G.write_files(box, files)
    try:
        m = G.model_of(files)
    except M.Reject:
        res.feat("faulty input")
        return
    o = O.run_merge(box, names, out="m1.j", unm="u1.j")
    if o.rc != 0:
        res.bad("merge of valid journals failed: " + o.brief())
        return
    if box.read("u1.j") is not None:
        if not m.unmerged:
            res.bad("transactions went unmerged that should not")
        else:
            res.feat("unmerged")
        return
    m1 = box.read("m1.j")
    box.write("m1.journal", O.rereadable(m1))

    def again(what, ins, k):
        o = O.run_merge(box, ins, out="r%d.j" % k, unm="ru%d.j" % k)
        if o.rc != 0:
            res.bad("%s: failed: %s" % (what, o.brief()))
            return None
        u = box.read("ru%d.j" % k)
        if u is not None:
            res.bad("%s: left transactions unmerged:\n%s" % (what, u.decode("utf-8", "replace")[:500]))
        r = box.read("r%d.j" % k)
        if r != m1:
            try:
                d = J.diff_trns(J.read_trns(m1), J.read_trns(r))
            except J.Unreadable as e:
                d = str(e)
            res.bad("%s: the merged journal changed: %s" % (what, d or "(layout only)"))
        res.feat(what)
        return r

    again("merged alone", ["m1.journal"], 1)
    r = again("re-merged with all", ["m1.journal"] + names, 2)
    if case["suffix"] < len(names):
        again("re-merged with the last", ["m1.journal"] + names[-case["suffix"]:], 3)
    for k in range(case["times"]):
        if r is None:
            break
        box.write("m1.journal", O.rereadable(r))
        r = again("repeated", ["m1.journal"] + names, 4 + k)
    res.nontrivial = G.nontrivial(m)
    for k in ("fp postings", "soft postings", "matched across dates", "postings added to existing transactions"):
        res.feat(k, m.stats.get(k, 0))


def shrink(case):
    for f in G.shrink_files(case["files"]):
        yield dict(case, files=f)
