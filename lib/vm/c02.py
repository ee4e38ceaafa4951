"""C02: which postings are matched with which."""
from . import journal as J, merge_model as M, mergegen as G, mergeobs as O

BUDGET = {"quick": (8000, 60), "thorough": (150000, 800)}
RULE = ("A case is a generated history of 1-6 journals derived from what has been merged so far (same or changed fingerprints, dates, "
        "amounts, balances, accounts, siblings, source sets). The grouping of input fingerprints into postings and transactions "
        "and the transactions set aside are compared with an executable model of the documented algorithm. Non-trivial: some "
        "posting matched an existing one or was ambiguous.")
REQUIRED = ["fp postings", "soft postings", "ambiguous postings", "matched across dates", "files with several sources",
            "postings added to existing transactions"]


def gen(rng, tier, i):
    files, _ = G.Gen(rng, tier, wide=i % 5 == 0, unknown=rng.choice([0, 0.2, 0.5])).history()
    return {"files": files}


def grouping(trns):
    return sorted(sorted(tuple(J.fps(p)) for p in t["posts"]) for t in trns)


def aside(trns):
    return sorted((t["c"]["v"].get(M.SOURCE), t["date"], tuple(tuple(J.fps(p)) for p in t["posts"])) for t in trns)


def check(case, box, res):
    names = G.write_files(box, case["files"])
    try:
        m = G.model_of(case["files"])
    except M.Reject:
        res.feat("faulty input")
        return
    o = O.run_merge(box, names)
    if o.rc != 0:
        res.bad("merge of valid journals failed: " + o.brief())
        return
    got = O.outputs(box, res)
    if not got:
        return
    merged, unmerged = got
    a, b = grouping(m.merged()), grouping(merged)
    if a != b:
        res.bad("postings were not matched as the algorithm says:\nexpected groups %s\nobserved groups %s" % (
            [g for g in a if g not in b], [g for g in b if g not in a]))
    a, b = aside(m.unmerged), aside(unmerged)
    if a != b:
        res.bad("expected to be set aside: %s\nobserved: %s" % ([g for g in a if g not in b], [g for g in b if g not in a]))
    # The date of each transaction shows which one the others joined.
    want = {f: t["date"] for t in m.trns for p in t["posts"] for f in J.fps(p)}
    for t in merged:
        for p in t["posts"]:
            for f in J.fps(p):
                if f in want and want[f] != t["date"]:
                    res.bad("posting %s is in a transaction of %s instead of %s" % (f, t["date"], want[f]))
    for k, n in m.stats.items():
        res.feat(k, n)
    res.nontrivial = G.nontrivial(m)


def shrink(case):
    for f in G.shrink_files(case["files"]):
        yield {"files": f}
