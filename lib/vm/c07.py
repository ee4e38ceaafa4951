"""C07: order of merged and unmerged journals."""
from . import journal as J, merge_model as M, mergegen as G, mergeobs as O, words as W

BUDGET = {"quick": (5000, 60), "thorough": (80000, 800)}
RULE = ("A case is a history of journals over many dates and several source sets per file, in any order; the order of "
        "transactions and postings in both outputs is compared with the order of introduction, worked out from inputs and "
        "observed fingerprints. Non-trivial: three or more merged transactions, two of them with the same date.")
REQUIRED = ["same-date neighbours", "inputs out of date order", "postings in merged transactions", "two or more set aside",
            "more than 30 transactions"]


def gen(rng, tier, i):
    g = G.Gen(rng, tier, unknown=rng.choice([0.1, 0.4]), fresh=rng.choice([0.4, 0.8]), wide=rng.random() < 0.7,
              max_trns=rng.choice([4, 8, 12]))
    if rng.random() < 0.5:
        g.days = ["%04d-%02d-%02d" % (rng.choice([1999, 2000, 2020, 2021]), rng.randint(1, 12), rng.randint(1, 28)) for _ in range(6)]
    files, m = g.history()
    if i % 20 == 0:
        # a long journal, over few days
        days = g.days
        trns = []
        for k in range(rng.randint(35, 90)):
            t = g.fresh_trn()
            t["date"] = rng.choice(days)
            for p in t["posts"]:
                p["amt"] = J.amount("%d.%02d" % (1000 + k, rng.randint(0, 99)))
            if rng.random() < 0.5:
                t["c"]["v"][M.SOURCE] = rng.choice(["s1", "s2", "s3", "s10", "B", "a"])
            trns.append(t)
        files.append({"name": "long.j", "trns": trns, "style": None})
    return {"files": files}


def check(case, box, res):
    files = case["files"]
    names = G.write_files(box, files)
    try:
        G.model_of(files)
    except M.Reject:
        res.feat("faulty input")
        return
    o = O.run_merge(box, names)
    if o.rc != 0:
        res.bad("merge of valid journals failed: " + o.brief())
        return
    got = O.outputs(box, res)
    if not got:
        return
    ob = O.Obs(files, *got)
    if ob.bad:
        res.bad("transactions were lost: " + ob.bad[0])
        return
    dates = [t["date"] for t in ob.merged]
    if dates != sorted(dates):
        k = next(k for k in range(1, len(dates)) if dates[k] < dates[k - 1])
        res.bad("merged journal is not in date order: %s after %s" % (dates[k], dates[k - 1]))
    intro = {}
    for i in ob.kept:
        intro.setdefault(ob.trn_of[i], i)
    for k in range(1, len(ob.merged)):
        if dates[k] == dates[k - 1]:
            res.feat("same-date neighbours")
            if intro[k] < intro[k - 1]:
                a, b = ob.inputs[intro[k]], ob.inputs[intro[k - 1]]
                res.bad("transactions of %s are out of order: %r (source %s) should come before %r (source %s)" % (
                    dates[k], a[2]["desc"], a[1], b[2]["desc"], b[1]))
    for ti, t in enumerate(ob.merged):
        order = [ob.chain[(ti, pi)][0] for pi in range(len(t["posts"]))]
        if order != sorted(order):
            res.bad("postings of %s %r are out of order: %s" % (t["date"], t["desc"], [J.fps(p) for p in t["posts"]]))
        if len(set(i for i, _ in order)) > 1:
            res.feat("postings in merged transactions")
    by_u = [i for i, u in sorted(ob.set_aside, key=lambda x: x[1])]
    # Equal transactions are interchangeable.
    key = [ob._ukey(ob.inputs[i][1], ob.inputs[i][2]) for i in by_u]
    want = [ob._ukey(ob.inputs[i][1], ob.inputs[i][2]) for i in sorted(by_u)]
    if key != want:
        res.bad("unmerged journal is out of order: %s" % [ob.inputs[i][2]["desc"] for i in by_u])
    if len(by_u) > 1:
        res.feat("two or more set aside")
    ind = [t["date"] for _, _, t in ob.inputs]
    if ind != sorted(ind):
        res.feat("inputs out of date order")
    if len(ob.merged) > 30:
        res.feat("more than 30 transactions")
    res.nontrivial = len(ob.merged) > 2 and len(set(dates)) < len(dates)


def shrink(case):
    for f in G.shrink_files(case["files"]):
        yield {"files": f}
