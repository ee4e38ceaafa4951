"""C01: conservation of transactions and postings by merge."""
from . import journal as J, merge_model as M, mergegen as G, mergeobs as O

BUDGET = {"quick": (7000, 60), "thorough": (120000, 800)}
RULE = ("A case is a generated history of 1-6 journals whose transactions are derived from what has been merged so far; it is run "
        "through the merge command and conservation is judged from inputs and outputs by fingerprints alone. Non-trivial: at "
        "least one input posting was merged into an existing one or at least one transaction was set aside.")
REQUIRED = ["merged into existing", "transactions set aside", "postings added to existing transactions"]
ASSUMPTIONS = ["the reference model decides only whether the input is valid, so that merge has to succeed"]


def gen(rng, tier, i):
    files, _ = G.Gen(rng, tier, wide=i % 4 == 0).history()
    return {"files": files}


def check(case, box, res):
    files = case["files"]
    names = G.write_files(box, files)
    try:
        m = G.model_of(files)
    except M.Reject as e:
        res.feat("faulty input")
        return
    o = O.run_merge(box, names)
    if o.rc != 0:
        res.bad("merge of valid journals failed: " + o.brief())
        return
    if o.out:
        res.bad("unexpected standard output: %r" % o.out[:200])
    got = O.outputs(box, res)
    if not got:
        return
    ob = O.Obs(files, *got)
    for b in ob.bad:
        res.bad(b)
    # No two postings of one set in one posting; amounts come from an input.
    for ref, chain in ob.chain.items():
        sets = [ob.inputs[i][0] for i, _ in chain]
        if len(set(sets)) != len(sets):
            res.bad("two postings of one source set are in one merged posting: %s" % [J.fps(ob.input_post(c)) for c in chain])
        p = ob.merged[ref[0]]["posts"][ref[1]]
        if J.full_amt_key(p) not in [J.full_amt_key(ob.input_post(c)) for c in chain]:
            res.bad("merged posting %s has an amount that no input posting of it has" % J.fps(p))
        if len(chain) > 1:
            res.feat("merged into existing", len(chain) - 1)
    used = set(ob.trn_of.values())
    for ti, t in enumerate(ob.merged):
        if ti not in used:
            res.bad("merged transaction that came from no input: %s %s" % (t["date"], t["desc"]))
    res.feat("input postings", sum(len(t["posts"]) for _, _, t in ob.inputs))
    res.feat("merged postings", sum(len(t["posts"]) for t in ob.merged))
    res.feat("transactions set aside", len(ob.set_aside))
    res.feat("postings added to existing transactions", m.stats.get("postings added to existing transactions", 0))
    res.nontrivial = bool(ob.set_aside) or any(len(c) > 1 for c in ob.chain.values())


def shrink(case):
    for f in G.shrink_files(case["files"]):
        yield {"files": f}
