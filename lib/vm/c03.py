"""C03: how a posting changes when others are merged into it."""
import copy
from . import journal as J, merge_model as M, mergegen as G, mergeobs as O

BUDGET = {"quick": (7000, 60), "thorough": (120000, 800)}
RULE = ("A case is a generated history of journals in which many postings match; the chain of input postings that went into each "
        "merged posting is observed through fingerprints, the update rules are folded over that chain, and every field of the "
        "merged posting, and of its transaction's header and comment, is compared with the result. Non-trivial: a chain of two or more.")
REQUIRED = ["chains of 2", "chains of 3+", "status advanced", "status filled", "status kept", "balance filled", "account learned",
            "unknown-account not gained", "value overridden", "text already there"]


def gen(rng, tier, i):
    files, _ = G.Gen(rng, tier, files=rng.choice([2, 3, 4]), unknown=0.4, fresh=0.25).history()
    return {"files": files}


def note(res, d, s):
    if d["st"] == "!" and s["st"] == "*":
        res.feat("status advanced")
    elif d["st"] == "" and s["st"]:
        res.feat("status filled")
    elif d["st"] == "*" and s["st"] == "!":
        res.feat("status kept")
    if d["bal"] is None and s["bal"] is not None:
        res.feat("balance filled")
    elif d["bal"] is not None and s["bal"] is not None and J.bal_key(d["bal"]) != J.bal_key(s["bal"]):
        res.feat("balance kept")
    du, su = M.UNKNOWN in d["c"]["f"], M.UNKNOWN in s["c"]["f"]
    if du and not su:
        res.feat("account learned")
    if su and not du:
        res.feat("unknown-account not gained")
    if any(k in d["c"]["v"] and d["c"]["v"][k] != v for k, v in s["c"]["v"].items()):
        res.feat("value overridden")
    if any(t in d["c"]["t"] for t in s["c"]["t"]):
        res.feat("text already there")


def check(case, box, res):
    files = case["files"]
    names = G.write_files(box, files)
    try:
        G.model_of(files)
    except M.Reject:
        res.feat("faulty input")
        return
    o = O.run_merge(box, names)
    if o.rc != 0:
        res.bad("merge of valid journals failed: " + o.brief())
        return
    got = O.outputs(box, res)
    if not got:
        return
    ob = O.Obs(files, *got)
    if ob.bad:
        res.bad("postings were lost: " + ob.bad[0])
        return
    for ref, chain in sorted(ob.chain.items()):
        want = copy.deepcopy(ob.input_post(chain[0]))
        for c in chain[1:]:
            src = ob.input_post(c)
            note(res, want, src)
            M.merge_post(want, src)
        have = ob.merged[ref[0]]["posts"][ref[1]]
        if J.norm_post(want) != J.norm_post(have):
            t = ob.merged[ref[0]]
            show = lambda p: J.canon_trn(dict(t, c=J.comment(), posts=[p]))
            res.bad("merging\n%s\nshould give\n%s\nbut gave\n%s" % (
                "".join(show(ob.input_post(c)) for c in chain), show(want), show(have)))
        if len(chain) == 2:
            res.feat("chains of 2")
        elif len(chain) > 2:
            res.feat("chains of 3+")
        if len(chain) > 1:
            res.nontrivial = True
    first = {}
    for i in ob.kept:
        first.setdefault(ob.trn_of.get(i), i)
    for ti, t in enumerate(ob.merged):
        src = ob.inputs[first[ti]][2]
        c = dict(src["c"], v={k: v for k, v in src["c"]["v"].items() if k != M.SOURCE})
        if J.norm_head(src) != J.norm_head(t) or J.norm_comment(c) != J.norm_comment(t["c"]):
            res.bad("header of a transaction changed: expected\n%sbut got\n%s" % (
                J.canon_trn(dict(src, c=c, posts=[])), J.canon_trn(dict(t, posts=[]))))


def shrink(case):
    for f in G.shrink_files(case["files"]):
        yield {"files": f}
