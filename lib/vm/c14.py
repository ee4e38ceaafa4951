"""C14: apply-rules does exactly what the rule table says."""
import random
from . import core, imp, journal as J, rules as R, words as W

BUDGET = {"quick": (20000, 90), "thorough": (200000, 800)}
RULE = ("A case is a generated journal and rule table over all predicates, matches, actions, results and chain shapes, with words drawn "
        "from the journal so that rules apply. The output must be what an independent interpreter of the documented rules gives, and "
        "an Error action must fail the run without touching the output. Non-trivial: at least one rule applied.")
ACTIONS = ["All", "JumpChain", "SetAccount", "Noop", "ReplaceTransactionDescription"] + [
    "%s%s%sTag" % (a, b, c) for a in ("Add", "Remove") for b in ("Posting", "Transaction") for c in ("Flag", "Value")]
REQUIRED = ["action " + a for a in ACTIONS] + ["rule applied", "returned early", "error raised", "later posting saw earlier edit"]


def gen(rng, tier, i):
    big = tier == "thorough" and rng.random() < 0.1
    n = rng.randint(0, 3) if not big else rng.randint(4, 15)
    st = ("", "", "!", "*") if core.HOOKS else ("", "", "!")
    trns = [W.journal_trn(rng, statuses=st, rich=0.5, wide=rng.random() < 0.2) for _ in range(n)]
    for t in trns:
        if rng.random() < 0.4:
            rng.choice(t["posts"])["c"]["f"] = sorted(set(rng.choice(t["posts"])["c"]["f"]) | {"fp-%d" % rng.randint(0, 99), "import-self"})
    g = R.Gen(rng, trns)
    return {"trns": trns, "chains": g.chains(rng.choice([0, 0, 0.1])), "style": rng.choice([None, rng.randrange(10 ** 9)]),
            "ron": rng.choice([None, rng.randrange(10 ** 9)]), "old": rng.random() < 0.5}


def ambiguous(d):
    return not d.strip() or d.strip()[0] in "!*(;" or "\n" in d or "  ;" in d or "\t" in d


def check(case, box, res):
    ip = R.Interp(case["chains"])
    try:
        want, err = ip.run(case["trns"]), None
    except R.RuleError as e:
        want, err = None, str(e)
    if err in ("steps", "endless"):
        return
    rng = random.Random("ron:%s" % case["ron"]) if case["ron"] is not None else None
    entries = [["Chain", n, rs] for n, rs in case["chains"].items()]
    if rng:
        rng.shuffle(entries)
    box.write("r.ron", R.Ron(rng).file(entries))
    box.write("in.j", J.styled(case["trns"], case["style"]) if case["trns"] else "")
    if case["old"]:
        box.write("out.j", imp.OLD)
    before = box.snapshot()
    o = box.run(["apply-rules", "-o", "out.j", "in.j", "table", "r.ron"])
    for k, n in ip.stats.items():
        res.feat(k, n)
    res.nontrivial = ip.stats.get("rule applied", 0) > 0
    if err:
        imp.refused(res, box, o, before, "a table that raises an error")
        res.feat("error raised")
        return
    if o.rc != 0:
        res.bad("valid rules on a valid journal failed: " + o.brief())
        return
    if any(ambiguous(t["desc"]) for t in want) or W.value_like(want):
        # The rules made a description (or took away the flag tag by which a
        # text is known to be none) that no journal line can express; what
        # was written has no agreed reading.
        res.feat("inexpressible result")
        return
    got = imp.read(res, box.read("out.j"), "apply-rules")
    if got is None:
        return
    for t in want + got:
        t["desc"] = t["desc"].strip()
    d = J.diff_trns(want, got)
    if d:
        res.bad("the rules' effect differs: " + d)
    for a, b in zip(case["trns"], want):
        if len(a["posts"]) > 1 and (a["desc"] != b["desc"] or J.norm_comment(a["c"]) != J.norm_comment(b["c"])):
            res.feat("later posting saw earlier edit")


def shrink(case):
    t = case["trns"]
    for i in range(len(t)):
        yield dict(case, trns=t[:i] + t[i + 1:])
    for i, x in enumerate(t):
        for k in range(len(x["posts"])):
            if len(x["posts"]) > 1:
                yield dict(case, trns=t[:i] + [dict(x, posts=x["posts"][:k] + x["posts"][k + 1:])] + t[i + 1:])
    for n, rs in case["chains"].items():
        for i in range(len(rs)):
            yield dict(case, chains=dict(case["chains"], **{n: rs[:i] + rs[i + 1:]}))
    for k in ("style", "ron"):
        if case[k] is not None:
            yield dict(case, **{k: None})
