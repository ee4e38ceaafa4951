"""C13: generate-fingerprints only adds unique fingerprints where missing."""
import copy, os, random, re
from . import core, imp, journal as J, words as W

BUDGET = {"quick": (7000, 60), "thorough": (200000, 800)}
RULE = ("A case is one to three generated journals in which some postings have fingerprints (or tags that resemble them) and identical "
        "postings recur, all given to one run of generate-fingerprints, and copies of them to a second run. Every posting without a "
        "fingerprint must gain exactly one new tag of the documented form and nothing else may change; running again must change no "
        "byte; merge must accept the result. All tags generated by all runs of the check are collected and must differ. "
        "Non-trivial: some posting gained a fingerprint and some posting had one.")
REQUIRED = ["generated", "had one", "two runs compared", "rerun identical", "merged", "journal without postings to change", "resembling tag",
            "tags compared across runs"]
TAG_RX = re.compile(r"fp-uuidb64-[A-Za-z0-9_-]{22}$")
NEAR = ["fp", "FP-x", "xfp-1", "candidate-fp-x", "Fp-", "afp-", "import-self", "fpx-1"]


def gen(rng, tier, i):
    n = rng.choice([1, 1, 1, 2, 3])
    p_fp = rng.choice([0, 0.3, 0.7, 1])
    k = [0]
    js, st = [], ("", "", "!", "*") if core.HOOKS and rng.random() < 0.25 else ("", "", "!")
    for _ in range(n):
        trns = [W.journal_trn(rng, statuses=st, rich=rng.choice([0, 0.5, 0.9]),
                              wide=rng.random() < 0.5) for _ in range(rng.choice([0, 1, 2, 4, 12 if tier == "quick" else 60]))]
        if trns and rng.random() < 0.4:
            trns += copy.deepcopy(trns[:2])
        for t in trns:
            for p in t["posts"]:
                fl = set(p["c"]["f"])
                for _ in range(rng.choice([1, 1, 2]) if rng.random() < p_fp else 0):
                    k[0] += 1
                    fl.add("%s%d" % (rng.choice(["fp-", "fp-nwcsv6.1.NS-", "fp-uuidb64-", "fp-x-"]), k[0]))
                if rng.random() < 0.2:
                    fl.add(rng.choice(NEAR))
                p["c"]["f"] = sorted(fl)
                if rng.random() < 0.05:
                    p["c"]["v"]["fp-v"] = "x"
        js.append({"trns": trns, "style": rng.choice([None, rng.randrange(10 ** 9)])})
    return {"journals": js}


def judge(res, want, data, made, name):
    got = imp.read(res, data, name)
    if got is None:
        return None
    got2 = copy.deepcopy(got)
    if [len(t["posts"]) for t in want] != [len(t["posts"]) for t in got]:
        res.bad("%s: %s" % (name, J.diff_trns(want, got)))
        return None
    for t, g in zip(want, got2):
        for p, q in zip(t["posts"], g["posts"]):
            new = [f for f in q["c"]["f"] if f not in p["c"]["f"]]
            if J.fps(p):
                res.feat("had one")
                if new:
                    res.bad("%s: a posting that had a fingerprint gained %s" % (name, new))
            else:
                if len(new) != 1 or not TAG_RX.match(new[0]):
                    res.bad("%s: a posting without a fingerprint gained %r instead of one fp-uuidb64- tag" % (name, new))
                else:
                    made.append(new[0])
                    res.feat("generated")
            q["c"]["f"] = [f for f in q["c"]["f"] if f not in new]
    d = J.diff_trns(want, got2)
    if d:
        res.bad("%s: something else changed: %s" % (name, d))
    return got


def check(case, box, res):
    js = case["journals"]
    made = []
    outs = {}
    for run in "ab":
        names = ["%s%d.j" % (run, i) for i in range(len(js))]
        for n, j in zip(names, js):
            box.write(n, J.styled(j["trns"], j["style"]) if j["trns"] else "")
        o = box.run(["generate-fingerprints"] + names)
        if o.rc != 0:
            res.bad("generate-fingerprints failed: " + o.brief())
            return
        if o.out:
            res.bad("wrote to standard output: %r" % o.out[:200])
        for n, j in zip(names, js):
            outs[n] = box.read(n)
            k = len(made)
            judge(res, j["trns"], outs[n], made, n)
            if len(made) == k:
                res.feat("journal without postings to change")
    res.feat("two runs compared")
    for j in js:
        for t in j["trns"]:
            for p in t["posts"]:
                if any(f in NEAR for f in p["c"]["f"]):
                    res.feat("resembling tag")
    res.nontrivial = bool(made) and any(J.fps(p) for j in js for t in j["trns"] for p in t["posts"])
    dup = sorted({m for m in made if made.count(m) > 1}) if len(set(made)) < len(made) else []
    if dup:
        res.bad("the same fingerprint was generated more than once: %s" % dup[:3])
    own = {f for j in js for t in j["trns"] for p in t["posts"] for f in J.fps(p)}
    if own & set(made):
        res.bad("a generated fingerprint was already in use: %s" % sorted(own & set(made)))
    if made:
        with open(os.path.join(os.path.dirname(box.base), "tags"), "a") as f:
            f.write("".join(m + "\n" for m in made))
    if res.violations or any(p["st"] == "*" for j in js for t in j["trns"] for p in t["posts"]):
        return
    names = ["a%d.j" % i for i in range(len(js))]
    o = box.run(["generate-fingerprints"] + names)
    if o.rc != 0:
        res.bad("failed on its own output: " + o.brief())
        return
    for n in names:
        if box.read(n) != outs[n]:
            res.bad("%s: running again changed the journal" % n)
    res.feat("rerun identical")
    if any(f.startswith("candidate-") for j in js for t in j["trns"] for p in t["posts"] for f in p["c"]["f"]):
        return
    o = box.run(["merge", "-o", "m.j", "a0.j"])
    if o.rc != 0:
        res.bad("merge does not accept the journal: " + o.brief())
    else:
        res.feat("merged")


def finish(tier, seed, box, res, feats):
    p = os.path.join(os.path.dirname(box.base), "tags")
    tags = open(p).read().split() if os.path.exists(p) else []
    feats["tags compared across runs"] = len(tags)
    if len(set(tags)) != len(tags):
        seen, dup = set(), []
        for t in tags:
            if t in seen:
                dup.append(t)
            seen.add(t)
        res.bad("fingerprints generated by different runs are equal: %s" % dup[:5])
    return {"generated_tags": len(tags), "distinct_tags": len(set(tags))}


def shrink(case):
    js = case["journals"]
    for i in range(len(js)):
        if len(js) > 1:
            yield dict(case, journals=js[:i] + js[i + 1:])
    for i, j in enumerate(js):
        for k in range(len(j["trns"])):
            yield dict(case, journals=js[:i] + [dict(j, trns=j["trns"][:k] + j["trns"][k + 1:])] + js[i + 1:])
        for k, t in enumerate(j["trns"]):
            for q in range(len(t["posts"])):
                if len(t["posts"]) > 1:
                    t2 = dict(t, posts=t["posts"][:q] + t["posts"][q + 1:])
                    yield dict(case, journals=js[:i] + [dict(j, trns=j["trns"][:k] + [t2] + j["trns"][k + 1:])] + js[i + 1:])
