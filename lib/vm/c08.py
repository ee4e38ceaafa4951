"""C08: faulty merge input is refused as a whole; valid input is accepted."""
import copy, os
from . import journal as J, merge_model as M, mergegen as G, mergeobs as O, words as W

BUDGET = {"quick": (7000, 60), "thorough": (120000, 800)}
KINDS = ["none", "no-fp", "candidate", "dup-same-trn", "dup-set", "several-posts", "several-trns", "shared", "dup-unmerged",
         "missing", "not-utf8", "garbage", "item-comment", "item-price", "item-include", "directory", "unreadable-late"]
RULE = ("A case is a valid history of journals with one fault of a chosen kind put at a random place (or none). The run must fail "
        "with a message, leave existing outputs as they were and create none; without a fault it must succeed. Each faulty input "
        "is confirmed by the reference model or by construction. Non-trivial: a fault was present, or a valid history matched postings.")
REQUIRED = ["refused: " + k for k in KINDS if k != "none"] + ["accepted"]


def pick(rng, files):
    f = rng.choice([k for k, x in enumerate(files) if x["trns"]])
    t = rng.randrange(len(files[f]["trns"]))
    p = rng.randrange(len(files[f]["trns"][t]["posts"]))
    return f, t, p


def gen(rng, tier, i):
    kind = KINDS[i % len(KINDS)] if rng.random() < 0.85 else "none"
    amb = rng.random() < 0.4 or kind == "dup-unmerged"
    g = G.Gen(rng, tier, ambiguous=amb, fresh=0.4)
    files, m = g.history()
    pre = rng.choice(["none", "both", "out"])
    case = {"kind": kind, "pre": pre, "raw": None}
    files = copy.deepcopy(files)
    f, t, p = pick(rng, files)
    if kind == "dup-unmerged" and m is not None and m.unmerged:
        u = {tuple(J.fps(q)) for x in m.unmerged for q in x["posts"]}
        at = [(a, b) for a, x in enumerate(files) for b, y in enumerate(x["trns"]) if all(tuple(J.fps(q)) in u for q in y["posts"])]
        if at:
            f, t = rng.choice(at)
            p = rng.randrange(len(files[f]["trns"][t]["posts"]))
    trn = files[f]["trns"][t]
    post = trn["posts"][p]
    if kind == "no-fp":
        post["c"]["f"] = [x for x in post["c"]["f"] if not x.startswith("fp-")] + rng.choice([[], ["fp"], ["xfp-1"], ["FP-1"]])
    elif kind == "candidate":
        post["c"]["f"] = sorted(post["c"]["f"] + ["candidate-" + rng.choice(["fp-x", "zzz", J.fps(post)[0]])])
    elif kind == "dup-same-trn":
        other = g.fresh_post()
        other["c"]["f"] = [rng.choice(J.fps(post))]
        trn["posts"].insert(rng.randint(0, len(trn["posts"])), other)
    elif kind in ("dup-set", "dup-unmerged"):
        other = g.fresh_trn()
        src = trn["c"]["v"].get(M.SOURCE)
        if src:
            other["c"]["v"][M.SOURCE] = src
        rng.choice(other["posts"])["c"]["f"].append(rng.choice(J.fps(post)))
        ts = files[f]["trns"]
        ts.insert(rng.randint(0, len(ts)), other)
    elif kind in ("several-posts", "several-trns", "shared"):
        mm = G.model_of(files)
        extra = None
        posts = [(a, b) for a, tt in enumerate(mm.trns) for b in range(len(tt["posts"]))]
        for _ in range(20):
            x, y = rng.choice(posts), rng.choice(posts)
            if kind == "several-posts" and x != y:
                q = g.fresh_post()
                q["c"]["f"] = [rng.choice(J.fps(mm.post(x))), rng.choice(J.fps(mm.post(y)))]
                extra = [g.header(rng.choice(g.days), [q] + ([g.fresh_post()] if rng.random() < 0.5 else []))]
            elif kind == "several-trns" and x[0] != y[0]:
                if rng.random() < 0.4:
                    # the two transactions look the same from outside
                    a, b = [[z for f in files for z in f["trns"] if z["posts"] and set(J.fps(mm.post(w))) & set(J.fps(z["posts"][0]))]
                            for w in (x, y)]
                    for v in b:
                        if a and v not in a:
                            v["date"], v["desc"] = a[0]["date"], a[0]["desc"]
                ps = []
                for z in (x, y):
                    q = g.fresh_post()
                    q["c"]["f"] = sorted(set(q["c"]["f"]) | {rng.choice(J.fps(mm.post(z)))})
                    ps.append(q)
                if rng.random() < 0.5:
                    ps.append(g.fresh_post())
                rng.shuffle(ps)
                extra = [g.header(rng.choice(g.days), ps)]
            elif kind == "shared":
                d = mm.post(x)
                qs = [g.fresh_post(), g.fresh_post()]
                if len(J.fps(d)) > 1 and rng.random() < 0.5:
                    a, b = J.fps(d)[:2]
                    qs[0]["c"]["f"], qs[1]["c"]["f"] = [a], [b]
                else:
                    qs[0]["c"]["f"] = [J.fps(d)[0]]
                    q = g.derived_post(d)
                    q["c"]["f"] = ["fp-fresh-%d" % rng.randrange(10 ** 6)]
                    q["amt"], q["bal"], q["acc"] = copy.deepcopy(d["amt"]), None, d["acc"]
                    qs[1] = q
                date = mm.trns[x[0]]["date"]
                if rng.random() < 0.5:
                    extra = [g.header(date, qs)]
                else:
                    extra = [g.header(date, [qs[0]]), g.header(date, [qs[1]])]
            if extra:
                # among others
                for _ in range(rng.choice([0, 0, 1, 3, 6])):
                    extra.insert(rng.randint(0, len(extra)), g.fresh_trn())
                break
        if extra:
            files.append({"name": "extra.j", "trns": extra, "style": g.style()})
    elif kind in ("missing", "not-utf8", "garbage", "directory", "unreadable-late"):
        case["raw"] = {"kind": kind, "at": rng.randint(0, len(files)) if kind != "unreadable-late" else len(files),
                       "what": rng.choice(["garbage\n", "2020-01-01 no postings\n", "2020-13-01 x\n  a  1 GBP\n", "  a  1 GBP\n",
                                           "2020-01-01 x\n  a  1 GBP =\n", "2020-01-01 x\n  aa  1\n", "2020-01-01\n  aa  1 GBP\n",
                                           "account foo\n", "2020-01-01 x\n  aa  1 GBP 2 GBP\n"])}
    elif kind.startswith("item-"):
        case["raw"] = {"kind": kind, "at": f, "what": {"item-comment": rng.choice(["; note\n\n", "# x\n\n"]),
                                                       "item-price": "P 2020-01-01 00:00:00 USD 2 GBP\n",
                                                       "item-include": "include other.j\n"}[kind],
                       "end": rng.random() < 0.5}
    case["files"] = files
    return case


def write(case, box):
    names = G.write_files(box, case["files"])
    raw = case["raw"]
    if not raw:
        return names
    k = raw["kind"]
    if k.startswith("item-"):
        n = names[raw["at"]]
        data = box.read(n)
        if raw["end"] and k != "item-include":
            # a comment right after a posting belongs to it: separate it
            data = data.rstrip(b"\r\n") + b"\n\n" + raw["what"].encode()
        else:
            data = raw["what"].encode() + data
        box.write(n, data)
        return names
    n = "bad.j"
    if k == "missing":
        n = "nowhere/bad.j"
    elif k == "not-utf8":
        box.write(n, b"2020-01-01 caf\xe9\n  aa  1 GBP  ; :fp-bad:\n")
    elif k == "directory":
        os.mkdir(box.path(n))
    else:
        box.write(n, raw["what"])
    names.insert(min(raw["at"], len(names)), n)
    return names


def check(case, box, res):
    files, kind = case["files"], case["kind"]
    m = None
    try:
        m = G.model_of(files)
    except M.Reject as e:
        why = e.kind
    faulty = m is None or case["raw"] is not None
    names = write(case, box)
    old = {}
    if case["pre"] != "none":
        old["out.j"] = b"; old merged journal\n2020-01-01 keep\n  aa  1 GBP\n"
        if case["pre"] == "both":
            old["unm.j"] = b"; old unmerged journal\n"
    for n, d in old.items():
        box.write(n, d)
    before = box.snapshot()
    o = O.run_merge(box, names)
    if not faulty:
        if o.rc != 0:
            res.bad("valid journals were refused: " + o.brief())
        else:
            res.feat("accepted")
            res.nontrivial = G.nontrivial(m)
        return
    if o.crashed:
        if case["raw"] and b"Cannot call `finish()`" in o.err:
            # C20's known finding about the journal parser
            res.feat("parser panic")
        else:
            res.bad("fault %s: crash: %s" % (kind, o.brief()))
    if o.rc == 0:
        res.bad("fault %s (%s) was accepted" % (kind, why if m is None else case["raw"]))
    elif not o.err.strip():
        res.bad("fault %s: no error message" % kind)
    after = box.snapshot()
    if after != before:
        res.bad("fault %s: the failed merge changed files: %s" % (kind, sorted(
            k for k in set(before) | set(after) if before.get(k, 0) != after.get(k, 0))))
    res.feat("refused: " + (kind if case["raw"] else {
        "candidate-tag": "candidate", "no-fingerprint": "no-fp", "fingerprints-of-several": "several-posts",
        "several-transactions": "several-trns", "shared-destination": "shared"}.get(why, kind if kind.startswith("dup") else "other")))
    res.nontrivial = True


def shrink(case):
    for f in G.shrink_files(case["files"]):
        if case["raw"] and case["raw"]["at"] >= len(f):
            continue
        yield dict(case, files=f)
