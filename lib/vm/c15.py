"""C15: rule files are loaded completely or rejected before any use."""
import os, random
from . import imp, journal as J, rules as R

BUDGET = {"quick": (20000, 90), "thorough": (120000, 800)}
RULE = ("A case is a graph of rule files over directories, symbolic links and cyclic, repeated and differently spelt includes, whose "
        "chains each leave a mark, and for 60% of them one fault at a random place (often in a rule that is never reached). Sound "
        "graphs must act as the union of their chains, faulty ones be refused without touching the output. Non-trivial: an include "
        "or a fault.")
FAULTS = ["no-start", "dup-chain", "bad-jump", "bad-regex", "syntax", "missing-include", "variant", "field"]
REQUIRED = ["refused " + f for f in FAULTS] + ["loaded", "cycle", "included twice", "through link"]
DIRS = ["", "d", "d/e", "f g"]
SYNTAX = ["[", "[Chain(\"zz\", [])] x", "Chain(\"zz\", [])", "", "[Chain(\"zz\", [)]", "[Chain(\"zz\" [])]", "{}", "[Chain(\"zz\")]",
          "[Chain(zz, [])]", "\u00ff[", "[Include()]", "[Include(3)]", "[Chain(\"zz\", [], [])]"]
VARIANT = ["Chain(\"zz\", [Rule(predicate: Tru, action: Noop, result: Continue)])",
           "Chain(\"zz\", [Rule(predicate: True, action: Nop, result: Continue)])",
           "Chain(\"zz\", [Rule(predicate: True, action: Noop, result: Stop)])",
           "Chain(\"zz\", [Rule(predicate: Account(Is(\"x\")), action: Noop, result: Continue)])", "Chian(\"zz\", [])",
           "Chain(\"zz\", [Rule(predicate: True, action: SetAccount, result: Continue)])",
           "Chain(\"zz\", [Rule(predicate: Not, action: Noop, result: Continue)])"]
FIELD = ["Chain(\"zz\", [Rule(predicate: True, action: Noop)])", "Chain(\"zz\", [Rule(action: Noop, result: Continue)])",
         "Chain(\"zz\", [Rule(predicate: True, result: Continue)])",
         "Chain(\"zz\", [Rule(predicate: True, action: ReplaceTransactionDescription((regex: \"x\")), result: Continue)])",
         "Chain(\"zz\", [Rule(predicate: True, action: Noop, result: Continue, result: Continue)])"]
BAD_RX = ["(", "[a", "*x", "a{2,1}", "(?P<n>", "\\", "(?<=x)y", "(a)\\1", "x**("]


def gen(rng, tier, i):
    deep = rng.random() < 0.03
    nf = rng.choice([10, 20, 40, 70]) if deep else rng.choice([1, 2, 3, 4, 6])
    files = []
    for k in range(nf):
        d = rng.choice(DIRS)
        p = os.path.join(d, rng.choice(["r%d.ron", "rules %d.ron", "x%d"]) % k)
        if files and rng.random() < 0.3:
            # named like another file, elsewhere
            q = os.path.join(d, os.path.basename(rng.choice(files)["path"]))
            if rng.random() < 0.4:
                # named like it but for the case
                b = os.path.basename(q)
                q = os.path.join(rng.choice([d, os.path.dirname(files[-1]["path"])]), rng.choice([b.upper(), b.title(), b.replace("ron", "RON"), b.swapcase()]))
            if q not in [f["path"] for f in files]:
                p = q
        files.append({"path": p, "entries": []})
    links = []
    if rng.random() < 0.4:
        k = rng.randrange(nf)
        links.append([os.path.join(rng.choice(DIRS), "link%d.ron" % k), files[k]["path"]])
    if rng.random() < 0.2:
        links.append(["dirlink", "d"])
    names = ["c%d" % n for n in range(rng.randint(0, 30 if deep else 5))]
    # every file is included by an earlier one, and some again by anyone
    for k in range(1, nf):
        inc(rng, files, k - 1 if deep and rng.random() < 0.95 else rng.randrange(k), k, links)
    for _ in range(rng.choice([0, 0, 1, 3])):
        inc(rng, files, rng.randrange(nf), rng.randrange(nf), links)
    marks = lambda n: [["True"], ["AddPostingFlagTag", "via-" + n], "Continue"]
    for n in names:
        rs = [marks(n)]
        if rng.random() < 0.3:
            rs.append([["Not", ["True"]], ["JumpChain", rng.choice(names + ["start"])], "Continue"])
        f = rng.choice(files)["entries"]
        f.insert(rng.randint(0, len(f)), ["Chain", n, rs])
    jumps = [n for n in names if rng.random() < 0.9]
    rs = []
    for n in jumps:
        a = ["JumpChain", n]
        for _ in range(rng.choice([0, 0, 1, 2])):
            a = ["All", [["Noop"]] * rng.choice([0, 0, 1, 2, 5]) + [a] + [["Noop"]] * rng.choice([0, 0, 1])]
        rs.append([["True"], a, "Continue"])
    f = rng.choice(files)["entries"]
    f.insert(rng.randint(0, len(f)), ["Chain", "start", [marks("start")] + rs])
    case = {"files": files, "links": links, "jumps": jumps, "fault": None, "ron": rng.choice([None, rng.randrange(10 ** 9)]),
            "empty": rng.random() < 0.3, "old": rng.random() < 0.5, "cwd": rng.choice(["", "", "d", "abs"])}
    if rng.random() < 0.6:
        fault(rng, case, names)
    return case


def inc(rng, files, a, b, links):
    src, dst = files[a]["path"], files[b]["path"]
    for link, to in links:
        if to == dst and rng.random() < 0.7:
            dst = link
        elif to == "d" and dst.startswith("d/") and rng.random() < 0.7:
            dst = "dirlink" + dst[1:]
    rel = os.path.relpath(dst, os.path.dirname(src) or ".")
    k = rng.randrange(6)
    if k == 0:
        rel = "./" + rel
    elif k == 1:
        rel = "ABS/" + dst
    elif k == 2 and os.path.dirname(src):
        rel = "../" + os.path.basename(os.path.dirname(src)) + "/" + rel
    e = files[a]["entries"]
    e.insert(rng.randint(0, len(e)), ["Include", rel])


def fault(rng, case, names):
    files = case["files"]
    k = rng.choice(FAULTS)
    fe = rng.choice(files)["entries"]
    place = rng.randint(0, len(fe))
    hide = lambda a: [["Not", ["True"]], a, "Continue"] if rng.random() < 0.5 else [["True"], a, "Continue"]
    what = None
    if k == "no-start":
        for f in files:
            for e in f["entries"]:
                if e[0] == "Chain" and e[1] == "start":
                    e[1] = rng.choice(["Start", "start ", "", "begin"])
    elif k == "dup-chain":
        defs = [f for f in files if any(e[0] == "Chain" for e in f["entries"])]
        if rng.random() < 0.3:
            # a file of the same contents
            f = rng.choice(defs)
            p = os.path.join(os.path.dirname(f["path"]), "same.ron")
            same = {"path": p, "entries": [list(e) for e in f["entries"]]}
            files.append(same)
            src = rng.choice(files[:-1])
            src["entries"].insert(rng.randint(0, len(src["entries"])), ["Include", os.path.relpath(p, os.path.dirname(src["path"]) or ".")])
            if src is f:
                same["entries"] = [list(e) for e in f["entries"]]
            case["ron"] = rng.choice([None, None, case["ron"]])
        else:
            fe.insert(place, ["Chain", rng.choice(names + ["start"]), rng.choice([[], [[["True"], ["Noop"], "Continue"]]])])
    elif k == "bad-jump":
        a = ["JumpChain", rng.choice(["nowhere", "Start", "c99", "", "c0 "])]
        for _ in range(rng.choice([0, 1, 2])):
            a = ["All", [["Noop"]] * rng.choice([0, 1, 1, 2, 5]) + [a] + [["Noop"]] * rng.choice([0, 1, 1, 3])]
        if rng.random() < 0.5 or not names:
            fe.insert(place, ["Chain", "extra", [hide(a)]])
        else:
            ch = rng.choice([e for f in files for e in f["entries"] if e[0] == "Chain"])
            ch[2].insert(rng.randint(0, len(ch[2])), hide(a))
    elif k == "bad-regex":
        rx = rng.choice(BAD_RX)
        m = ["Matches", rx]
        if rng.random() < 0.3:
            m = ["AsLower", m]
        p = rng.choice([["Account", m], ["PostingFlagTag", m], ["PostingValueTag", "k", m], ["TransactionDescription", m]])
        for _ in range(rng.choice([0, 1, 2])):
            p = rng.choice([["Not", p], ["All", [["Not", ["True"]], p]], ["Any", [["True"], p]]])
        rule = [p, ["Noop"], "Continue"]
        if rng.random() < 0.3:
            rule = hide(["ReplaceTransactionDescription", rx, "x"])
        fe.insert(place, ["Chain", "extra", [rule]])
    elif k == "missing-include":
        fe.insert(place, ["Include", rng.choice(["nothing.ron", "../../nothing.ron", "d", ".", "", "nodir/x.ron", "/nonexistent/x.ron"])])
    elif k == "syntax":
        what = rng.choice(SYNTAX)
        i = rng.randrange(len(files))
        files[i]["raw"] = what
    elif k == "variant":
        fe.insert(place, ["raw", rng.choice(VARIANT)])
    elif k == "field":
        fe.insert(place, ["raw", rng.choice(FIELD)])
    case["fault"] = k


def check(case, box, res):
    files, k = case["files"], case["fault"]
    rng = random.Random("ron:%s" % case["ron"]) if case["ron"] is not None else None
    root = box.path("rules")
    os.makedirs(root)
    for f in files:
        es = [["Include", e[1].replace("ABS", root)] if e[0] == "Include" else e for e in f["entries"]]
        data = f["raw"] if "raw" in f else R.Ron(rng).file(es)
        box.write("rules/" + f["path"], data.encode("latin-1") if "raw" in f else data)
    for d in DIRS:
        os.makedirs(os.path.join(root, d), exist_ok=True)
    for link, to in case["links"]:
        lp = os.path.join(root, link)
        os.makedirs(os.path.dirname(lp), exist_ok=True)
        os.symlink(os.path.relpath(os.path.join(root, to), os.path.dirname(lp)), lp)
    box.write("in.j", "" if case["empty"] else "2020-01-01 x\n  aa  1 GBP\n")
    if case["old"]:
        box.write("out.j", imp.OLD)
    cwd = {"": box.dir, "d": os.path.join(root, "d"), "abs": "/"}[case["cwd"]]
    rp = os.path.join(root, files[0]["path"])
    if case["cwd"] != "abs":
        rp = os.path.relpath(rp, cwd)
    before = box.snapshot()
    o = box.run(["apply-rules", "-o", box.path("out.j"), box.path("in.j"), "table", rp], cwd=cwd)
    graph(case, res)
    if k:
        imp.refused(res, box, o, before, "a faulty rule table (%s)" % k)
        res.feat("refused " + k)
        res.nontrivial = True
        return
    if o.rc != 0:
        res.bad("a sound rule table was refused: " + o.brief())
        return
    got = imp.read(res, box.read("out.j"), "apply-rules")
    if got is None:
        return
    res.feat("loaded")
    res.nontrivial = len(files) > 1
    if case["empty"]:
        want = []
    else:
        want = [J.trn("2020-01-01", "x", [J.post("aa", J.amount("1", "GBP"), c=J.comment(f=["via-start"] + ["via-" + n for n in case["jumps"]]))])]
    d = J.diff_trns(want, got)
    if d:
        res.bad("not the union of all chains: " + d)


def graph(case, res):
    n = sum(1 for f in case["files"] for e in f["entries"] if e[0] == "Include")
    if n > len(case["files"]) - 1:
        res.feat("included twice")
    idx = {os.path.normpath(f["path"]): i for i, f in enumerate(case["files"])}
    for i, f in enumerate(case["files"]):
        for e in f["entries"]:
            if e[0] == "Include":
                if "link" in e[1]:
                    res.feat("through link")
                p = os.path.normpath(e[1].replace("ABS/", "") if e[1].startswith("ABS") else os.path.join(os.path.dirname(f["path"]), e[1]))
                if idx.get(p, 99) <= i:
                    res.feat("cycle")


def shrink(case):
    for i, f in enumerate(case["files"]):
        for j, e in enumerate(f["entries"]):
            if not case["fault"] and not (e[0] == "Chain"):
                continue
    if case["ron"] is not None:
        yield dict(case, ron=None)
    if case["cwd"]:
        yield dict(case, cwd="")
