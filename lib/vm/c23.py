"""C23: every journal written can be read back with the same meaning."""
import copy, re
from . import core, imp, imprun, journal as J, mergeobs as O, rules as R, scenario as S

BUDGET = {"quick": (4500, 60), "thorough": (120000, 800)}
RULE = ("A case is a valid run of any command; each journal that it writes is given to fmt, to apply-rules with a table that does "
        "nothing, to generate-fingerprints and, when it has fingerprints, to merge. Each must accept it and write the same transactions "
        "(read by an independent reader), fmt without changing more than blanks at line ends; where a reference gives what the command meant to write (imports, rules, "
        "fingerprints), that is what must be read. Cleared postings are read back through the verification hook. "
        "Non-trivial: the journal has a transaction with tags.")
REQUIRED = ["written by merge", "written by apply-rules", "written by fmt", "written by generate-fingerprints", "written by import nw5",
            "written by import nw6", "written by import pp", "written by import pdf", "read by fmt", "read by apply-rules",
            "read by generate-fingerprints", "read by merge", "read as it was meant", "unmerged journal read back"]
ASSUMPTIONS = ["records whose text is ledger syntax (a description that starts with '(', '*' or '!' or is empty, or that has a comment in "
               "it; a currency that is no commodity name) are left out: known findings",
               "so are rules that put such text into a journal"]


def gen(rng, tier, i):
    return S.gen(rng, tier, cleared=rng.random() < 0.4)


def expressible(trns):
    """Whether a journal can express these transactions at all."""
    for t in trns:
        if S.bad_desc(t["desc"]):
            return False
        for x in [t] + t["posts"]:
            for k, v in x["c"]["v"].items():
                if "\n" in v or v != v.strip() or " " in k or ":" in k:
                    return False
    return True


def meaning(case):
    """What the journal was to say, fingerprints apart; None when that is for
    other checks to know."""
    if case["cmd"] == "import":
        return imprun.expect(case["imp"])
    if case["cmd"] == "apply-rules":
        try:
            return R.Interp(case["chains"]).run(case["trns"])
        except R.RuleError:
            return None
    if case["cmd"] == "generate-fingerprints" and len(case["journals"]) == 1:
        return case["journals"][0]["trns"]
    return None


NOOP = '[Chain("start", [])]'


def check(case, box, res):
    plan = S.setup(box, case)
    if case["cmd"] == "import" and not expressible(imprun.expect(case["imp"]) or []):
        res.feat("skipped: inexpressible record")
        return
    o = box.run(plan.args, env=plan.env)
    if o.rc != 0:
        res.bad("a valid %s run failed: %s" % (case["cmd"], o.brief()))
        return
    for n in plan.outs:
        data = box.read(n)
        if data is None and n == "unm.j":
            continue                # nothing was set aside
        if data is None:
            res.bad("%s wrote no %s" % (case["cmd"], n))
            continue
        res.feat("written by " + case["cmd"] + (" " + case["imp"]["kind"] if case["cmd"] == "import" else ""))
        read_back(case, box, res, data, n)
        if n == "unm.j" and data.strip():
            res.feat("unmerged journal read back")


def read_back(case, box, res, data, name):
    try:
        items = J.read_items(data)
    except J.Unreadable as e:
        res.bad("%s of %s is no journal: %s" % (name, case["cmd"], e))
        return
    trns = [it[1] for it in items if it[0] == "trn"]
    others = [it for it in items if it[0] not in ("trn", "blank")]
    tags = any(x["c"]["f"] or x["c"]["v"] for t in trns for x in [t] + t["posts"])
    res.nontrivial = res.nontrivial or tags
    cleared = any(p["st"] == "*" for t in trns for p in t["posts"])
    if cleared and not core.HOOKS:
        return
    text = O.rereadable(data)
    # fmt
    box.write("b.j", text)
    o = box.run(["fmt", "b.j"])
    who = "%s of %s" % (name, case["cmd"])
    if o.rc != 0:
        res.bad("fmt does not accept %s: %s" % (who, o.brief()))
    elif squeeze(box.read("b.j")) != squeeze(data):
        res.bad("fmt changed %s:\n%s" % (who, diff(data, box.read("b.j"))))
    res.feat("read by fmt")
    if others:
        return                  # other commands take transactions only
    fmt_case = case["cmd"] == "fmt"
    want = trns
    box.write("noop.ron", NOOP)
    for cmd, args in (("apply-rules", ["apply-rules", "-o", "b2.j", "b1.j", "table", "noop.ron"]),
                      ("generate-fingerprints", ["generate-fingerprints", "b2.j"]),
                      ("merge", ["merge", "-o", "b2.j", "b1.j"])):
        if cmd == "merge":
            fs = [f for t in trns for p in t["posts"] for f in J.fps(p)]
            if any(not J.fps(p) or any(f.startswith("candidate-") for f in p["c"]["f"]) for t in trns for p in t["posts"]):
                continue
            if len(set(fs)) < len(fs) or any("source-file" in t["c"]["v"] for t in trns):
                continue
            want = sorted(trns, key=lambda t: t["date"])
        box.write("b1.j", text)
        box.write("b2.j", text)
        o = box.run(args)
        if o.rc != 0:
            res.bad("%s does not accept %s: %s" % (cmd, who, o.brief()))
            continue
        got = imp.read(res, box.read("b2.j"), cmd)
        if got is None:
            continue
        if cmd == "generate-fingerprints":
            for t, g in zip(want, got):
                for p, q in zip(t["posts"], g["posts"]):
                    if not J.fps(p):
                        q["c"]["f"] = [f for f in q["c"]["f"] if not f.startswith("fp-uuidb64-")]
        d = J.diff_trns(want, got)
        if d:
            res.bad("%s reads %s otherwise: %s" % (cmd, who, d))
        res.feat("read by " + cmd)
        meant = meaning(case) if cmd == "apply-rules" else None
        if meant is not None:
            meant, got = imp.drop_fps(copy.deepcopy(meant)), imp.drop_fps(got)
            imp.zero_ok(meant, got)
            d = J.diff_trns(meant, got)
            if d:
                res.bad("what %s says is read otherwise: %s" % (who, d))
            res.feat("read as it was meant")


def squeeze(b):
    """Without blanks at the ends of lines and the sign of zero."""
    return [re.sub(rb"-(0(?:\.0+)?)(?=[ }]|$)", rb"\1", ln.rstrip()) for ln in b.split(b"\n")]


def diff(a, b):
    import difflib
    return "\n".join(list(difflib.unified_diff(a.decode("utf-8", "replace").split("\n"), b.decode("utf-8", "replace").split("\n"),
                                               lineterm="", n=1))[:30])


shrink = S.shrink


def known(k, box, r):
    """An import whose journal is read back as something else, or not at all."""
    from . import nw, pp
    if k["kind"] == "nw":
        box.write("in.csv", k["csv"].encode("cp1252"))
        a = ["nationwide-csv", "in.csv"]
    else:
        box.write("in.csv", k["csv"])
        box.write("tz.csv", "abbreviation,utc_offset\nGMT,UTC+00\n")
        a = ["paypal-csv", "--output-timezone", "UTC", "--fingerprint-namespace=x", "in.csv", "tz.csv"]
    if box.run(["import", "-o", "o.j"] + a).rc != 0:
        return False
    if "desc" in k:
        # is this the description that rules see?
        from . import rules as R
        box.write("r.ron", R.Ron().file([["Chain", "start", [[["TransactionDescription", ["Eq", k["desc"]]], ["AddPostingFlagTag", "seen"],
                                                              "Continue"]]]]))
        return box.run(["apply-rules", "-o", "p.j", "o.j", "table", "r.ron"]).rc != 0 or b":seen:" not in box.read("p.j")
    before = box.read("o.j")
    o = box.run(["fmt", "o.j"])
    return o.rc != 0 or box.read("o.j") != before
