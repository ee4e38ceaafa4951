"""C12: comments, tags and values survive every rewriting command."""
import copy, random
from . import core, imp, journal as J, rules as R, words as W

BUDGET = {"quick": (6000, 60), "thorough": (200000, 800)}
RULE = ("A case is a journal whose comments mix text, flag groups and value tags in raw lines of any shape, put through "
        "generate-fingerprints, apply-rules (with no rule that applies, or one that only adds) and merge. Each output, read by an "
        "independent reader, must hold the same transactions with the same text lines, flags and values, and putting each output "
        "through the same command again must not change a byte. Non-trivial: some comment mixes two kinds.")
REQUIRED = ["command apply-rules", "command generate-fingerprints", "command merge", "fixed point", "text that looks like a value tag",
            "mixed line", "long tag", "repeated key"]
FRAG = ["text", "a b", "foo: bar", "k: v", "key:", "x", ":", "::", "a:b", "12:30", "http://h/p?q=1", "é", "日本", "-", ": lead", "tail :", ";", "; c",
        "*", "# h", "|", "= 5", "two  spaces", "q\"uote", "a:", ":a", "foo:bar: baz", "when: 2020-01-01", "note: :not: tag"]


def raw_line(rng):
    k = rng.randrange(12)
    grp = lambda: ":" + ":".join(W.tag(rng) for _ in range(rng.choice([1, 1, 2, 3]))) + ":"
    if k < 2:
        return W.text(rng)
    if k == 2:
        return grp()
    if k < 5:
        return "%s:%s%s" % (W.vkey(rng), rng.choice([" ", "  "]), W.value(rng))
    if k == 5:
        return grp() + rng.choice([" ", "", "  "]) + rng.choice(FRAG)
    if k == 6:
        return rng.choice(FRAG) + rng.choice([" ", "", "  "]) + grp() + rng.choice([" ", ""]) + rng.choice(FRAG)
    if k == 7:
        return grp() + rng.choice([" ", "  "]) + grp() + " " + rng.choice(FRAG)
    if k == 8:
        return rng.choice(FRAG)
    if k == 9:
        return " ".join(rng.choice(FRAG) for _ in range(rng.randint(2, 4)))
    if k == 10:
        return "".join(rng.choice("ab: ::;x \"'é") for _ in range(rng.randint(1, 14)))
    return rng.choice(FRAG) + grp() + rng.choice(FRAG)


def raw_comment(rng, rich):
    if rng.random() > rich:
        return []
    out = []
    for _ in range(rng.choice([1, 1, 2, 3, 5, 8])):
        # As the journal's syntax has it, surrounding blanks are not part of it.
        out.append(raw_line(rng).strip(" \t"))
    return out


def gen(rng, tier, i):
    n = rng.choice([1, 1, 2, 4, 8])
    rich = rng.choice([0.4, 0.8, 1])
    trns = []
    k = 0
    for _ in range(n):
        t = W.journal_trn(rng, statuses=("", "", "!", "*") if core.HOOKS else ("", "", "!"), rich=0)
        t["c"] = {"raw": raw_comment(rng, rich)}
        for p in t["posts"]:
            k += 1
            raw = raw_comment(rng, rich)
            fp = ":fp-%s%d:" % (rng.choice(["", "z.1.NS-", "Aq+/"]), k)
            if raw and rng.random() < 0.3:
                j = rng.randrange(len(raw))
                raw[j] = fp + raw[j] if raw[j].startswith(":") is False else fp[:-1] + ":" + " " + raw[j]
            else:
                raw.insert(rng.randint(0, len(raw)), fp)
            if t["c"]["raw"] and rng.random() < 0.1:
                # the same as is said of the transaction
                for line in t["c"]["raw"]:
                    raw.insert(rng.randint(0, len(raw)), line)
            p["c"] = {"raw": raw}
        trns.append(t)
    return {"trns": trns, "style": rng.randrange(10 ** 9),
            "rule": rng.choice([None, None, "flag", "value", "all"])}


def meaning(trns):
    out = copy.deepcopy(trns)
    for t in out:
        for x in [t] + t["posts"]:
            x["c"] = tidy(J.parse_comment_lines(x["c"]["raw"]))
    return out


def tidy(c):
    return {"t": [s.strip() for s in c["t"] if s.strip()], "f": c["f"], "v": {k.strip(): v.strip() for k, v in c["v"].items()}}


def write(trns, seed):
    rng = random.Random("c12:%s" % seed)
    s = "\n".join(J.styled_trn(t, rng) for t in trns)
    return s.replace("\n", "\r\n") if rng.random() < 0.1 else s


RULES = {None: [["start", [[["Any", []], ["SetAccount", "never"], "Continue"]]]],
         "flag": [["start", [[["True"], ["AddPostingFlagTag", "zz"], "Continue"]]]],
         "value": [["start", [[["True"], ["AddTransactionValueTag", "zk", "zv"], "Return"]]]],
         "all": [["start", [[["True"], ["All", [["AddTransactionFlagTag", "zz"], ["AddPostingValueTag", "zk", "12:30 :x:"]]], "Return"]]]]}


def ruled(trns, rule):
    out = copy.deepcopy(trns)
    for t in out:
        for p in t["posts"]:
            if rule == "flag":
                p["c"]["f"] = sorted(set(p["c"]["f"]) | {"zz"})
            elif rule == "value":
                t["c"]["v"]["zk"] = "zv"
            elif rule == "all":
                t["c"]["f"] = sorted(set(t["c"]["f"]) | {"zz"})
                p["c"]["v"]["zk"] = "12:30 :x:"
    return out


def check(case, box, res):
    trns = case["trns"]
    want = meaning(trns)
    text = write(trns, case["style"])
    for t in trns:
        for x in [t] + t["posts"]:
            keys = []
            for ln in x["c"]["raw"]:
                c = J.parse_comment_lines([ln])
                if bool(c["t"]) + bool(c["f"]) + bool(c["v"]) > 1:
                    res.feat("mixed line")
                if any(J.VALUE_RX.fullmatch(s) for s in c["t"]):
                    res.feat("text that looks like a value tag")
                if any(len(f) > 12 for f in c["f"]):
                    res.feat("long tag")
                keys += c["v"]
            if len(set(keys)) < len(keys):
                res.feat("repeated key")
            c = J.parse_comment_lines(x["c"]["raw"])
            if bool(c["t"]) + bool(c["f"]) + bool(c["v"]) > 1:
                res.nontrivial = True
    by_date = sorted(want, key=lambda t: t["date"])
    cleared = any(p["st"] == "*" for t in trns for p in t["posts"])
    box.write("in.j", text)
    box.write("r.ron", R.Ron().file([["Chain", n, rs] for n, rs in RULES[case["rule"]]]))
    cmds = {"generate-fingerprints": (lambda f: ["generate-fingerprints", f], want),
            "apply-rules": (lambda f: ["apply-rules", "-o", f, f, "table", "r.ron"], ruled(want, case["rule"])),
            "merge": (lambda f: ["merge", "-o", f, f], by_date)}
    for name, (args, exp) in cmds.items():
        box.write("x.j", text)
        o = box.run(args("x.j"))
        if o.rc != 0:
            res.bad("%s failed: %s" % (name, o.brief()))
            continue
        res.feat("command " + name)
        out = box.read("x.j")
        got = imp.read(res, out, name)
        if got is None:
            continue
        for t in got:
            for x in [t] + t["posts"]:
                x["c"] = tidy(x["c"])
        d = J.diff_trns(exp, got)
        if d:
            res.bad("%s did not keep the journal: %s" % (name, d))
            continue
        if cleared:
            continue    # a cleared posting cannot be read back (see C23)
        for other in cmds if name != "apply-rules" or case["rule"] is None else ["apply-rules"]:
            box.write("y.j", out)
            o = box.run(cmds[other][0]("y.j"))
            if o.rc != 0:
                res.bad("%s failed on the output of %s: %s" % (other, name, o.brief()))
                break
            again = box.read("y.j")
            if again != out:
                if other != name and (other == "apply-rules" and case["rule"] or other == "merge"):
                    continue
                res.bad("%s again is no fixed point after %s:\n%s" % (other, name, core_diff(out, again)))
                break
            res.feat("fixed point")


def core_diff(a, b):
    import difflib
    return "\n".join(list(difflib.unified_diff(a.decode("utf-8", "replace").split("\n"), b.decode("utf-8", "replace").split("\n"),
                                               lineterm="", n=1))[:30])


def shrink(case):
    t = case["trns"]
    for i in range(len(t)):
        if len(t) > 1:
            yield dict(case, trns=t[:i] + t[i + 1:])
    for i, x in enumerate(t):
        for k in range(len(x["posts"])):
            if len(x["posts"]) > 1:
                yield dict(case, trns=t[:i] + [dict(x, posts=x["posts"][:k] + x["posts"][k + 1:])] + t[i + 1:])
        for j in range(len(x["c"]["raw"])):
            yield dict(case, trns=t[:i] + [dict(x, c={"raw": x["c"]["raw"][:j] + x["c"]["raw"][j + 1:]})] + t[i + 1:])
        for k, p in enumerate(x["posts"]):
            for j in range(len(p["c"]["raw"])):
                if "fp-" not in p["c"]["raw"][j]:
                    q = dict(p, c={"raw": p["c"]["raw"][:j] + p["c"]["raw"][j + 1:]})
                    yield dict(case, trns=t[:i] + [dict(x, posts=x["posts"][:k] + [q] + x["posts"][k + 1:])] + t[i + 1:])


def known(k, box, r):
    box.write("k.j", k["input"])
    box.write("r.ron", k["rules"])
    o = box.run(["apply-rules", "-o", "o.j", "k.j", "table", "r.ron"])
    return o.rc == 0 and box.read("o.j") == k["becomes"].encode()
