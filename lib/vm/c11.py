"""C11: fmt preserves the journal's meaning and is idempotent."""
import calendar, random
from decimal import Decimal
from . import core, imp, journal as J, words as W

BUDGET = {"quick": (9000, 60), "thorough": (300000, 800)}
RULE = ("A case is one to four generated journals of comments, blank lines, includes, prices and transactions, written in a random style "
        "(date separators, spacing, comment characters, digit grouping, line ends) and formatted by one run of fmt. What is read from the "
        "result must be the generated items, in order, with every comment line; a second run must change no byte; an invalid journal "
        "among them must be left as it was. Non-trivial: at least one transaction with comments.")
REQUIRED = ["item trn", "item comment", "item blank", "item include", "item price", "several journals", "invalid journal left alone",
            "second run identical", "comment line kept", "lot price", "price", "balance", "virtual", "effective date", "code"]
RAW = W.TEXTS + ["", ":tag:", ":a:b: text", "key: value", "key:", ":x: foo: bar", ";; more", "* star", "#", "%", "|", "a  b", "text :t: more :u:",
                 "  inner".strip(), "= 5", "(x)", "[y]", "2020-01-01 header", "include x", "P 2020-01-01", "\u00a0nbsp", "verif"]
PATHS = ["other.journal", "dir/*.ledger", "with space.j", "/abs/path", "../up.j", "ünï.j", "a;b"]
BAD = ["2020-13-01 x\n  aa  1 GBP\n", "garbage\n", "2020-01-01 x\n", "2020-01-01 x\n  aa  1 GBP garbage\n", "2020-01-01 x\n  aa  1.2.3 GBP\n",
       "P 2020-01-01 GBP 1 USD\n", b"2020-01-01 \xff\n  aa  1 GBP\n", "include\n", "= auto\n  aa  1 GBP\n", "account assets\n"]


def raw(rng, rich):
    if rng.random() > rich:
        return []
    out = []
    for _ in range(rng.choice([1, 1, 2, 3, 6])):
        t = rng.choice(RAW) if rng.random() < 0.8 else W.text(rng)
        out.append(t)
    return out


def trn(rng, cleared, rich):
    t = W.journal_trn(rng, statuses=("", "", "!", "*") if cleared else ("", "", "!"), rich=0)
    for x in [t] + t["posts"]:
        x["c"] = {"raw": raw(rng, rich)}
    if rng.random() < 0.2:
        t["desc"] = rng.choice(["two  spaces", "a; not a comment", "x;y", "tab\there", "!a", "(a b) c" if t["code"] else "a (b)", "2020-01-01", "0"])
        if t["desc"][0] == "!" and not t["st"]:
            t["desc"] = "a!"
    if rng.random() < 0.1:
        y = rng.choice([0, 1, 999, 9999])
        t["date"] = "%04d-%02d-%02d" % (y, 2, rng.randint(1, 28))
    if rng.random() < 0.2:
        p = rng.choice(t["posts"])
        p["acc"] = rng.choice(["A (b)", "a [x] y", "x*y", "a b:c d", "!x" if p["st"] else "x!", "with;semi", "a=b", "1:2", "@x", "{x}", "日"])
    return t


def items(rng, cleared):
    out = []
    rich = rng.choice([0.2, 0.6, 0.9])
    n = rng.choice([0, 1, 2, 4, 8])
    for i in range(n):
        k = rng.randrange(10)
        after = out and out[-1][0] == "trn"
        if k < 4:
            out.append(["trn", trn(rng, cleared, rich)])
        elif k < 6:
            out.append(["blank", "" if after else rng.choice(["", "", " ", "\t", "   "])])
        elif k < 8:
            if after:
                out.append(["blank", ""])
            out.append(["comment", rng.choice(["", "", "  ", "\t"]) + rng.choice(";#%|*") + rng.choice(["", " ", "  "]), rng.choice(RAW)])
        elif k == 8:
            out.append(["include", rng.choice(PATHS), "" if after else rng.choice(["", "", " "])])
        else:
            y = rng.randint(1990, 2030)
            m = rng.randint(1, 12)
            out.append(["price", "%04d-%02d-%02d" % (y, m, rng.randint(1, calendar.monthrange(y, m)[1])),
                        "%02d:%02d:%02d" % (rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59)), rng.choice(W.COMMODITIES)[0],
                        W.amount(rng), rng.choice("-/.")])
    return out


def write(its, seed):
    rng = random.Random("w:%s" % seed)
    out = []
    for it in its:
        if it[0] == "blank":
            out.append(it[1] + "\n")
        elif it[0] == "comment":
            out.append(it[1] + it[2] + rng.choice(["", "", "  "]) + "\n")
        elif it[0] == "include":
            out.append(it[2] + "include" + rng.choice([" ", "  ", "\t"]) + it[1] + rng.choice(["", "", " "]) + "\n")
        elif it[0] == "price":
            sp = lambda: rng.choice([" ", " ", "  "])
            out.append("P" + sp() + it[1].replace("-", it[5]) + sp() + it[2] + sp() + it[3] + sp() + J._styled_amt(it[4], rng) +
                       rng.choice(["", "", ""]) + "\n")
        else:
            out.append(J.styled_trn(it[1], rng))
    s = "".join(out)
    if rng.random() < 0.1:
        s = s.replace("\n", "\r\n")
    elif rng.random() < 0.1 and its and its[-1][0] in ("comment", "include"):
        s = s[:-1]
    return s


def gen(rng, tier, i):
    cleared = core.HOOKS and rng.random() < 0.15
    n = rng.choice([1, 1, 1, 2, 3, 4, 6])
    js = [{"items": items(rng, cleared), "seed": rng.randrange(10 ** 9)} for _ in range(n)]
    bad = None
    if rng.random() < 0.1:
        bad = [rng.randint(0, n), rng.randrange(len(BAD))]
    return {"journals": js, "bad": bad, "cleared": cleared, "order": rng.sample(range(n), n)}


def key(it):
    """One item as something to compare."""
    k = it[0]
    if k == "blank":
        return ("blank",)
    if k == "comment":
        return ("comment", it[-1].strip())
    if k == "include":
        return ("include", it[1])
    if k == "price":
        return ("price", it[1], it[2], it[3], J.norm_amt(it[4]))
    t = it[1]

    def lines(x):
        return tuple(s.strip() for s in (x["raw"] if "raw" in x else x["c"]["raw"]))
    return ("trn", J.norm_head(t), lines(t), tuple((J.norm_post(p, False), lines(p)) for p in t["posts"]))


def count(res, its):
    for it in its:
        res.feat("item " + it[0])
        if it[0] == "trn":
            t = it[1]
            n = len(t["c"]["raw"]) + sum(len(p["c"]["raw"]) for p in t["posts"])
            if n:
                res.feat("comment line kept", n)
                res.nontrivial = True
            if t["eff"]:
                res.feat("effective date")
            if t["code"]:
                res.feat("code")
            for p in t["posts"]:
                for k, f in (("lot", "lot price"), ("pr", "price"), ("bal", "balance")):
                    if p[k] is not None:
                        res.feat(f)
                if p["re"] != "R":
                    res.feat("virtual")


def compare(res, its, data, name):
    try:
        got = J.read_items(data)
    except J.Unreadable as e:
        res.bad("%s: formatted journal cannot be read: %s\n%s" % (name, e, data[:800].decode("utf-8", "replace")))
        return
    want = [key(it) for it in its]
    got = [key(it) for it in got]
    for a, b in zip(want + [None] * len(got), got + [None] * (len(want) - len(got) if len(want) > len(got) else 0)):
        if a is None and b is None:
            break
        if a != b:
            res.bad("%s: an item became a different one:\nwas %r\nis  %r" % (name, a, b))
            return


def check(case, box, res):
    js = case["journals"]
    names = ["j%d.ledger" % i for i in range(len(js))]
    texts = [write(j["items"], j["seed"]).encode() for j in js]
    order = [names[k] for k in case["order"] if k < len(names)] if "order" in case else list(names)
    order += [n for n in names if n not in order]
    for n, t in zip(names, texts):
        box.write(n, t)
    if case["bad"]:
        pos, k = case["bad"]
        box.write("bad.j", BAD[k])
        order.insert(pos, "bad.j")
    o = box.run(["fmt"] + order)
    if o.timeout or o.crashed:
        res.bad("fmt crashed: " + o.brief())
        return
    if o.out:
        res.bad("fmt wrote to standard output: %r" % o.out[:200])
    if case["bad"]:
        if o.rc == 0:
            res.bad("an invalid journal was accepted")
        b = BAD[case["bad"][1]]
        if box.read("bad.j") != (b if isinstance(b, bytes) else b.encode()):
            res.bad("the invalid journal was changed")
        for j, n, t in zip(js, names, texts):
            d = box.read(n)
            if d != t:
                compare(res, j["items"], d, n)
        res.feat("invalid journal left alone")
        return
    if o.rc != 0:
        res.bad("fmt failed on valid journals: " + o.brief())
        return
    if len(js) > 1:
        res.feat("several journals")
    outs = [box.read(n) for n in names]
    for j, n, d in zip(js, names, outs):
        count(res, j["items"])
        compare(res, j["items"], d, n)
    if case["cleared"] or res.violations:
        return
    o = box.run(["fmt"] + names)
    if o.rc != 0:
        res.bad("fmt failed on its own output: " + o.brief())
    else:
        for n, d in zip(names, outs):
            if box.read(n) != d:
                res.bad("%s: formatting again changed it:\n%s" % (n, _diff(d, box.read(n))))
        res.feat("second run identical")


def _diff(a, b):
    import difflib
    return "\n".join(list(difflib.unified_diff(a.decode("utf-8", "replace").split("\n"), b.decode("utf-8", "replace").split("\n"), lineterm="", n=1))[:30])


def shrink(case):
    js = case["journals"]
    for i in range(len(js)):
        if len(js) > 1 and not case["bad"]:
            yield dict(case, journals=js[:i] + js[i + 1:])
    for i, j in enumerate(js):
        for k in range(len(j["items"])):
            its = j["items"][:k] + j["items"][k + 1:]
            # keep a blank line between a transaction and a comment
            if 0 < k < len(j["items"]) - 1 and j["items"][k - 1][0] == "trn" and j["items"][k][0] == "blank":
                continue
            yield dict(case, journals=js[:i] + [dict(j, items=its)] + js[i + 1:])
        for k, it in enumerate(j["items"]):
            if it[0] == "trn":
                for q in range(len(it[1]["posts"])):
                    if len(it[1]["posts"]) > 1:
                        t = dict(it[1], posts=it[1]["posts"][:q] + it[1]["posts"][q + 1:])
                        yield dict(case, journals=js[:i] + [dict(j, items=j["items"][:k] + [["trn", t]] + j["items"][k + 1:])] + js[i + 1:])


def known(k, box, r):
    box.write("k.j", k["input"])
    o = box.run(["fmt", "k.j"])
    return o.rc == 0 and box.read("k.j") == k["becomes"].encode()
