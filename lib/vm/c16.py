"""C16: every Nationwide CSV row becomes exactly the right transaction."""
import copy, random, re
from decimal import Decimal
from . import c18, fpr, imp, journal as J, nw

BUDGET = {"quick": (20000, 90), "thorough": (150000, 800)}
RULE = ("A case is a generated Nationwide statement (five or six columns, any layout of the CSV) and, for half of them, one "
        "malformation. Well-formed statements must import as the model says (fingerprints aside, which C17 judges); malformed ones "
        "must be refused without touching the output. Non-trivial: has a row, or a malformation.")
BAD_AMT = ["1.23", "\u00a31.2", "\u00a31,234.56", "\u00a31.234", "$1.23", "\u00a3", "\u00a3-", "\u00a31.23x", "x\u00a31.23", "\u00a3+1.00",
           "\u00a31..23", "-\u00a31.23", "\u00a3--1.00", "\u00a31.23 CR", "\u00a312", "\u00a3.50", "\u00a31 .00", "\u00a31.00\u00a3", "abc",
           "\u00a3\u00a31.00", "\u20ac1.00", "\u00a31e5.00", "\u00a31_0.00", "\u00a399999999999999999999.00", "\u00a31.00 \u00a32.00"]
BAD_DATE = ["2021-09-01", "31 Feb 2021", "01 Foo 2021", "", "00 Jan 2021", "32 Jan 2021", "29 Feb 2021", "01 Sep 2021 x", "Sep 2021",
            "01/09/2021", "01 Sep", "x 01 Sep 2021", "31 Nov 2020", "01 Sep 20 21", "1st Sep 2021"]
NW_AMT = re.compile("\u00a3-?[0-9]+\\.[0-9]{2}")
FAULTS = ["head1", "head2", "head3", "head-amount", "cols", "cut-head", "amount", "balance", "date", "both", "neither", "short-row", "junk-row", "encoding"]
REQUIRED = ["rows 5", "rows 6"] + ["refused " + f for f in FAULTS]


def gen(rng, tier, i):
    st = nw.statement(rng)
    if rng.random() < (0.05 if tier == "thorough" else 0.005):
        st["rows"] = nw.rows(rng, rng.choice([rng.randint(30, 150), rng.randint(258, 300)]), st["cols"])
    case = {"st": st, "fault": None, "old": rng.random() < 0.5, "legacy": rng.random() < 0.3, "stdio": rng.random() < 0.15}
    if rng.random() < 0.5:
        k = rng.choice(FAULTS)
        while k not in ("head1", "head2", "head3", "head-amount", "cols", "cut-head", "encoding") and not st["rows"]:
            st["rows"] = nw.rows(rng, rng.randint(1, 8), st["cols"])
        if k == "balance":
            st = case["st"] = nw.statement(rng, cols=6, n=rng.randint(1, 8))
        case["fault"] = {"kind": k, "seed": rng.randrange(10 ** 9)}
    return case


def bad_amount(rng):
    return rng.choice(BAD_AMT) if rng.random() < 0.5 else imp.near_miss(
        rng, rng.choice(["\u00a312.34", "\u00a3-5.60", "\u00a31234.50", "\u00a30.05"]), "0123456789.,-+\u00a3$ xOe_\u00b2", NW_AMT.fullmatch)


# of years that a journal cannot express
FAR_DATE = ["01 Feb +12345", "01 Feb -0005", "31 Dec -0001", "01 Jan +10000", "31 Dec +262142", "31 Dec +262143", "01 Jan -262143", "1 Mar +99999"]


def bad_date(rng):
    if rng.random() < 0.15:
        return rng.choice(FAR_DATE)
    return rng.choice(BAD_DATE) if rng.random() < 0.5 else imp.near_miss(
        rng, rng.choice(["01 Sep 2021", "29 Feb 2020", "31 Dec 1999"]), "xqzO/.,;", lambda s: not re.search("[xqzO/.,;]", s))


def malform(st, fault):
    recs = nw.table(st)
    rng = random.Random("fault:%s" % fault["seed"])
    k = fault["kind"]
    n = 4 + rng.randrange(len(st["rows"])) if st["rows"] else None
    amt = [3, 4]
    if k in ("head1", "head2", "head3"):
        r = recs[int(k[4]) - 1]
        r[0] = rng.choice([r[0][:-1], r[0].upper(), "x" + r[0], "", recs[int(k[4]) % 3][0], r[0] + " x"])
    elif k == "head-amount":
        recs[rng.choice([1, 2])][1] = bad_amount(rng)
    elif k == "cols":
        h = recs[3]
        m = rng.randrange(5)
        if m == 0:
            i, j = rng.sample(range(len(h)), 2)
            h[i], h[j] = h[j], h[i]
        elif m == 1:
            del h[rng.randrange(len(h))]
        elif m == 2:
            h.append("Extra")
        elif m == 3:
            h[rng.randrange(len(h))] = rng.choice(["paid out", "Other", "Date ", "x"])
            if h == nw.HEADS[st["cols"]]:
                h[0] = "x"
            if [c.strip() for c in h] == nw.HEADS[st["cols"]]:
                h[1] = "x"
        else:
            del recs[3]
            if len(recs) > 3:
                pass
    elif k == "cut-head":
        del recs[rng.randrange(4):]
    elif k == "amount":
        r = recs[n]
        i = next(i for i in amt if r[i])
        r[i] = bad_amount(rng)
    elif k == "balance":
        recs[n][5] = bad_amount(rng) if rng.random() < 0.9 else ""
    elif k == "date":
        recs[n][0] = bad_date(rng)
    elif k == "both":
        recs[n][3] = recs[n][4] = recs[n][3] or recs[n][4]
    elif k == "neither":
        recs[n][3] = recs[n][4] = ""
    elif k == "junk-row":
        recs.insert(rng.randint(0, len(recs)), c18.junk(rng, recs[3]))
    elif k == "short-row":
        recs[n] = recs[n][:rng.randint(2, len(recs[n]) - 1)]
    return recs


def encode(recs, st, fault):
    """The file, perhaps with the marks of an encoding that statements are not in."""
    data = nw.to_csv(recs, st["layout"])
    if not fault or fault["kind"] != "encoding":
        return data
    rng = random.Random("fault:%s" % fault["seed"])
    text = data.decode("cp1252")
    return rng.choice([lambda: b"\xef\xbb\xbf" + data, lambda: b"\xef\xbb\xbf" + text.encode(), lambda: b"\xff\xfe" + data, lambda: b"\xfe\xff" + data,
                       lambda: b"\xff\xfe" + text.encode("utf-16-le"), lambda: b"\xfe\xff" + text.encode("utf-16-be"), lambda: text.encode("utf-16-le"),
                       lambda: text.encode(), lambda: text.encode("utf-16-be"), lambda: text.encode("utf-7"), lambda: b"\x00" + data,
                       lambda: b"\x00\x00\xfe\xff" + text.encode("utf-32-be")])()


def check(case, box, res):
    st, fault = case["st"], case["fault"]
    recs = malform(st, fault) if fault else nw.table(st)
    data = encode(recs, st, fault)
    args = ["import"]
    use_out = not case["stdio"]
    if use_out:
        args += ["-o", "out.j"]
    args.append("nationwide-csv")
    if case["legacy"]:
        args.append("--include-legacy-fingerprint")
    if use_out:
        box.write("in.csv", data)
    if case["old"]:
        box.write("out.j", imp.OLD)
    before = box.snapshot()
    o = box.run(args + (["in.csv"] if use_out else ["-"]), stdin=None if use_out else data)
    if fault:
        imp.refused(res, box, o, before, "malformed statement (%s)" % fault["kind"])
        res.feat("refused " + fault["kind"])
        res.nontrivial = True
        return
    if o.rc != 0:
        res.bad("a well-formed statement was refused: " + o.brief())
        return
    got = imp.read(res, box.read("out.j") if use_out else o.out)
    if got is None:
        return
    want = imp.drop_fps(nw.expect(st, "NS"))
    got = imp.drop_fps(got)
    imp.zero_ok(want, got)
    d = J.diff_trns(want, got)
    if d:
        res.bad("import differs from the statement: " + d)
    for t in got:
        if len(t["posts"]) == 2 and all(p["amt"] for p in t["posts"]) and sum(Decimal(p["amt"]["q"]) for p in t["posts"]) != 0:
            res.bad("postings do not sum to zero:\n" + J.canon_trn(t))
    res.feat("rows %d" % st["cols"], len(st["rows"]))
    res.nontrivial = bool(st["rows"])


def shrink(case):
    st = case["st"]
    for i in range(len(st["rows"])):
        if len(st["rows"]) > 1:
            yield dict(case, st=dict(st, rows=st["rows"][:i] + st["rows"][i + 1:]))
    if st["layout"] is not None:
        yield dict(case, st=dict(st, layout=None))
    if case["stdio"] or case["old"]:
        yield dict(case, stdio=False, old=False)
