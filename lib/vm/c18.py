"""C18: PayPal records become exactly the right transactions."""
import random, re
from decimal import Decimal
from . import imp, journal as J, nw, pp

BUDGET = {"quick": (15000, 90), "thorough": (150000, 800)}
RULE = ("A case is a generated PayPal statement with a time zone table and output zone and, for 40% of them, one fault. Well-formed "
        "ones must import as the model says (fingerprints aside), faulty ones must be refused without touching the output. "
        "Non-trivial: has a record, or a fault.")
FAULTS = ["unknown-zone", "dup-zone", "zone-format", "nameless", "date", "time", "status", "amount", "balance", "short-row", "long-row",
          "no-column", "junk-row", "junk-zone", "zone-column", "out-zone", "no-zone-file"]
REQUIRED = ["refused " + f for f in FAULTS] + ["groups of several", "same instant in different zones", "date moved by zone"]
BAD_OFF = ["UTC", "UTC01", "UTC+1", "UTC+0100", "+01:00", "UTC+01:60", "UTC+01:99", "UTC+24", "UTC-24:00", "UTC+25", "utc+01", "GMT+01",
           "UTC+01:", "", "UTC +01", "UTC+01:0", "UTC+001", "xUTC+01", "UTC+01x", "UTC+99:59"]
BAD_DATE = ["2019-01-01", "32/01/2019", "01/13/2019", "29/02/2019", "", "1 Jan 2019", "01/01/2019 x", "00/01/2019", "31/04/2020"]
BAD_TIME = ["25:00:00", "12:60:00", "12:00", "", "12:00:00 PM", "noon", "120000", "12:00:61"]
BAD_AMT = ["1,234.56", "", "x", "1.2.3", "$5.00", "5.00 USD", "--5", "1..0", "(5.00)", "-"]


def gen(rng, tier, i):
    fault = None
    n = rng.random()
    st = pp.statement(rng, rng.randint(101, 300) if n < 0.004 else rng.randint(20, 80) if tier == "thorough" and n < 0.05 else None)
    if rng.random() < 0.4:
        fault = {"kind": rng.choice(FAULTS), "seed": rng.randrange(10 ** 9)}
        if not st["recs"]:
            st = pp.statement(rng, 4)
    return {"st": st, "fault": fault, "old": rng.random() < 0.5, "legacy": rng.random() < 0.3}


def bad_amount(rng):
    return rng.choice(BAD_AMT) if rng.random() < 0.5 else imp.near_miss(
        rng, rng.choice(["12.34", "-5.60", "1234.50", "0.05", "-0.99"]), "x$\u00a3,(/:'O\u0661", lambda s: not re.search("[x$\u00a3,(/:'O\u0661]", s))


# of years that a journal cannot express
FAR_DATE = ["01/02/+12345", "01/02/-0005", "20/12/-0001", "20/01/+10000", "31/12/+262142", "31/12/+262143", "01/01/-262143", "01/01/-262142"]


def bad_date(rng):
    if rng.random() < 0.15:
        return rng.choice(FAR_DATE)
    return rng.choice(BAD_DATE) if rng.random() < 0.5 else imp.near_miss(
        rng, rng.choice(["01/09/2021", "29/02/2020", "31/12/1999"]), "xqzO.,;-", lambda s: not re.search("[xqzO.,;-]", s))


def bad_time(rng):
    return rng.choice(BAD_TIME) if rng.random() < 0.5 else imp.near_miss(
        rng, rng.choice(["01:09:21", "23:59:59", "00:00:00"]), "xqzO.,;-", lambda s: not re.search("[xqzO.,;-]", s))


OFF_RX = re.compile(r"UTC[-+](\d\d)(?::(\d\d))?", re.A)


def bad_offset(rng):
    """What is not an offset, but may be near one."""
    while True:
        s = pp.some_zone(rng, "")[1]
        for _ in range(rng.choice([1, 1, 2])):
            i = rng.randrange(len(s) + 1)
            c = rng.choice("0123456789:+- UTCxz.\u0661\u2212")
            s = rng.choice([s[:i] + c + s[i:], s[:i] + s[i + 1:], s[:i] + c + s[i + 1:], s.lower(), "x" + s, s + "x", s + ":00", s[:4] + s])
        m = OFF_RX.fullmatch(s)
        if not (m and int(m.group(1)) < 24 and int(m.group(2) or 0) < 60):
            return s


def junk(rng, head):
    """A row that is no record, though some would skip it."""
    mark = rng.choice(["#", ";", "//", "--", "%", "!", "'", "*"])
    words = rng.choice(["", " exported 01/02/2020", "Total", " a, b", "x"])
    return rng.choice([[mark + words], [mark + words], [mark + words] + ["x"] * (len(head) - 1), [mark + words] + [""] * (len(head) - 1), [""] * len(head), list(head),
                       ["Total"] + [""] * (len(head) - 1), ["END"], [mark + head[0]] + list(head[1:])])


def malform(st, fault):
    """-> (records, zone table, out zone)"""
    rng = random.Random("fault:%s" % fault["seed"])
    k = fault["kind"]
    recs = [dict(r) for r in st["recs"]]
    r = rng.choice(recs)
    raw = {}
    if k == "unknown-zone":
        r["tz"] = rng.choice(["XYZ", "", "gmt", "UTC+01", r["tz"] + "x", r["tz"].lower(), r["tz"].upper(), r["tz"].capitalize(), r["tz"] + ".", "." + r["tz"], r["tz"][:-1],
                             r["tz"][1:], r["tz"] * 2])
        if r["tz"].strip() in [z[0] for z in st["zones"]]:
            r["tz"] = "XYZ"
    elif k == "status":
        r["status"] = rng.choice(["", "completed", "Denied", "Cancelled", "Completed.", "pending", "PENDING", "Pending,",
                               "Complete", "Pendin", "Cleared", "!", "*", "Pend", "Refunded", "xCompleted", "Pending Completed"])
    elif k == "nameless":
        zmap = {a: m for a, _, m in st["zones"]}
        t = pp.instant(r, zmap)
        for q in recs:
            if pp.instant(q, zmap) == t:
                q["name"] = ""
    elif k == "amount":
        r["amt"] = bad_amount(rng)
    elif k == "balance":
        r["bal"] = bad_amount(rng)
    recs_st = dict(st, recs=recs)
    table = pp.table(recs_st)
    zones = [[a, o] for a, o, _ in st["zones"]]
    n = rng.randrange(1, len(table))
    head = ["abbreviation", "utc_offset"]
    if k == "date":
        row, col = table[n], table[0].index
        if rng.random() < 0.15:
            # the first and last days, and beyond them in the output zone
            far = rng.choice([["FAR", "UTC-12", "31/12/9999", "23:59:59"], ["FAR", "UTC-23:59", "31/12/9999", "12:00:00"], ["FAR", "UTC+15", "01/01/0000", "00:00:00"],
                              ["FAR", "UTC+00", "31/12/+262142", "23:59:59"], ["FAR", "UTC+00", "01/01/-262143", "00:00:00"],
                              ["FAR", "UTC-12", "31/12/+262142", "11:59:59"], ["FAR", "UTC+12", "01/01/-262143", "12:00:00"]])
            zones.append(far[:2])
            row[col("Time zone")], row[col("Date")], row[col("Time")] = far[0], far[2], far[3]
        else:
            row[col("Date")] = bad_date(rng)
            if rng.random() < 0.3:
                row[col("Time")] = rng.choice(["23:59:59", "00:00:00"])
    elif k == "time":
        table[n][table[0].index("Time")] = bad_time(rng)
    elif k == "short-row":
        table[n] = table[n][:rng.randint(1, len(table[n]) - 1)]
    elif k == "long-row":
        table[n] = table[n] + ["x"]
    elif k == "junk-row":
        table.insert(n + rng.randrange(2), junk(rng, table[0]))
    elif k == "junk-zone":
        zones.insert(rng.randint(0, len(zones)), junk(rng, head))
    elif k == "no-column":
        i = table[0].index(rng.choice(["Date", "Time", "Time zone", "Type", "Status", "Currency", "Amount", "Balance"]))
        if rng.random() < 0.5:
            table[0][i] = rng.choice(["Other", table[0][i].upper() + "x", "x"])
        else:
            for row in table:
                del row[i]
    elif k == "dup-zone":
        z = list(rng.choice(zones))
        if rng.random() < 0.5:
            z[1] = "UTC+03"
        zones.insert(rng.randint(0, len(zones)), z)
    elif k == "zone-format":
        zones.insert(rng.randint(0, len(zones)), ["QQQ", rng.choice(BAD_OFF) if rng.random() < 0.5 else bad_offset(rng)])
    elif k == "zone-column":
        head[rng.randrange(2)] = "x"
    zt = ",".join(head) + "\n" + "".join(",".join(z) + "\n" for z in zones)
    return table, zt, rng.choice(["Nowhere/City", "", "GMT+25", "europe london"]) if k == "out-zone" else st["out_tz"]


def check(case, box, res):
    st, fault = case["st"], case["fault"]
    if fault:
        table, zt, oz = malform(st, fault)
    else:
        table, zt, oz = pp.table(st), pp.tz_table(st), st["out_tz"]
    box.write("in.csv", nw.to_csv(table, st["layout"], "utf-8", 0))
    if not fault or fault["kind"] != "no-zone-file":
        box.write("tz.csv", zt)
    if case["old"]:
        box.write("out.j", imp.OLD)
    before = box.snapshot()
    args = ["import", "-o", "out.j", "paypal-csv", "--output-timezone", oz, "--fingerprint-namespace", st["ns"]]
    if case["legacy"]:
        args.append("--include-legacy-fingerprint")
    o = box.run(args + ["in.csv", "tz.csv"], env={"TZ": "Asia/Tokyo"})
    if fault:
        imp.refused(res, box, o, before, "faulty statement (%s)" % fault["kind"])
        res.feat("refused " + fault["kind"])
        res.nontrivial = True
        return
    want = pp.expect(st)
    if o.rc != 0:
        res.bad("a well-formed statement was refused: " + o.brief())
        return
    got = imp.read(res, box.read("out.j"))
    if got is None:
        return
    got, want = imp.drop_fps(got), imp.drop_fps(want)
    imp.zero_ok(want, got)
    d = J.diff_trns(want, got)
    if d:
        res.bad("import differs from the statement: " + d)
    for t, recs in pp.groups(st):
        if len(recs) > 1:
            res.feat("groups of several")
        if len({r["tz"] for r in recs}) > 1:
            res.feat("same instant in different zones")
        if recs[0]["date"] != pp.local_date(t, st["out_tz"]):
            res.feat("date moved by zone")
    res.feat("records", len(st["recs"]))
    res.nontrivial = bool(st["recs"])


def shrink(case):
    st = case["st"]
    for i in range(len(st["recs"])):
        if len(st["recs"]) > 1:
            yield dict(case, st=dict(st, recs=st["recs"][:i] + st["recs"][i + 1:]))
    if st["layout"] is not None:
        yield dict(case, st=dict(st, layout=None))
