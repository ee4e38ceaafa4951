"""PayPal CSV statements: generator, writer and reference import."""
import datetime as D, random, zoneinfo
from decimal import Decimal
from . import fpr, journal as J, nw

COLS = ["Date", "Time", "Time zone", "Name", "Type", "Status", "Currency", "Amount", "Receipt ID", "Balance"]
NAMES = ["Somecompany Inc.", "Othercompany Ltd.", "x", "Caf\u00e9 \u2603", "A, B", "O'Neil \"Bob\"", "\u65e5\u672c", "a: b", "E-Bay; UK", "50%"]
TYPES = ["Pre-approved Payment Bill User Payment", "Bank deposit to PayPal account", "General Currency Conversion", "x", "Refund, partial",
         "\u00dcberweisung", "a: b"]
CURS = ["USD", "GBP", "EUR", "JPY", "USD", "GBP", "GBp", "usd", "\u20ac", "XBT"]
ZONES = [("GMT", "UTC+00", 0), ("BST", "UTC+01", 60), ("PST", "UTC-08", -480), ("IST", "UTC+05:30", 330), ("NPT", "UTC+05:45", 345),
         ("NST", "UTC-03:30", -210), ("LINT", "UTC+14", 840), ("AoE", "UTC-12:00", -720), ("X Y", "UTC-00", 0)]
OUT_ZONES = ["UTC", "Europe/London", "America/Los_Angeles", "Asia/Kolkata", "Australia/Lord_Howe", "Pacific/Kiritimati", "Asia/Tokyo",
             "America/New_York", "Pacific/Apia"]
# instants at which out-zones change day or offset
EDGES = ["2020-03-29 00:59:59", "2020-03-29 01:00:00", "2020-10-25 00:59:59", "2020-10-25 01:00:00", "2020-12-31 23:59:59",
         "2021-01-01 00:00:00", "2020-02-29 07:59:59", "2020-02-29 08:00:00", "2011-12-30 10:00:00", "2020-06-30 18:29:59",
         "2020-06-30 18:30:00", "1969-12-31 23:59:58", "1965-07-02 12:00:00", "1970-01-01 00:00:00", "2038-01-19 03:14:07",
         "2020-07-01 23:00:00", "2020-07-01 22:59:59"]


def quantity(rng):
    k = rng.randrange(10)
    if k < 5:
        q = "%d.%02d" % (rng.randint(0, 500), rng.randint(0, 99))
    elif k == 5:
        q = str(rng.randint(1, 5000))
    elif k == 6:
        q = "%d.%d" % (rng.randint(0, 50), rng.randint(0, 9))
    elif k == 7:
        q = "%d.%02d" % (rng.randint(10 ** 6, 10 ** 13), rng.randint(0, 99))
    elif k == 8:
        q = rng.choice(["1234567890123456.78", "0.10", "100", "1000.00", "0.01", "9007199254740993", "0.30000000000000004", "1.10",
                        "123456789.987654321", "0.00000001"])
    else:
        q = "%d.%02d" % (rng.randint(0, 99), rng.choice([0, 10, 50]))
    return "-" + q if rng.random() < 0.5 and Decimal(q) else q


def norm_q(q):
    d = Decimal(q).normalize()
    s = format(d, "f")
    return "0" if d == 0 else s


def instant(rec, zones):
    off = zones[rec["tz"]]
    return D.datetime.strptime(rec["date"] + " " + rec["time"], "%Y-%m-%d %H:%M:%S") - D.timedelta(minutes=off)


def some_zone(rng, name):
    """A zone of any offset that there can be."""
    h, m = rng.choice([rng.randint(0, 23), rng.choice([0, 8, 9, 12, 19, 20, 23])]), rng.choice([0, 0, 1, 9, 15, 29, 30, 45, 59, 59, rng.randint(0, 59)])
    sign = rng.choice("+-")
    text = "UTC%s%02d" % (sign, h) + (":%02d" % m if m or rng.random() < 0.5 else "")
    return (name, text, (h * 60 + m) * (1 if sign == "+" else -1))


def statement(rng, n=None):
    zs = rng.sample(ZONES, rng.randint(1, len(ZONES)))
    if rng.random() < 0.3:
        zs = zs[:rng.randint(1, 3)] + [some_zone(rng, a) for a in rng.sample(["JST", "Z", "#A", "#", ";B", "//C", "'D", "gmt", "GMTX", "G", "bst", "M-1", "\u00dc", "E", "UTC+01"],
                                                                            rng.randint(1, 4))]
    zmap = {a: m for a, _, m in zs}
    recs = []
    n = rng.choice([0, 1, 2, 3, 5, 9]) if n is None else n
    t = D.datetime.strptime(rng.choice(EDGES), "%Y-%m-%d %H:%M:%S")
    while len(recs) < n:
        k = rng.randint(257, n) if n > 256 and rng.random() < 0.7 else rng.choice([1, 1, 2, 3, 4])
        named = rng.randrange(k)
        for i in range(k):
            # the same instant may be written in different zones
            z = rng.choice(zs) if i == 0 or rng.random() < 0.3 else z
            lt = t + D.timedelta(minutes=z[2])
            rec = {"date": lt.strftime("%Y-%m-%d"), "time": lt.strftime("%H:%M:%S"), "tz": z[0],
                   "name": rng.choice(NAMES) if i == named or rng.random() < 0.3 else "",
                   "type": rng.choice(TYPES), "status": rng.choice(["Completed", "Pending"]), "cur": rng.choice(CURS),
                   "amt": quantity(rng), "rid": rng.choice(["", "", "1234-5678", "R 1", "\u00e9"]), "bal": quantity(rng)}
            if recs and rng.random() < 0.1 and i:
                rec = dict(recs[-1], name=rec["name"] or recs[-1]["name"])
            recs.append(rec)
        t += rng.choice([D.timedelta(seconds=1), D.timedelta(minutes=rng.randint(1, 300)), D.timedelta(days=rng.randint(1, 40)),
                         D.timedelta(hours=-1), D.timedelta(hours=1)])
        if rng.random() < 0.2:
            t = D.datetime.strptime(rng.choice(EDGES), "%Y-%m-%d %H:%M:%S")
    st = {"recs": recs, "zones": [list(z) for z in zs], "layout": rng.choice([None, rng.randrange(10 ** 9)]),
          "cols": COLS, "out_tz": rng.choice(OUT_ZONES), "ns": rng.choice(["paypal", "paypal", "pp/x+1", "A_b", "0"])}
    if rng.random() < 0.3:
        cols = COLS + rng.sample(["From Email Address", "Gross", "Fee", "Note"], rng.randint(1, 3))
        rng.shuffle(cols)
        st["cols"] = cols
    return st


def table(st):
    rng = random.Random("extra:%s" % st["layout"])
    out = [list(st["cols"])]
    for r in st["recs"]:
        y, m, d = r["date"].split("-")
        cells = {"Date": "%s/%s/%s" % (d, m, y), "Time": r["time"], "Time zone": r["tz"], "Name": r["name"], "Type": r["type"],
                 "Status": r["status"], "Currency": r["cur"], "Amount": r["amt"], "Receipt ID": r["rid"], "Balance": r["bal"]}
        out.append([cells[c] if c in cells else rng.choice(["", "extra", "1.00"]) for c in st["cols"]])
    return out


def write(st):
    return nw.to_csv(table(st), st["layout"], "utf-8", blank_after_head=0)


def tz_table(st):
    return "abbreviation,utc_offset\n" + "".join("%s,%s\n" % (a, o) for a, o, _ in st["zones"])


def local_date(utc, zone):
    return utc.replace(tzinfo=D.timezone.utc).astimezone(zoneinfo.ZoneInfo(zone)).strftime("%Y-%m-%d")


def groups(st):
    zmap = {a: m for a, _, m in st["zones"]}
    out = []
    for r in st["recs"]:
        t = instant(r, zmap)
        if not out or out[-1][0] != t:
            out.append((t, []))
        out[-1][1].append(r)
    return out


def fp_acc(r, i):
    amt, bal = J.amount(norm_q(r["amt"]), r["cur"], True), J.amount(norm_q(r["bal"]), r["cur"], True)
    return fpr.Acc().date(r["date"]).time(r["time"]).s(r["tz"]).opt(lambda a, v: a.s(v), r["name"] or None).s(r["type"]) \
        .amount(amt).amount(bal).u64(i)


def expect(st, legacy=False, peer_v1=False):
    """The transactions, or None when a group has no name."""
    out = []
    for t, recs in groups(st):
        name = next((r["name"] for r in recs if r["name"]), None)
        if name is None:
            return None
        posts = []
        for i, r in enumerate(recs):
            a = fp_acc(r, i)
            amt, bal = J.amount(norm_q(r["amt"]), r["cur"], True), J.amount(norm_q(r["bal"]), r["cur"], True)
            st_ = {"Completed": "*", "Pending": "!"}[r["status"]]
            sf = ["import-self", "unknown-account", fpr.tag("ppcsv", st["ns"], a.s("self"))]
            pf = ["import-peer", "unknown-account"]
            if peer_v1:
                pf.append(fpr.tag("ppcsv", st["ns"], a.s("peer")))
            if legacy:
                sf.append(fpr.legacy(st["ns"], a.s("self")))
                pf.append(fpr.legacy(st["ns"], a.s("peer")))
            sv = {"receipt_id": r["rid"]} if r["rid"] else {}
            pv = {"trn_type": r["type"]}
            if r["name"]:
                pv["trn_name"] = r["name"]
            posts.append(J.post("assets:unknown", amt, st=st_, bal=bal, c=J.comment(f=sf, v=sv)))
            posts.append(J.post("expenses:unknown" if amt["q"].startswith("-") else "income:unknown",
                                J.amount(J.neg(amt["q"]), r["cur"], True), st=st_, c=J.comment(f=pf, v=pv)))
        out.append(J.trn(local_date(t, st["out_tz"]), name, posts))
    return out
