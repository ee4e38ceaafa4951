"""Nationwide CSV statements: generator, writer and reference import."""
import calendar, random
from . import fpr, journal as J, words as W

MONTHS = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]
TRN = ["FOO CO", "DIRECT DEBIT PAYMENT", "Bank credit A N Other", "Contactless Payment", "x", "O'Neil & Sons", "50% OFF", "Café",
       "A,B", "say \"hi\"", "REF: 12345", "a;b", "Transfer to ****1234", "£5", "100", "-", "= total", "É", "tab", "foo: bar", ":a:",
       "Cr\u00e8me \u20ac5", "\u2018quoted\u2019", "@ x", "#1", "http://a.b/c",
       "\u00c3\u00a9t\u00c3\u00a9", "\u00c2\u00a35", "\u00e2\u201a\u00ac10"]
LOC = ["", "", "FOO.CO/THING#", "LONDON", "a @ b", "x,y", "Z\u00fcrich", "SHOP 12:30", "Z\u00c3\u00bcrich"]
TYPES = ["ATM", "Transfer", "Direct debit", "Visa purchase", "Bank credit", "x", "P, Q", "Cr\u00e9dit", "a: b", "Cr\u00c3\u00a9dit"]
ACCOUNTS = ["My Account ****4321", "Current", "FlexDirect 07-00-00 12345678", "Sav\u00edngs", "A, B", "x", "****1", "Joint \"J\"", "Acc: 1"]


def ok(s):
    return s.strip() == s and "\t" not in s and not ("  " in s and ";" in s) and (not s or s[0] not in "!*(;=")


def trn_text(rng, prev):
    if prev and rng.random() < 0.15:
        s = rng.choice(prev)
        if rng.random() < 0.7:
            m = W.mutate(rng, s, W.LATIN)
            return m if m and ok(m) else s
        return s
    return W.pick(rng, TRN, lambda s: bool(s) and ok(s), 0.25, W.LATIN)


def location(rng, t):
    """The location of a row with text t."""
    k = rng.randrange(12)
    if k == 0:
        return t
    if k == 1:
        s = t[rng.randrange(len(t)):].strip()
        return s if ok(s) else ""
    if k == 2:
        s = t[:rng.randint(1, len(t))].strip()
        return s if ok(s) else ""
    return W.pick(rng, LOC, ok, 0.2, W.LATIN)


def money(q):
    neg = q.startswith("-")
    return "\u00a3" + ("-" if neg else "") + q.lstrip("-")


def quantity(rng, wide):
    r = rng.random()
    if r < 0.5:
        return "%d.%02d" % (rng.randint(0, 999), rng.randint(0, 99))
    if r < 0.6:
        return "0.%02d" % rng.randint(0, 9)
    if r < 0.7:
        return "%d.%02d" % (rng.randint(1000, 999999), rng.choice([0, 1, 5, 10, 90, 99]))
    if r < 0.72 and wide:
        return "0.00"
    if r < 0.77 and wide:
        return rng.choice(["92233720368547758.07", "90071992547409.93", "21474836.48", "42949672.96", "9007199254740993.01",
                           "2147483648.00", "21474836.47", "0.00"])
    return "%d.%02d" % (rng.choice([1, 5, 10, 100]), rng.choice([0, 50, 99]))


def dates(rng, n, order):
    """n dates in which equal ones are adjacent."""
    y = rng.choice([2018, 2019, 2020, 2021, 2024, 1999, 2000, rng.randint(1930, 2110)])
    out = []
    while len(out) < n:
        m = rng.randint(1, 12)
        d = "%04d-%02d-%02d" % (y + rng.choice([0, 0, 1]), m, rng.choice([1, 2, 9, 10, 28, calendar.monthrange(y, m)[1] if m != 2 else 28]))
        if d not in out:
            # now and then more than a byte can count
            out += [d] * (rng.randint(257, n) if n > 256 and rng.random() < 0.7 else rng.choice([1, 1, 1, 2, 3, 6]))
    out = out[:n]
    if order == "asc":
        out.sort()
    elif order == "desc":
        out.sort(reverse=True)
    return out


def rows(rng, n, cols, wide=True):
    out = []
    for d in dates(rng, n, rng.choice(["asc", "desc", "any"])):
        if out and out[-1]["date"] == d and rng.random() < 0.3:
            out.append(dict(out[-1]))      # the same thing twice on one day
            continue
        q = quantity(rng, wide)
        if rng.random() < 0.03 and float(q):
            q = "-" + q
        r = {"date": d, "t": trn_text(rng, [x["t"] for x in out[-5:]]), "in": None, "out": None}
        r[rng.choice(["in", "out"])] = q
        if cols == 6:
            r["type"] = r["t"] if rng.random() < 0.05 else W.pick(rng, TYPES, lambda s: bool(s) and ok(s), 0.15, W.LATIN)
            b = quantity(rng, wide)
            r["bal"] = "-" + b if rng.random() < 0.3 and float(b) else b
        else:
            r["loc"] = location(rng, r["t"])
        out.append(r)
    return out


def statement(rng, cols=None, n=None, account=None, wide=True):
    cols = cols or rng.choice([5, 6])
    return {"cols": cols, "account": account or W.pick(rng, ACCOUNTS, lambda s: bool(s) and ok(s), 0.2, W.LATIN), "rows": rows(rng, rng.choice([0, 1, 2, 3, 6, 12]) if n is None else n,
                                                                                    cols, wide),
            "layout": rng.choice([None, rng.randrange(10 ** 9)])}


def fmt_date(d):
    y, m, dd = d.split("-")
    return "%s %s %s" % (dd, MONTHS[int(m) - 1], y)


HEADS = {5: ["Date", "Transactions", "Location", "Paid out", "Paid in"],
         6: ["Date", "Transaction type", "Description", "Paid out", "Paid in", "Balance"]}


def table(st):
    """The statement as records of cells."""
    recs = [["Account Name:", st["account"]], ["Account Balance:", st.get("balance", "\u00a3-123.45")],
            ["Available Balance:", st.get("avail", "\u00a3500.00")], list(HEADS[st["cols"]])]
    for r in st["rows"]:
        m = lambda q: "" if q is None else money(q)
        if st["cols"] == 5:
            recs.append([fmt_date(r["date"]), r["t"], r["loc"], m(r["out"]), m(r["in"])])
        else:
            recs.append([fmt_date(r["date"]), r["type"], r["t"], m(r["out"]), m(r["in"]), m(r["bal"])])
    return recs


def to_csv(recs, layout, encoding="cp1252", blank_after_head=3):
    """CSV text of the records in a style picked by layout."""
    rng = random.Random("csv:%s" % layout) if layout is not None else None
    nl = rng.choice(["\n", "\r\n"]) if rng else "\n"
    lines = []
    for i, rec in enumerate(recs):
        cells = []
        for c in rec:
            must = any(x in c for x in ",\"\r\n") or c != c.strip()
            pad = rng is not None and rng.random() < 0.1
            if rng is None or must or rng.random() < 0.7:
                body = (" " if pad and rng.random() < 0.5 else "") + c + (" " if pad else "")
                cells.append('"%s"' % body.replace('"', '""'))
            else:
                cells.append((" " if pad else "") + c + (" " if pad else ""))
        line = ",".join(cells)
        if len(rec) == 1 and not rec[0]:
            line = '""'
        lines.append(line)
        if i + 1 == blank_after_head or (rng and rng.random() < 0.05):
            lines.append("")
    s = nl.join(lines) + (nl if not rng or rng.random() < 0.8 else "")
    return s.encode(encoding)


def write(st):
    return to_csv(table(st), st["layout"])


def expect(st, ns, legacy=False):
    """The transactions that importing st should give."""
    out, prev, n = [], None, 0
    for r in st["rows"]:
        n = n + 1 if r["date"] == prev else 0
        prev = r["date"]
        q = r["in"] if r["in"] is not None else J.neg(r["out"])
        selfa = J.amount(q, "GBP", True)
        peera = J.amount(J.neg(q), "GBP", True)
        peer_acc = "expenses:unknown" if q.startswith("-") else "income:unknown"
        v = {"account": st["account"], "bank": "Nationwide"}
        o = lambda a, k: a.opt(lambda b, x: b.amount(J.amount(x, "GBP", True)), r[k])
        if st["cols"] == 5:
            v["transactions"] = r["t"]
            if r["loc"]:
                v["location"] = r["loc"]
            desc = "%s @ %s" % (r["t"], r["loc"]) if r["loc"] else r["t"]
            algo = "nwcsv5"
            a = fpr.Acc().date(r["date"]).i32(n).s(r["t"]).s(r["loc"])
            a = o(o(a, "out"), "in")
            bal = None
        else:
            v["trn_type"] = r["type"]
            desc = r["t"]
            algo = "nwcsv6"
            a = fpr.Acc().s(r["type"]).date(r["date"]).i32(n).s(r["t"])
            a = o(o(a, "out"), "in")
            bal = J.amount(r["bal"], "GBP", True)
            a = a.amount(bal)
        sf = ["import-self", "unknown-account", fpr.tag(algo, ns, a.s("self"))]
        pf = ["import-peer", "unknown-account", fpr.tag(algo, ns, a.s("peer"))]
        if legacy and st["cols"] == 6:
            la = fpr.Acc().s(r["type"]).date(r["date"]).s("").amount(bal).i32(n)
            sf.append(fpr.legacy(ns, la.s("assets:unknown").amount(selfa)))
            pf.append(fpr.legacy(ns, la.s(peer_acc).amount(peera)))
        out.append(J.trn(r["date"], desc, [
            J.post("assets:unknown", selfa, bal=bal, c=J.comment(f=sf, v=dict(v, seq="%s-%d" % (ns, n + 1)))),
            J.post(peer_acc, peera, c=J.comment(f=pf, v=v))]))
    return out
