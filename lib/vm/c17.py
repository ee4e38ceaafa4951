"""C17: import fingerprints identify the record."""
import copy
from . import fpr, imp, imprun as R, journal as J, nw, pdf, pp

BUDGET = {"quick": (5000, 60), "thorough": (120000, 800)}
RULE = ("A case is a statement of any importer under a random namespace. Every fingerprint must equal that of an independent "
        "implementation. A second statement - the same records in other company (days or groups left out, others added), or the "
        "records with one detail changed, or another namespace - is imported too: shared records must keep their fingerprints and "
        "different ones must share none. Fixed records of earlier releases are imported as well. Non-trivial: has a record.")
REQUIRED = ["nw5 fingerprints", "nw6 fingerprints", "pp fingerprints", "pdf fingerprints", "legacy fingerprints", "subset", "tweaked",
            "other namespace"]


def tame(case):
    """Without zero amounts, whose sign is not defined."""
    for r in case["st"].get("rows", []):
        for k in ("in", "out", "bal"):
            if r.get(k) and float(r[k]) == 0:
                r[k] = "0.01"


def gen(rng, tier, i):
    n = rng.random()
    case = R.gen(rng, n=rng.randint(258, 300) if n < 0.008 else rng.randint(30, 150) if n < 0.04 else None)
    tame(case)
    if case["kind"] != "pp":
        case["ns"] = rng.choice([{"how": "generated"}, {"how": "default"}, {"how": "fixed", "v": R.some_ns(rng)},
                                 {"how": "fixed", "v": R.some_ns(rng)}])
    second = copy.deepcopy(case)
    st = second["st"]
    how = rng.choice(["subset", "subset", "tweaked", "tweaked", "other namespace"])
    if how == "subset":
        if "rows" in st:
            days = sorted({r["date"] for r in st["rows"]})
            keep = {d for d in days if rng.random() < 0.6}
            st["rows"] = [r for r in st["rows"] if r["date"] in keep]
            extra = [r for r in nw.rows(rng, rng.randint(0, 3), st["cols"]) if r["date"] not in days]
            k = rng.randint(0, len(st["rows"]))
            while 0 < k < len(st["rows"]) and st["rows"][k - 1]["date"] == st["rows"][k]["date"]:
                k += 1
            st["rows"][k:k] = extra
            st["balance"] = "\u00a31.00"
        elif "recs" in st:
            gs = pp.groups(st)
            st["recs"] = [r for t, rs in gs if rng.random() < 0.6 for r in rs]
        else:
            st["tables"] = [t for t in st["tables"] if rng.random() < 0.7] or [[]]
            # tables that share a date with a dropped one would count anew
            seen = [{x["date"] for x in t} for t in case["st"]["tables"]]
            if any(a & b for n, a in enumerate(seen) for b in seen[n + 1:]):
                st["tables"] = copy.deepcopy(case["st"]["tables"])
            st["seed"] = rng.randrange(10 ** 9)
        if "layout" in st:
            st["layout"] = rng.choice([None, rng.randrange(10 ** 9)])
        if case["kind"] != "pp":
            ns = R.namespace(case)
            second["ns"] = rng.choice([second["ns"], {"how": "fixed", "v": ns}, {"how": "lookup", "table": [["?", "no"], [st["account"], ns]]}])
        tame(second)
    elif how == "tweaked":
        tweak(rng, second)
    else:
        ns = R.namespace(case)
        new = rng.choice([n for n in R.NS_OK + [ns + "x", ns[:-1], "/" + ns] if n != ns])
        if case["kind"] == "pp":
            st["ns"] = new
        else:
            second["ns"] = {"how": "fixed", "v": new}
    return {"first": case, "second": second, "how": how}


def tweak(rng, case):
    """Change one detail of every record, so that none is the same."""
    st = case["st"]
    for r in st.get("rows", []):
        if "loc" in r:
            k = rng.choice(["shift", "swap", "amount", "date", "loc"])
            if k == "shift" and r["t"]:
                if len(r["t"]) > 1:
                    r["t"], r["loc"] = r["t"][:-1], r["t"][-1] + r["loc"]
                    if r["t"] != r["t"].strip() or r["loc"] != r["loc"].strip():
                        r["t"], r["loc"] = "q", "q"
                else:
                    r["t"], r["loc"] = "q", "q"
            elif k == "swap":
                r["in"], r["out"] = r["out"], r["in"]
            elif k == "amount":
                bump(r, "in" if r["in"] else "out")
            elif k == "date":
                r["date"] = str(int(r["date"][:4]) + 30) + r["date"][4:8] + "01"
            else:
                r["loc"] += "z"
        else:
            # the legacy form is known to leave out the description
            k = rng.choice(["swap", "amount", "bal", "type"] + ([] if case["legacy"] else ["t", "shift"]))
            if k == "swap":
                r["in"], r["out"] = r["out"], r["in"]
            elif k == "amount":
                bump(r, "in" if r["in"] else "out")
            elif k == "bal":
                bump(r, "bal")
            elif k == "type":
                r["type"] += "z"
            elif k == "shift" and len(r["t"]) > 1 and r["t"][0] != " " and r["t"][1] != " ":
                r["type"], r["t"] = r["type"] + r["t"][0], r["t"][1:]
            else:
                r["t"] += "z"
    for r in st.get("recs", []):
        k = rng.choice(["name", "type", "amt", "bal", "cur", "shift"])
        if k == "name":
            r["name"] += "z"
        elif k == "shift" and len(r["name"]) > 1:
            r["name"], r["type"] = (r["name"][:-1] + "zz").strip(), r["name"][-1] + r["type"]
        elif k in ("amt", "bal"):
            bump(r, k)
        elif k == "cur":
            r["cur"] = "SEK"
        else:
            r["type"] += "z"
    for t in st.get("tables", []):
        for r in t:
            k = rng.choice(["line", "amount", "swap"])
            if k == "line":
                r["lines"] = [list(ws) for ws in r["lines"]]
                r["lines"][-1][-1] += "z"
            elif k == "amount":
                bump(r, "q")
            else:
                r["pay"] = not r["pay"]
    if "rows" in st:
        # keep equal dates adjacent
        order = []
        for r in st["rows"]:
            if r["date"] not in order:
                order.append(r["date"])
        st["rows"].sort(key=lambda r: order.index(r["date"]))


def bump(r, k):
    from decimal import Decimal
    q = Decimal(r[k])
    step = Decimal("0.01") if "." in r[k] else 1
    q2 = q + step if q < 10 ** 12 else q - step
    if q2 == 0:
        q2 += step
    r[k] = format(q2, "f")


def run(case, box, res, out):
    args, env, _ = R.prepare(box, case)
    o = box.run(["import", "-o", out] + args, env=env)
    if o.rc != 0:
        res.bad("import failed: " + o.brief())
        return None
    return imp.read(res, box.read(out))


def judge(case, got, res):
    """Compare with the independent implementation -> [(record key, side, fps)]"""
    want = R.expect(case)
    v1 = R.expect(case, peer_v1=True)
    if len(got) != len(want) or any(len(a["posts"]) != len(b["posts"]) for a, b in zip(got, want)):
        res.bad("%d transactions expected, got %d" % (len(want), len(got)))
        return []
    n = 0
    for g, w, w1 in zip(got, want, v1):
        for p, q, q1 in zip(g["posts"], w["posts"], w1["posts"]):
            a, b = set(J.fps(p)), set(J.fps(q))
            if a != b and a != set(J.fps(q1)):
                res.bad("fingerprints of %s in %s %r are %s, should be %s" % (p["acc"], g["date"], g["desc"], sorted(a), sorted(b)))
            if not a:
                # known finding paypal-peer
                if case["kind"] == "pp" and "import-peer" in p["c"]["f"] and not case["legacy"]:
                    res.feat("paypal peers without fingerprint")
                else:
                    res.bad("posting without a fingerprint: %s in %s %r" % (p["acc"], g["date"], g["desc"]))
            res.feat(case["kind"] + " fingerprints", len(a))
            n += len(a)
            if case["legacy"] and case["kind"] != "nw5":
                res.feat("legacy fingerprints")
    return [(J.fps(p), J.fps(q)) for g, w in zip(got, want) for p, q in zip(g["posts"], w["posts"])]


def check(case, box, res):
    a, b, how = case["first"], case["second"], case["how"]
    g1 = run(a, box, res, "a.j")
    if g1 is None:
        return
    judge(a, g1, res)
    dup = dups(g1)
    if dup:
        res.bad("one fingerprint on several postings of one import: %s" % dup[:3])
    g2 = run(b, box, res, "b.j")
    if g2 is None:
        return
    judge(b, g2, res)
    f1 = {f for t in g1 for p in t["posts"] for f in J.fps(p)}
    f2 = {f for t in g2 for p in t["posts"] for f in J.fps(p)}
    if how == "subset":
        res.feat(how, len(f1 & f2))
    else:
        if f1 & f2:
            res.bad("different records or namespaces share fingerprints (%s): %s" % (how, sorted(f1 & f2)[:3]))
        res.feat(how)
    res.nontrivial = bool(f1)


def dups(trns):
    seen, out = set(), []
    for t in trns:
        for p in t["posts"]:
            for f in J.fps(p):
                if f in seen:
                    out.append(f)
                seen.add(f)
    return out


# Fingerprints that earlier releases gave (values as released, not computed).
RELEASED = [
    ({"kind": "nw6", "legacy": True, "ns": {"how": "default"}, "st": {"cols": 6, "account": "Current", "layout": None, "rows": [
        {"date": "2019-01-01", "type": "ATM", "t": "ATM Withdrawal", "out": "30.00", "in": None, "bal": "200.00"}]}},
     [["fp-LVcP3L+Y-WW8uMNeoOKj6PZ9NZUDLVPkyNfI", "fp-nwcsv6.1.LVcP3L+Y-Ky2B1EX+g8t8t+n0PEJfFIJPuz8"],
      ["fp-LVcP3L+Y-FJegoeyjgvrfvmUOwPWmB/v56ZU", "fp-nwcsv6.1.LVcP3L+Y-f8NXdRliIxN4DhLHNw1pY9Icq4Q"]]),
    ({"kind": "nw5", "legacy": True, "ns": {"how": "default"}, "st": {"cols": 5, "account": "My Account ****4321", "layout": None, "rows": [
        {"date": "2021-09-01", "t": "FOO CO", "loc": "FOO.CO/THING#", "out": "1.23", "in": None}]}},
     [["fp-nwcsv5.1.1zY5uuo1-QNzoqO48q6tCbTaX5DIDZjPXP34"], ["fp-nwcsv5.1.1zY5uuo1-ACmC/fGB2mCZLsTIO7yCeBDSAoI"]]),
    ({"kind": "pp", "legacy": True, "st": {"recs": [
        dict(date="2019-01-01", time="01:23:45", tz="GMT", name="Somecompany Inc.", type="Pre-approved Payment Bill User Payment",
             status="Completed", cur="USD", amt="-5.00", rid="", bal="-5.00")], "zones": [["GMT", "UTC+00", 0]], "layout": None,
        "cols": pp.COLS, "out_tz": "UTC", "ns": "paypal"}},
     [["fp-paypal-xdlfoieFapm6Ysy3A9Ot7gqwc1o", "fp-ppcsv.1.paypal-xdlfoieFapm6Ysy3A9Ot7gqwc1o"],
      ["fp-paypal-A28gcyqA+aQFSqETeaSbHrVimmI"]]),
]


def finish(tier, seed, box, res, feats):
    for case, want in RELEASED:
        got = run(case, box, res, "r.j")
        if got is None:
            return {}
        have = [J.fps(p) for t in got for p in t["posts"]]
        for w, h in zip(want, have):
            if not set(w) <= set(h) or len(have) != len(want):
                res.bad("fingerprint of an earlier release is gone: %s is now %s" % (w, h))
    return {"released_records_checked": len(RELEASED)}


def known(k, box, res):
    if k["id"] == "paypal-peer-without-fingerprint":
        case = copy.deepcopy(RELEASED[2][0])
        case["legacy"] = False
        got = run(case, box, res, "k.j")
        return bool(got) and not J.fps(got[0]["posts"][1])
    if k["id"] == "pdf-counter-restarts-on-page":
        t = {"date": "2020-01-05", "lines": [["CARD", "PAYMENT"], ["Tesco"]], "eff": None, "q": "5.00", "pay": True, "bal": None,
             "bal_at": 0, "commas": False, "repeat": False}
        case = {"kind": "pdf", "legacy": False, "ns": {"how": "default"}, "st": {
            "tables": [[t], [dict(t)]], "account": pdf.ACCOUNT[0], "seed": 1, "fault": None, "cut": 1}}
    else:
        r = {"date": "2020-01-05", "t": "Tesco", "loc": "", "in": None, "out": "5.00"}
        case = {"kind": "nw5", "legacy": False, "ns": {"how": "default"}, "st": {"cols": 5, "account": "Current", "layout": None, "rows": [
            r, dict(r, date="2020-01-06"), r]}}
    got = run(case, box, res, "k.j")
    return bool(got) and bool(dups(got))


def shrink(case):
    for key in ("rows", "recs"):
        rows = case["first"]["st"].get(key)
        if rows and case["second"]["st"].get(key) and len(rows) == len(case["second"]["st"][key]) and len(rows) > 1:
            for i in range(len(rows)):
                c = copy.deepcopy(case)
                del c["first"]["st"][key][i]
                del c["second"]["st"][key][i]
                yield c
