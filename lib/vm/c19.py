"""C19: PDF statements are read exactly, or the import fails."""
import re
from . import fpr, imp, journal as J, pdf

BUDGET = {"quick": (5000, 70), "thorough": (80000, 800)}
RULE = ("A case is a generated bank statement laid out as OCR output over pages, blocks, paragraphs and tables, which stand-ins for "
        "gm and tesseract deliver, and for 40% of them one fault. Sound ones must import as the statement says (fingerprints aside), "
        "faulty ones must be refused without touching the output. Non-trivial: has a transaction, or a fault.")
TEXTS = {"amount": ["-5.00", "5.0O", "12.3.4", "1,23.00", "abc", "5.00 6.00", "1,234,56", "\u00a35.00", "12.", "1.000,00", "l2.00", "5.00-",
                    ",500.00", "5 00", "12 .50", "1, 234.00", "1 234.00", "- 5.00", "5. 25"],
         "balance": ["5.0O", "12.3.4", "x", "1,23.00", "5,00"],
         "year": ["1979", "2101", "0020", "202O", "20200", "1", "x"],
         "daymonth": ["32 Jan", "00 Jan", "01 Jxn", "x Jan", "01 02", "01 Jan 20", "Jan 01", "31 Feb"],
         "effective": ["Effective Date 99 Jan 2020", "Effective Date 01 Jxn 2020", "Effective Date 01 Jan", "Effective Date 30 Feb 2020",
                       "Effective Date 01 Jan 2020 x"],
         "structure": ["level", "skip", "repeat", "orphan", "zero", "text", "short"],
         "tool": ["gm-exit", "gm-kill", "gm-missing", "tess-exit", "tess-kill", "tess-missing", "tess-nothing", "no-input"]}
ODD = "undated-year"       # may be refused, or take the date before it
PLAIN = ["both", "no-year", "no-day", "no-account"]
FAULTS = sorted(TEXTS) + PLAIN
REQUIRED = ["refused " + f for f in FAULTS] + ["transactions", "year changes within a table", "several tables", "effective dates",
                                                "continued in the next table", "more than 100 pages"]


PDF_AMT = re.compile(r"-?([0-9]+|[0-9]{1,3}(,[0-9]{3})+)(\.[0-9]+)?")


def text(rng, k):
    if k in ("amount", "balance") and rng.random() < 0.5:
        # a payment or receipt below nothing is none either
        return imp.near_miss(rng, rng.choice(["12.34", "1,234.50", "0.05", "123,456.78", "1234.00"] + ["-12.34", "-1,234.50"] * (k == "balance")),
                             "0123456789.,-+\u00a3xO e_'\u0661\u2212", lambda s: PDF_AMT.fullmatch(s) or "  " in s)
    return rng.choice(TEXTS[k])


def gen(rng, tier, i):
    n = rng.random()
    st = pdf.statement(rng, rng.randint(101, 300) if n < 0.006 else rng.randint(20, 60) if tier == "thorough" and n < 0.05 else None)
    if rng.random() < 0.42:
        k = rng.choice(FAULTS + [ODD])
        n = sum(len(t) for t in st["tables"])
        if not n:
            st = pdf.statement(rng, rng.randint(1, 6))
            n = sum(len(t) for t in st["tables"])
        flat = [(ti, j) for ti, t in enumerate(st["tables"]) for j in range(len(t))]
        at = rng.randrange(n)
        first = [x for x, (ti, j) in enumerate(flat) if j == 0]
        if k in ("no-year", "no-day", "year"):
            at = rng.choice(first)
        ti, j = flat[at]
        t = st["tables"][ti][j]
        if k == ODD:
            if j == 0:
                return {"st": st, "old": rng.random() < 0.5}
            # on the date before, whose year is on show
            for u in st["tables"][ti][j:]:
                u["date"] = st["tables"][ti][j - 1]["date"]
            del st["tables"][ti][j + 1:]
            del st["tables"][ti + 1:]
        if k == "balance":
            t["bal"] = t["bal"] or "1.00"
            t["bal_at"] = min(t["bal_at"], len(t["lines"]) - 1)
        if k == "effective":
            t["eff"], t["eff_at"] = t["eff"] or t["date"], 1
        st["fault"] = {"kind": k, "at": at, "text": text(rng, k) if k in TEXTS else None}
    return {"st": st, "old": rng.random() < 0.5}


def check(case, box, res):
    st = case["st"]
    fault = st["fault"]
    args, env = pdf.setup(box, st)
    if fault and fault["kind"] == "tool":
        k = fault["text"]
        if k == "gm-missing":
            args[1] = box.path("nothing")
        elif k == "tess-missing":
            args[2] = box.path("nothing")
        elif k == "no-input":
            args[0] = "other.pdf"
        else:
            env.update({"gm-exit": {"GM_EXIT": "1"}, "gm-kill": {"GM_KILL": "1"}, "tess-exit": {"TESS_EXIT": "1"},
                        "tess-kill": {"TESS_KILL": "1"}, "tess-nothing": {"TESS_NOTHING": "1"}}[k])
    if case["old"]:
        box.write("out.j", imp.OLD)
    before = box.snapshot()
    o = box.run(["import", "-o", "out.j", "nationwide-pdf"] + args, env=env)
    if fault and not (fault["kind"] == ODD and o.rc == 0):
        imp.refused(res, box, o, before, "faulty statement (%s %s)" % (fault["kind"], fault["text"]))
        res.feat("refused " + fault["kind"])
        res.nontrivial = True
        return
    if o.rc != 0:
        res.bad("a sound statement was refused: " + o.brief())
        return
    res.feat("undated after a year", bool(fault))
    for k, v in pdf.seen.items():
        res.feat(k, v)
    got = imp.read(res, box.read("out.j"))
    if got is None:
        return
    d = J.diff_trns(imp.drop_fps(pdf.expect(st, fpr.generated_ns(st["account"]))), imp.drop_fps(got))
    if d:
        res.bad("import differs from the statement: " + d)
    seqs = [p["c"]["v"]["seq"] for t in got for p in t["posts"] if "seq" in p["c"]["v"]]
    ns = fpr.generated_ns(st["account"])
    if any(s.rpartition("-")[0] != ns for s in seqs):
        res.bad("namespace is not that of account %r: %s" % (st["account"], seqs[:2]))
    n = sum(len(t) for t in st["tables"])
    res.feat("transactions", n)
    res.feat("several tables", len(st["tables"]) > 1)
    for t in st["tables"]:
        res.feat("year changes within a table", len({x["date"][:4] for x in t}) > 1)
        res.feat("effective dates", sum(1 for x in t if x["eff"]))
    res.nontrivial = n > 0


def shrink(case):
    st = case["st"]
    if not st["fault"]:
        for i, t in enumerate(st["tables"]):
            if len(st["tables"]) > 1:
                yield dict(case, st=dict(st, tables=st["tables"][:i] + st["tables"][i + 1:]))
            for j in range(len(t)):
                if len(t) > 1:
                    yield dict(case, st=dict(st, tables=st["tables"][:i] + [t[:j] + t[j + 1:]] + st["tables"][i + 1:]))
