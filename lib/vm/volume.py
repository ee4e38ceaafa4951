"""Histories of real size: one long run per property beside the many short ones.

What only shows after thousands of records (counters, buffers, capacities,
chunks, late errors) cannot be met by short workloads.  The same oracles judge
here, over tens of thousands of transactions and files of many megabytes.
"""
import errno, os, pickle, random, resource, signal
from decimal import Decimal
from . import c09, c11, c13, fpr, imp, journal as J, merge_model as M, mergeobs as O, nw, pdf, pp, rules as R, words as W

N = {"quick": 1.0, "thorough": 4.0}
T = 600                     # seconds, for any single run


def size(tier, n):
    return int(n * N[tier])


# ---------------------------------------------------------------- workloads

class Big(M.Model):
    """The reference model with an index, and faster copying."""

    def add_set(self, trns):
        self.idx = {}
        for i, t in enumerate(self.trns):
            for k, p in enumerate(t["posts"]):
                self.idx.setdefault((t["date"], J.full_amt_key(p)), []).append((i, k))
        M.Model.add_set(self, trns)

    def candidates(self, date, p):
        return [r for r in self.idx.get((date, J.full_amt_key(p)), ()) if M.soft_match(self.post(r), p)]


class _Copy:
    deepcopy = staticmethod(lambda x: pickle.loads(pickle.dumps(x, -1)))


def model(files):
    was, M.copy = M.copy, _Copy
    try:
        m = Big()
        for f in files:
            m.add_file('"%s"' % f["name"], f["trns"])
        return m, m.merged()
    finally:
        M.copy = was


def day(i):
    return "%04d-%02d-%02d" % (2000 + i // 336 % 40, i // 28 % 12 + 1, i % 28 + 1)


DAYS = 997


def trn(i, tag, rng):
    """The i-th of many: no two have the same amount on one date."""
    q = "%d.%02d" % (10 + i, i % 100)
    a = J.post("assets:bank", J.amount(q, "GBP", True), c=J.comment(f=["fp-%s%dA" % (tag, i)]))
    b = J.post("expenses:e%d" % (i % 7), J.amount("-" + q, "GBP", True), c=J.comment(f=["fp-%s%db" % (tag, i)]))
    t = J.trn(day(i * 7919 % DAYS), "Payment %d" % i, [a, b], st="!" if i % 11 == 0 else "")
    if i % 3 == 0:
        b["c"]["v"]["trn_type"] = W.value(rng) if i % 30 == 0 else "type %d" % (i % 13)
        t["c"]["t"] = ["note %d" % i]
    if i % 5 == 0:
        a["bal"] = J.amount("%d.00" % i, "GBP", True)
    if i % 4 == 0:
        b["acc"], b["c"]["f"] = "expenses:unknown", sorted(b["c"]["f"] + [M.UNKNOWN])
    return t


def again(t, i, how):
    """The i-th transaction as another journal may have it."""
    u = _Copy.deepcopy(t)
    u["c"] = J.comment()
    for k, p in enumerate(u["posts"]):
        own = J.fps(p)
        p["c"] = J.comment(f=own if how == "seen" else ["fp-%s%d" % (how, 2 * i + k)])
        if how == "seen" and i % 6 == 1:
            p["c"]["f"] = sorted(own + ["fp-x%d" % (2 * i + k)])
        if i % 9 == 0:
            p["c"]["f"] = sorted(p["c"]["f"] + ["again"])
        if i % 8 == 0:
            p["c"]["t"] = ["seen again"]
            p["c"]["v"]["n"] = str(i)
        p["acc"] = p["acc"].replace(":unknown", ":known")
        if i % 10 == 3:
            p["st"] = "!"
    if i % 7 == 0:
        u["posts"].reverse()
    return u


def history(rng, tier, ambiguous=True, faults=False):
    """-> files: a long journal, one that overlaps with all of it, and a third."""
    n = size(tier, 34500)
    a = [trn(i, "a", rng) for i in range(n)]
    b = [again(t, i, "seen" if i % 2 else "soft") for i, t in enumerate(a) if i % 97]
    b += [trn(i, "b", rng) for i in range(n, n + 300)]
    if ambiguous:
        for i in range(n + 300, n + 300 + 400):
            # two alike, and a third that may be either
            a += [trn(i, "p", rng), trn(i, "q", rng)]
            b.append(again(a[-1], i, "third"))
    c = [again(t, i, "late") for i, t in enumerate(a[:n]) if i % 7 == 0]
    for i, t in enumerate(c):
        t["c"]["v"][M.SOURCE] = ["s1", "s10", "s2", "A"][i % 4]
    for x in (a, b, c):
        rng.shuffle(x)
    return [{"name": "a.j", "trns": a, "style": None}, {"name": "b.j", "trns": b, "style": None}, {"name": "c.j", "trns": c, "style": None}]


def journal(rng, tier, n=66500):
    """A journal of many transactions, in which a little is unusual."""
    out = []
    for i in range(size(tier, n)):
        t = trn(i, "a", rng)
        if i % 50 == 0:
            t = W.journal_trn(rng, statuses=("", "", "!"), rich=0.6)
            t["date"] = day(i)
        out.append(t)
    return out


def put(box, name, trns):
    box.write(name, J.canon_in(trns))
    return name


def first_diff(a, b):
    k = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return "from byte %d of %d and %d: %r, %r" % (k, len(a), len(b), a[max(0, k - 60):k + 100], b[max(0, k - 60):k + 100])


def run(box, res, args, what, **kw):
    o = box.run(args, timeout=T, **kw)
    if o.rc != 0:
        res.bad("at volume: %s failed: %s" % (what, o.brief()))
        return None
    return o


# ---------------------------------------------------------------- merge

def merged(box, res, files, out="out.j", unm="unm.j"):
    for f in files:
        put(box, f["name"], f["trns"])
    o = O.run_merge(box, [f["name"] for f in files], out, unm, timeout=T)
    if o.rc != 0:
        res.bad("at volume: merge of valid journals failed: " + o.brief())
        return None
    return O.outputs(box, res, out, unm)


def feats(res, files):
    res.feat("volume: transactions", sum(len(f["trns"]) for f in files))
    res.feat("volume: postings", sum(len(t["posts"]) for f in files for t in f["trns"]))


def merge_counted(tier, rng, box, res):
    files = history(rng, tier)
    got = merged(box, res, files)
    if got:
        ob = O.Obs(files, *got)
        for b in ob.bad[:3]:
            res.bad("at volume: " + b)
        total = lambda ts: sum(Decimal(p["amt"]["q"]) for t in ts for p in t["posts"] if p["amt"])
        if total(got[0]) or total(got[1]):
            res.bad("at volume: the postings do not sum to zero")
        feats(res, files)


def merge_model(tier, rng, box, res):
    files = history(rng, tier)
    m, want = model(files)
    got = merged(box, res, files)
    if got:
        for label, a, b in (("merged: ", want, got[0]), ("unmerged: ", m.unmerged, got[1])):
            d = J.diff_trns(a, b, "at volume: " + label)
            if d:
                res.bad(d)
        feats(res, files)
        res.feat("volume: set aside", len(m.unmerged))


def merge_again(tier, rng, box, res):
    files = history(rng, tier, ambiguous=False)
    if not merged(box, res, files):
        return
    one = box.read("out.j")
    box.write("m.journal", O.rereadable(one))
    for ins in (["m.journal"], ["m.journal", "a.j", "b.j", "c.j"]):
        if run(box, res, ["merge", "-o", "o2.j", "-u", "u2.j"] + ins, "re-merging"):
            if box.read("o2.j") != one:
                res.bad("at volume: merging %s changed the journal %s" % (ins, first_diff(one, box.read("o2.j"))))
            if box.read("u2.j"):
                res.bad("at volume: re-merging left transactions unmerged")
    feats(res, files)


def merge_staged(tier, rng, box, res):
    files = history(rng, tier, ambiguous=False)
    if not merged(box, res, files):
        return
    one = box.read("out.j")
    for k in (1, 2):
        names = [f["name"] for f in files]
        if run(box, res, ["merge", "-o", "s1.j"] + names[:k], "the first stage"):
            box.write("s1.journal", O.rereadable(box.read("s1.j")))
            if run(box, res, ["merge", "-o", "s2.j"] + ["s1.journal"] + names[k:], "the second stage") and box.read("s2.j") != one:
                res.bad("at volume: merging in two stages differs %s" % first_diff(one, box.read("s2.j")))
    feats(res, files)


def merge_faults(tier, rng, box, res):
    """One fault far away from what it is a fault with."""
    n = size(tier, 34000)
    base = [trn(i, "a", rng) for i in range(n)]
    put(box, "a.j", base)
    if not run(box, res, ["merge", "-o", "ok.j", "a.j"], "merge of a valid journal"):
        return

    def one(what, trns, extra=None):
        if trns is not None:
            put(box, "f.j", trns)
        box.write("old.j", imp.OLD)
        before = {k: None if k.endswith("/") else (len(v), hash(v)) for k, v in box.snapshot().items()}
        o = O.run_merge(box, extra or ["f.j"], "old.j", "old-u.j", timeout=T)
        after = {k: None if k.endswith("/") else (len(v), hash(v)) for k, v in box.snapshot().items()}
        if o.rc == 0 or o.crashed or o.timeout or not o.err.strip():
            res.bad("at volume: %s was not refused: %s" % (what, o.brief()))
        if before != after:
            res.bad("at volume: %s: the refused merge changed files" % what)
        res.feat("volume: faults")
    last = _Copy.deepcopy(base)
    last[-1]["posts"][-1]["c"]["f"].append("fp-a0A")
    one("a fingerprint that is on the first and the last posting", last)
    last = _Copy.deepcopy(base)
    last[32768]["posts"][0]["c"]["f"].append("fp-a0A")
    one("a fingerprint that is on postings 65536 apart", last)
    last = _Copy.deepcopy(base)
    last[-1]["posts"][-1]["c"]["f"] = ["none"]
    one("a last posting without fingerprint", last)
    last = _Copy.deepcopy(base)
    last[-1]["posts"][-1]["c"]["f"].append("candidate-fp-a0A")
    one("a last posting with a candidate tag", last)
    two = J.trn("2020-01-01", "x", [J.post("a:a", J.amount("1"), c=J.comment(f=["fp-a0A", "fp-a32768A"]))])
    put(box, "two.j", [two])
    one("a posting with fingerprints of postings 65536 apart", None, ["a.j", "two.j"])
    two = J.trn("2020-01-01", "x", [J.post("a:a", J.amount("1"), c=J.comment(f=["fp-a0A"])), J.post("a:b", J.amount("-1"), c=J.comment(f=["fp-a32768A"]))])
    put(box, "two.j", [two])
    one("a transaction with fingerprints of two transactions far apart", None, ["a.j", "two.j"])
    box.write("bad.j", J.canon_in(base) + "\n2020-13-01 x\n  aa  1 GBP\n")
    one("an invalid end of a long journal", None, ["a.j", "bad.j"])


def merge_resolved(tier, rng, box, res):
    """Many ambiguities, all of them resolved."""
    n = size(tier, 4000)
    a, b = [trn(i, "z", rng) for i in range(n)], []
    for i in range(n, 2 * n):
        a += [trn(i, "p", rng), trn(i, "q", rng)]
        b.append(again(a[-1], i, "third"))
    files = [{"name": "a.j", "trns": a, "style": None}, {"name": "b.j", "trns": b, "style": None}]
    got = merged(box, res, files)
    if not got:
        return
    if len(got[1]) != len(b):
        res.bad("at volume: %d of %d ambiguous transactions are unmerged" % (len(got[1]), len(b)))
        return
    chosen = {}
    for k, t in enumerate(got[1]):
        mine = "pq"[k % 2]
        for p in t["posts"]:
            cand = [f for f in p["c"]["f"] if f.startswith(M.CAND)]
            c = next((f for f in cand if f.startswith(M.CAND + "fp-" + mine)), None)
            if len(cand) != 2 or not c:
                res.bad("at volume: candidates are %s" % cand)
                return
            for f in J.fps(p):
                chosen[f] = c[len(M.CAND):]
            p["c"]["f"] = sorted(set(p["c"]["f"]) - set(cand) | {c[len(M.CAND):]})
        t["c"]["v"][M.SOURCE] = '"b.j"'
    box.write("m.journal", O.rereadable(box.read("out.j")))
    put(box, "edited.j", got[1])
    if not run(box, res, ["merge", "-o", "o2.j", "m.journal", "edited.j"], "merging what was resolved"):
        return
    at = {}
    ts = J.read_trns(box.read("o2.j"))
    for i, t in enumerate(ts):
        for k, p in enumerate(t["posts"]):
            for f in J.fps(p):
                at[f] = (i, k)
    for f, c in chosen.items():
        if at.get(f) is None or at.get(f) != at.get(c):
            res.bad("at volume: %s was resolved to %s and is not with it" % (f, c))
            return
    if len(ts) != len(a):
        res.bad("at volume: %d transactions became %d" % (len(a), len(ts)))
    res.feat("volume: resolved", len(b))


# ---------------------------------------------------------------- rewriting

def fmt(tier, rng, box, res):
    its = []
    for i in range(size(tier, 66500)):
        t = trn(i, "a", rng)
        if i % 50 == 0:
            t = c11.trn(rng, False, 0.6)
        else:
            for x in [t] + t["posts"]:
                x["c"] = {"raw": ["comment %d that is somewhat long: it is to make the file a large one" % i] if i % 2 else []}
        its += [["trn", t], ["blank", ""]]
        if i % 9 == 0:
            its += [["comment", ";", "item %d" % i], ["blank", ""]]
    data = c11.write(its, rng.randrange(10 ** 9)).encode()
    res.feat("volume: bytes", len(data))
    box.write("a.j", data)
    box.write("b.j", data[:0])
    if run(box, res, ["fmt", "a.j", "b.j"], "fmt"):
        one = box.read("a.j")
        c11.compare(res, its, one, "at volume")
        if run(box, res, ["fmt", "a.j"], "fmt") and box.read("a.j") != one:
            res.bad("at volume: formatting again changed the journal %s" % first_diff(one, box.read("a.j")))


def comments(tier, rng, box, res):
    ts = journal(rng, tier)
    put(box, "in.j", ts)
    box.write("r.ron", '[Chain("start",[Rule(predicate:True,action:Noop,result:Continue)])]')
    if run(box, res, ["apply-rules", "-o", "out.j", "in.j", "table", "r.ron"], "apply-rules"):
        got = imp.read(res, box.read("out.j"), "at volume")
        if got is not None:
            d = J.diff_trns(ts, got, "at volume: rules that do nothing: ")
            if d:
                res.bad(d)
    box.write("g.j", box.read("out.j") or "")
    if run(box, res, ["generate-fingerprints", "g.j"], "generate-fingerprints"):
        got = imp.read(res, box.read("g.j"), "at volume")
        if got is not None:
            own = {f for t in ts for p in t["posts"] for f in J.fps(p)}
            for t in got:
                for p in t["posts"]:
                    p["c"]["f"] = [f for f in p["c"]["f"] if not f.startswith("fp-uuid") or f in own]
            d = J.diff_trns(ts, got, "at volume: generate-fingerprints: ")
            if d:
                res.bad(d)
    res.feat("volume: transactions", len(ts))


def fingerprints(tier, rng, box, res):
    ts = [trn(i, "a", rng) for i in range(size(tier, 70000))]
    for i, t in enumerate(ts):
        for k, p in enumerate(t["posts"]):
            if i % 17 or k:
                p["c"]["f"] = [f for f in p["c"]["f"] if not f.startswith("fp-")]
    put(box, "a.j", ts)
    if not run(box, res, ["generate-fingerprints", "a.j"], "generate-fingerprints"):
        return
    made = []
    c13.judge(res, ts, box.read("a.j"), made, "at volume")
    want = sum(1 for t in ts for p in t["posts"] if not J.fps(p))
    if len(made) != want or len(set(made)) != want:
        res.bad("at volume: %d fingerprints (%d different) for %d postings" % (len(made), len(set(made)), want))
    res.feat("volume: fingerprints", want)


def rules(tier, rng, box, res):
    ts = journal(rng, tier, 34000)
    # many rules in many chains for few transactions, and few for many
    few = [t for i, t in enumerate(ts) if i % 500 == 0]
    many = {"start": [[["True"], ["JumpChain", "c%d" % i], "Continue"] for i in range(40)]}
    for i in range(40):
        rs = [[["TransactionDescription", ["Contains", "Payment %d" % (i * 1000 + k)]], ["SetAccount", "expenses:r%d-%d" % (i, k)], rng.choice(["Continue", "Return"])]
              for k in range(size(tier, 60))]
        many["c%d" % i] = rs + [[["Account", ["Matches", "r%d-" % i]], ["AddPostingValueTag", "chain", "c%d" % i], "Continue"]]
    simple = {"start": [[["TransactionDescription", ["Matches", "7$"]], ["AddPostingFlagTag", "seven"], "Continue"],
                        [["Account", ["Eq", "assets:bank"]], ["SetAccount", "assets:other"], "Return"],
                        [["True"], ["AddTransactionValueTag", "t", "v"], "Continue"]]}
    for name, chains, ins in (("many rules", many, few), ("many transactions", simple, ts)):
        it = R.Interp(chains)
        it.steps = -10 ** 12
        was, R.copy = R.copy, _Copy
        try:
            want = it.run(ins)
        finally:
            R.copy = was
        put(box, "in.j", ins)
        box.write("r.ron", R.Ron().file([["Chain", n, rs] for n, rs in chains.items()]))
        if run(box, res, ["apply-rules", "-o", "out.j", "in.j", "table", "r.ron"], name):
            got = imp.read(res, box.read("out.j"), "at volume")
            d = got is not None and J.diff_trns(want, got, "at volume: %s: " % name)
            if d:
                res.bad(d)
        res.feat("volume: rule applications", it.stats.get("rule applied", 0))


def rule_files(tier, rng, box, res):
    """Very many files, included side by side and several times."""
    n = size(tier, 1500)
    names = ["d%d/f%d.ron" % (i % 10, i) for i in range(n)]
    for i, f in enumerate(names):
        other = "".join('Include("../%s"),' % names[k] for k in {rng.randrange(n) for _ in range(2)} if k > i) if i % 3 == 0 else ""
        box.write(f, '[%sChain("c%d",[Rule(predicate:True,action:AddPostingFlagTag("t%d"),result:Continue)])]' % (other, i, i))
    inc = "".join('Include("%s"),' % f for f in names + names[:50])
    table = '[%sChain("start",[%s])]' % (inc, ",".join('Rule(predicate:True,action:JumpChain("c%d"),result:Continue)' % i for i in range(n)))
    box.write("r.ron", table)
    put(box, "in.j", [trn(1, "a", rng)])
    if run(box, res, ["apply-rules", "-o", "out.j", "in.j", "table", "r.ron"], "many rule files"):
        got = imp.read(res, box.read("out.j"), "at volume")
        want = {"t%d" % i for i in range(n)}
        for t in got or ():
            for p in t["posts"]:
                if want - set(p["c"]["f"]):
                    res.bad("at volume: chains of included files were not run: %s" % sorted(want - set(p["c"]["f"]))[:3])
    old = box.read("out.j")
    for what, f, text in (("a chain that is defined twice", names[-1], '[Chain("c%d",[]),Chain("c0",[])]' % (n - 1)),
                          ("a jump to a chain that is not there", names[-1], '[Chain("c%d",[Rule(predicate:True,action:JumpChain("none"),result:Continue)])]' % (n - 1)),
                          ("a file that does not exist", "r.ron", table.replace(names[-1], "none.ron"))):
        was = box.read(f)
        box.write(f, text)
        o = box.run(["apply-rules", "-o", "out.j", "in.j", "table", "r.ron"], timeout=T)
        if o.rc == 0 or o.crashed or o.timeout or not o.err.strip() or box.read("out.j") != old:
            res.bad("at volume: %s was not refused cleanly: %s" % (what, o.brief()))
        box.write(f, was)
    res.feat("volume: rule files", n)


# ---------------------------------------------------------------- imports

def nw_statement(rng, cols, n, bulk):
    """n rows, bulk of them on one day."""
    rows = []
    while len(rows) < n:
        rows += [dict(r) for r in nw.rows(rng, 40, cols)]
    rows = rows[:n]
    at = rng.randrange(n - bulk + 1)
    for i, r in enumerate(rows):
        r["date"] = "2021-07-15" if at <= i < at + bulk else day(i // 40) if i < at else day(20 * 336 + (i - at - bulk) // 40)
    return {"cols": cols, "account": rng.choice(nw.ACCOUNTS), "rows": rows, "layout": rng.randrange(10 ** 9)}


def nationwide(tier, rng, box, res, fps=False):
    for cols in (5, 6):
        n = size(tier, 68500)
        st = nw_statement(rng, cols, n, n - 2500)
        box.write("in.csv", nw.write(st))
        if not run(box, res, ["import", "-o", "out.j", "nationwide-csv", "--fp-namespace", "fixed:NS", "in.csv"], "import"):
            return
        got = imp.read(res, box.read("out.j"), "at volume")
        if got is None:
            return
        want = nw.expect(st, "NS")
        if not fps:
            want, got = imp.drop_fps(want), imp.drop_fps(got)
        imp.zero_ok(want, got)
        d = J.diff_trns(want, got, "at volume: ")
        if d:
            res.bad(d)
        if fps:
            all_ = [f for t in got for p in t["posts"] for f in J.fps(p)]
            if len(all_) != 2 * n or len(set(all_)) != 2 * n:
                res.bad("at volume: %d rows have %d fingerprints, %d different" % (n, len(all_), len(set(all_))))
            res.feat("volume: fingerprints", len(all_))
        res.feat("volume: rows", n)


def nationwide_fps(tier, rng, box, res):
    nationwide(tier, rng, box, res, True)
    paypal(tier, rng, box, res, True)


def paypal(tier, rng, box, res, fps=False):
    st = pp.statement(rng, 60)
    base, n = st["recs"], size(tier, 50000)
    recs = []
    i = 0
    while len(recs) < n:
        r = dict(rng.choice(base))
        d, sec = day(i // 60), i % 60 * 977
        # one group of very many, others of few
        k = 35000 if i == 100 else rng.choice([1, 1, 2, 3])
        for j in range(k):
            q = dict(rng.choice(base), date=d, time="%02d:%02d:%02d" % (sec // 3600, sec // 60 % 60, sec % 60), tz=r["tz"], amt="%d.%02d" % (j + 1, i % 100))
            q["name"] = q["name"] or ("Someone" if j == 0 else "")
            recs.append(q)
        i += 1
    st["recs"] = recs
    box.write("in.csv", pp.write(st))
    box.write("tz.csv", pp.tz_table(st))
    if not run(box, res, ["import", "-o", "out.j", "paypal-csv", "--output-timezone", st["out_tz"], "--fingerprint-namespace", st["ns"], "in.csv", "tz.csv"], "import"):
        return
    got = imp.read(res, box.read("out.j"), "at volume")
    if got is None:
        return
    want = pp.expect(st)
    if not fps:
        want, got = imp.drop_fps(want), imp.drop_fps(got)
    imp.zero_ok(want, got)
    d = J.diff_trns(want, got, "at volume: ")
    if d:
        res.bad(d[:3000])
    res.feat("volume: records", len(recs))


def pdf_long(tier, rng, box, res):
    for _ in range(size(tier, 12)):
        pdf_one(rng, box, res, rng.choice([260, 300, 350]))


def pdf_one(rng, box, res, n):
    st = pdf.statement(rng, n)
    while len(pdf.tsv_pages(st)) > 99:
        st = pdf.statement(rng, n)
    args, env = pdf.setup(box, st)
    if run(box, res, ["import", "-o", "out.j", "nationwide-pdf", "--fp-namespace", "fixed:NS"] + args, "import", env=env):
        got = imp.read(res, box.read("out.j"), "at volume")
        if got is not None:
            want = pdf.expect(st, "NS")
            imp.zero_ok(want, got)
            d = J.diff_trns(want, got, "at volume: ")
            if d:
                res.bad(d)
        res.feat("volume: transactions", sum(map(len, st["tables"])))


def lookup(tier, rng, box, res):
    n = size(tier, 70000)
    st = nw.statement(rng, cols=5, n=3, account="Account 65537")
    box.write("in.csv", nw.write(st))
    table = ["Account %d" % i for i in range(n)]
    rng.shuffle(table)
    text = "{%s}" % ",".join('"%s":"N%s"' % (a, a[8:]) for a in table)
    box.write("ns.ron", text)
    if run(box, res, ["import", "-o", "d/%FP_NS%.j", "--sub-output-path", "--make-parent-dirs", "nationwide-csv", "--fp-namespace", "lookup:ns.ron", "in.csv"], "import"):
        got = imp.read(res, box.read("d/N65537.j") or b"\xff", "at volume")
        if got is not None:
            want = nw.expect(st, "N65537")
            imp.zero_ok(want, got)
            d = J.diff_trns(want, got, "at volume: ")
            if d:
                res.bad(d)
    box.write("ns.ron", text.replace('"Account 65537"', '"Account 65537 "'))
    o = box.run(["import", "-o", "none.j", "nationwide-csv", "--fp-namespace", "lookup:ns.ron", "in.csv"], timeout=T)
    if o.rc == 0 or o.crashed or box.read("none.j") is not None:
        res.bad("at volume: an account that is not in the table was not refused: " + o.brief())
    res.feat("volume: table entries", n)


def year(tier, rng, box, res):
    """Overlapping statements of very many rows, imported and merged."""
    n = size(tier, 30000)
    st = nw_statement(rng, 6, n, 2000)
    days = sorted({r["date"] for r in st["rows"]})
    cut = [(0, len(days) * 3 // 5), (len(days) * 2 // 5, len(days)), (len(days) // 4, len(days) // 2)]
    names = []
    for k, (x, y) in enumerate(cut):
        part = dict(st, rows=[r for r in st["rows"] if r["date"] in set(days[x:y])], layout=k)
        box.write("p%d.csv" % k, nw.write(part))
        if not run(box, res, ["import", "-o", "p%d.j" % k, "nationwide-csv", "--fp-namespace", "fixed:NS", "p%d.csv" % k], "import"):
            return
        names.append("p%d.j" % k)
    want = sorted(f for t in nw.expect(st, "NS") for p in t["posts"] for f in J.fps(p))
    acc = []
    for k, names in enumerate((names[:1], ["m0.j"] + names[1:2], ["m1.j"] + names[2:], ["m2.j"] + names)):
        if not run(box, res, ["merge", "-o", "m%d.j" % k, "-u", "u%d.j" % k] + names, "merge"):
            return
        if box.read("u%d.j" % k):
            # equal amounts on one day are ambiguous by design: not while fingerprints are known
            res.bad("at volume: re-imported rows were set aside")
            return
    got = imp.read(res, box.read("m3.j"), "at volume")
    if got is None:
        return
    fps = sorted(f for t in got for p in t["posts"] for f in J.fps(p))
    if fps != want:
        res.bad("at volume: the journal has %d fingerprints, the statements %d; lost %s, extra %s" % (
            len(fps), len(want), sorted(set(want) - set(fps))[:2], sorted(set(fps) - set(want))[:2]))
    if any(sum(Decimal(p["amt"]["q"]) for p in t["posts"]) for t in got):
        res.bad("at volume: a transaction does not sum to zero")
    res.feat("volume: rows", n)


def chain(tier, rng, box, res):
    """Every command on the output of the one before."""
    n = size(tier, 25000)
    st = nw_statement(rng, 5, n, 1500)
    box.write("in.csv", nw.write(st))
    box.write("r.ron", '[Chain("start",[Rule(predicate:PostingHasFlagTag("import-peer"),action:AddPostingFlagTag("ruled"),result:Continue)])]')
    want = nw.expect(st, "NS")
    if not run(box, res, ["import", "-o", "a.j", "nationwide-csv", "--fp-namespace", "fixed:NS", "in.csv"], "import"):
        return
    for k, args in enumerate((["apply-rules", "-o", "b.j", "a.j", "table", "r.ron"], ["generate-fingerprints", "b.j"], ["fmt", "b.j"], ["merge", "-o", "c.j", "b.j"], ["fmt", "c.j"])):
        if not run(box, res, args, args[0] + " after others"):
            return
        if k == 0:
            for t in want:
                for p in t["posts"]:
                    if "import-peer" in p["c"]["f"]:
                        p["c"]["f"] = sorted(p["c"]["f"] + ["ruled"])
        got = imp.read(res, box.read(args[-1] if args[0] in ("fmt", "generate-fingerprints") else args[2]), "at volume")
        if got is None:
            return
        if args[0] == "merge":
            want.sort(key=lambda t: t["date"])
        imp.zero_ok(want, got)
        d = J.diff_trns(want, got, "at volume: after %s: " % args[0])
        if d:
            res.bad(d)
            return
    res.feat("volume: transactions", n)


# ---------------------------------------------------------------- across commands

def plans(tier, rng, box, n=66500):
    """[(label, arguments, outputs)] on large inputs."""
    ts = journal(rng, tier, n)
    put(box, "in.j", [t for t in ts if all(J.fps(p) for p in t["posts"]) and "candidate-" not in J.canon_trn(t)])
    box.write("r.ron", '[Chain("start",[Rule(predicate:Account(Contains("e3")),action:AddPostingFlagTag("three"),result:Continue)])]')
    st = nw_statement(rng, 6, size(tier, n), 5000)
    box.write("in.csv", nw.write(st))
    return [("merge", ["merge", "-o", "out.j", "in.j"], "in.j"),
            ("apply-rules", ["apply-rules", "-o", "out.j", "in.j", "table", "r.ron"], "in.j"),
            ("import", ["import", "-o", "out.j", "nationwide-csv", "in.csv"], "in.csv"),
            ("fmt", ["fmt", "x.j"], "x.j"),
            ("generate-fingerprints", ["generate-fingerprints", "x.j"], "x.j")]


def small_files(limit):
    def go():
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
    return go


def late_faults(tier, rng, box, res):
    """An error after megabytes have been read or written."""
    for label, args, inp in plans(tier, rng, box, 40000):
        def begin():
            box.write("io.log", "")
            for n in ("out.j", "x.j"):
                box.write(n, box.read("in.j") if n == "x.j" else b"; old\n")
        begin()
        o = run(box, res, args, label, shim={"SHIM_SEED": "3", "SHIM_LOG": box.path("io.log")})
        if not o:
            return
        out = "out.j" if "-o" in args else "x.j"
        good = box.read(out)
        reads = [c[1] for c in c09.Log(box, "io.log").calls if c[0] == "read" and c[2] == inp]
        begin()
        # the file becomes too large for the system
        o = box.run(args, timeout=T, preexec=small_files(len(good) * 9 // 10 if inp != "x.j" else min(len(good), len(box.read("x.j"))) * 9 // 10))
        if o.rc == 0 or o.timeout or o.crashed or not o.err.strip():
            res.bad("at volume: %s: a write that failed late was not reported: %s" % (label, o.brief()))
        res.feat("volume: late write errors")
        for k in sorted({reads[-1], reads[-2], reads[len(reads) // 2]}) if len(reads) > 2 else ():
            begin()
            before = box.read(out)
            o = box.run(args, timeout=T, shim={"SHIM_SEED": "3", "SHIM_FAULT": "read:%d:%d" % (k, errno.EIO)})
            if o.rc == 0 or o.timeout or o.crashed or not o.err.strip():
                res.bad("at volume: %s: a read that failed late was not reported: %s" % (label, o.brief()))
            elif box.read(out) != before:
                res.bad("at volume: %s: a read that failed late changed the output" % label)
            res.feat("volume: late read errors")
        for f in ("read:*:half,write:*:half", "read:*:eintr"):
            begin()
            o = box.run(args, timeout=T, shim={"SHIM_SEED": "3", "SHIM_FAULT": f})
            if o.rc == 0 and box.read(out) != good or o.timeout or o.crashed:
                res.bad("at volume: %s: transfers %s changed the result: %s" % (label, f, o.brief()))
            elif o.rc and ("eintr" not in f or not o.err.strip()):
                res.bad("at volume: %s: transfers %s made it fail: %s" % (label, f, o.brief()))
            res.feat("volume: short transfers")


def same_bytes(tier, rng, box, res):
    cpus = sorted(os.sched_getaffinity(0))
    for label, args, inp in plans(tier, rng, box, 40000)[:4]:
        first = None
        for k in range(4):
            if inp == "x.j":
                box.write("x.j", box.read("in.j"))
            pre = [None, lambda: os.sched_setaffinity(0, cpus[:1]), lambda: os.sched_setaffinity(0, cpus[:3]), lambda: os.nice(5)][k]
            if not run(box, res, args, label, preexec=pre, shim={"SHIM_SEED": str(k + 1), "SHIM_TIME": str(k * 10 ** 6)},
                       env={"LANG": "C" if k % 2 else "de_DE.UTF-8", "RAYON_NUM_THREADS": str(k + 1), "TZ": ["UTC", "Asia/Tokyo"][k % 2]}):
                return
            data = box.read("out.j" if "-o" in args else "x.j")
            first = first or data
            if data != first:
                res.bad("at volume: %s gave other bytes %s" % (label, first_diff(first, data)))
                break
            res.feat("volume: runs compared")
    files = history(rng, tier)
    if merged(box, res, files):
        one = box.read("out.j"), box.read("unm.j")
        if run(box, res, ["merge", "-o", "out.j", "-u", "unm.j"] + [f["name"] for f in files], "merge", shim={"SHIM_SEED": "9"}, preexec=lambda: os.sched_setaffinity(0, cpus[:1])) \
                and (box.read("out.j"), box.read("unm.j")) != one:
            res.bad("at volume: the same merge gave other bytes")


def robust(tier, rng, box, res):
    for label, args, inp in plans(tier, rng, box, 80000):
        if inp == "x.j":
            box.write("x.j", box.read("in.j"))
        run(box, res, args, label)
        res.feat("volume: runs")
    # cut anywhere, a large file is refused or read, and in good time
    data = box.read("in.j")
    for _ in range(4):
        box.write("cut.j", data[:rng.randrange(len(data))])
        o = box.run(["merge", "-o", "o.j", "cut.j"], timeout=T)
        if o.timeout or o.rc < 0 or (o.crashed and b"Cannot call `finish()`" not in o.err):
            res.bad("at volume: a journal that is cut off: %s" % o.brief())


def streams(tier, rng, box, res):
    for label, args, inp in plans(tier, rng, box, 66500):
        data = box.read("in.csv" if inp == "in.csv" else "in.j")
        if inp != "x.j":
            if not run(box, res, args, label):
                return
            want = box.read("out.j")
            a = [("-" if x in ("out.j", inp) else x) for x in args]
            o = run(box, res, a, label + " through pipes", stdin=data)
            if o and o.out != want and not (label == "merge" and o.out.replace(b"stdin", b"in.j") == want):
                res.bad("at volume: %s through pipes differs %s" % (label, first_diff(want, o.out)))
            box.write("out.j", want + b"; longer than what replaces it\n" * 1000)
            if run(box, res, args, label) and box.read("out.j") != want:
                res.bad("at volume: %s over a longer file left something else %s" % (label, first_diff(want, box.read("out.j"))))
            if inp == "in.j":
                # the output is the input
                box.write("x.j", data)
                if run(box, res, [("x.j" if x in ("out.j", "in.j") else x) for x in args], label + " in place") and box.read("x.j") != want:
                    res.bad("at volume: %s in place differs %s" % (label, first_diff(want, box.read("x.j"))))
        else:
            box.write("x.j", data)
            shim = {"SHIM_SEED": "5"}
            if not run(box, res, args, label, shim=shim):
                return
            want = box.read("x.j")
            a = [("-" if x == "x.j" else x) for x in args]
            o = run(box, res, a, label + " through pipes", stdin=data, shim=shim)
            if o and o.out != want:
                res.bad("at volume: %s through pipes differs %s" % (label, first_diff(want, o.out)))
        res.feat("volume: bytes", len(data))


ALL = {"C01": merge_counted, "C02": merge_model, "C03": merge_model, "C04": merge_model, "C05": merge_again, "C06": merge_staged, "C07": merge_model,
       "C08": merge_faults, "C09": late_faults, "C10": same_bytes, "C11": fmt, "C12": comments, "C13": fingerprints, "C14": rules, "C15": rule_files,
       "C16": nationwide, "C17": nationwide_fps, "C18": paypal, "C19": pdf_long, "C20": robust, "C21": year, "C22": lookup, "C23": chain,
       "C24": merge_resolved, "C25": streams}


def go(pid, tier, seed, box, res):
    rng = random.Random("volume:%s:%s:%s" % (pid, tier, seed))
    ALL[pid](tier, rng, box, res)
