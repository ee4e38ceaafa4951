"""C21: overlapping statements imported, ruled and merged, run after run."""
import copy, random
from decimal import Decimal
from . import core, imp, journal as J, mergeobs as O, nw, pdf, pp, imprun, rules as R

BUDGET = {"quick": (1100, 60), "thorough": (30000, 800)}
CHUNK = 5
RULE = ("A case is a simulated year of 1-4 accounts (Nationwide CSV of 5 and 6 columns, Nationwide PDF, PayPal with legacy fingerprints) with "
        "transfers between them, and 1-6 runs. Each run exports overlapping, repeated, older or newer windows of whole days from some accounts, "
        "imports them, applies that account's rules or not, and merges them in some order into the journal so far; between runs the user "
        "formats, re-merges, re-rules or edits the journal, and adds entries made by hand. After every run the journal is checked against the "
        "record of what has been exported. Two records with equal amounts on one day are only generated when they cannot be mistaken: within "
        "one statement, or as the two sides of a transfer. Non-trivial: some record was exported at least twice.")
REQUIRED = ["records seen again", "transfers joined", "transfer joined across runs", "equal records on one day", "PayPal records", "PDF records",
            "nw5 records", "nw6 records", "ruled after the fact", "user edit kept", "entry made by hand joined", "entry made by hand kept",
            "rules applied to the journal", "journal formatted", "PayPal transfer joined"]
ASSUMPTIONS = ["PayPal is imported with --include-legacy-fingerprint (without it peers have no fingerprint: known finding)",
               "exports hold whole days"]

PAYEES = ["FOO CO", "TESCO STORES 2041", "Caf\u00e9 & Sons", "O'Neil", "Bank credit A N Other", "ACME LTD REF 12", "50% OFF", "x", "A,B",
          "Direct debit: E.ON", "SHOP @ TOWN", "GROCER (GB)"]
RULED = {"TESCO STORES 2041": "expenses:food", "FOO CO": "expenses:foo", "ACME LTD REF 12": "income:job"}
KINDS = ["nw5", "nw6", "pdf", "pp"]
NW_NAMES = ["My Account ****4321", "Current", "Sav\u00edngs", "FlexDirect 07-00-00 12345678", "Joint \"J\""]


# ------------------------------------------------------------- the world

def gen(rng, tier, i):
    n = rng.choice([1, 2, 2, 3, 3, 4])
    accts = []
    names = rng.sample(NW_NAMES, 4)
    pdfs = rng.sample(pdf.ACCOUNT, 3)
    for k in range(n):
        kind = rng.choice([x for x in KINDS if not (x == "pp" and any(a["kind"] == "pp" for a in accts))
                           and not (x == "pdf" and sum(a["kind"] == "pdf" for a in accts) > 2)])
        a = {"kind": kind, "ledger": "assets:acct%d" % k, "order": rng.choice(["asc", "desc"])}
        if kind == "pp":
            a["name"] = "PP"
        elif kind == "pdf":
            a["name"] = pdfs.pop()
        else:
            a["name"] = names.pop()
            a["nshow"] = rng.choice(["default", "account-name"]) if a["name"] == "Current" else "default"
        accts.append(a)
    days = sorted({"2020-%02d-%02d" % (rng.choice([1, 1, 2, 3, 12]), rng.randint(1, 28)) for _ in range(rng.choice([3, 6, 10]))})
    used = set()
    recs, xfers = [], []

    def amount(d, cur="GBP"):
        while True:
            q = "%d.%02d" % (rng.choice([1, 7, 10, 99, 1234]), rng.choice([0, 1, 10, 50, 99]))
            if (d, Decimal(q), cur) not in used:
                used.add((d, Decimal(q), cur))
                return q

    def rec(k, d, q, desc, **kw):
        r = dict({"id": len(recs), "a": k, "date": d, "q": q, "desc": desc, "xfer": None, "cluster": len(recs), "cur": "GBP", "dup": False,
                  "type": rng.choice(["ATM", "Visa purchase", "Transfer"]), "loc": rng.choice(["", "LONDON"]), "seed": rng.randrange(10 ** 6),
                  "bal": rng.choice(["-", ""]) + "%d.%02d" % (rng.randint(1, 5000), rng.randint(0, 99)),
                  "eff": None, "at": None}, **kw)
        recs.append(r)
        return r
    clock = 0
    for d in days:
        for _ in range(rng.choice([1, 2, 3, 5])):
            k = rng.randrange(n)
            kind = accts[k]["kind"]
            sign = rng.choice(["", "-"])
            if n > 1 and rng.random() < 0.3:
                j = rng.choice([x for x in range(n) if x != k])
                q = amount(d)
                a = rec(k, d, sign + q, "Transfer to %d" % j)
                b = rec(j, d, J.neg(sign + q), "Transfer from %d" % k, cluster=a["cluster"], xfer=a["id"])
                a["xfer"] = b["id"]
                pair = [a, b]
            else:
                a = rec(k, d, sign + amount(d), rng.choice(PAYEES))
                pair = [a]
                if kind != "pp" and rng.random() < 0.2:
                    a["dup"] = True
                    pair.append(rec(k, d, a["q"], a["desc"], **{x: a[x] for x in ("type", "loc", "seed", "bal")}, dup=True))
            for x in pair:
                if accts[x["a"]]["kind"] == "pp":
                    clock += rng.randint(1, 60)
                    x["at"] = clock
                    for _ in range(rng.choice([0, 0, 1, 3])):
                        cur = rng.choice(["USD", "EUR", "GBP"])
                        rec(x["a"], d, rng.choice(["", "-"]) + amount(d, cur), rng.choice(PAYEES), cur=cur, at=x["at"], cluster=x["cluster"],
                            status=rng.choice(["Completed", "Pending"]))
    # runs
    runs = []
    for r in range(rng.choice([1, 2, 3, 3, 4, 6])):
        exports = []
        for k in rng.sample(range(n), rng.randint(1, n)):
            lo, hi = sorted([rng.randrange(len(days)), rng.randrange(len(days))])
            m = rng.random()
            if m < 0.3:
                lo = 0
            elif m < 0.5:
                hi = len(days) - 1
            elif m < 0.7:
                lo, hi = 0, len(days) - 1
            for _ in range(rng.choice([1, 1, 1, 2])):
                exports.append({"a": k, "lo": days[lo], "hi": days[hi], "ruled": rng.random() < 0.7, "layout": rng.choice([None, rng.randrange(10 ** 6)])})
                if rng.random() < 0.5:
                    lo = max(0, lo - 1)
                else:
                    hi = min(len(days) - 1, hi + 1)
        rng.shuffle(exports)
        runs.append({"exports": exports, "staged": rng.random() < 0.3, "inplace": rng.random() < 0.5, "hand": [],
                     "after": [x for x in ("fmt", "remerge", "rules", "edit", "gen") if rng.random() < 0.2], "seed": rng.randrange(10 ** 6)})
    # entries made by hand
    for _ in range(rng.choice([0, 0, 1, 2])):
        plain = [r for r in recs if r["xfer"] is None and not r["dup"] and r["at"] is None and r["desc"] not in RULED
                 and not any(r["id"] == h.get("rec") for u in runs for h in u["hand"])]
        if plain and rng.random() < 0.7:
            rng.choice(runs)["hand"].append({"rec": rng.choice(plain)["id"]})
        else:
            d = rng.choice(days)
            rng.choice(runs)["hand"].append({"rec": None, "date": d, "q": amount(d)})
    return {"accts": accts, "recs": recs, "runs": runs}


def statement(case, k, lo, hi, layout):
    """The export of account k for whole days lo to hi, as an import case, and
    its records in order."""
    a = case["accts"][k]
    rs = [r for r in case["recs"] if r["a"] == k and lo <= r["date"] <= hi]
    rs.sort(key=lambda r: (r["date"], r["at"] or 0))
    if a["kind"] == "pp":
        recs = []
        for r in rs:
            h, m = divmod(r["at"], 60)
            recs.append({"date": r["date"], "time": "%02d:%02d:00" % (h % 24, m), "tz": "GMT", "name": r["desc"], "type": r["type"],
                         "status": r.get("status", "Pending") if core.HOOKS else "Pending", "cur": r["cur"], "amt": r["q"],
                         "rid": "R%d" % r["seed"] if r["seed"] % 2 else "", "bal": r["bal"]})
        st = {"recs": recs, "zones": [["GMT", "UTC+00", 0]], "layout": layout, "cols": pp.COLS, "out_tz": "UTC", "ns": "paypal"}
        return {"kind": "pp", "st": st, "legacy": True}, rs
    if a["kind"] == "pdf":
        ts = []
        for r in rs:
            rr = random.Random(r["seed"])
            ws = r["desc"].split()
            cut = rr.randint(1, len(ws))
            t = {"date": r["date"], "lines": [x for x in (ws[:cut], ws[cut:]) if x], "eff": None, "q": r["q"].lstrip("-"), "pay": r["q"].startswith("-"),
                 "bal": r["bal"] if rr.random() < 0.5 else None, "bal_at": 0, "commas": rr.random() < 0.8, "repeat": rr.random() < 0.2}
            ts.append(t)
        tables = [ts]
        if layout and len(ts) > 1 and layout % 3:
            c = 1 + layout % (len(ts) - 1)
            tables = [ts[:c], ts[c:]]
        return {"kind": "pdf", "st": {"tables": tables, "account": a["name"], "seed": layout or 1, "fault": None}, "legacy": False,
                "ns": {"how": "default"}}, rs
    if a["order"] == "desc":
        # days descending, the records of a day as they are
        ds = sorted({r["date"] for r in rs}, reverse=True)
        rs = [r for d in ds for r in rs if r["date"] == d]
    rows = []
    for r in rs:
        row = {"date": r["date"], "t": r["desc"], "in": None, "out": None}
        row["out" if r["q"].startswith("-") else "in"] = r["q"].lstrip("-")
        if a["kind"] == "nw6":
            row.update(type=r["type"], bal=r["bal"])
        else:
            row["loc"] = r["loc"]
        rows.append(row)
    return {"kind": a["kind"], "st": {"cols": int(a["kind"][2]), "account": a["name"], "rows": rows, "layout": layout},
            "legacy": False, "ns": {"how": a["nshow"]}}, rs


def rule_table(a):
    un = ["RemovePostingFlagTag", "unknown-account"]
    rules = [[["All", [["Account", ["Eq", "assets:unknown"]], ["PostingFlagTag", ["Eq", "import-self"]]]],
              ["All", [["SetAccount", a["ledger"]], un]], "Return"]]
    for d, acc in RULED.items():
        rules.append([["All", [["PostingFlagTag", ["Eq", "import-peer"]], ["PostingFlagTag", ["Eq", "unknown-account"]],
                               ["TransactionDescription", ["Matches", "^" + d + "( @ .*)?$"]]]],
                      ["All", [["SetAccount", acc], un]], "Return"])
    return [["Chain", "start", [[["True"], ["JumpChain", "accounts"], "Continue"]]], ["Chain", "accounts", rules]]


# ------------------------------------------------------------- the runs

class Sim:
    def __init__(self, case, box, res):
        self.case, self.box, self.res = case, box, res
        self.fp = {}              # record -> [self fps, peer fps]
        self.seen = {}            # record -> run it first came in
        self.acc = {}             # (record, side) -> account it must have
        self.edited = {}          # (record, side) -> account the user gave it
        self.hand_in = {}         # record -> True, alone -> entry
        self.alone = []
        self.journal = False
        self.n = 0
        self.heads = {}           # cluster -> possible descriptions

    def go(self, what, args, **kw):
        o = self.box.run(args, **kw)
        if o.rc != 0:
            self.res.bad("%s failed: %s" % (what, o.brief()))
        return o.rc == 0

    def take(self, name, new):
        """The file that a command wrote, for reading in again."""
        self.box.write(new, O.rereadable(self.box.read(name) or b""))

    def export(self, ri, e):
        case, res = self.case, self.res
        self.n += 1
        c, rs = statement(case, e["a"], e["lo"], e["hi"], e["layout"])
        a = case["accts"][e["a"]]
        args, env, _ = imprun.prepare(self.box, c)
        what = "import of %s %s..%s in run %d" % (a["kind"], e["lo"], e["hi"], ri)
        if not self.go(what, ["import", "-o", "imp%d.j" % self.n] + args, env=env):
            return None
        self.take("imp%d.j" % self.n, "in%d.j" % self.n)
        ns = imprun.namespace(c)
        want = imprun.expect(c, ns, peer_v1=False)
        posts = [(p, t) for t in want for p in t["posts"]]
        if len(posts) != 2 * len(rs):
            raise core.Inconclusive("model of the import")
        for i, r in enumerate(rs):
            (sp, t), (qp, _) = posts[2 * i:2 * i + 2]
            self.fp[r["id"]] = [J.fps(sp), J.fps(qp)]
            self.heads.setdefault(r["cluster"], set()).add(t["desc"])
            if r["id"] in self.seen:
                res.feat("records seen again")
                res.nontrivial = True
            self.seen.setdefault(r["id"], ri)
            res.feat({"pp": "PayPal", "pdf": "PDF"}.get(a["kind"], a["kind"]) + " records")
            if r["dup"]:
                res.feat("equal records on one day")
            if e["ruled"]:
                if (r["id"], 0) not in self.acc and self.seen[r["id"]] != ri:
                    res.feat("ruled after the fact")
                self.acc.setdefault((r["id"], 0), a["ledger"])
                if r["desc"] in RULED and r["a"] == e["a"]:
                    # the description that rules see is that of the group
                    pass
                d = t["desc"].split(" @ ")[0] if a["kind"] == "nw5" else t["desc"]
                if d in RULED:
                    self.acc.setdefault((r["id"], 1), RULED[d])
        if e["ruled"]:
            self.box.write("r%d.ron" % e["a"], R.Ron(random.Random(e["a"])).file(rule_table(a)))
            if not self.go("rules on " + what, ["apply-rules", "-o", "ruled%d.j" % self.n, "in%d.j" % self.n, "table", "r%d.ron" % e["a"]]):
                return None
            self.take("ruled%d.j" % self.n, "in%d.j" % self.n)
        return "in%d.j" % self.n

    def hand(self, h):
        case = self.case
        self.n += 1
        name = "hand%d.j" % self.n
        if h["rec"] is None:
            q, d, acc, peer = "-" + h["q"], h["date"], "assets:cash", "expenses:cash"
            self.alone.append((d, h["q"]))
            self.res.feat("entry made by hand kept")
        else:
            r = case["recs"][h["rec"]]
            if self.edited.get((r["id"], 1)):
                return None
            q, d, acc, peer = r["q"], r["date"], case["accts"][r["a"]]["ledger"], "expenses:gift"
            self.hand_in[r["id"]] = True
            self.acc[(r["id"], 0)] = acc
            self.acc[(r["id"], 1)] = peer
            self.heads.setdefault(r["cluster"], set()).add("by hand")
        t = J.trn(d, "by hand", [J.post(acc, J.amount(q, "GBP", True)), J.post(peer, J.amount(J.neg(q), "GBP", True))])
        self.box.write(name, J.styled([t], None))
        return name if self.go("generate-fingerprints", ["generate-fingerprints", name]) else None

    def merge(self, ri, files, inplace):
        out = "main.j" if inplace and self.journal else "main.new"
        args = ["merge", "-o", out, "-u", "unm.j"] + (["main.j"] if self.journal else []) + files
        if not self.go("merge in run %d" % ri, args):
            return False
        u = self.box.read("unm.j")
        if u:
            self.res.bad("merge in run %d left transactions unmerged:\n%s" % (ri, u.decode("utf-8", "replace")[:800]))
            return False
        self.take(out, "main.j")
        self.journal = True
        self.raw = self.box.read(out) if out != "main.j" else self.box.read("main.j")
        return True

    def run(self, ri, run):
        rng = random.Random(run["seed"])
        files = []
        for e in run["exports"]:
            f = self.export(ri, e)
            if f is None:
                return False
            files.append(f)
        for h in run["hand"]:
            f = self.hand(h)
            if f is None and self.res.violations:
                return False
            if f:
                files.insert(rng.randint(0, len(files)), f)
        for group in ([[f] for f in files] if run["staged"] else [files]):
            if not self.merge(ri, group, run["inplace"]):
                return False
        if not self.judge("after run %d" % ri):
            return False
        for x in run["after"]:
            if x == "fmt":
                if not self.go("fmt of the journal", ["fmt", "main.j"]):
                    return False
                self.take("main.j", "main.j")
                self.res.feat("journal formatted")
            elif x == "gen":
                if not self.go("generate-fingerprints on the journal", ["generate-fingerprints", "main.j"]):
                    return False
                self.take("main.j", "main.j")
            elif x == "remerge":
                if not self.merge(ri, [], False):
                    return False
            elif x == "rules":
                # only what is not known yet, from any of the tables of the run
                e = rng.choice(run["exports"])
                if len(self.case["accts"]) > 1 or not e["ruled"]:
                    continue
                if not self.go("rules on the journal", ["apply-rules", "-o", "main.j", "main.j", "table", "r%d.ron" % e["a"]]):
                    return False
                self.take("main.j", "main.j")
                self.res.feat("rules applied to the journal")
                for r in self.seen:
                    self.acc.setdefault((r, 0), self.case["accts"][0]["ledger"])
                self.after_rules = True
                return True
            elif x == "edit" and not self.edit(rng):
                return False
        return self.judge("after %s in run %d" % (run["after"], ri)) if run["after"] else True

    def edit(self, rng):
        """The user gives an unknown posting its account."""
        trns = J.read_trns(self.box.read("main.j"))
        where = {f: p for t in trns for p in t["posts"] for f in J.fps(p)}
        recs = [self.case["recs"][r] for r in sorted(self.seen)]
        recs = [r for r in recs if (r["id"], 1) not in self.acc and r["id"] not in self.hand_in and not r["dup"]
                and "unknown-account" in where[self.fp[r["id"]][1][0]]["c"]["f"]]
        # what a later merge would make known by itself stays out
        recs = [r for r in recs if r["xfer"] is None or r["xfer"] not in self.seen]
        if not recs:
            return True
        r = rng.choice(recs)
        p = where[self.fp[r["id"]][1][0]]
        acc = "expenses:user" if r["xfer"] is None else self.case["accts"][self.case["recs"][r["xfer"]]["a"]]["ledger"]
        p["acc"] = (J.CLEARED if p["acc"].startswith(J.CLEARED) else "") + acc
        p["c"]["f"] = [f for f in p["c"]["f"] if f != "unknown-account"]
        self.acc[(r["id"], 1)] = acc
        self.edited[(r["id"], 1)] = acc
        self.box.write("main.j", J.styled(trns, None))
        self.res.feat("user edit kept")
        return True

    # --------------------------------------------------------- the oracle

    def judge(self, when):
        res, case = self.res, self.case
        try:
            trns = J.read_trns(self.box.read("main.j"))
        except J.Unreadable as e:
            res.bad("%s: journal cannot be read: %s" % (when, e))
            return False
        bad = []
        where = {}
        for ti, t in enumerate(trns):
            for pi, p in enumerate(t["posts"]):
                for f in J.fps(p):
                    if f in where:
                        bad.append("fingerprint %s is on two postings" % f)
                    where[f] = (ti, pi)
        clusters, hold = {}, {}
        for rid in self.seen:
            r = case["recs"][rid]
            for side in (0, 1):
                refs = {where.get(f) for f in self.fp[rid][side]}
                if len(refs) != 1 or None in refs:
                    bad.append("%s side of record %s is %s" % (("own", "other")[side], self.show(r), "missing" if refs == {None} else
                                                               "spread over several postings"))
                    continue
                ref = refs.pop()
                hold.setdefault(ref, []).append((rid, side))
                clusters.setdefault(r["cluster"], set()).add(ref[0])
                p = trns[ref[0]]["posts"][ref[1]]
                q = Decimal(r["q"]) * (1 if side == 0 else -1)
                if p["amt"] is None or Decimal(p["amt"]["q"]) != q or p["amt"]["c"] != r["cur"]:
                    bad.append("record %s has amount %s" % (self.show(r), p["amt"]))
                if side == 0 and trns[ref[0]]["date"] != r["date"]:
                    bad.append("record %s is dated %s" % (self.show(r), trns[ref[0]]["date"]))
                if side == 0 and trns[ref[0]]["desc"] not in self.heads[r["cluster"]]:
                    bad.append("record %s is described as %r" % (self.show(r), trns[ref[0]]["desc"]))
        for c, ts in clusters.items():
            if len(ts) > 1:
                bad.append("the records of one event are on %d transactions: %s" % (len(ts), [self.show(case["recs"][r]) for r in self.seen
                                                                                               if case["recs"][r]["cluster"] == c]))
        owner = {}
        for c, ts in clusters.items():
            for t in ts:
                if t in owner:
                    bad.append("two different events are on one transaction: %s" % [self.show(r) for r in case["recs"] if r["cluster"] in (c, owner[t])])
                owner[t] = c
        for ref, who in hold.items():
            ids = sorted(r for r, _ in who)
            if len(who) > 2 or len(who) == 2 and case["recs"][ids[0]]["xfer"] != ids[1]:
                bad.append("several records share a posting: %s" % [self.show(case["recs"][r]) for r in ids])
            p = trns[ref[0]]["posts"][ref[1]]
            known = {self.acc[w] for w in who if w in self.acc}
            acc = p["acc"].replace(J.CLEARED, "")
            unk = "unknown-account" in p["c"]["f"]
            if known and (acc not in known or unk):
                bad.append("posting of %s is on %s%s, not %s" % (self.show(case["recs"][ids[0]]), acc, " (unknown)" if unk else "", sorted(known)))
            if not known and not (unk and acc.endswith(":unknown")) and not getattr(self, "after_rules", False):
                bad.append("posting of %s is on %s, which no rule says" % (self.show(case["recs"][ids[0]]), acc))
        # both sides of a transfer are the same two postings
        for rid in self.seen:
            x = case["recs"][rid]["xfer"]
            if x is not None and x in self.seen and rid < x:
                for s in (0, 1):
                    a, b = where.get(self.fp[rid][s][0]), where.get(self.fp[x][1 - s][0])
                    if a != b:
                        bad.append("transfer %s was not joined" % self.show(case["recs"][rid]))
                res.feat("transfers joined")
                if self.seen[rid] != self.seen[x]:
                    res.feat("transfer joined across runs")
                if "pp" in (case["accts"][case["recs"][rid]["a"]]["kind"], case["accts"][case["recs"][x]["a"]]["kind"]):
                    res.feat("PayPal transfer joined")
        # nothing else
        for ti, t in enumerate(trns):
            extra = [p for pi, p in enumerate(t["posts"]) if (ti, pi) not in hold]
            if ti in owner and extra:
                # a hand entry merged before its record, whose record came in
                bad.append("extra postings in %s %r: %s" % (t["date"], t["desc"], [(p["acc"], p["amt"]) for p in extra]))
            elif ti not in owner:
                key = (t["date"], t["posts"][1]["amt"]["q"] if len(t["posts"]) == 2 else None)
                waiting = [r for r in self.hand_in if r not in self.seen and case["recs"][r]["date"] == t["date"]
                           and Decimal(case["recs"][r]["q"]) == -Decimal(key[1] or "0")]
                if t["desc"] != "by hand" or not (waiting or key in self.alone):
                    bad.append("a transaction that is no record: %s" % J.canon_trn(t)[:400])
        n = len(owner) + len(self.alone) + sum(1 for r in self.hand_in if r not in self.seen)
        if n != len(trns):
            bad.append("%d transactions for %d events" % (len(trns), n))
        if [t["date"] for t in trns] != sorted(t["date"] for t in trns):
            bad.append("the journal is not in date order")
        for r in self.hand_in:
            if r in self.seen:
                res.feat("entry made by hand joined")
        for b in bad[:5]:
            res.bad("%s: %s" % (when, b))
        res.feat("journals checked")
        return not bad

    def show(self, r):
        return "%s %s %s %s %r" % (self.case["accts"][r["a"]]["kind"], r["date"], r["q"], r["cur"], r["desc"])


def check(case, box, res):
    sim = Sim(case, box, res)
    for ri, run in enumerate(case["runs"]):
        if not sim.run(ri, run):
            return


def shrink(case):
    for i in range(len(case["runs"])):
        if len(case["runs"]) > 1:
            yield dict(case, runs=case["runs"][:i] + case["runs"][i + 1:])
    for i, u in enumerate(case["runs"]):
        def put(v):
            return dict(case, runs=case["runs"][:i] + [v] + case["runs"][i + 1:])
        for k in range(len(u["exports"])):
            yield put(dict(u, exports=u["exports"][:k] + u["exports"][k + 1:]))
        if u["after"]:
            yield put(dict(u, after=u["after"][1:]))
            yield put(dict(u, after=u["after"][:-1]))
        if u["hand"]:
            yield put(dict(u, hand=u["hand"][1:]))
        for k in ("staged", "inplace"):
            if u[k]:
                yield put(dict(u, **{k: False}))
    days = sorted({r["date"] for r in case["recs"]})
    for d in days:
        # a day without records (they keep their numbers)
        if len(days) > 1:
            yield dict(case, recs=[dict(r, date="1999-01-01") if r["date"] == d else r for r in case["recs"]])


def known(k, box, r):
    """PayPal peers have no fingerprint without --include-legacy-fingerprint."""
    st = {"recs": [{"date": "2020-01-01", "time": "00:00:00", "tz": "GMT", "name": "x", "type": "x", "status": "Pending", "cur": "GBP", "amt": "1",
                    "rid": "", "bal": "1"}], "zones": [["GMT", "UTC+00", 0]], "layout": None, "cols": pp.COLS, "out_tz": "UTC", "ns": "paypal"}
    args, env, _ = imprun.prepare(box, {"kind": "pp", "st": st, "legacy": False})
    o = box.run(["import", "-o", "i.j"] + args, env=env)
    return o.rc == 0 and box.run(["merge", "-o", "m.j", "i.j"]).rc != 0
