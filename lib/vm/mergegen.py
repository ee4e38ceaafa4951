"""Workloads for merge: histories of journals in which everything overlaps.

Sources are derived from what the reference model says has been merged so far,
so that fingerprint matches, soft matches, ambiguity, additions to existing
transactions and matches across dates are all common.
"""
import copy, itertools
from . import core
from . import journal as J
from . import merge_model as M
from . import words as W

ACCS = ["assets:bank", "assets:card", "expenses:food", "income:job"]
UNK = ["assets:unknown", "expenses:unknown", "income:unknown"]
AMTS = ["5.00", "-5.00", "12.50", "-12.50", "7", "5"]
DAYS = ["2020-02-01", "2020-02-02", "2020-01-31", "2019-12-31", "2020-02-10"]


def near_account(rng, a):
    """Another account, but nearly the same."""
    i = rng.randrange(len(a))
    return rng.choice([a[:i] + a[i:i + 1].swapcase() + a[i + 1:], a.title(), a.upper(), a + ":joint", a + "2", a.rpartition(":")[0] or a + ":x",
                       a[:-1] if a[-2] != ":" else a + "s", a + ":x:y", a.replace(":", " "), a.partition(":")[2] or "x"])


class Gen:
    def __init__(self, rng, tier, faults=0.0, ambiguous=True, files=None, cleared=True, statuses=None, max_trns=None, wide=False,
                 unknown=0.35, fresh=0.45, sources=True, value_like=0.06):
        self.rng = rng
        self.n = 0
        self.made = []
        self.ambiguous, self.faults = ambiguous, faults
        cleared = cleared and core.HOOKS
        big = tier == "thorough"
        self.nfiles = files or rng.choice([1, 2, 2, 3, 3, 4] + ([5, 6] if big else []))
        self.max_trns = max_trns or rng.choice([2, 4, 6] + ([10, 16] if big else [8]))
        self.days = DAYS[:rng.randint(1, len(DAYS))] if rng.random() < 0.75 else W.days(rng, rng.randint(1, 6))
        self.heads = []
        self.manyfps = rng.choice([3, 6, 12]) if rng.random() < 0.1 else 0
        if rng.random() < 0.012 and files is None and max_trns is None:
            # long: in journals, or in transactions
            self.nfiles, self.max_trns = rng.choice([(12, 3), (9, 5), (2, 40), (1, 60)])
        self.amts = AMTS[:rng.randint(1, len(AMTS))]
        if wide or rng.random() < 0.3:
            self.amts = self.amts + [W.qty(rng, False) for _ in range(12)]
        self.coms = W.COMMODITIES[:rng.choice([1, 1, 2, 4])]
        self.rich = rng.choice([0.1, 0.4, 0.8])
        self.statuses = statuses or (["", "", "!", "*"] if cleared else ["", "", "!"])
        self.unknown, self.fresh = unknown, fresh
        self.sources, self.value_like = sources, value_like
        # a namespace for fingerprints, in any order relative to others
        self.pfx = rng.choice(["fp-", "fp-z", "fp-Ab+/", "fp-nwcsv6.1.NS-", "fp-uuidb64-", "fp-ppcsv.1.A-",
                               "fp-nwcsv6.1.my_current_account_at_the_building_society-"])

    def newfp(self):
        f = self._newfp()
        if self.made and self.rng.random() < 0.08:
            # only near to another
            o = self.rng.choice(self.made)
            o = self.rng.choice([o[:3] + o[3:].swapcase(), o + "=", o[:3] + o[3:].upper(), o + "0", o[:-1]])
            if len(o) > 3 and o not in self.made:
                f = o
        self.made.append(f)
        return f

    def _newfp(self):
        self.n += 1
        r = self.rng.random()
        if r < 0.3:
            return "fp-%x" % (self.rng.randrange(16 ** 3) * 1000 + self.n)
        return "%s%s%d" % (self.pfx, self.rng.choice("azAZ09"), self.n)

    def amount(self):
        c, left = self.rng.choice(self.coms)
        if self.rng.random() < 0.05:
            return J.amount(self.rng.choice(["0", "0.00", "0.0"]), c, left)
        return J.amount(self.rng.choice(self.amts), c, left)

    def comment(self, flags):
        return W.comment(self.rng, self.rich, flags, value_like=self.value_like)

    def fresh_post(self):
        r = self.rng
        flags = [self.newfp()]
        while r.random() < 0.12:
            flags.append(self.newfp())
        if self.manyfps and r.random() < 0.3:
            flags += [self.newfp() for _ in range(r.randint(1, self.manyfps))]
        acc = r.choice(ACCS)
        if r.random() < 0.06:
            acc = near_account(r, acc)
        if r.random() < self.unknown:
            flags.append(M.UNKNOWN)
            acc = r.choice(UNK)
        p = J.post(acc, self.amount(), st=r.choice(self.statuses), c=self.comment(flags))
        if r.random() < 0.05:
            p["amt"] = None
        elif r.random() < 0.06:
            p["pr"] = [r.choice([1, 2]), J.amount("2", "USD")]
        elif r.random() < 0.04:
            p["lot"] = [r.choice([1, 2]), J.amount("3", "USD")]
        if r.random() < 0.15:
            p["bal"] = "0" if r.random() < 0.2 else J.amount(r.choice(["100", "95.00", "80"]), *r.choice(self.coms))
        if r.random() < 0.06:
            p["re"] = r.choice("BU")
        return p

    def header(self, date, posts):
        r = self.rng
        t = J.trn(date, W.desc(r) if r.random() < 0.5 else "d%d" % r.randint(1, 99), posts,
                  eff=r.choice(r.choice([DAYS, self.days])) if r.random() < 0.1 else None, st=r.choice(["", "", "!", "*"]),
                  code=r.choice(["7", "x y"]) if r.random() < 0.1 else None)
        if self.heads and r.random() < 0.08:
            # looks like another from outside
            o = r.choice(self.heads)
            t["date"], t["desc"], t["code"], t["st"] = o["date"], o["desc"], o["code"], o["st"]
        self.heads.append(t)
        if r.random() < self.rich:
            t["c"] = W.comment(r, 1.0, value_like=self.value_like)
        if self.made and r.random() < 0.05:
            # tags which mean something on postings, not here
            t["c"]["f"] = sorted(set(t["c"]["f"]) | {r.choice([r.choice(self.made), r.choice(self.made), self.newfp(), M.UNKNOWN,
                                                               M.CAND + r.choice(self.made)])})
        return t

    def fresh_trn(self):
        r = self.rng
        n = r.choice([1, 2, 2, 2, 3, 4]) if r.random() > 0.006 else r.choice([9, 17, 33, 65])
        posts = [self.fresh_post() for _ in range(n)]
        if n == 2 and r.random() < 0.7 and posts[0]["amt"]:
            posts[1]["amt"] = dict(posts[0]["amt"], q=J.neg(posts[0]["amt"]["q"]) if posts[0]["amt"]["q"].strip("0.") else posts[0]["amt"]["q"])
        return self.header(r.choice(self.days), posts)

    def derived_post(self, d):
        """A posting that might match the existing posting d."""
        r = self.rng
        p = self.fresh_post()
        p["re"], p["amt"], p["lot"], p["pr"] = d["re"], copy.deepcopy(d["amt"]), copy.deepcopy(d["lot"]), copy.deepcopy(d["pr"])
        if r.random() < 0.7:
            p["acc"] = d["acc"] if r.random() < 0.92 else near_account(r, d["acc"])
        if r.random() < 0.25 and M.UNKNOWN not in p["c"]["f"]:
            p["acc"] = r.choice(UNK)
            p["c"]["f"] = sorted(p["c"]["f"] + [M.UNKNOWN])
        if r.random() < 0.5:
            p["bal"] = copy.deepcopy(d["bal"])
        if r.random() < 0.1 and p["amt"] and p["amt"]["q"].lstrip("-") in ("5", "5.00"):
            p["amt"]["q"] = p["amt"]["q"].split(".")[0] + r.choice(["", ".0", ".00", ".000"])
        if r.random() < 0.05:
            p["amt"] = self.amount()
        if r.random() < 0.4:
            # re-imported: known by fingerprint
            known = r.sample(J.fps(d), r.randint(1, len(J.fps(d))))
            own = J.fps(p) if r.random() < 0.3 else []
            p["c"]["f"] = sorted(set(f for f in p["c"]["f"] if not f.startswith("fp-")) | set(known) | set(own))
            if r.random() < 0.3:
                p["amt"] = self.amount()
        if r.random() < 0.3 and d["c"]["t"]:
            p["c"]["t"].append(r.choice(d["c"]["t"]))
        if r.random() < 0.3 and d["c"]["v"]:
            p["c"]["v"][r.choice(sorted(d["c"]["v"]))] = W.value(r)
        return p

    def lookalike(self, d):
        """Like d in everything but its fingerprints."""
        t = copy.deepcopy(d)
        t["c"]["v"].pop(M.SOURCE, None)
        for p in t["posts"]:
            known = J.fps(p)
            p["c"]["f"] = sorted({f for f in p["c"]["f"] if not f.startswith(("fp-", M.CAND))} | {self.newfp() for _ in known})
        self.heads.append(t)
        return t

    def derived_trn(self, model):
        r = self.rng
        if self.heads and r.random() < 0.06:
            return self.lookalike(r.choice(self.heads if r.random() < 0.5 or not model.unmerged else model.unmerged))
        if model.unmerged and r.random() < 0.1:
            # seen again, while the user has not yet decided
            d = r.choice(model.unmerged)
        else:
            d = r.choice(model.trns)
        ps = r.sample(d["posts"], r.randint(1, len(d["posts"])))
        if r.random() < 0.5:
            ps = [p for p in d["posts"] if p in ps]
        posts = [self.derived_post(p) for p in ps]
        if r.random() < 0.3:
            posts.insert(r.randint(0, len(posts)), self.fresh_post())
        if r.random() < 0.06:
            posts.append(self.derived_post(r.choice(r.choice(model.trns)["posts"])))
        date = d["date"] if r.random() < 0.8 else r.choice(self.days)
        return self.header(date, posts)

    def history(self):
        """-> [{"name","trns","style"}], model or None when merge must fail."""
        r = self.rng
        model = M.Model()
        files = []
        for k in range(self.nfiles):
            name = r.choice(["f%d.journal", "b%d.j", "A %d.txt", "sub/x%d.j"]) % k
            if r.random() < 0.2:
                name = "f%d.j" % (9 - k)
            default = '"%s"' % name
            style = r.choice(["own", "sources", "mixed", "own"]) if self.sources else "own"
            srcs = r.sample(["s1", "s2", "\"z\"", "A b", "ü"], r.randint(1, 3))
            if r.random() < 0.35:
                # Names near to each other are names of different sources.
                s = r.choice(srcs + [default])
                near = [x for x in (s.upper(), s.lower(), s.title(), s + "0", s + " x", "./" + s, s[:-1], s + ".bak", s.strip('"'), '"%s"' % s) if x and x == x.strip()]
                srcs = [s] + r.sample(near, 2)
            trns = []
            tries = 0
            want = r.randint(1, self.max_trns)
            after = model
            while len(trns) < want and tries < want * 5:
                tries += 1
                if after.trns and r.random() > self.fresh:
                    t = self.derived_trn(after if r.random() < 0.3 else (model if model.trns else after))
                else:
                    t = self.fresh_trn()
                if style == "sources" or (style == "mixed" and r.random() < 0.5):
                    t["c"]["v"][M.SOURCE] = r.choice(srcs)
                cand = list(trns)
                cand.insert(r.randint(0, len(cand)), t)
                trial = model.copy()
                try:
                    trial.add_file(default, cand)
                except M.Reject:
                    if r.random() < self.faults:
                        trns = cand
                        files.append({"name": name, "trns": trns, "style": self.style()})
                        return files, None
                    continue
                if trial.unmerged[len(model.unmerged):] and not self.ambiguous:
                    continue
                trns, after = cand, trial
            if not trns:
                continue
            model = after
            files.append({"name": name, "trns": trns, "style": self.style()})
            if r.random() < 0.03:
                # a file with nothing in it
                files.insert(r.choice([0, len(files), len(files) - 1]), {"name": "empty%d.j" % k, "trns": [], "style": r.choice([None, self.style()])})
        return files, model

    def style(self):
        return None if self.rng.random() < 0.3 else self.rng.randrange(10 ** 9)


def write_files(box, files):
    for f in files:
        box.write(f["name"], J.styled(f["trns"], f["style"]))
    return [f["name"] for f in files]


def model_of(files):
    return M.merge_files([('"%s"' % f["name"], f["trns"]) for f in files])


def nontrivial(model):
    s = model.stats
    return (s.get("fp postings", 0) + s.get("soft postings", 0) + s.get("many postings", 0)) > 0 or s.get("ambiguous postings", 0) > 0


def shrink_files(files):
    """Smaller histories: drop files, transactions, postings, comment parts, styles."""
    for i in range(len(files)):
        if len(files) > 1:
            yield files[:i] + files[i + 1:]
    for i, f in enumerate(files):
        for j in range(len(f["trns"])):
            if len(f["trns"]) > 1:
                yield files[:i] + [dict(f, trns=f["trns"][:j] + f["trns"][j + 1:])] + files[i + 1:]
    for i, f in enumerate(files):
        if f.get("style") is not None:
            yield files[:i] + [dict(f, style=None)] + files[i + 1:]
    for i, f in enumerate(files):
        for j, t in enumerate(f["trns"]):
            def put(t2):
                return files[:i] + [dict(f, trns=f["trns"][:j] + [t2] + f["trns"][j + 1:])] + files[i + 1:]
            for k in range(len(t["posts"])):
                if len(t["posts"]) > 1:
                    yield put(dict(t, posts=t["posts"][:k] + t["posts"][k + 1:]))
            keep_src = {k: v for k, v in t["c"]["v"].items() if k == M.SOURCE}
            if t["c"]["t"] or t["c"]["f"] or t["c"]["v"] != keep_src:
                yield put(dict(t, c=J.comment(v=keep_src)))
            for k, p in enumerate(t["posts"]):
                keep = [x for x in p["c"]["f"] if x.startswith("fp-") or x == M.UNKNOWN]
                if p["c"]["t"] or p["c"]["v"] or keep != p["c"]["f"]:
                    yield put(dict(t, posts=t["posts"][:k] + [dict(p, c=J.comment(f=keep))] + t["posts"][k + 1:]))
