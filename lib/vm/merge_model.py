"""Reference model of merge, written from the documented algorithm."""
import copy
from . import journal as J

UNKNOWN = "unknown-account"
CAND = "candidate-"
SOURCE = "source-file"


class Reject(Exception):
    """The input is faulty and merge must refuse it."""

    def __init__(self, kind, detail=""):
        Exception.__init__(self, "%s %s" % (kind, detail))
        self.kind = kind


def soft_match(a, b):
    if J.full_amt_key(a) != J.full_amt_key(b):
        return False
    if a["bal"] is not None and b["bal"] is not None and J.bal_key(a["bal"]) != J.bal_key(b["bal"]):
        return False
    if UNKNOWN not in a["c"]["f"] and UNKNOWN not in b["c"]["f"]:
        return a["acc"] == b["acc"]
    return True


def merge_post(dst, src):
    if dst["st"] == "":
        dst["st"] = src["st"]
    elif dst["st"] == "!" and src["st"] == "*":
        dst["st"] = "*"
    if dst["bal"] is None:
        dst["bal"] = src["bal"]
    if UNKNOWN in dst["c"]["f"] and UNKNOWN not in src["c"]["f"]:
        dst["acc"] = src["acc"]
        dst["c"]["f"] = [f for f in dst["c"]["f"] if f != UNKNOWN]
    c = copy.deepcopy(src["c"])
    c["f"] = [f for f in c["f"] if f != UNKNOWN]
    J.comment_merge(dst["c"], c)


class Model:
    def __init__(self):
        self.trns = []          # in order of introduction; posts carry "_t"
        self.by_fp = {}         # fingerprint -> (trn index, post index)
        self.unmerged = []
        self.stats = {}

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def copy(self):
        return copy.deepcopy(self)

    def post(self, ref):
        return self.trns[ref[0]]["posts"][ref[1]]

    def candidates(self, date, p):
        return [(i, k) for i, t in enumerate(self.trns) if t["date"] == date
                for k, q in enumerate(t["posts"]) if soft_match(q, p)]

    def add_set(self, trns):
        """Merge one source set."""
        actions, seen = [], set()
        for t in trns:
            t = copy.deepcopy(t)
            acts, ambiguous = [], False
            for p in t["posts"]:
                if any(f.startswith(CAND) for f in p["c"]["f"]):
                    raise Reject("candidate-tag")
                if not J.fps(p):
                    raise Reject("no-fingerprint")
                for f in J.fps(p):
                    if f in seen:
                        raise Reject("duplicate-fingerprint", f)
                    seen.add(f)
                hit = {self.by_fp[f] for f in J.fps(p) if f in self.by_fp}
                if len(hit) > 1:
                    raise Reject("fingerprints-of-several")
                if hit:
                    acts.append(("fp", hit.pop()))
                    continue
                cand = self.candidates(t["date"], p)
                if len(cand) == 1:
                    acts.append(("soft", cand[0]))
                elif cand:
                    ambiguous = True
                    p["c"]["f"] = sorted(set(p["c"]["f"]) | {CAND + min(J.fps(self.post(c))) for c in cand})
                    acts.append(("many", len(cand)))
                else:
                    acts.append(("new", None))
            if ambiguous:
                actions.append((t, None, None))
                self.stat("unmerged transactions")
                self.stat("ambiguous postings", sum(1 for a in acts if a[0] == "many"))
                continue
            dests = {a[1][0] for a in acts if a[0] != "new"}
            if len(dests) > 1:
                raise Reject("several-transactions")
            actions.append((t, acts, dests.pop() if dests else None))
        used = set()
        for t, acts, dest in actions:
            for a in acts or ():
                if a[0] != "new":
                    if a[1] in used:
                        raise Reject("shared-destination")
                    used.add(a[1])
        for t, acts, dest in actions:
            if acts is None:
                self.unmerged.append(t)
                continue
            if dest is None:
                nt = dict(t, posts=[])
                self.trns.append(nt)
                dest = len(self.trns) - 1
                self.stat("new transactions")
            else:
                self.stat("matched transactions")
                if self.trns[dest]["date"] != t["date"]:
                    self.stat("matched across dates")
                if any(a[0] == "new" for a in acts):
                    self.stat("postings added to existing transactions")
            for p, a in zip(t["posts"], acts):
                self.stat(a[0] + " postings")
                if a[0] == "new":
                    self.trns[dest]["posts"].append(p)
                    ref = (dest, len(self.trns[dest]["posts"]) - 1)
                else:
                    ref = a[1]
                    merge_post(self.post(ref), p)
                for f in J.fps(p):
                    self.by_fp[f] = ref

    def add_file(self, default_source, trns):
        groups = {}
        for t in trns:
            t = copy.deepcopy(t)
            src = t["c"]["v"].setdefault(SOURCE, default_source)
            groups.setdefault(src, []).append(t)
        if len(groups) > 1:
            self.stat("files with several sources")
        for src in sorted(groups, key=lambda s: s.encode("utf-8")):
            self.add_set(groups[src])

    def merged(self):
        out = copy.deepcopy(self.trns)
        for t in out:
            t["c"]["v"].pop(SOURCE, None)
        return sorted(out, key=lambda t: t["date"])


def merge_files(files):
    """files: [(default source, trns)] -> Model; raises Reject."""
    m = Model()
    for src, trns in files:
        m.add_file(src, trns)
    return m
