"""Rule tables as data: a RON writer and an independent interpreter.

string match  ["Eq", s] ["Contains", s] ["Matches", rx] ["AsLower", m]
predicate     ["True"] ["Not", p] ["All", [p]] ["Any", [p]] ["Account", m] ["PostingFlagTag", m] ["PostingHasFlagTag", s]
              ["PostingHasValueTag", s] ["PostingValueTag", s, m] ["TransactionDescription", m]
action        ["Noop"] ["All", [a]] ["Error", s] ["JumpChain", s] ["SetAccount", s] ["Add…"/"Remove…", …]
              ["ReplaceTransactionDescription", rx, replacement]
rule          [predicate, action, "Continue"|"Return"]
entry         ["Include", path] ["Chain", name, [rule]]
"""
import copy, re

from . import words as W


class RuleError(Exception):
    pass


# ---------------------------------------------------------------- RON

def ron_str(s, rng=None):
    if rng and rng.random() < 0.3 and "\\" in s or (rng and rng.random() < 0.1):
        h = "#"
        while '"' + h in s:
            h += "#"
        return 'r%s"%s"%s' % (h, s, h)
    out = s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t")
    return '"%s"' % out


class Ron:
    def __init__(self, rng=None):
        self.rng = rng

    def ws(self):
        r = self.rng
        if not r or r.random() < 0.7:
            return ""
        return r.choice([" ", "\n", "  \n  ", "\t", " /* note */ ", " // to the end\n"])

    def s(self, v):
        return self.ws() + ron_str(v, self.rng) + self.ws()

    def seq(self, items):
        body = ("," + self.ws()).join(self.ws() + i for i in items)
        if items and self.rng and self.rng.random() < 0.3:
            body += self.ws() + ","
        return "[" + body + self.ws() + "]"

    def call(self, name, *args):
        return name + "(" + ",".join(args) + ")"

    def match(self, m):
        return self.call(m[0], self.match(m[1]) if m[0] == "AsLower" else self.s(m[1]))

    def pred(self, p):
        k = p[0]
        if k == "True":
            return "True"
        if k == "Not":
            return self.call(k, self.ws() + self.pred(p[1]))
        if k in ("All", "Any"):
            return self.call(k, self.seq([self.pred(x) for x in p[1]]))
        if k in ("Account", "PostingFlagTag", "TransactionDescription"):
            return self.call(k, self.match(p[1]))
        if k == "PostingValueTag":
            return self.call(k, self.s(p[1]), self.match(p[2]))
        return self.call(k, self.s(p[1]))

    def action(self, a):
        k = a[0]
        if k == "Noop":
            return k
        if k == "All":
            return self.call(k, self.seq([self.action(x) for x in a[1]]))
        if k == "ReplaceTransactionDescription":
            f = ["regex:" + self.s(a[1]), "replacement:" + self.s(a[2])]
            if self.rng and self.rng.random() < 0.3:
                f.reverse()
            return k + "((" + ",".join(f) + "))"
        return self.call(k, *[self.s(x) for x in a[1:]])

    def rule(self, r):
        f = ["predicate:" + self.ws() + self.pred(r[0]), "action:" + self.ws() + self.action(r[1]), "result:" + self.ws() + r[2]]
        if self.rng and self.rng.random() < 0.3:
            self.rng.shuffle(f)
        return (self.rng.choice(["Rule", "Rule", ""]) if self.rng else "Rule") + "(" + (", ".join(f)) + ")"

    def entry(self, e):
        if e[0] == "Include":
            return self.call("Include", self.s(e[1]))
        if e[0] == "raw":
            return e[1]
        return self.call("Chain", self.s(e[1]), self.seq([self.rule(r) for r in e[2]]))

    def file(self, entries):
        return self.ws() + self.seq([self.ws() + "\n" + self.entry(e) for e in entries]) + "\n"


# ---------------------------------------------------------------- meaning

def matches(m, s):
    k, a = m
    if k == "AsLower":
        return matches(a, s.lower())
    if k == "Eq":
        return a == s
    if k == "Contains":
        return a in s
    return re.search(a, s) is not None


def holds(p, trn, post):
    k = p[0]
    if k == "True":
        return True
    if k == "Not":
        return not holds(p[1], trn, post)
    if k == "All":
        return all(holds(x, trn, post) for x in p[1])
    if k == "Any":
        return any(holds(x, trn, post) for x in p[1])
    if k == "Account":
        return matches(p[1], post["acc"])
    if k == "TransactionDescription":
        return matches(p[1], trn["desc"])
    if k == "PostingFlagTag":
        return any(matches(p[1], f) for f in post["c"]["f"])
    if k == "PostingHasFlagTag":
        return p[1] in post["c"]["f"]
    if k == "PostingHasValueTag":
        return p[1] in post["c"]["v"]
    if k == "PostingValueTag":
        return p[1] in post["c"]["v"] and matches(p[2], post["c"]["v"][p[1]])
    raise AssertionError(p)


def expand(tmpl, m):
    """$name, ${name} and $$ as in the regex library of the tool."""
    def group(n):
        try:
            return (m.group(int(n)) if n.isdigit() else m.group(n)) or ""
        except (IndexError, error):
            return ""
    error = re.error

    def sub(x):
        t = x.group(0)
        if t == "$$":
            return "$"
        return group(t[2:-1] if t[1] == "{" else t[1:])
    return re.sub(r"\$\$|\$[0-9A-Za-z_]+|\$\{[0-9A-Za-z_]+\}", sub, tmpl)


class Interp:
    def __init__(self, chains):
        self.chains = chains
        self.stats = {}
        self.steps = 0

    def feat(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def run(self, trns):
        out = copy.deepcopy(trns)
        for t in out:
            for p in t["posts"]:
                self.chain("start", t, p, 1)
        return out

    def chain(self, name, t, p, depth):
        if depth > 900:
            raise RuleError("endless")
        for n, (pred, action, result) in enumerate(self.chains[name]):
            self.steps += 1
            if self.steps > 200000:
                raise RuleError("steps")
            if holds(pred, t, p):
                self.feat("rule applied")
                self.act(action, t, p, depth)
                if result == "Return":
                    self.feat("returned early" if n + 1 < len(self.chains[name]) else "returned last")
                    break

    def act(self, a, t, p, depth):
        k = a[0]
        self.feat("action " + k)
        if k == "All":
            for x in a[1]:
                self.act(x, t, p, depth)
        elif k == "Error":
            raise RuleError("error")
        elif k == "JumpChain":
            self.chain(a[1], t, p, depth + 1)
        elif k == "SetAccount":
            p["acc"] = a[1]
        elif k == "ReplaceTransactionDescription":
            m = re.search(a[1], t["desc"])
            if m:
                t["desc"] = t["desc"][:m.start()] + expand(a[2], m) + t["desc"][m.end():]
        elif k != "Noop":
            m = re.fullmatch(r"(Add|Remove)(Posting|Transaction)(Flag|Value)Tag", k)
            c = (p if m.group(2) == "Posting" else t)["c"]
            if m.group(3) == "Flag":
                fs = set(c["f"])
                (fs.add if m.group(1) == "Add" else fs.discard)(a[1])
                c["f"] = sorted(fs)
            elif m.group(1) == "Add":
                c["v"][a[1]] = a[2]
            else:
                c["v"].pop(a[1], None)


# ---------------------------------------------------------------- generating

DESC_RX = ["Shop", "^[A-Z]", "o+", "(\\w+) (\\w+)", "([a-z]+)$", "[0-9]+", "(?P<first>[A-Za-z])", ".", "^", "$", "x|y", "zzz", " ", "a.b",
           "(?i)caf", "(A)|(B)", "x|(A)", "(o)?[a-z]", "(\\d+)?$", "(?:(a)|(b)|(c))+", "(Z)?", "^(.*)$", "\\*", "[&@#]"]
REPL = ["X", "<$0>", "$2 $1", "${first}!", "$$5", "new text", "$1x", "${1}x", "a$b", "5$", "$9", "$first", "${0}${0}", "caf\u00e9", "$1", "${1}", "$2",
        "<${2}>", "$1$2"]
TAG_RX = ["^fp-", "import", "a", "^.$", "self$", ".*"]
ACC_RX = ["^assets:", "bank$", "[A-Z]", ":", "unknown", "."]
VAL_RX = ["^$", "two", "[0-9]", "v"]


def near(rng, w):
    """Sometimes something close to the word instead."""
    if w and rng.random() < 0.15:
        m = W.mutate(rng, w)
        if not any(c in m for c in "\n\t"):
            return m
    return w


def string_match(rng, words, rxs):
    k = rng.randrange(6)
    w = near(rng, rng.choice(words))
    if k < 2:
        return ["Eq", w]
    if k == 2:
        i = rng.randrange(len(w) + 1)
        j = rng.randrange(i, len(w) + 1)
        return ["Contains", w[i:j]]
    if k < 5:
        return ["Matches", rng.choice(rxs)]
    m = string_match(rng, [x.lower() if rng.random() < 0.8 else x for x in words], rxs)
    return ["AsLower", m]


class Gen:
    def __init__(self, rng, trns):
        self.rng = rng
        posts = [p for t in trns for p in t["posts"]]
        self.accs = sorted({p["acc"] for p in posts}) + ["assets:new", "Expenses:Food"]
        self.flags = sorted({f for p in posts for f in p["c"]["f"]}) + ["seen", "a", "done"]
        self.keys = sorted({k for p in posts for k in p["c"]["v"]}) + ["k", "rule"]
        if rng.random() < 0.3:
            # flags and keys of the same names
            self.flags, self.keys = sorted(set(self.flags + self.keys)), sorted({k for k in self.keys + self.flags if not k.startswith("fp-")})
        self.vals = sorted({v for p in posts for v in p["c"]["v"].values()}) + ["v", "two words"]
        self.descs = sorted({t["desc"] for t in trns}) + ["X"]
        self.tflags = sorted({f for t in trns for f in t["c"]["f"]}) + ["seen", "t"]
        self.tkeys = sorted({k for t in trns for k in t["c"]["v"]}) + ["k"]
        if rng.random() < 0.3:
            self.tflags, self.tkeys = sorted(set(self.tflags + self.tkeys)), sorted(set(self.tkeys + self.tflags))

    def pred(self, depth=0):
        r = self.rng
        k = r.randrange(12 if depth < 3 else 8)
        if k == 0:
            return ["True"]
        if k == 1:
            return ["Account", string_match(r, self.accs, ACC_RX)]
        if k == 2:
            return ["PostingFlagTag", string_match(r, self.flags, TAG_RX)]
        if k == 3:
            return ["PostingHasFlagTag", r.choice(self.flags)]
        if k == 4:
            return ["PostingHasValueTag", r.choice(self.keys)]
        if k == 5:
            return ["PostingValueTag", r.choice(self.keys), string_match(r, self.vals, VAL_RX)]
        if k in (6, 7):
            return ["TransactionDescription", string_match(r, self.descs, DESC_RX)]
        if k in (8, 9):
            return ["Not", self.pred(depth + 1)]
        return [r.choice(["All", "Any"]), [self.pred(depth + 1) for _ in range(r.choice([0, 1, 2, 2, 3]))]]

    def action(self, jumps, depth=0):
        r = self.rng
        k = r.randrange(14 if depth < 3 else 11)
        if k == 0:
            return ["AddPostingFlagTag", r.choice(self.flags)]
        if k == 1:
            return ["AddPostingValueTag", r.choice(self.keys), r.choice(self.vals)]
        if k == 2:
            return ["AddTransactionFlagTag", r.choice(self.tflags)]
        if k == 3:
            return ["AddTransactionValueTag", r.choice(self.tkeys), r.choice(self.vals)]
        if k == 4:
            return r.choice([["Noop"], ["SetAccount", r.choice(self.accs)]])
        if k == 5:
            return ["SetAccount", r.choice(self.accs)]
        if k == 6:
            return ["RemovePostingFlagTag", r.choice(self.flags)]
        if k == 7:
            return ["RemovePostingValueTag", r.choice(self.keys)]
        if k == 8:
            return r.choice([["RemoveTransactionFlagTag", r.choice(self.tflags)], ["RemoveTransactionValueTag", r.choice(self.tkeys)]])
        if k == 9:
            return ["ReplaceTransactionDescription", r.choice(DESC_RX), r.choice(REPL)]
        if k in (10, 11) and jumps:
            return ["JumpChain", r.choice(jumps)]
        if k >= 12:
            return ["All", [self.action(jumps, depth + 1) for _ in range(r.choice([0, 1, 2, 3]))]]
        return ["AddPostingFlagTag", "seen"]

    def chains(self, errors=0.0):
        r = self.rng
        names = ["start"] + r.sample(["food", "Bills", "a b", "\u00fc", "chain-2", "x", "", "Start"], r.choice([0, 1, 2, 4]))
        out = {}
        for i, n in enumerate(names):
            jumps = names[i + 1:]
            rs = []
            for _ in range(r.choice([0, 1, 2, 3, 5]) if i else r.choice([1, 2, 4, 7])):
                a = self.action(jumps)
                if r.random() < errors:
                    a = ["Error", "stop"]
                rs.append([self.pred(), a, r.choice(["Continue", "Continue", "Return"])])
            if jumps and r.random() < 0.6:
                rs.insert(r.randint(0, len(rs)), [r.choice([["True"], self.pred()]), ["JumpChain", r.choice(jumps)],
                                                  r.choice(["Continue", "Return"])])
            if i and r.random() < 0.15:
                # a loop that ends: guarded by a tag
                tag = "once-%d" % i
                rs.append([["Not", ["PostingHasFlagTag", tag]], ["All", [["AddPostingFlagTag", tag],
                                                                        ["JumpChain", r.choice(names)]]], "Continue"])
            out[n] = rs
        return out
