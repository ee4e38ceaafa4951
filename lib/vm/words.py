"""Text, tags and amounts for workloads."""
from . import journal as J

WORDS = ["coffee", "Rent", "a", "BACS", "CARD PAYMENT", "O'Neil", "50%", "x", "naïve café", "日本", "№7", "£5 off", "(ref)",
         "at 12:30", "see note", "100", "-", "#1", "A&B", "a/b", "tail;semi", "=", "@home", "\"quoted\"", "back\\slash"]
TEXTS = ["paid in cash", "at 12:30 sharp", "http://x.y/z?q=1", "a: b: c d", "note to self", "x", "see :not a tag", "50% off",
         "ends with colon:  no", "semi;colon", "; leading", "* star", "日本語 text", "€5 :: double", "a:b", "foo x:", "🙂",
         "-----", "(paren)", "= 5 GBP", "2020-01-01 looks like a date", "assets:bank  5 GBP", "tab\tinside", "!", "'q'", "\"dq\"",
         "a  b   c", "include foo", "P 2020", "{lot}", "long " + "text " * 20 + "end"]
TEXTS = [t for t in TEXTS if J.is_plain_text(t)]
TAGS = ["a", "b", "import-self", "import-peer", "tag-of-13-chr", "exactly12chr", "über", "日本", "very-long-tag-that-is-alone", "X", "A",
        "a.b", "a_b", "1", "reviewed", "\u00dcBER", "a;b", "(p)", "#h", "z" * 30]
VALUE_LIKE = ["note: xyz", "k: text", "account: none", "x:", "TODO: " + "ask again " * 7 + "soon", "bank: " + "b" * 64, "caf\u00e9: \u65e5\u672c"]
KEYS = ["account", "bank", "seq", "k", "K", "trn_type", "key-1", "ключ", "a.b", "x;y", "location"]
VALUES = ["v", "two words", "", "12:30", ":a:", "key: value", "NS-1", "日本", "£5.00", "x:y:z", "; semi", "a  b", "\"q\"", "v2", "old", "new", "\u00c4\u00d6 X", "CAF\u00c9"]
ACCOUNTS = ["assets:bank", "assets:unknown", "expenses:food", "income:job", "expenses:unknown", "Liabilities:Card One", "equity", "日:本",
            "a:b", "Assets:Bank", "Assets:\u00c9pargne \u00dc", "expenses:food:out"]
COMMODITIES = [("GBP", False), ("£", True), ("USD", False), ("$", True), ("日円", False), ("Units", False)]


STRANGE = "aZz0 9\u00e9\u00c9\u65e5-_./+&'\u00df\u01c5"
LATIN = "aZz0 9\u00e9\u00c9\u00df-_./+&'\u20ac"


def mutate(rng, s, chars=STRANGE):
    """Something near s."""
    k = rng.randrange(12)
    i = rng.randrange(len(s)) if s else 0
    if k == 0:
        return s[:i] + s[i:i + 1].swapcase() + s[i + 1:]
    if k == 1:
        return s.upper()
    if k == 2:
        return s.lower()
    if k == 3:
        return s + str(rng.choice([0, 1, 2, 12, 99, 2020]))
    if k == 4:
        return s[:i] + s[i:i + 1] + s[i:]
    if k == 5:
        return s[:i] + s[i + 1:]
    if k in (6, 7):
        return s[:i] + rng.choice(chars) + s[i:]
    if k == 8:
        return (s + " ") * rng.choice([2, 2, 5]) + s
    if k == 9:
        return s.replace(" ", "  ", 1) if " " in s else s + "  " + s
    if k == 10:
        return s[:i + 1]
    return s[i:] + s[:i]


def pick(rng, pool, ok, p=0.25, chars=STRANGE):
    """A word of the pool, or one near it."""
    s = rng.choice(pool)
    if rng.random() < p:
        m = s
        for _ in range(rng.choice([1, 1, 2, 3])):
            m = mutate(rng, m, chars)
        if ok(m):
            return m
    return s


def ok_tag(s):
    return bool(s) and not any(c in s for c in ": \n\t") and not s.startswith(("fp-", "candidate-")) and s.strip() == s


def ok_value(s):
    return s.strip() == s and not any(c in s for c in "\n\t")


def ok_acc(s):
    return bool(s) and (s[0].isalpha()) and (s[-1].isalnum()) and "  " not in s and s.strip() == s and not any(c in s for c in ";\t\n=@{")


def ok_desc(s):
    return bool(s) and s[0] not in "!*(=;" and not s[0].isdigit() and s.strip() == s and "  ;" not in s and not any(c in s for c in "\t\n")


# Names of files that stand for themselves.
ODD_NAMES = ["~/o.j", "~x", "~root", "${HOME}", "$HOME.j", "o${LANG}.j", "%HOME%", "file:o.j", "file://", "http:o", "fd:1", "&1", "stdout:", "a%20b.j", "{x}",
             "{}", "[o].j", "o*.j", "?", "#o.j", "@o.j", "o;p", "o|p", "|cat", "'o'", '"o"', "o\\p", "C:o.j", ":o", "o:", "o.j.gz", "o.csv", "o.pdf", "o.ron", "o,p", "o=p", "!o",
             "O.J", "o\u00e9.j", "o\u0065\u0301.j", "null", "NUL", "con", "stdin", "<stdio>", "o.tmp", ".o.j.swp", ".hidden", "....j", "o ", " o", "x" * 200, "sub.d/../o.j"]


def odd_name(rng):
    return rng.choice(ODD_NAMES)


STEM = "a-Stem_of.some-length/for+very=Long" * 9


def twins(rng, n=2):
    """Words that are the same for long, and then differ."""
    k = rng.choice([8, 15, 16, 20, 31, 32, 39, 40, 63, 64, 100, 255])
    return [STEM[:k] + x for x in rng.sample(["a", "b", "B", "1", "2", "10", "aa", "\u00fc"], n)]


def tag(rng):
    if rng.random() < 0.03:
        # nearly a tag of merge
        return rng.choice(["not-candidate-fp-1", "xcandidate-", "candidate", "Candidate-fp-1", "CANDIDATE-x", "candidat-e", "xfp-1", "FP-1", "fp", "Fp-x",
                           "unknown-accounts", "Unknown-account", "not-unknown-account"])
    if rng.random() < 0.08:
        b = rng.choice(["Abcdefghijkl", "same-Tag-of-some-length", "fP", "\u00fcber\u00fcber", "x" * 12, "x" * 13])
        b = "".join(c.swapcase() if rng.random() < 0.3 else c for c in b)
        return b if ok_tag(b) else "Tag"
    return pick(rng, TAGS, ok_tag)


def value(rng):
    if rng.random() < 0.03:
        # longer than a line should be
        return " ".join(rng.choice(WORDS) for _ in range(rng.choice([15, 30, 80])))
    return pick(rng, VALUES, ok_value)


def vkey(rng, keys=None):
    return pick(rng, keys or KEYS, ok_tag, 0.15)


def account(rng):
    return pick(rng, ACCOUNTS, ok_acc, 0.2)


def text(rng):
    if rng.random() < 0.3:
        return pick(rng, TEXTS, J.is_plain_text, 1)
    if rng.random() < 0.6:
        return rng.choice(TEXTS)
    for _ in range(5):
        t = " ".join(rng.choice(WORDS) for _ in range(rng.randint(1, 4)))
        if J.is_plain_text(t):
            return t
    return "plain"


def comment(rng, rich=0.5, extra_flags=(), keys=KEYS, value_like=0.06):
    c = J.comment(f=extra_flags)
    if rng.random() < rich:
        for _ in range(rng.randint(0, 3)):
            t = text(rng)
            if t not in c["t"] or rng.random() < 0.3:
                c["t"].append(t)
        flags = set(c["f"])
        for _ in range(rng.randint(0, 3)):
            flags.add(tag(rng))
        if flags and rng.random() < 0.1:
            f = rng.choice(sorted(flags))
            if ok_tag(f.swapcase()):
                flags.add(f.swapcase())
        c["f"] = sorted(flags)
        for _ in range(rng.randint(0, 3)):
            c["v"][vkey(rng, keys)] = value(rng)
        if rng.random() < 0.03:
            x = twins(rng, rng.randint(2, 4))
            rng.choice([lambda: flags.update(x), lambda: c["t"].extend(x), lambda: c["v"].update((k, value(rng)) for k in x)])()
            c["f"] = sorted(flags)
        if rng.random() < 0.008:
            # very many of something
            n, of = rng.choice([9, 17, 33, 65, 130]), rng.choice("tfv")
            if of == "t":
                c["t"] += ["line %d" % i for i in rng.sample(range(n * 2), n)]
            elif of == "f":
                flags |= {rng.choice(["t%d", "tag-of-some-length-%d"]) % i for i in rng.sample(range(n * 2), n)}
                c["f"] = sorted(flags)
            else:
                c["v"].update({"k%d" % i: value(rng) for i in rng.sample(range(n * 2), n)})
        if rng.random() < 0.12:
            # a flag and a key of the same name
            ks = [k for k in c["v"] if ok_tag(k)]
            fs = [f for f in c["f"] if ok_tag(f)]
            if ks and rng.random() < 0.5:
                c["f"] = sorted(flags | {rng.choice(ks)})
            elif fs:
                c["v"][rng.choice(fs)] = rng.choice(["", value(rng)])
    if c["f"] and rng.random() < value_like:
        # only next to a flag tag is this text
        c["t"].insert(rng.randint(0, len(c["t"])), rng.choice(VALUE_LIKE))
    return c


def value_like(trns):
    """Whether any comment has text that cannot be told from a value tag, for lack of a flag tag."""
    return any(not x["c"]["f"] and any(J.VALUE_RX.fullmatch(s) for s in x["c"]["t"]) for t in trns for x in [t] + t["posts"])


def qty(rng, wide=True):
    k = rng.randrange(8) if wide else rng.randrange(3)
    if k < 3:
        q = "%d.%02d" % (rng.randint(0, 500), rng.randint(0, 99))
    elif k == 3:
        q = str(rng.randint(1, 5000))
    elif k == 4:
        q = "%d.%0*d" % (rng.randint(0, 10), rng.randint(1, 8), rng.randint(0, 9))
    elif k == 5:
        q = "%d.%02d" % (rng.randint(1000, 99999999), rng.randint(0, 99))
    elif k == 6:
        q = "%d" % rng.randint(10 ** 15, 10 ** 20)
    else:
        q = "%d.%0*d" % (rng.randint(1, 10 ** 9), rng.randint(10, 17), rng.randint(1, 10 ** 9))
    from decimal import Decimal
    if Decimal(q) and rng.random() < 0.5:
        q = "-" + q
    return q


def amount(rng, wide=True):
    c, left = rng.choice(COMMODITIES)
    return J.amount(qty(rng, wide), c, left)


DESCS = ["Shop", "Café Nero", "TESCO STORES 2041", "Direct debit: E.ON", "x", "A & B (Ltd)", "日本", "50% off", "ref #12", "It's 12:30",
         "a; b", "foo*bar", "!bang", "[x]", "2 items", "=eq", "@ home", "\"q\"", "back\\slash", "-", "CAF\u00c9 \u00c9T\u00c9", "\u0416\u0423\u041a"]


def desc(rng):
    if rng.random() < 0.03:
        return "x " + " ".join(rng.choice(WORDS).replace(";", ",") for _ in range(rng.choice([15, 30, 80])))
    d = pick(rng, DESCS, ok_desc)
    return d if d[0] not in "!*(" else "x" + d


def date(rng, base=2020, span=4):
    return "%04d-%02d-%02d" % (base, rng.choice([1, 2, 2, 12]), rng.randint(1, span))


def days(rng, n):
    """Days from anywhere in time, near to and far from each other."""
    import datetime
    base = datetime.date(rng.choice([1, 999, 1000, 1582, 1752, 1899, 1900, 1969, 1970, 1999, 2000, 2038, 2059, 2069, 2100, 2106, 2149, 9999]),
                         rng.randint(1, 12), rng.randint(1, 28)).toordinal()
    out = []
    while len(out) < n:
        k = base + rng.choice([0, 1, -1, 7, 28, 31, 256, 365, -365, 366, 1000, 3653, -3653, 32768, 36525, -36525, 65536, -65536, 400000, rng.randint(-800000, 800000)])
        if 1 <= k <= datetime.date(9999, 12, 31).toordinal():
            d = datetime.date.fromordinal(k)
            out.append("%04d-%02d-%02d" % (d.year, d.month, d.day))
    return out


def any_date(rng):
    if rng.random() < 0.1:
        return days(rng, 1)[0]
    y = rng.choice([rng.randint(1900, 2100), rng.randint(2015, 2025), 2000, 2020, 2024])
    m = rng.randint(1, 12)
    import calendar
    return "%04d-%02d-%02d" % (y, m, rng.randint(1, calendar.monthrange(y, m)[1]))


def journal_trn(rng, fp=None, statuses=("", "", "!"), rich=0.6, wide=True, virtual=True, dates=None):
    """A transaction with anything in it.  fp: function giving a new fingerprint, or None."""
    posts = []
    for _ in range(rng.choice([1, 2, 2, 2, 3, 5]) if rng.random() > 0.006 else rng.choice([17, 33, 65])):
        flags = [fp()] if fp else []
        if rng.random() < 0.2:
            flags.append("unknown-account")
        p = J.post(account(rng), st=rng.choice(statuses), c=comment(rng, rich, flags))
        if virtual and rng.random() < 0.15:
            p["re"] = rng.choice("BU")
        if rng.random() < 0.85:
            p["amt"] = amount(rng, wide)
            if rng.random() < 0.15:
                p["lot"] = [rng.choice([1, 2]), amount(rng, False)]
            if rng.random() < 0.15:
                p["pr"] = [rng.choice([1, 2]), amount(rng, False)]
        if rng.random() < 0.2:
            p["bal"] = rng.choice(["0", amount(rng, wide)])
        posts.append(p)
    d = dates(rng) if dates else any_date(rng)
    t = J.trn(d, desc(rng), posts, eff=any_date(rng) if rng.random() < 0.15 else None,
                 st=rng.choice(["", "", "!", "*"]), code=rng.choice([None, None, "123", "A b", "c:d", "x;"]) if rng.random() < 0.5 else None,
                 c=comment(rng, rich * 0.7))
    if rng.random() < 0.08 and posts:
        # the same is said of a posting
        J.comment_merge(rng.choice(posts)["c"], t["c"])
    return t
