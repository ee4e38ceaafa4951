"""Journals as data: a model of transactions, a writer in many styles, and a
reader for what the tool wrote.

trn  {"date","eff","st","code","desc","c":comment,"posts":[post]}
post {"acc","re","amt","lot","pr","bal","st","c":comment}
comment {"t":[text lines],"f":[flag tags],"v":{key: value}}
amount {"q": quantity text,"c": commodity,"l": commodity is on the left}
"""
import random, re
from decimal import Decimal

VALUE_RX = re.compile(r"^[ ]*([^: ]+):(?:[ ]+(.+))?$")
FLAG_RX = re.compile(r":((?:[^: ]+:)+)")


class Unreadable(Exception):
    pass


# ---------------------------------------------------------------- comments

def parse_comment_lines(lines):
    """The documented reading of comment lines as text, flag tags and values."""
    text, flags, vals = [], set(), {}
    for line in lines:
        m = VALUE_RX.match(line)
        if m and m.end() == len(line):
            vals[m.group(1)] = m.group(2) or ""
            continue
        pos = 0
        for g in FLAG_RX.finditer(line):
            if pos < g.start():
                t = line[pos:g.start()].strip()
                if t:
                    text.append(t)
            pos = g.end()
            flags.update(g.group(1).rstrip(":").split(":"))
        if pos < len(line):
            t = line[pos:].strip()
            if t:
                text.append(t)
    return {"t": text, "f": sorted(flags), "v": vals}


def is_plain_text(t):
    return bool(t) and t == t.strip() and "\n" not in t and \
        parse_comment_lines([t]) == {"t": [t], "f": [], "v": {}}


def comment(t=(), f=(), v=None):
    return {"t": list(t), "f": sorted(set(f)), "v": dict(v or {})}


def comment_merge(dst, src):
    for t in src["t"]:
        if t not in dst["t"]:
            dst["t"].append(t)
    dst["f"] = sorted(set(dst["f"]) | set(src["f"]))
    dst["v"].update(src["v"])


def comment_layout(c):
    """The canonical layout of a comment, as lines."""
    out = []
    short = sorted(t for t in c["f"] if len(t.encode()) <= 12)
    long = sorted(t for t in c["f"] if len(t.encode()) > 12)
    if short:
        out.append(":%s:" % ":".join(short))
    out += [":%s:" % t for t in long]
    for i, t in enumerate(c["t"]):
        if i == 0 and out:
            out[0] += " " + t
        elif c["f"] and VALUE_RX.fullmatch(t):
            out.append(":%s: %s" % (min(c["f"], key=lambda x: x.encode()), t))
        else:
            out.append(t)
    out += ["%s: %s" % (k, v) for k, v in sorted(c["v"].items())]
    return out


# ---------------------------------------------------------------- amounts

def amount(q, c="GBP", left=False):
    return {"q": q, "c": c, "l": left}


def amt_text(a):
    return a["c"] + a["q"] if a["l"] else a["q"] + " " + a["c"]


def amt_key(a):
    """What makes two amounts equal: numeric value and commodity."""
    return None if a is None else (Decimal(a["q"]), a["c"], a["l"])


def priced_key(p):
    return None if p is None else (p[0], amt_key(p[1]))


def full_amt_key(post):
    if post["amt"] is None:
        return None
    return (amt_key(post["amt"]), priced_key(post["lot"]), priced_key(post["pr"]))


def bal_key(b):
    return b if b is None or b == "0" else amt_key(b)


def neg(q):
    return q[1:] if q.startswith("-") else "-" + q


def post(acc, amt=None, st="", re_="R", lot=None, pr=None, bal=None, c=None):
    return {"acc": acc, "re": re_, "amt": amt, "lot": lot, "pr": pr, "bal": bal, "st": st, "c": c or comment()}


def trn(date, desc, posts, eff=None, st="", code=None, c=None):
    return {"date": date, "eff": eff, "st": st, "code": code, "desc": desc, "c": c or comment(), "posts": posts}


def fps(p):
    return [t for t in p["c"]["f"] if t.startswith("fp-")]


# ---------------------------------------------------------------- writing

def _price_text(p, lot, rng=None):
    kind, a = p
    if lot:
        return "{%s}" % amt_text(a) if kind == 1 else "{{%s}}" % amt_text(a)
    return ("@ " if kind == 1 else "@@ ") + amt_text(a)


def acc_text(p):
    return {"R": "%s", "B": "[%s]", "U": "(%s)"}[p["re"]] % p["acc"]


def canon_trn(t):
    """Exactly the text that the tool should write for t."""
    out = t["date"] + ("=" + t["eff"] if t["eff"] else "") + (" " + t["st"] if t["st"] else "")
    out += (" (%s)" % t["code"] if t["code"] else "") + (" " + t["desc"] if t["desc"] else "")
    lines = [out] + ["  ; " + c for c in comment_layout(t["c"])]
    for p in t["posts"]:
        s = "  " + (p["st"] + " " if p["st"] else "") + acc_text(p)
        if p["amt"] is not None or p["bal"] is not None:
            s += "  "
        if p["amt"] is not None:
            s += amt_text(p["amt"])
            if p["lot"]:
                s += " " + _price_text(p["lot"], True)
            if p["pr"]:
                s += " " + _price_text(p["pr"], False)
        if p["bal"] is not None:
            s += " = " + ("0" if p["bal"] == "0" else amt_text(p["bal"]))
        lines.append(s)
        lines += ["  ; " + c for c in comment_layout(p["c"])]
    return "\n".join(lines) + "\n"


def canon(trns):
    return "\n".join(canon_trn(t) for t in trns)


def _styled_amt(a, rng):
    q, c = a["q"], a["c"]
    sign = q.startswith("-")
    digits = q.lstrip("-")
    ip, dot, fp = digits.partition(".")
    if len(ip) > 3 and rng.random() < 0.4:
        ip = "{:,}".format(int(ip))
    if ip == "0" and fp and rng.random() < 0.15:
        ip = ""
    digits = ip + dot + fp
    sp = rng.choice(["", "", " "])
    if a["l"]:
        style = rng.randrange(3)
        if sign and style == 0:
            return "-" + rng.choice(["", " "]) + c + sp + digits
        return c + sp + ("-" if sign else "") + digits
    return ("-" if sign else "") + digits + rng.choice([" ", " ", ""]) + c


def _styled_price(p, lot, rng):
    kind, a = p
    s = _styled_amt(a, rng)
    sp = rng.choice(["", " "])
    if lot:
        return ("{" + sp + s + sp + "}") if kind == 1 else ("{{" + sp + s + sp + "}}")
    return ("@" if kind == 1 else "@@") + sp + s


def _styled_comment(c, rng):
    """Comment lines that read as c, in one of many layouts.

    Value tags take a whole line; flags may share lines with text."""
    if "raw" in c:
        return list(c["raw"])
    lines = []
    flags = list(c["f"])
    rng.shuffle(flags)
    text = list(c["t"])
    vals = list(c["v"].items())
    rng.shuffle(vals)
    while text or flags or vals:
        k = rng.randrange(4)
        if k == 0 and vals:
            key, v = vals.pop()
            lines.append(("%s:%s%s" % (key, " " * rng.randint(1, 3), v)) if v else key + ":")
        elif k == 1 and flags:
            n = rng.randint(1, len(flags))
            g, flags = flags[:n], flags[n:]
            lines.append(":" + ":".join(g) + ":")
        elif k == 2 and text:
            if c["f"] and not is_plain_text(text[0]):
                lines.append(":" + rng.choice(c["f"]) + ": " + text.pop(0))
                continue
            lines.append(text.pop(0))
        elif k == 3 and flags and text:
            n = rng.randint(1, len(flags))
            g, rest = flags[:n], flags[n:]
            grp = ":" + ":".join(g) + ":"
            a = text[0]
            g1, g2 = rng.choice([" ", " ", "  ", ""]), rng.choice([" ", " ", "  ", ""])
            if n > 1 and rng.random() < 0.4:
                # text between flags
                m = rng.randint(1, n - 1)
                line, want = ":" + ":".join(g[:m]) + ":" + (g1 or " ") + a + (g2 or " ") + ":" + ":".join(g[m:]) + ":", [a]
            elif rng.random() < 0.5:
                line, want = grp + g1 + a, [a]
            elif len(text) > 1 and rng.random() < 0.5:
                line, want = a + g1 + grp + g2 + text[1], [a, text[1]]
            else:
                line, want = a + g1 + grp, [a]
            if parse_comment_lines([line]) == {"t": want, "f": sorted(g), "v": {}}:
                lines.append(line)
                flags = rest
                del text[:len(want)]
    return lines


def _emit_comment(head, c, rng, out, trail=True, inline=True):
    lines = _styled_comment(c, rng)
    if "raw" not in c and rng.random() < 0.05:
        lines.insert(rng.randint(0, len(lines)), "")
    if lines and rng.random() < 0.3 and inline:
        head += rng.choice(["  ", "   ", "  "]) + ";" + rng.choice([" ", "  ", ""]) + lines.pop(0)
    elif trail and rng.random() < 0.1:
        head += "  "
    out.append(head)
    for ln in lines:
        ch = rng.choice(";;;;;;#%|*")
        out.append(rng.choice(["  ", "    ", "\t", "  ", ""]) + ch + rng.choice([" ", "  ", " "]) + ln +
                   rng.choice(["", "", "", "  "]))


CLEARED = "verif-cleared="


def styled_trn(t, rng):
    sep = rng.choice("---/.")
    out = []
    d = lambda s: s.replace("-", sep)
    h = d(t["date"]) + ("=" + d(t["eff"]) if t["eff"] else "")
    sp = lambda: rng.choice([" ", " ", " ", "  "])
    if t["st"]:
        h += sp() + t["st"]
    if t["code"]:
        h += sp() + "(%s)" % t["code"]
    h += sp() + t["desc"]
    # a comment on the header line needs a hard separator before it, the
    # first one of the line: the parser library reads "a  b  ; c" as one
    # description
    _emit_comment(h, t["c"], rng, out, trail=False, inline="  " not in t["desc"])
    for p in t["posts"]:
        ind = rng.choice(["  ", "  ", "    ", "\t", " "])
        acc = p["acc"]
        st = p["st"]
        if st == "*":
            # read through the verification hook
            acc, st = CLEARED + acc, ""
        q = dict(p, acc=acc)
        s = ind + (st + rng.choice([" ", ""]) if st else "") + acc_text(q)
        if p["amt"] is not None:
            s += rng.choice(["  ", "    ", "\t", "  \t "]) + _styled_amt(p["amt"], rng)
            if p["lot"]:
                s += rng.choice(["", " "]) + _styled_price(p["lot"], True, rng)
            if p["pr"]:
                s += rng.choice([" ", "  "]) + _styled_price(p["pr"], False, rng)
            if p["bal"] is not None:
                s += rng.choice([" = ", "=", " =", "  = "])
        elif p["bal"] is not None:
            s += rng.choice(["  = ", "   =", "\t= "])
        if p["bal"] is not None:
            s += "0" if p["bal"] == "0" else _styled_amt(p["bal"], rng)
        _emit_comment(s, p["c"], rng, out)
    return "\n".join(out) + "\n"


def styled(trns, seed):
    """Text that reads as trns; seed None gives the canonical text."""
    if seed is None:
        return canon_in(trns)
    rng = random.Random("style:%s" % seed)
    out = []
    for i, t in enumerate(trns):
        if i or rng.random() < 0.1:
            # a blank line, or nothing at all
            out.append(rng.choice(["\n", "\n", "\n", "\n\n", ""]))
        out.append(styled_trn(t, rng))
    s = "".join(out)
    if rng.random() < 0.1:
        s += "\n"
    if rng.random() < 0.1:
        s = s.replace("\n", "\r\n")
    elif rng.random() < 0.1 and trns and trns[-1]["posts"][-1]["amt"] and s[-1] == "\n" and s[-2] not in " \n":
        s = s[:-1]
    return s


def mark_cleared(trns):
    """Postings with status * expressed through the verification hook."""
    out = []
    for t in trns:
        ps = [dict(p, acc=CLEARED + p["acc"], st="") if p["st"] == "*" else p for p in t["posts"]]
        out.append(dict(t, posts=ps))
    return out


def canon_in(trns):
    """Canonical text for reading in (cleared postings through the hook)."""
    return canon(mark_cleared(trns))


# ---------------------------------------------------------------- reading

DATE = r"\d{4}[-/.]\d{2}[-/.]\d{2}"
HEAD_RX = re.compile(r"^(%s)(?:=(%s))?(?:\s+([*!]))?(?:\s+\(([^)]+)\))?(?:\s+(.*?))?$" % (DATE, DATE))
QTY = r"-?(?:\d{1,3}(?:,\d{3})+|\d*)(?:\.\d+)?"
COM = r"[^0-9{}\[\]()~`!@#%^&*\-=+\\'\",./? ;\t\r\n]+"
AMT_RX = re.compile(r"(?:(-\s*)?(\"[^\"]+\"|%s)\s*(%s)|(%s)\s*(\"[^\"]+\"|%s))" % (COM, QTY, QTY, COM))


def _amt(s, pos):
    m = AMT_RX.match(s, pos)
    if not m:
        return None, pos
    if m.group(2) is not None:
        q = m.group(3).replace(",", "")
        if m.group(1):
            q = neg(q)
        c, left = m.group(2), True
    else:
        q, c, left = m.group(4).replace(",", ""), m.group(5), False
    if q.lstrip("-") == "":
        return None, pos
    if q.lstrip("-").startswith("."):
        q = q.replace(".", "0.", 1)
    return {"q": q, "c": c, "l": left}, m.end()


def _ws(s, pos):
    while pos < len(s) and s[pos] in " \t":
        pos += 1
    return pos


def _read_post(line):
    s = line.strip(" \t\r")
    st = ""
    if s[:1] in ("*", "!"):
        st, s = s[0], s[1:].lstrip(" \t")
    m = re.search(r"  |\t", s)
    acc, rest = (s[:m.start()], s[m.start():]) if m else (s, "")
    re_ = "R"
    if len(acc) > 1 and acc[0] == "[" and acc[-1] == "]":
        acc, re_ = acc[1:-1], "B"
    elif len(acc) > 1 and acc[0] == "(" and acc[-1] == ")":
        acc, re_ = acc[1:-1], "U"
    if not acc:
        raise Unreadable("posting without account: %r" % line)
    p = post(acc, st=st, re_=re_)
    pos = _ws(rest, 0)
    a, pos = _amt(rest, pos)
    p["amt"] = a
    if a is not None:
        pos = _ws(rest, pos)
        for br, be, kind in (("{{", "}}", 2), ("{", "}", 1)):
            if rest.startswith(br, pos):
                la, e = _amt(rest, _ws(rest, pos + len(br)))
                e = _ws(rest, e)
                if la is None or not rest.startswith(be, e):
                    raise Unreadable("lot price: %r" % line)
                p["lot"], pos = [kind, la], _ws(rest, e + len(be))
                break
        for at, kind in (("@@", 2), ("@", 1)):
            if rest.startswith(at, pos):
                pa, e = _amt(rest, _ws(rest, pos + len(at)))
                if pa is None:
                    raise Unreadable("price: %r" % line)
                p["pr"], pos = [kind, pa], _ws(rest, e)
                break
    pos = _ws(rest, pos)
    if rest.startswith("=", pos):
        b, e = _amt(rest, _ws(rest, pos + 1))
        if b is None:
            e = _ws(rest, pos + 1)
            if not rest.startswith("0", e):
                raise Unreadable("balance: %r" % line)
            b, e = "0", e + 1
        p["bal"], pos = b, _ws(rest, e)
    inline = None
    if rest.startswith(";", pos):
        inline = rest[pos + 1:].strip(" \t\r")
    elif pos < len(rest):
        raise Unreadable("posting: %r" % line)
    return p, inline


def read_items(text):
    """The items of a journal that the tool wrote.  Comments start with ';';
    an indented line that starts with '*' is a cleared posting."""
    if isinstance(text, bytes):
        try:
            text = text.decode("utf-8")
        except UnicodeDecodeError:
            raise Unreadable("not UTF-8")
    items, cur, curlines, last = [], None, None, None
    lines = text.split("\n")
    if lines and lines[-1] == "":
        lines.pop()

    def finish():
        for t in (cur["raw"], *cur["rawposts"]):
            obj, ls = t
            obj["raw"] = ls
            obj["c"] = parse_comment_lines(ls)
        if not cur["rawposts"]:
            raise Unreadable("transaction without postings: %r" % cur["raw"][0]["desc"])

    for line in lines:
        line = line.rstrip("\r")
        if not line.strip():
            if cur:
                finish()
            cur = None
            items.append(("blank",))
        elif cur is not None and line.lstrip(" \t").startswith(";"):
            last[1].append(line.lstrip(" \t")[1:].strip(" \t"))
        elif cur is not None and line[0] in " \t":
            p, inline = _read_post(line)
            last = (p, [inline] if inline is not None else [])
            cur["rawposts"].append(last)
            cur["raw"][0]["posts"].append(p)
        elif line[0] in ";#%|*":
            items.append(("comment", line[1:].strip()))
        elif re.match(DATE, line):
            if cur:
                finish()
            inline = None
            m = re.search(r"(?:  +|\t\s*|  \s*);(.*)$", line)
            if m and m.start() >= 10:
                inline, line = m.group(1).strip(), line[:m.start()]
            m = HEAD_RX.match(line)
            if not m:
                raise Unreadable("header: %r" % line)
            d = lambda s: s and re.sub("[/.]", "-", s)
            t = trn(d(m.group(1)), m.group(5) or "", [], eff=d(m.group(2)), st=m.group(3) or "", code=m.group(4))
            last = (t, [inline] if inline is not None else [])
            cur = {"raw": last, "rawposts": []}
            items.append(("trn", t))
        elif line.startswith("include "):
            if cur:
                finish()
            cur = None
            items.append(("include", line[8:].strip()))
        elif line.startswith("P "):
            if cur:
                finish()
            cur = None
            f = line.split(None, 4)
            if len(f) != 5:
                raise Unreadable("price: %r" % line)
            a, e = _amt(f[4], 0)
            if a is None:
                raise Unreadable("price: %r" % line)
            items.append(("price", f[1], f[2], f[3], a))
        else:
            raise Unreadable("line: %r" % line)
    if cur:
        finish()
    return items


def read_trns(text):
    """The transactions of a journal that has nothing else in it."""
    out = []
    for it in read_items(text):
        if it[0] == "trn":
            out.append(it[1])
        elif it[0] != "blank":
            raise Unreadable("unexpected item %r" % (it,))
    return out


# ---------------------------------------------------------------- comparing

def norm_amt(a):
    if a is None or a == "0":
        return a
    q = a["q"]
    if Decimal(q) == 0 and q.startswith("-"):
        q = q[1:]
    return (q, a["c"], a["l"])


def norm_comment(c):
    return (tuple(c["t"]), tuple(sorted(c["f"])), tuple(sorted(c["v"].items())))


def norm_post(p, with_comment=True):
    pr = lambda x: None if x is None else (x[0], norm_amt(x[1]))
    return (p["acc"], p["re"], norm_amt(p["amt"]), pr(p["lot"]), pr(p["pr"]), norm_amt(p["bal"]), p["st"],
            norm_comment(p["c"]) if with_comment else None)


def norm_head(t):
    return (t["date"], t["eff"], t["st"], t["code"], t["desc"])


def norm_trn(t):
    return (norm_head(t), norm_comment(t["c"]), tuple(norm_post(p) for p in t["posts"]))


def diff_trns(want, got, what=""):
    """None when equal, else a short description of the first difference."""
    for i in range(max(len(want), len(got))):
        if i >= len(want):
            return "%sunexpected extra transaction:\n%s" % (what, canon_trn(got[i]))
        if i >= len(got):
            return "%smissing transaction:\n%s" % (what, canon_trn(want[i]))
        if norm_trn(want[i]) != norm_trn(got[i]):
            return "%stransaction %d: expected\n%s--- but got\n%s" % (what, i + 1, canon_trn(want[i]), canon_trn(got[i]))
    return None
