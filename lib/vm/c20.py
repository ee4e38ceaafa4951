"""C20: no input makes the program crash or hang."""
import shutil, os, random, re, resource
from . import c11, core, imp, imprun, journal as J, pdf, pp, rules as R, scenario as S, words as W

BUDGET = {"quick": (14000, 110), "thorough": (600000, 820)}
RULE = ("A case is a run of any command whose input files (journals, rule tables, CSV files, time zone and namespace tables, OCR output) "
        "or arguments are damaged or hostile: mutated bytes, tokens and structure, extreme numbers, dates and positions, deep nesting, long "
        "lines, many items, endless rule chains. Part of the runs use a build with AddressSanitizer; all have overflow checks. Each must "
        "end within the time limit, with status 0, or non-zero with a message, without panic, abort, signal or sanitizer report. "
        "Non-trivial: the input was changed.")
REQUIRED = ["hostile journal", "hostile rules", "hostile csv", "hostile ocr", "hostile arguments", "hostile table", "large input",
            "long namespace of several-byte characters",
            "name that is not Unicode", "accepted", "rejected"]
ASSUMPTIONS = ["chains that fan out into exponentially many jumps are programs that take long, not hangs"]
NOM_RX = re.compile(rb"nom-[0-9.]+/src/[a-z/]+\.rs:\d+:\d+:\nCannot call `finish\(\)` on `Err\(Err::Incomplete\(_\)\)`")
ASAN = None


def prepare(tier):
    global ASAN
    ASAN = core.build_asan()


TOKENS = {
    "journal": ["\n", "\n\n", " ", "  ", "\t", ";", "; :a:", "; k: v", "  ; ", "2020-01-01 x", "9999-12-31", "0000-00-00", "2020-02-30", "=", "= 0",
                "@ 1 USD", "@@", "{", "{{1 USD}}", "}", "(", ")", "[a]", "!", "*", "-", "--1", "1,000", "1,00", ".5", "5.", ".", "GBP", "\"q c\"", "\"",
                "\\\"", "79228162514264337593543950335 X", "79228162514264337593543950336 X", "0.0000000000000000000000000001 X",
                "0.00000000000000000000000000001 X", "-79228162514264337593543950335.9 X", "include x", "P 2020-01-01 00:00:00 GBP 1 USD",
                "P 2020-01-01 25:00:00 A 1 B", "~", "\r\n", "\r", "\u00a0", "\u3000", "\U0001f600", "\ufeff", "\0", ":fp-x:", "; :fp-1:fp-1:",
                "; :candidate-fp-1:", "; source-file: s", ":unknown-account:", "a", "  a", "  a  1 GBP\n", "aa  1 GBP", ":::::", "; ::"],
    "rules": ["[", "]", "(", ")", "{", "}", ",", ":", "\"", "\\", "\\u{110000}", "\\x", "r#\"", "\"#", "//", "/*", "*/", "Chain", "Rule", "All",
              "Any", "Not", "True", "JumpChain", "\"start\"", "Include(\"r.ron\")", "Include(\"\")", "Include(\".\")", "Matches(\"(\")",
              "Matches(\"a{1000}{1000}\")", "Matches(\"(?P<n>a)(?P<n>b)\")", "Matches(\"\\\\pL+\")", "Matches(\"(?i)(a*)*b\")", "Error(\"x\")",
              "AsLower(", "Some(", "None", "'a'", "1", "-1", "1e999", "inf", "NaN", "#![enable(implicit_some)]", "#![enable(unwrap_newtypes)]",
              "b\"x\"", "..", "0x", "\u00a0", "\0", "\ufeff", "Continue", "Return", "ReplaceTransactionDescription((regex:\"\",replacement:\"$0$0\"))"],
    "csv": [",", "\"", "\"\"", "\n", "\r", "\r\n", "\u00a3", "\u00a3-", "\u00a31", "\u00a399999999999999999999999999999.99", "-", "\u00a3-0.00",
            "31 Dec 9999", "30 Feb 2020", "01 Jan 262143", "01 Jan 0000", "01 jan 2020", "1 Jan 2020", "31/12/9999", "31/12/262142", "31/12/+262142", "31 Dec +262142", "01/01/-262143",
            "01/01/0001", "23:59:60", "24:00:00", "GMT", "UTC", "1e308", "1E-400", "NaN", "inf", "-1", "1,000.00", "0x10", ".", "Date",
            "Account Name:", "Completed", "Refunded", "\u20ac", "\u0152", " ", "\t", ";", "\0", "79228162514264337593543950335",
            "79228162514264337593543950336", "0.00000000000000000000000000000001"],
    "table": ["UTC+00", "UTC-00", "UTC+99", "UTC+24", "UTC-24:00", "UTC+23:59", "UTC+23:99", "UTC+00:60", "UTC+1", "UTC", "+01:00", ",", "\n", "\"",
              "GMT", "abbreviation", "UTC+\u0661\u0662", "{", "}", ":", "\"x\"", "(", "\0", "Some(", "1"],
    "ocr": ["\t", "\n", "1", "2", "3", "4", "5", "6", "0", "-1", "2147483647", "-2147483648", "2147483648", "99999999999999999999", "Date",
            "Details", "Payments", "Receipts", "Balance", "Effective", "Date:", "date", "31 Feb", "2020", "9999", "0000", "2101", "1.00", "-1.00",
            "79228162514264337593543950335", "1,000.00", "1.0.0", ",", ".", "\"", "Account", "Number", "12-34-56", "12345678", "", " ", "\u0661\u0662",
            "31", "Jan", "0 Jan", "\0", "1e5", "0.5"],
}
COUNT = {"journal": "hostile journal", "rules": "hostile rules", "csv": "hostile csv", "table": "hostile table", "ocr": "hostile ocr"}


MON = rb"(?:Jan|Feb|Mar|Apr|May|Jun|Jul|Aug|Sep|Oct|Nov|Dec|January|February|March|April|June|July|August|September|October|November|December)"
DATES = {
    "journal": [re.compile(rb"(?<=-)\d\d(?=[ =\n-])"), re.compile(rb"(?m)^\d{4}(?=-)")],
    "csv": [re.compile(rb"\b\d\d(?= [A-Z][a-z]{2} )"), re.compile(rb"\b%s\b" % MON), re.compile(rb"\b\d\d(?=/)"), re.compile(rb"\b\d\d(?=:)|(?<=:)\d\d\b"),
            re.compile(rb"(?<= )\d{4}\b|(?<=/)\d{4}\b")],
    "ocr": [re.compile(rb"(?m)(?<=\t)\d{1,2}$"), re.compile(rb"(?m)(?<=\t)%s$" % MON), re.compile(rb"(?m)(?<=\t)\d{4}$"),
            re.compile(rb"(?m)(?<=\t)(?:\d{1,2}|\d{4}|%s)$" % MON)],
    "table": [re.compile(rb"(?<=[+-])\d\d|(?<=:)\d\d")],
}
EFF = re.compile(rb"(?m)(\tEffective\n[^\n]*\tDate:?\n[^\n]*\t)[^\t\n]*(\n[^\n]*\t)([^\t\n]*)$")


def other_day(rng, s):
    """Another number or month in place of s."""
    if not s.isdigit():
        return rng.choice([b"Feb", b"Feb", b"Apr", b"Jun", b"Feb", b"Nov", b"February"])
    if len(s) == 4:
        return rng.choice([b"2019", b"2021", b"1900", b"2100", b"0000", b"9999", b"10000", b"0001"])
    return rng.choice([b"29", b"30", b"31", b"31", b"30", b"00", b"0", b"32", b"13", b"24", b"60", b"61", b"99"])


def mutate(rng, b, kind, ops):
    toks = TOKENS[kind]
    for _ in range(ops):
        k = rng.randrange(19 if kind == "ocr" else 16) - (4 if kind in DATES else 3)
        i = rng.randrange(len(b) + 1)
        j = min(len(b), i + rng.choice([0, 1, 1, 2, 4, 16, 64]))
        tok = rng.choice(toks).encode()
        if kind == "ocr" and rng.random() < 0.06:
            k = -4
        if k == -4:
            # days, months and times which do not exist
            rx = rng.choice(DATES[kind])
            if kind == "ocr" and rng.random() < 0.5:
                # that of one thing only
                day = rng.choice([b"31", b"30", b"29", b"31", b"00", b"32", b"99"])
                b = EFF.sub(lambda m: m.group(1) + day + m.group(2) + (rng.choice([b"Feb", b"Feb", m.group(3)])), b)
                continue
            ms = list(rx.finditer(b))
            if ms:
                sure = rng.choice(ms).span()
                rate = rng.choice([0, 0, 0.5, 1])
                b = rx.sub(lambda m: other_day(rng, m.group()) if m.span() == sure or rng.random() < rate else m.group(), b)
        elif k == -1:
            # all amounts, or the last places of them
            far = rng.choice([b"79228162514264337593543950335", b"0.0000000000000000000000000001", b"79228162514264337593543950334.9",
                              b"7922816251426433759354395033.5", b"39614081257132168796771975168", b"9223372036854775808", b"0",
                              b"792281625142643375935439503.35"])
            rate = rng.choice([1, 1, 0.5])
            b = re.sub(rb"\d+\.\d\d(?!\d)", lambda m: far if rng.random() < rate else m.group(), b)
        elif k == -2:
            # a character of several bytes next to every one of some kind
            ch = rng.choice(["\u00e9", "\u65e5", "\U0001f642", "\u00a0", "\u3000", "\u0130", "\u00df", "\u0301", "\ufb01"]).encode()
            at = rng.choice([b":", b": ", b" ", b"; ", b"-", b"  ", b"/", b"\"", b",", b".", b"(", b"\n", b"fp-", b"\t", b"a", b"@", b"1"])
            b = b.replace(at, rng.choice([at + ch, ch + at, ch, at + ch + at]))
        elif k == -3:
            # all of one word
            ws = sorted(set(re.findall(rb"[\w.-]+", b)))
            if ws:
                w = rng.choice(ws)
                b = re.sub(rb"(?<![\w.-])" + re.escape(w) + rb"(?![\w.-])", lambda m: tok, b)
        elif k == 0:
            b = b[:i] + bytes([rng.randrange(256)]) + b[i:]
        elif k == 1 and b:
            b = b[:i] + bytes([rng.randrange(256)]) + b[i + 1:]
        elif k == 2:
            b = b[:i] + b[j:]
        elif k == 3:
            b = b[:i]
        elif k == 4:
            b = b[:i] + b[i:j] * rng.choice([2, 3, 50]) + b[j:]
        elif k in (5, 6, 7):
            b = b[:i] + tok + b[rng.choice([i, j]):]
        elif k == 8:
            # a whole field or word becomes a token
            ws = [m.span() for m in re.finditer(rb"[^\s,\t\"():;]+", b)]
            if ws:
                s, e = rng.choice(ws)
                b = b[:s] + tok + b[e:]
        elif k == 9:
            ls = b.split(b"\n")
            x, y = rng.randrange(len(ls)), rng.randrange(len(ls))
            ls[x], ls[y] = ls[y], ls[x]
            b = b"\n".join(ls)
        elif k == 10:
            ls = b.split(b"\n")
            x = rng.randrange(len(ls))
            ls.insert(rng.randrange(len(ls) + 1), ls[x])
            b = b"\n".join(ls)
        elif k == 11:
            ls = b.split(b"\n")
            del ls[rng.randrange(len(ls))]
            b = b"\n".join(ls)
        elif k > 12:
            # a position or a number of one record
            ls = b.split(b"\n")
            x = rng.randrange(len(ls))
            f = ls[x].split(b"\t")
            y = rng.randrange(1, 10)
            if len(f) > y:
                f[y] = rng.choice([b"2147483647", b"-2147483648", b"2147483600", b"-1", b"0", b"1073741824", b"99999999999", b"1", b"4294967295"])
                ls[x] = b"\t".join(f)
            b = b"\n".join(ls)
        else:
            ds = [m.span() for m in re.finditer(rb"\d+", b)]
            if ds:
                s, e = rng.choice(ds)
                b = b[:s] + rng.choice([b"0", b"9" * rng.choice([1, 4, 10, 19, 28, 30, 40]), b"-1", b"2147483647", b"2147483648",
                                        str(rng.randrange(10 ** 6)).encode(), b""]) + b[e:]
    return b


NEST = [("Not(", ")"), ("All([", "])"), ("AsLower(", ")"), ("Any([", "])")]


def special(rng, kind):
    """Input that is hostile by construction."""
    n = rng.choice([50, 130, 1000, 20000])
    if kind == "rules":
        o, c = rng.choice(NEST)
        k = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 8, 8])
        if k == 8:
            # actions whose results match again
            rx = lambda: rng.choice(["(.*)", "^", "$", ".", "[a-z]", "(\\\\w)", "x?", "o+", " ", "(?i)S", "^(.*)$", "\\\\pL+"])
            to = lambda: rng.choice(["$0$0", "$0", "x", "$0x", "x$0", "xoSa ", "$1$1", "${0}\u00e9", "", "$9"])
            # a run that doubles each time is a program that takes long
            rep = lambda a, b: (a, b if b not in ("$0$0", "$1$1") or a in (".", "[a-z]", "x?", " ", "^", "$", "(?i)S") else "$0y")
            act = lambda: rng.choice([lambda: 'ReplaceTransactionDescription((regex:"%s",replacement:"%s"))' % rep(rx(), to()),
                                      lambda: 'SetAccount("a:b")', lambda: 'AddPostingFlagTag("a")', lambda: 'RemovePostingFlagTag("a")',
                                      lambda: 'AddTransactionValueTag("k","v")', lambda: 'RemoveTransactionValueTag("k")',
                                      lambda: 'JumpChain("b")', lambda: 'JumpChain("b")'])()
            chain = lambda name: 'Chain("%s",[%s])' % (name, ",".join(
                'Rule(predicate:%s,action:%s,result:%s)' % (
                    rng.choice(["True", "True", 'TransactionDescription(Matches("%s"))' % rx(), 'Account(Matches("%s"))' % rx(), 'PostingHasFlagTag("a")']),
                    "All([%s])" % ",".join(act() for _ in range(rng.randint(0, 4))) if rng.random() < 0.3 else act(),
                    rng.choice(["Continue", "Continue", "Return"])) for _ in range(rng.randint(1, 6))))
            s = "[%s,%s]" % (chain("start"), chain("b").replace('JumpChain("b")', "Noop"))
            return s
        if k == 0:
            inner = {"AsLower(": "Account(" + o * n + "Eq(\"a\")" + c * n + ")"}.get(o, o * n + "True" + c * n)
            return '[Chain("start",[Rule(predicate:%s,action:Noop,result:Continue)])]' % inner
        if k == 1:
            return '[Chain("start",[Rule(predicate:True,action:%s,result:Continue)])]' % ("All([" * n + "Noop" + "])" * n)
        if k == 2:
            d = rng.choice([1, 1, 2, 5, 12, 20, 27])
            return '[Chain("start",[Rule(predicate:True,action:JumpChain("a"),result:Continue)]),' \
                   'Chain("a",[Rule(predicate:True,action:%sNoop,JumpChain("start")%s,result:Continue)])]' % ("All([" * d, "])" * d)
        if k == 3:
            rx = rng.choice(["(" * n + ")" * n, "a{%d}" % n, "((a{100}){100}){100}", "[" * n, "(?:" * n + "x" + ")" * n, "\\\\" * 1, "a" * n,
                             "(a|b|ab)*" * min(n, 300) + "c", "\\\\p{Greek}{%d}" % min(n, 999), "(?P<a" + "b" * n + ">x)", ".*" * min(n, 500)])
            return '[Chain("start",[Rule(predicate:Account(Matches("%s")),action:Noop,result:Continue)])]' % rx
        if k == 4:
            m = min(n, 1000)
            d = rng.choice([0, 0, 1, 3, 15, 27])
            cs = ",".join('Chain("c%d",[Rule(predicate:True,action:%sJumpChain("c%d")%s,result:Continue)])' % (i, "All([" * d, i + 1, "])" * d)
                          for i in range(m))
            return '[Chain("start",[Rule(predicate:True,action:JumpChain("c0"),result:Continue)]),%s,Chain("c%d",[])]' % (cs, m)
        if k == 5:
            return "[" * n
        if k == 6:
            return '[Chain("start",[%s])]' % ("Rule(predicate:True,action:AddPostingFlagTag(\"a\"),result:Continue)," * min(n, 2000))
        return '[Include("r.ron"),Include("./r.ron"),Include("../' + "x/../" * n + 'r.ron"),Chain("start",[])]'
    if kind == "journal":
        k = rng.randrange(9)
        t = "2020-01-01 x\n"
        fp = lambda i: "  aa  %d GBP\n  ; :fp-%d:\n" % (i % 7, i)
        if k == 0:
            return t + "".join(fp(i) for i in range(min(n, 4000)))
        if k == 1:
            return t + "  aa  1 GBP\n  ; :fp-1:\n" + "  ; x\n" * n
        if k == 2:
            return t + "  aa  1 GBP ; " + ":a" * n + ":\n  ; :fp-1:\n"
        if k == 3:
            return "".join("2020-01-%02d d\n" % (i % 28 + 1) + fp(2 * i) + fp(2 * i + 1) for i in range(min(n, 3000)))
        if k == 4:
            return "2020-01-01 " + "x" * n + "\n  " + "a" * n + "  1 GBP\n  ; :fp-%s:\n" % ("z" * n)
        if k == 5:
            return "\n" * n + t + "  aa  1 GBP\n  ; :fp-1:\n"
        if k == 6:
            return t + "  aa  " + "9" * n + " GBP\n"
        if k == 7:
            return t + "  aa  1" + ",000" * n + " GBP\n"
        return t + "  aa  1 GBP {" * n + "\n"
    if kind == "csv":
        k = rng.randrange(4)
        if k == 0:
            return "\"" * n
        if k == 1:
            return "," * n + "\n"
        if k == 2:
            return "Account Name:,%s\n" % ("x" * n)
        return "\n" * n
    if kind == "ocr":
        k = rng.randrange(4)
        if k == 0:
            return "".join("1\t%d\t0\t0\t0\t0\t0\t0\t0\t0\t-1\t\n" % (i + 1) for i in range(min(n, 3000)))
        if k == 1:
            return "1\t1\t0\t0\t0\t0\t0\t0\t0\t0\t-1\t" + "x" * n + "\n"
        if k == 2:
            return "\t" * n
        return "5\t1\t1\t1\t1\t1\t-2147483648\t-2147483648\t-2147483648\t-2147483648\t0\tDate\n"
    return rng.choice(["abbreviation,utc_offset\n" + "".join("Z%d,UTC+%02d\n" % (i, i % 24) for i in range(min(n, 5000))), "{" * n, "(" * n,
                       "abbreviation,utc_offset\nGMT,UTC+" + "9" * n + "\n", "utc_offset,abbreviation\nUTC+00,GMT\n"])


VALUES = ["", "-", "--", "x", "\u00e9", "a" * 5000, "/", "/dev/null", ".", "..", "fixed:", "fixed:x", "lookup:", "lookup:nofile", "lookup:.", "lookup:/dev/null",
          "UTC", "Europe/London", "europe/london", "+00:00", "%FP_NS%", "%", "%%", "\\", "'", "nul\x01", "1", "-1", "\udcff\udcfe", "NS"]
OPTS = ["-o", "--output", "-u", "--unmerged", "--fp-namespace", "--output-timezone", "--fingerprint-namespace", "--sub-output-path", "--make-parent-dirs",
        "--include-legacy-fingerprint", "--help", "--version", "-h", "-V", "--", "-oo", "--output=", "-"]


def gen(rng, tier, i):
    k = rng.randrange(20)
    if k == 0:
        cmd = rng.choice(S.CMDS + ["import nationwide-csv", "import paypal-csv", "import nationwide-pdf", "help", "nonsense", ""])
        args = cmd.split(" ") + [rng.choice(rng.choice([VALUES, OPTS, ["in.j", "r.ron", "in.csv", "tz.csv", "table", "out.j"]]))
                                 for _ in range(rng.randint(0, 7))]
        return {"mode": "args", "args": args}
    c = S.gen(rng, tier, cmd=rng.choice(S.CMDS + ["import", "import"]), kind=rng.choice([None, None, "pdf"]), small=True, cleared=rng.random() < 0.3)
    case = {"mode": "mutate", "s": c, "seed": rng.randrange(10 ** 9), "ops": rng.choice([1, 1, 1, 1, 2, 3, 5, 10, 30]),
            "asan": rng.random() < (0.15 if tier == "quick" else 0.3)}
    if k in (1, 2):
        case["mode"] = "special"
    elif k == 3 and rng.random() < 0.4:
        case["mode"] = "names"
    return case


def kind_of(name):
    return "rules" if name.endswith(".ron") and name != "ns.ron" else "table" if name in ("ns.ron", "tz.csv") else \
        "csv" if name.endswith(".csv") else "ocr" if name.startswith("pages/") else "journal"


def limits():
    resource.setrlimit(resource.RLIMIT_CPU, (40, 40))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def check(case, box, res):
    if case["mode"] == "args":
        box.write("in.j", "2020-01-01 x\n  aa  1 GBP\n  ; :fp-1:\n")
        box.write("r.ron", '[Chain("start",[])]')
        box.write("in.csv", "x\n")
        box.write("tz.csv", "abbreviation,utc_offset\n")
        args = [os.fsencode(a) if "\udc80" <= max(a or "x") <= "\udcff" else a for a in case["args"]]
        args = [a for a in args if a not in ("/",)]
        o = box.run(args, timeout=60, preexec=limits)
        judge(res, case, o, "arguments %r" % (args,))
        res.feat("hostile arguments")
        res.nontrivial = True
        return
    rng = random.Random(case["seed"])
    c = case["s"]
    plan = S.setup(box, c)
    files = list(plan.ins or plan.outs)
    if c["cmd"] == "import" and c["imp"]["kind"] == "pdf":
        files = ["pages/" + f for f in sorted(os.listdir(box.path("pages")))] or ["pages/p-00"]
        case_pdf = True
    if c["cmd"] == "import" and c["imp"].get("ns", {}).get("how") == "generated" and rng.random() < 0.1 and c["imp"]["kind"] != "pp":
        box.write("ns.ron", '{"x": "y"}')
        plan.args[plan.args.index("generated")] = "lookup:ns.ron"
        files.append("ns.ron")
    elif c["cmd"] == "import" and "generated" in plan.args and rng.random() < 0.2:
        # long names of all kinds of characters, as they are or as account names
        name = "".join(rng.choice(rng.choice(["a", "aZ09", " .-*", "\u00a3\u00e9\u00df\u20ac", "\u00e9"])) for _ in range(rng.choice([1, 3, 10, 20, 40, 70, 300])))
        if c["imp"]["kind"].startswith("nw") and rng.random() < 0.7:
            plan.args[plan.args.index("generated")] = "account-name"
            for f in files:
                b = box.read(f)
                if b:
                    box.write(f, re.sub(rb'(Account Name:"?,)[^\r\n]*', lambda m: m.group(1) + b'"' + name.encode("cp1252") + b'"', b, count=1))
        else:
            plan.args[plan.args.index("generated")] = "fixed:" + name
        res.feat("long namespace of several-byte characters", len(name) > 9)
    if case["mode"] == "names":
        # good input under a name that is not Unicode
        at = [i for i, a in enumerate(plan.args) if re.fullmatch(r"[^-].*\.[a-z]+", a)]
        i = rng.choice(at)
        odd = rng.choice([b"\xff", b"n\xe9.j", b"\xc3\x28.csv", b"d\xff/x.j", b"\xed\xa0\x80", b"a\x80\x80.pdf", b"\xf0\x28\x8c\xbc.ron", b"\xffx,y"])
        pre = b"lookup:" if plan.args[i].startswith("lookup:") else b""
        src, dst = os.fsencode(box.path(plan.args[i][len(pre):])), os.path.join(os.fsencode(box.dir), odd)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        if os.path.exists(src):
            os.rename(src, dst)
        args = [pre + odd if n == i else os.fsencode(a) for n, a in enumerate(plan.args)]
        res.feat("name that is not Unicode")
        res.nontrivial = True
        judge(res, case, box.run(args, env=plan.env, timeout=60, preexec=limits), "%s with %s called %r" % (c["cmd"], plan.args[i], odd))
        return
    for name in rng.sample(files, rng.choice([1, 1, len(files)])):
        kind = kind_of(name)
        old = box.read(name) or b""
        if case["mode"] == "special":
            new = special(rng, kind)
            new = new.encode("cp1252" if kind == "csv" and c["imp"]["kind"] != "pp" else "utf-8")
            if len(new) > 50000:
                res.feat("large input")
        else:
            new = mutate(rng, old, kind, case["ops"])
        box.write(name, new)
        if new != old:
            res.feat(COUNT[kind])
            res.nontrivial = True
    if c["cmd"] in ("fmt", "generate-fingerprints") or True:
        kept = {n: box.read(n) for n in files}
    o = box.run(plan.args, env=plan.env, timeout=60, preexec=limits)
    ok = judge(res, case, o, "%s with hostile %s" % (c["cmd"], sorted({kind_of(n) for n in files})))
    if case["asan"] and ok and ASAN:
        for n, b in kept.items():
            box.write(n, b)
        o = box.run(plan.args, env=dict(plan.env, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99"), timeout=120, binary=ASAN)
        res.feat("run with AddressSanitizer")
        judge(res, case, o, "with AddressSanitizer: %s" % c["cmd"])


def judge(res, case, o, what):
    if NOM_RX.search(o.err) and o.rc == 101:
        # listed in known_findings.json by this call site
        res.feat("known: ledger-parser panics on incomplete input")
        return False
    if o.timeout or o.rc in (-24, -9):
        res.bad("%s: did not end: %s" % (what, o.brief()))
    elif o.rc < 0 or o.rc in (101, 134, 139) or b"panicked at" in o.err:
        res.bad("%s: crashed: %s" % (what, o.brief()))
    elif o.rc == 99 or b"AddressSanitizer" in o.err:
        res.bad("%s: %s" % (what, o.err.decode("utf-8", "replace")[:2000]))
    elif o.rc != 0 and not o.err.strip():
        res.bad("%s: failed without a message (%d)" % (what, o.rc))
    else:
        res.feat("accepted" if o.rc == 0 else "rejected")
        return True
    return False


def shrink(case):
    if case["mode"] == "mutate":
        for ops in (1, 2, 3, 5, 10):
            if ops < case["ops"]:
                yield dict(case, ops=ops)
        for c in S.shrink(case["s"]):
            yield dict(case, s=c)
    if case["mode"] == "args":
        for i in range(len(case["args"])):
            yield dict(case, args=case["args"][:i] + case["args"][i + 1:])


def known(k, box, r):
    box.write("k.j", k["input"])
    o = box.run(["fmt", "k.j"])
    return o.rc == 101 and bool(NOM_RX.search(o.err))


def finish(tier, seed, box, res, feats):
    """Large valid inputs of each kind within a limit of CPU time."""
    n = 15000 if tier == "quick" else 60000
    cpu = 40 if tier == "quick" else 400
    seen = []

    def lim():
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))

    def go(what, args, **kw):
        before = resource.getrusage(resource.RUSAGE_CHILDREN)
        o = box.run(args, timeout=cpu * 4, preexec=lim, **kw)
        after = resource.getrusage(resource.RUSAGE_CHILDREN)
        seen.append({"what": what, "cpu_s": round(after.ru_utime - before.ru_utime, 2), "rc": o.rc})
        if o.timeout or o.rc != 0:
            res.bad("%s did not complete within %d s of CPU time: %s" % (what, cpu, o.brief()))
        feats["large valid input"] = feats.get("large valid input", 0) + 1

    def trn(i, tag, day=None):
        return "2020-%02d-%02d d%d\n  aa  %d GBP\n  ; :fp-%s%da:\n  bb  -%d GBP\n  ; :fp-%s%db:\n" % (
            i % 12 + 1, (day or i // 12 % 28 + 1), i, i, tag, i, i, tag, i)
    half = n // 2
    box.write("a.j", "".join(trn(i, "x") for i in range(n)))
    box.write("b.j", "".join(trn(i, "x") for i in range(half, n)) + "".join(trn(i, "y") for i in range(half)))
    go("merge of %d and %d transactions" % (n, n), ["merge", "-o", "m.j", "-u", "u.j", "a.j", "b.j"])
    # rule files that include one another: deep is loaded or refused
    box.write("x.j", trn(1, "x"))
    for depth in (50, 900, 12000):
        for i in range(depth):
            box.write("inc/%d.ron" % i, '[Include("%d.ron")]' % (i + 1))
        box.write("inc/%d.ron" % depth, '[Chain("start",[Rule(predicate:True,action:SetAccount("deep"),result:Continue)])]')
        o = box.run(["apply-rules", "-o", "deep.j", "x.j", "table", "inc/0.ron"], timeout=120, preexec=lim)
        judge(res, None, o, "rule files included %d deep" % depth)
        if depth == 50 and (o.rc != 0 or b"deep" not in (box.read("deep.j") or b"")):
            res.bad("rule files included 50 deep are not loaded: %s" % o.brief())
        shutil.rmtree(box.path("inc"))
    # all on a single day with equal amounts: everything is a candidate for everything
    k = 300 if tier == "quick" else 900
    box.write("c.j", "".join("2020-01-01 d\n  aa  1 GBP\n  ; :fp-p%d:\n" % i for i in range(k)))
    box.write("d.j", "".join("2020-01-01 d\n  aa  1 GBP\n  ; :fp-q%d:\n" % i for i in range(k)))
    go("merge of %d equal postings with %d" % (k, k), ["merge", "-o", "m2.j", "-u", "u2.j", "c.j", "d.j"])
    go("fmt of %d transactions" % n, ["fmt", "a.j"])
    box.write("r.ron", '[Chain("start",[Rule(predicate:Account(Matches("(a|b|ab)*c")),action:SetAccount("x"),result:Continue),'
                       'Rule(predicate:TransactionDescription(Matches("d.*7")),action:AddPostingFlagTag("t"),result:Return)])]')
    go("rules on %d transactions" % n, ["apply-rules", "-o", "ro.j", "a.j", "table", "r.ron"])
    go("fingerprints for %d transactions" % n, ["generate-fingerprints", "b.j"])
    rows = "".join('"%02d %s 20%02d","Payment to","p%d","\u00a3%d.00","","\u00a3%d.00"\r\n' % (
        i % 28 + 1, ["Jan", "Feb", "Mar"][i // 28 % 3], i // 84 % 80, i, i, i) for i in range(n))
    # runs of equal dates stay together: sort
    head = '"Account Name:","FlexAccount ****12345"\r\n"Account Balance:","\u00a30.00"\r\n"Available Balance: ","\u00a30.00"\r\n\r\n' \
           '"Date","Transaction type","Description","Paid out","Paid in","Balance"\r\n'
    box.write("nw.csv", (head + rows).encode("cp1252"))
    go("import of %d Nationwide rows" % n, ["import", "-o", "nw.j", "nationwide-csv", "nw.csv"])
    return {"large_valid_inputs": seen}
