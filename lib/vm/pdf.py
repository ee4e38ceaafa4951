"""Nationwide PDF statements as OCR output: generator, stand-ins for the
external programs, and reference import."""
import os, random, shutil
from . import fpr, journal as J, words as W
from .nw import MONTHS

WORDS = ["CARD", "PAYMENT", "TO", "Tesco", "Stores", "2041", "Direct", "debit", "E.ON", "\"The", "Shop\"", "O'Neil", "50%", "A&B", "\u00a35",
         "Caf\u00e9", "12:30", "REF:", ":a:", "a;b", "#12", "(GB)", "-", "1.00", "Bank", "credit", "x", "Balance", "Date", "=1", "@", "12,5",
         "'", "\"", "2020", "Effective", "Date:"]
FIRST = ["CARD", "Tesco", "Direct", "O'Neil", "Caf\u00e9", "x", "Bank", "\"The", "50%", "2041", "A&B", "-x", "Effective"]
ACCOUNT = ["12-34-56 12345678", "07-01-16 00000001", "99-99-99 99999999"]
HEAD = "level page_num block_num par_num line_num word_num left top width height conf text".split()


def money(rng):
    k = rng.random()
    if k < 0.6:
        q = "%d.%02d" % (rng.randint(0, 999), rng.randint(1, 99))
    elif k < 0.9:
        q = "%d.%02d" % (rng.randint(1000, 9999999), rng.randint(0, 99))
    elif k < 0.96:
        q = str(rng.randint(1, 5000))
    else:
        # more places than money has, and trailing zeros
        q = "%d.%0*d" % (rng.randint(0, 5000), rng.randint(1, 6), rng.choice([0, 5, 10, 100, 123]) + 1)
        q += "0" * rng.randint(0, 3)
    return q


def shown(q, commas):
    neg = q.startswith("-")
    ip, dot, fp = q.lstrip("-").partition(".")
    if commas and len(ip) > 3:
        ip = "{:,}".format(int(ip))
    return ("-" if neg else "") + ip + dot + fp


def ok_word(w):
    return bool(w) and not any(c.isspace() for c in w) and w[0] not in "!*(;=\"" and w not in ("Date", "Effective")


def detail(rng, first=False):
    ws = [rng.choice(FIRST if first else WORDS) for _ in range(rng.choice([1, 1, 2, 3, 4, 6]))]
    if first:
        ws = [ws[0]] + [rng.choice(WORDS) for _ in ws[1:]]
    if rng.random() < 0.2:
        i = rng.randrange(len(ws))
        m = W.mutate(rng, ws[i])
        if ok_word(m):
            ws[i] = m
    if ws[:2] == ["Effective", "Date"]:
        ws[1] = "date"
    return ws


def statement(rng, n=None):
    """A logical statement: tables of transactions in date order."""
    n = rng.choice([0, 1, 2, 4, 7, 12]) if n is None else n
    y, m, d = rng.choice([2015, 2019, 2020, 1980, 2099]), rng.choice([1, 2, 12, 12, 6]), rng.randint(1, 28)
    tables, cur = [], []
    # a page for every transaction, or tables of several
    split = 1 if n > 100 and rng.random() < 0.5 else 0.25
    for i in range(n):
        r = rng.random()
        if r < (0.4 if n < 257 else 0.003) and i:
            d += rng.choice([1, 1, 3, 9])
            if d > 28:
                d = rng.randint(1, 5)
                m += 1
                if m > 12:
                    y, m = y + 1, 1
        more = [detail(rng) for _ in range(rng.choice([0, 0, 0, 1, 2]))]
        t = {"date": "%04d-%02d-%02d" % (y, m, d), "lines": [detail(rng, True)] + more, "eff": None, "q": money(rng),
             "pay": rng.random() < 0.5, "bal": None, "bal_at": 0, "commas": rng.random() < 0.8, "repeat": rng.random() < 0.2}
        if rng.random() < 0.25:
            t["eff"] = "%04d-%02d-%02d" % (y, rng.randint(1, 12), rng.randint(1, 28))
            t["eff_at"] = rng.randint(1, len(t["lines"]))
        if rng.random() < 0.5:
            t["bal"] = ("-" if rng.random() < 0.2 else "") + money(rng)
            t["bal_at"] = rng.randint(0, len(t["lines"]) - 1)
        if cur and rng.random() < 0.1:
            # just like the one before
            t = dict(cur[-1], date=t["date"])
        cur.append(t)
        if rng.random() < split:
            tables.append(cur)
            cur = []
    if cur or not tables:
        tables.append(cur)
    return {"tables": tables, "account": rng.choice(ACCOUNT), "seed": rng.randrange(10 ** 9), "fault": None, "breaks": split}


seen = {}                   # what the last layout contained


def layout(st):
    """-> pages: [[block]], block [[para]], para [line], line {"top","h","w":[[text,left,width]]}"""
    rng = random.Random("pdf:%s" % st["seed"])
    seen.clear()
    f = st["fault"] or {}
    pages = []
    line = lambda top, words, h=30: {"top": top, "h": h, "w": words}

    def words_at(ws, left, step):
        out, x = [], left
        for w in ws:
            wid = max(4, min(10 * len(w), step - 6))
            out.append([w, x, wid])
            x += step
        return out

    def junk(top, n=3):
        return line(top, words_at([rng.choice(WORDS) for _ in range(rng.randint(1, 6))], rng.randint(0, 300), 90))

    acct_line = words_at(["Account", "Number"] + st["account"].split() + rng.choice([[], ["x"]]), 100, 200)
    decoys = [["Account", "Number", "12-34-5", "12345678"], ["Account", "Name", "12-34-56", "87654321"], ["Account", "Number", "12-34-56"],
              ["Sort", "Account", "Number", "11-11-11", "11111111"], ["Account", "Number", "12-34-56", "1234567"],
              ["Account", "Number", "112-34-56", "12345678"], ["account", "number", "10-10-10", "10101010"],
              ["Date", "Details", "Payments", "Receipts"], ["Date", "Details", "Receipts", "Payments", "Balance"],
              ["Details", "Date", "Payments", "Receipts", "Balance"]]

    HEADER = ["Date", "Details", "Payments", "Receipts", "Balance"]

    def near_header():
        """Words like those of a table's header."""
        ws = list(HEADER)
        i = rng.randrange(5)
        ws[i] = rng.choice(["x", ws[i].lower(), ws[i].upper(), ws[i][:-1], ws[i] + "s", ws[i] + ":", rng.choice(HEADER[:i] + HEADER[i + 1:]),
                            "Total", "Description", "1.00"])
        return ws if rng.random() < 0.8 else rng.choice([HEADER[:4], HEADER[1:] + ["Date"], ["x"] + HEADER])

    def near_account():
        sort, num = rng.choice(["11-22-33", "55-66-77"]), rng.choice(["44444444", "87654321"])
        a, b = "Account", "Number"
        k = rng.randrange(4)
        if k == 0:
            sort = rng.choice([sort + "4", "4" + sort, sort[:-1], sort + "-44", "44-" + sort, sort.replace("-", ""), sort.replace("-", "/"), sort + ".",
                               "11-222-33", "11-2-33", "1-22-33", "11--33", "11-22", "112233", "x" + sort, "11.22.33", "11-2a-33", "11 22 33"])
        elif k == 1:
            num = rng.choice([num + "5", "5" + num, num[:-1], "x" + num, num + ".", num[:4] + "-" + num[4:], num[:-1] + "O", "4444 4444", num * 2, "-" + num])
        elif k == 2:
            a = rng.choice(["account", "Accounts", "Account:", "ACCOUNT", "Acount", "x", "Sort", "Customer"])
        else:
            b = rng.choice(["number", "Numbers", "Number:", "NUMBER", "No.", "Name", "code"])
        return [a, b] + sort.split() + num.split() + rng.choice([[], ["12-34-56", "12345678"]])

    def extra_para():
        if rng.random() < 0.4:
            # like a table, but its header is not
            cs = sorted(rng.sample(range(100, 2000, 150), 6))
            ls = [line(0, [[w, cs[i], 120] for i, w in enumerate(near_header())])]
            for i in range(rng.randint(1, 2)):
                ls.append(line(40 + 40 * i, [["2021", cs[0], 60]] if i == 0 and rng.random() < 0.5 else
                               [["03", cs[0], 30], ["Mar", cs[0] + 40, 40], ["x", cs[1], 20], ["9.99", cs[2], 60]]))
            return ls
        if rng.random() < 0.3:
            return [line(50 * i, words_at(near_account(), 100, 200)) for i in range(rng.randint(1, 2))]
        ls = [line(50 * i, words_at(rng.choice(decoys), 100, 200)) if rng.random() < 0.5 else junk(50 * i) for i in range(rng.randint(1, 3))]
        return ls

    paras = []                              # (page break before, para)
    n = 0
    rest = []                               # lines left for the next table
    for ti, trns in enumerate(st["tables"]):
        h = rng.choice([24, 30, 31])
        pitch = rng.choice([h + 2, h + 15, 2 * h, 2 * h])
        x0 = rng.choice([0, 50, 131])
        k = rng.choice([1, 2])
        cx = {"date": x0 + 100 * k, "det": x0 + 300 * k, "pay": x0 + 1200 * k, "rec": x0 + 1500 * k, "bal": x0 + 1800 * k}
        para, top = [], rng.choice([100, 700])
        for _ in range(rng.choice([0, 0, 1])):
            para.append(junk(top - 80) if rng.random() < 0.6 else
                        line(top - 80, [[w, cx["date"] + 300 * i, 100] for i, w in enumerate(near_header())]))
        para.append({"top": top, "h": h, "w": [["Date", cx["date"], 80], ["Details", cx["det"], 120], ["Payments", cx["pay"], 150],
                                               ["Receipts", cx["rec"], 140], ["Balance", cx["bal"], 130]] +
                     ([["x", cx["bal"] + 200, 20]] if rng.random() < 0.1 else [])})
        top += rng.choice([pitch, 3 * h])
        year = date = None

        def at(ws, c):
            left, right = cx[c], {"pay": cx["rec"], "rec": cx["bal"], "bal": cx["bal"] + 130}[c]
            wid = min(20 * len(ws), right - left)
            # at either end of the column, or wholly inside
            x = rng.choice([left, right - wid, (left + right - wid) // 2])
            return [ws, x, wid]

        def noise():
            out = []
            if rng.random() < 0.05:
                out.append(["|", cx["bal"] + 131, 5])
            return out

        def put_line(ws, words):
            dw = words_at(ws, cx["det"], step)
            if rng.random() < 0.2 and dw:
                dw[-1][2] = cx["pay"] - dw[-1][1]       # reaches the next column
            return words + dw

        step = (cx["pay"] - cx["det"]) // 6
        for ws, bal in rest:
            words = put_line(ws, [])
            if bal is not None:
                words.append(at(bal, "bal"))
            para.append({"top": top, "h": h, "w": words})
            top += pitch
        rest = []
        for t in trns:
            fault = f if f.get("at") == n else {}
            n += 1
            fk = fault.get("kind")
            yy, mm, dd = t["date"].split("-")
            if yy != year:
                if fk != "no-year" or year is not None:
                    words = [[fault.get("text", yy) if fk == "year" else yy, cx["date"], 60]]
                    if rng.random() < 0.5:
                        words += words_at(["Balance", "from", "statement", "12"], cx["det"], 110)
                        if rng.random() < 0.7:
                            words.append(at(shown(money(rng), True), "bal"))
                    para.append({"top": top, "h": h, "w": words})
                    top += pitch
                year = yy
                date = None
            elif fk == "undated-year":
                # a year line in mid-table, and no day after it
                para.append({"top": top, "h": h, "w": [[str(int(yy) + 1), cx["date"], 60]]})
                top += pitch
            words = []
            if rng.random() < 0.05:
                words.append(["|", cx["date"] - 20, 20])
            if t["date"] != date or t["repeat"] or fk in ("daymonth",):
                if fk == "daymonth":
                    ws = fault["text"].split()
                    words += [[w, cx["date"] + i * 25, 20] for i, w in enumerate(ws)]
                elif fk not in ("no-day", "undated-year"):
                    words += [[dd, cx["date"], 35], [MONTHS[int(mm) - 1], cx["date"] + 40, 40]]
            date = t["date"]
            if rng.random() < 0.05:
                words.append([".", cx["date"] + 80, cx["det"] - cx["date"] - 80])   # fills the gutter exactly
            lines = [list(ws) for ws in t["lines"]]
            if t["eff"]:
                ey, em, ed = t["eff"].split("-")
                lines.insert(t["eff_at"], fault["text"].split() if fk == "effective" else
                             ["Effective", "Date", ed, MONTHS[int(em) - 1], ey])
            # the details may go on in the next table (where the next
            # transaction has the same date, this is a known finding)
            cut = len(lines)
            if st.get("cut") and t is trns[-1] and ti + 1 < len(st["tables"]):
                cut = st["cut"]
            elif not f and t is trns[-1] and cut > 1 and rng.random() < 0.5 and ti + 1 < len(st["tables"]) and \
                    st["tables"][ti + 1] and st["tables"][ti + 1][0]["date"] != t["date"]:
                cut = rng.randint(1, cut - 1)
            for li, ws in enumerate(lines):
                if li >= cut:
                    seen["continued in the next table"] = 1
                    rest.append([ws, shown(t["bal"], t["commas"]) if t["bal"] is not None and li == t["bal_at"] else None])
                    continue
                words = put_line(ws, words)
                if li == 0:
                    amt = fault["text"] if fk == "amount" else shown(t["q"], t["commas"])
                    aw = amt.split(" ")
                    if len(aw) == 1:
                        words.append(at(amt, "pay" if t["pay"] else "rec"))
                    else:
                        c = cx["pay" if t["pay"] else "rec"]
                        words += [[a, c + i * 100, 80] for i, a in enumerate(aw)]
                    if fk == "both":
                        words.append(at(shown(t["q"], True), "rec" if t["pay"] else "pay"))
                        words.sort(key=lambda w: w[1])
                if t["bal"] is not None and li == t["bal_at"]:
                    words.append(at(fault["text"] if fk == "balance" else shown(t["bal"], t["commas"]), "bal"))
                words += noise()
                para.append({"top": top, "h": h, "w": words})
                if rng.random() < 0.04:
                    para.append(line(top + rng.randint(1, pitch - 1), [["|", cx["bal"] + 131, 5]], h))
                top += pitch
                words = []
        if rng.random() < 0.4 and trns:
            # beyond a gap: none of this counts, and lines without details do
            # not bridge it
            last = para[-1]["top"] if para[-1]["w"][0][0] != "|" or len(para[-1]["w"]) > 1 else para[-2]["top"]
            top = last + 2 * h + rng.choice([1, 40])
            for k in range(rng.choice([0, 0, 1, 2])):
                gap = [["|", cx["bal"] + 131, 5]] if rng.random() < 0.5 else [["|", cx["date"] - 30, 5]]
                if rng.random() < 0.5:
                    gap.append(at("9.99", "bal"))
                para.append(line(last + h + (k + 1) * (top - last - h) // 3, gap, h))
            for _ in range(rng.randint(1, 3)):
                ws = words_at([rng.choice(WORDS) for _ in range(3)], cx["det"], 100)
                if rng.random() < 0.5:
                    ws.append(at("9.99", "pay"))
                para.append({"top": top, "h": h, "w": ws})
                top += pitch
        paras.append((ti == 0 or rng.random() < 0.6 or st.get("breaks") == 1, para))
    for brk, para in paras:
        if brk:
            pages.append([])
        page = pages[-1]
        if rng.random() < 0.3:
            page.append([extra_para()])
        if page and rng.random() < 0.5:
            page[-1].append(para)
        else:
            page.append([para])
        if rng.random() < 0.2:
            page[-1].append(extra_para())
    if rng.random() < 0.2:
        pages.insert(rng.randint(0, len(pages)), rng.choice([[], [[extra_para()]], [[]]]))
    if f.get("kind") != "no-account":
        pg = rng.choice(pages)
        where = [line(10, acct_line)]
        if rng.random() < 0.3:
            where.insert(0, line(5, words_at(rng.choice(decoys) if rng.random() < 0.4 else near_account(), 100, 200)))
        r = rng.random()
        block = [where]
        if rng.random() < 0.3:
            for _ in range(rng.choice([1, 2, 3, 5])):
                block.insert(rng.randint(0, len(block)), [junk(0) for _ in range(rng.randint(1, 2))])
            seen["account deep in a block"] = block.index(where) > 1
        if r < 0.4:
            pg.insert(0, block)
        elif r < 0.8 or not pg or not pg[0]:
            pg.append(block)
        else:
            # in front of the header of a table's own paragraph
            b = rng.choice([b for b in pg if b])
            para = b[0]
            para.insert(0, where[-1])
    seen["more than 100 pages"] = len(pages) > 100
    return pages


def tsv_pages(st):
    """One list of TSV records per page; the page number is left as @."""
    f = st["fault"] or {}
    out = []
    # how sure the reading was says nothing about what it means
    crng = random.Random("conf:%s" % st["seed"])
    confs = crng.choice([[96], [96, 95, 90, 87], [96, 60, 31, 5, 0], [-1, 0, 100]])
    for page in layout(st):
        recs = [[1, "@", 0, 0, 0, 0, 0, 0, 2480, 3508, -1, ""]]
        for bi, block in enumerate(page, 1):
            recs.append([2, "@", bi, 0, 0, 0, 10, 10, 100, 100, -1, ""])
            for pi, para in enumerate(block, 1):
                recs.append([3, "@", bi, pi, 0, 0, 10, 10, 100, 100, -1, ""])
                for li, ln in enumerate(para, 1):
                    recs.append([4, "@", bi, pi, li, 0, 10, ln["top"], 2000, ln["h"], -1, ""])
                    for wi, (t, l, w) in enumerate(ln["w"], 1):
                        recs.append([5, "@", bi, pi, li, wi, l, ln["top"], w, ln["h"], crng.choice(confs), t])
        out.append(recs)
    if f.get("kind") == "structure":
        rng = random.Random("structure:%s" % st["seed"])
        recs = rng.choice(out)
        k = f["text"]
        i = rng.randrange(len(recs))
        words = [j for j, r in enumerate(recs) if r[0] == 5]
        inner = [j for j, r in enumerate(recs) if r[0] in (2, 3, 4)]
        if k == "level":
            recs[i] = [rng.choice([0, 6, -1])] + recs[i][1:]
        elif k == "skip" and words:
            j = rng.choice(words)
            recs[j][5] += rng.choice([1, 7])
        elif k == "repeat" and words:
            recs.insert(rng.choice(words), list(recs[rng.choice(words)]))
            # a repeated word number is wrong wherever it is put
        elif k == "orphan" and inner:
            # a parent is missing
            j = rng.choice(inner)
            nxt = recs[j + 1] if j + 1 < len(recs) else None
            if nxt is None or nxt[0] <= recs[j][0]:
                recs.append([recs[j][0], "@"] + [99] * 4 + [0, 0, 0, 0, -1, ""])
            else:
                del recs[j]
        elif k == "zero" and words:
            recs[rng.choice(words)][5] = 0
        elif k == "text":
            recs[i][rng.choice([6, 7, 8, 9])] = rng.choice(["x", "", "1.5", "99999999999"])
        elif k == "short":
            recs[i] = recs[i][:11]
        else:
            recs.append([7, "@", 1, 1, 1, 1, 0, 0, 0, 0, -1, ""])
    return out


GM = """#!/bin/sh
# Stand-in for Graphics Magick: gm convert [-density N] INPUT [+adjoin] DIR/page-%02d.png
# Like it, it takes options in any order and refuses those that it does not know.
[ "$1" = convert ] || exit 90
shift
in= out=
while [ $# -gt 0 ]; do
  case $1 in
    -density|-depth|-quality|-type|-resize|-colorspace|-units|-compress) [ $# -gt 1 ] || exit 90; shift;;
    +adjoin|-adjoin|-antialias|-strip|-flatten|-monochrome) ;;
    [-+]*) [ "$1" = "$WANT_INPUT" ] && [ -z "$in" ] && in=$1 || { echo "gm convert: Unrecognized option ($1)." >&2; exit 90; };;
    *) if [ -z "$in" ]; then in=$1; elif [ -z "$out" ]; then out=$1; else exit 90; fi;;
  esac
  shift
done
[ "$in" = "$WANT_INPUT" ] && [ -f "$in" ] && [ -n "$out" ] || exit 90
d=${out%/*}
i=0
for p in "$PAGES"/*; do
  [ -f "$p" ] || continue
  o=$(printf "$out" $i) && case $o in "$d"/*) cp "$p" "$o";; *) false;; esac || exit 91
  i=$((i+1))
done
[ -z "$GM_KILL" ] || kill -9 $$
exit ${GM_EXIT:-0}
"""
TESS = """#!/bin/sh
# Stand-in for Tesseract: tesseract [-l LANG] [--dpi N] LIST OUTBASE [CONFIG...]
list= base= tsv=
while [ $# -gt 0 ]; do
  case $1 in
    -l) [ "$2" = eng ] || { echo "Error opening data file $2.traineddata" >&2; exit 92; }; shift;;
    --dpi|--psm|--oem|--tessdata-dir|--loglevel) [ $# -gt 1 ] || exit 92; shift;;
    -c) [ $# -gt 1 ] || exit 92; shift; [ "$1" != tessedit_create_tsv=1 ] || tsv=1;;
    -*) echo "Error, unknown command line argument '$1'" >&2; exit 92;;
    *) if [ -z "$list" ]; then list=$1; elif [ -z "$base" ]; then base=$1; elif [ "$1" = tsv ]; then tsv=1; else exit 92; fi;;
  esac
  shift
done
[ -n "$tsv" ] || exit 92
[ -z "$TESS_NOTHING" ] || exit 0
{ cat "$HEADFILE"; n=0
  while IFS= read -r f; do n=$((n+1)); awk -v n=$n 'BEGIN{FS=OFS="\\t"}{$2=n;print}' "$f" || exit 93; done < "$list"; } > "$base.tsv" || exit 94
[ -z "$TESS_KILL" ] || kill -9 $$
exit ${TESS_EXIT:-0}
"""


def setup(box, st, name="s.pdf"):
    """Write the stand-ins and page files; returns (args, env) for the import."""
    shutil.rmtree(box.path("pages"), ignore_errors=True)
    box.write(name, "%PDF-1.4 stand-in\n")
    rng = random.Random("cols:%s" % st["seed"])
    cols = list(range(12))
    if rng.random() < 0.1:
        last = cols[2:]
        rng.shuffle(last)
        cols = cols[:2] + last
    for i, recs in enumerate(tsv_pages(st)):
        rows = ["\t".join(str(r[c]) for c in cols if c < len(r)) + "\n" for r in recs]
        box.write("pages/p-%05d" % i, "".join(rows))
    os.makedirs(box.path("pages"), exist_ok=True)
    box.write("head", "\t".join(HEAD[c] for c in cols) + "\n")
    for n, s in (("gm.sh", GM), ("tess.sh", TESS)):
        os.chmod(box.write(n, s), 0o755)
    env = {"PAGES": box.path("pages"), "HEADFILE": box.path("head"), "WANT_INPUT": name}
    return [name, box.path("gm.sh"), box.path("tess.sh")], env


def expect(st, ns):
    out, prev, n = [], None, 0
    for trns in st["tables"]:
        for t in trns:
            n = n + 1 if t["date"] == prev else 0
            prev = t["date"]
            desc = " ".join(" ".join(ws) for ws in t["lines"])
            q = J.neg(t["q"]) if t["pay"] else t["q"]
            sa, pa = J.amount(q, "GBP", True), J.amount(J.neg(q), "GBP", True)
            pacc = "expenses:unknown" if t["pay"] else "income:unknown"
            a = fpr.Acc().date(t["date"]).i32(n).s(desc)
            out.append(J.trn(t["date"], desc, [
                J.post("assets:unknown", sa, bal=J.amount(t["bal"], "GBP", True) if t["bal"] is not None else None,
                       c=J.comment(f=["import-self", "unknown-account", fpr.legacy(ns, a.s("assets:unknown").amount(sa))],
                                   v={"bank": "Nationwide", "seq": "%s-%d" % (ns, n + 1)})),
                J.post(pacc, pa, c=J.comment(f=["import-peer", "unknown-account", fpr.legacy(ns, a.s(pacc).amount(pa))],
                                             v={"bank": "Nationwide"}))], eff=t["eff"]))
    return out
