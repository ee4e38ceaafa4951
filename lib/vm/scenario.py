"""A valid run of any command as a case: what the checks of the command line,
the file layer and faults share."""
import random
from . import c11, c13, core, imp, imprun, journal as J, mergegen as G, rules as R, words as W

CMDS = ["merge", "apply-rules", "fmt", "generate-fingerprints", "import"]


class Plan:
    """args; environment; files read (besides those rewritten); files written."""

    def __init__(self, args, env=None, ins=(), outs=(), old=True):
        self.args, self.env, self.ins, self.outs = args, env or {}, list(ins), list(outs)


def gen(rng, tier="quick", cmd=None, kind=None, cleared=False, small=False):
    cmd = cmd or rng.choice(CMDS)
    c = {"cmd": cmd}
    st = ("", "", "!", "*") if cleared and core.HOOKS else ("", "", "!")
    if cmd == "merge":
        for _ in range(20):
            g = G.Gen(rng, tier, files=rng.choice([1, 2, 3]) if small else None, statuses=list(st))
            files, m = g.history()
            if m is not None and files:
                break
        c["files"] = files
        c["unmerged"] = bool(m.unmerged) or rng.random() < 0.7
    elif cmd == "apply-rules":
        trns = [W.journal_trn(rng, statuses=st, rich=0.6) for _ in range(rng.choice([1, 2, 3]))]
        g = R.Gen(rng, trns)
        for _ in range(50):
            chains = g.chains()
            try:
                out = R.Interp(chains).run(trns)
            except R.RuleError:
                continue
            if not any(bad_desc(t["desc"]) for t in out) and not W.value_like(out):
                break
        names = list(chains)
        c.update(trns=trns, style=rng.choice([None, rng.randrange(10 ** 9)]), chains=chains,
                 split=[rng.randrange(3) for _ in names])
    elif cmd == "fmt":
        js = [{"items": c11.items(rng, cleared and core.HOOKS), "seed": rng.randrange(10 ** 9)} for _ in range(rng.choice([1, 1, 2]))]
        c["journals"] = js
    elif cmd == "generate-fingerprints":
        c["journals"] = [{"trns": [W.journal_trn(rng, statuses=st, rich=0.6) for _ in range(rng.choice([0, 1, 3]))],
                          "style": rng.choice([None, rng.randrange(10 ** 9)])} for _ in range(rng.choice([1, 1, 2]))]
    else:
        c["imp"] = imprun.gen(rng, kind, n=rng.choice([0, 1, 2, 4]) if small else None)
    return c


def bad_desc(d):
    return not d.strip() or d != d.strip() or d[0] in "!*(;" or "\n" in d or "  ;" in d or "\t" in d


def setup(box, c, out="out.j", unm="unm.j"):
    """Write the inputs; returns the Plan.  For fmt and generate-fingerprints
    the files given are both input and output."""
    cmd = c["cmd"]
    if cmd == "merge":
        names = G.write_files(box, c["files"])
        args = ["merge", "-o", out] + (["-u", unm] if c["unmerged"] else []) + ["--"] + names
        return Plan(args, ins=names, outs=[out] + ([unm] if c["unmerged"] else []))
    if cmd == "apply-rules":
        box.write("in.j", J.styled(c["trns"], c["style"]))
        parts = {0: [], 1: [], 2: []}
        for (n, rs), k in zip(c["chains"].items(), c["split"]):
            parts[k].append(["Chain", n, rs])
        box.write("r.ron", R.Ron().file(([["Include", "rules/more.ron"]] if parts[1] or parts[2] else []) + parts[0]))
        ins = ["in.j", "r.ron"]
        if parts[1] or parts[2]:
            box.write("rules/more.ron", R.Ron().file(([["Include", "../last.ron"]] if parts[2] else []) + parts[1]))
            ins.append("rules/more.ron")
        if parts[2]:
            box.write("last.ron", R.Ron().file([["Include", "r.ron"]] + parts[2]))
            ins.append("last.ron")
        return Plan(["apply-rules", "-o", out, "in.j", "table", "r.ron"], ins=ins, outs=[out])
    if cmd in ("fmt", "generate-fingerprints"):
        names = []
        for i, j in enumerate(c["journals"]):
            names.append("j%d.ledger" % i)
            box.write(names[-1], c11.write(j["items"], j["seed"]) if cmd == "fmt" else J.styled(j["trns"], j["style"]) if j["trns"] else "")
        return Plan([cmd] + names, outs=names)
    args, env, _ = imprun.prepare(box, c["imp"])
    ins = [a for a in args if a in ("in.csv", "tz.csv", "lookup:ns.ron")]
    return Plan(["import", "-o", out] + args, env=env, ins=[i.replace("lookup:", "") for i in ins], outs=[out])


def shrink(c):
    if c["cmd"] == "merge":
        for f in G.shrink_files(c["files"]):
            yield dict(c, files=f)
    if c["cmd"] in ("fmt", "generate-fingerprints"):
        js = c["journals"]
        key = "items" if c["cmd"] == "fmt" else "trns"
        for i in range(len(js)):
            if len(js) > 1:
                yield dict(c, journals=js[:i] + js[i + 1:])
            for k in range(len(js[i][key])):
                if key == "items" and 0 < k < len(js[i][key]) - 1 and js[i][key][k][0] == "blank":
                    continue
                yield dict(c, journals=js[:i] + [dict(js[i], **{key: js[i][key][:k] + js[i][key][k + 1:]})] + js[i + 1:])
    if c["cmd"] == "apply-rules":
        for i in range(len(c["trns"])):
            if len(c["trns"]) > 1:
                yield dict(c, trns=c["trns"][:i] + c["trns"][i + 1:])
        for n, rs in c["chains"].items():
            for i in range(len(rs)):
                yield dict(c, chains=dict(c["chains"], **{n: rs[:i] + rs[i + 1:]}))
    if c["cmd"] == "import" and c["imp"]["kind"] != "pdf":
        key = "recs" if c["imp"]["kind"] == "pp" else "rows"
        st = c["imp"]["st"]
        for i in range(len(st[key])):
            yield dict(c, imp=dict(c["imp"], st=dict(st, **{key: st[key][:i] + st[key][i + 1:]})))
