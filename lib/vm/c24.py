"""C24: resolving unmerged transactions by editing candidate tags."""
import copy, random
from . import journal as J, merge_model as M, mergegen as G, mergeobs as O

BUDGET = {"quick": (4000, 60), "thorough": (80000, 800)}
RULE = ("A case is a history with ambiguous postings and a choice of one candidate for each. The unmerged journal that the tool "
        "wrote is edited as documented (textually: the chosen candidate tag loses its prefix, the others are deleted) and merged "
        "with the merged journal; the resulting journal must have each posting merged into the chosen one and otherwise agree "
        "with the first. The unedited unmerged journal must be refused. Non-trivial: the resolution was accepted by the model.")
REQUIRED = ["resolved postings", "resolved transactions", "several resolved at once", "unedited refused", "partly edited refused"]


def gen(rng, tier, i):
    for _ in range(8):
        g = G.Gen(rng, tier, files=rng.choice([1, 2, 2, 3, 3, 3]), unknown=rng.choice([0.2, 0.5, 0.8]), fresh=rng.choice([0.3, 0.5]), value_like=0)
        g.amts = g.amts[:rng.choice([1, 2, 4])]
        g.days = g.days[:rng.choice([1, 1, 2])]
        files, m = g.history()
        if m is not None and m.unmerged:
            break
    return {"files": files, "seed": rng.randrange(10 ** 9)}


def is_cand(tag):
    return tag.startswith(M.CAND)


def choose(m, unmerged, rng):
    """Edited transactions, {(trn, posting): chosen fingerprint}, and which
    transactions were edited.  Choices within a transaction lie in one
    destination transaction, no two postings of a source choose the same one, and a
    posting that comes again from another source chooses the same again; a
    transaction for which there is no such choice is left out."""
    edited, picks, taken, kept, again = [], {}, {}, [], {}
    for ti, t in enumerate(unmerged):
        t = copy.deepcopy(t)
        options = []
        amb = [k for k, p in enumerate(t["posts"]) if any(is_cand(f) for f in p["c"]["f"])]
        dests = None
        for k in amb:
            d = {m.by_fp[f[len(M.CAND):]][0] for f in t["posts"][k]["c"]["f"] if is_cand(f) and f[len(M.CAND):] in m.by_fp}
            dests = d if dests is None else dests & d
        for p in t["posts"]:
            for f in J.fps(p):
                if f in m.by_fp:
                    dests &= {m.by_fp[f][0]}
        if not dests:
            continue
        dest = rng.choice(sorted(dests))
        mine = {}
        src = t["c"]["v"].get(M.SOURCE)
        used = taken.setdefault(src, set())
        for k in amb:
            p = t["posts"][k]
            opts = sorted(f[len(M.CAND):] for f in p["c"]["f"] if is_cand(f) and m.by_fp.get(f[len(M.CAND):], (None,))[0] == dest
                          and m.by_fp[f[len(M.CAND):]] not in used | {m.by_fp[c] for c in mine.values()})
            before = {again[f] for f in J.fps(p) if f in again}
            if before:
                opts = [c for c in opts if {m.by_fp[c]} == before]
            if not opts:
                break
            mine[k] = c = rng.choice(opts)
            p["c"]["f"] = sorted({f for f in p["c"]["f"] if not is_cand(f)} | {c})
        else:
            trial = m.copy()
            try:
                trial.add_file('"edited.journal"', edited + [t])
            except M.Reject:
                continue
            edited.append(t)
            kept.append(ti)
            picks.update({(ti, k): c for k, c in mine.items()})
            used |= {m.by_fp[c] for c in mine.values()}
            for k, c in mine.items():
                for f in J.fps(unmerged[ti]["posts"][k]):
                    again[f] = m.by_fp[c]
    return (edited, picks, kept) if edited else None


def check(case, box, res):
    files = case["files"]
    rng = random.Random(case["seed"])
    names = G.write_files(box, files)
    try:
        m = G.model_of(files)
    except M.Reject:
        res.feat("faulty input")
        return
    o = O.run_merge(box, names, out="m1.j", unm="u1.j")
    if o.rc != 0:
        res.bad("merge of valid journals failed: " + o.brief())
        return
    got = O.outputs(box, res, "m1.j", "u1.j")
    if not got:
        return
    merged, unmerged = got
    for label, a, b in (("merged", m.merged(), merged), ("unmerged", m.unmerged, unmerged)):
        d = J.diff_trns(a, b, label + " journal: ")
        if d:
            # what the candidates are is C04's business, but resolving needs it
            res.bad(d)
            return
    if not unmerged:
        return
    box.write("merged.journal", O.rereadable(box.read("m1.j")))
    # Left as it is: refused, nothing written.
    box.write("unedited.journal", O.rereadable(box.read("u1.j")))
    o = O.run_merge(box, ["merged.journal", "unedited.journal"], out="no.j", unm="no-u.j")
    if o.rc == 0 or o.crashed or box.read("no.j") is not None or box.read("no-u.j") is not None:
        res.bad("merging the unmerged journal with its candidate tags was not refused cleanly: " + o.brief())
    res.feat("unedited refused")

    # The model of the second run starts from the merged journal.
    m1 = M.Model()
    m1.add_file('"merged.journal"', merged)
    for attempt in range(6):
        ch = choose(m1, unmerged, rng)
        if not ch:
            continue
        edited, picks, kept = ch
        m2 = m1.copy()
        try:
            m2.add_file('"edited.journal"', edited)
        except M.Reject:
            continue
        break
    else:
        res.feat("no conflict-free choice")
        return
    amb = [f for t in unmerged for p in t["posts"] for f in p["c"]["f"] if is_cand(f)]
    # Edit the text: tags are delimited by colons.
    lines, at, ti, pi = [], 0, -1, -1
    for line in O.rereadable(box.read("u1.j")).decode().split("\n"):
        if line[:1].isdigit():
            ti, pi = ti + 1, -1
        elif line.startswith("  ") and not line.startswith("  ;"):
            pi += 1
        elif (ti, pi) in picks and ":" + M.CAND in line:
            head, rest = line.split(":" + M.CAND, 1)
            line = head + ":" + M.CAND + rest
            for f in unmerged[ti]["posts"][pi]["c"]["f"]:
                if is_cand(f):
                    line = line.replace(":" + f + ":", ":" + picks[(ti, pi)] + ":" if f == M.CAND + picks[(ti, pi)] else ":")
            if line.strip() in ("; :", ";:"):
                continue
            line = line.replace("; : ", "; ", 1)
        if ti in kept:
            lines.append(line)
    text = "\n".join(lines)
    back = None
    try:
        back = J.read_trns(text.replace(J.CLEARED, ""))
    except J.Unreadable:
        pass
    if back is None or [[sorted(J.fps(p)) for p in t["posts"]] for t in back] != [[sorted(J.fps(p)) for p in t["posts"]] for t in edited]:
        # the edit of the text went wrong (tag groups laid out otherwise)
        text = J.canon_in(edited)
        res.feat("edited through the model")
    box.write("edited.journal", text)
    o = O.run_merge(box, ["merged.journal", "edited.journal"], out="m2.j", unm="u2.j")
    if o.rc != 0:
        res.bad("merge of the resolved journal failed: " + o.brief())
        return
    got2 = O.outputs(box, res, "m2.j", "u2.j")
    if not got2:
        return
    merged2, unmerged2 = got2
    d = J.diff_trns(m2.unmerged, unmerged2, "unmerged after resolution: ")
    if d:
        res.bad(d)
    where = {}
    for a, t in enumerate(merged2):
        for b, p in enumerate(t["posts"]):
            for f in J.fps(p):
                if f in where:
                    res.bad("fingerprint %s is on two postings after resolution" % f)
                where[f] = (a, b)
    left = {tuple(sorted(J.fps(p))) for t in unmerged2 for p in t["posts"]}
    touched = set()
    for (ti, pi), fp in picks.items():
        own = J.fps(unmerged[ti]["posts"][pi])
        if tuple(sorted(own + [fp])) in left or tuple(sorted(set(own) | {fp})) in left:
            continue
        for f in own:
            if where.get(f) is None or where.get(f) != where.get(fp):
                res.bad("posting %s was resolved to %s but is not on that posting" % (f, fp))
        touched.add(fp)
        res.feat("resolved postings")
    # Nothing else changed.
    sources_fps = {f for t in edited for p in t["posts"] for f in J.fps(p)}
    for t in merged:
        for p in t["posts"]:
            ref = where.get(J.fps(p)[0])
            if ref is None:
                res.bad("posting %s disappeared in the resolution" % J.fps(p))
            elif not set(J.fps(p)) & {f for f in sources_fps}:
                q = merged2[ref[0]]["posts"][ref[1]]
                hit = set(J.fps(q)) - set(J.fps(p))
                if not hit and J.norm_post(p) != J.norm_post(q):
                    res.bad("posting %s changed although nothing was merged into it" % J.fps(p))
                if J.norm_head(t) != J.norm_head(merged2[ref[0]]) or J.norm_comment(t["c"]) != J.norm_comment(merged2[ref[0]]["c"]):
                    res.bad("header of %s %r changed" % (t["date"], t["desc"]))
    d = J.diff_trns(m2.merged(), merged2, "after resolution: ")
    if d:
        res.bad(d)
    if len(kept) > 1:
        res.feat("several resolved at once")
    res.feat("resolved transactions", len(kept))
    res.feat("transactions without a conflict-free choice", len(unmerged) - len(kept))
    res.nontrivial = True
    # One candidate tag forgotten: refused.
    some = [(ti, pi) for (ti, pi) in picks]
    ti, pi = rng.choice(sorted(some))
    bad = copy.deepcopy(edited)
    b = bad[kept.index(ti)]["posts"][pi]["c"]
    b["f"] = sorted(set(b["f"]) | {
        rng.choice([f for f in unmerged[ti]["posts"][pi]["c"]["f"] if is_cand(f)])})
    box.write("partly.journal", J.canon_in(bad))
    o = O.run_merge(box, ["merged.journal", "partly.journal"], out="no.j", unm="no-u.j")
    if o.rc == 0 or o.crashed or box.read("no.j") is not None or box.read("no-u.j") is not None:
        res.bad("a forgotten candidate tag was not refused cleanly: " + o.brief())
    res.feat("partly edited refused")


def shrink(case):
    for f in G.shrink_files(case["files"]):
        yield dict(case, files=f)
