"""C06: merging in stages equals merging at once."""
from . import core, journal as J, merge_model as M, mergegen as G, mergeobs as O

BUDGET = {"quick": (3500, 60), "thorough": (60000, 800)}
RULE = ("A case is a history of 2-6 journals and the runs merge(all) and, for every split point whose prefix leaves nothing "
        "unmerged, merge(merge(prefix) + rest); exit status, merged and unmerged journal must agree byte for byte. Histories may "
        "end in ambiguous or faulty input. Non-trivial: a split was compared and the rest matched postings.")
REQUIRED = ["splits compared", "both refused", "both left transactions unmerged", "three stages"]


def gen(rng, tier, i):
    g = G.Gen(rng, tier, ambiguous=False, files=rng.choice([2, 3, 3, 4, 5]), fresh=rng.choice([0.25, 0.45]))
    cut = rng.randint(1, g.nfiles)
    # Ambiguity and faults only late in the history.
    files, m = g.history()
    mode = rng.random()
    if mode < 0.5 and m is not None:
        g2 = G.Gen(rng, tier, ambiguous=True, faults=rng.choice([0, 0.5]), files=rng.choice([1, 2]), fresh=0.2)
        g2.n, g2.pfx, g2.days, g2.amts, g2.coms = g.n, g.pfx, g.days, g.amts, g.coms
        files = extend(g2, files, m, rng)
    return {"files": files}


def extend(g2, files, m, rng):
    for k in range(g2.nfiles):
        name = "late%d.j" % k
        trns = []
        for _ in range(rng.randint(1, 4)):
            t = g2.derived_trn(m) if m.trns and rng.random() < 0.8 else g2.fresh_trn()
            trial = m.copy()
            try:
                trial.add_file('"%s"' % name, trns + [t])
            except M.Reject:
                if rng.random() > g2.faults:
                    continue
            trns.append(t)
        if trns:
            files = files + [{"name": name, "trns": trns, "style": g2.style()}]
            try:
                m.add_file('"%s"' % name, trns)
            except M.Reject:
                return files
    return files


def check(case, box, res):
    files = case["files"]
    names = G.write_files(box, files)
    try:
        m = G.model_of(files)
        valid = True
    except M.Reject:
        valid = False
    o = O.run_merge(box, names, out="all.j", unm="all-u.j")
    if o.crashed:
        res.bad("crash: " + o.brief())
        return
    want, want_u = box.read("all.j"), box.read("all-u.j")
    if valid and o.rc != 0:
        res.bad("merge of valid journals failed: " + o.brief())
        return
    matched = False
    for k in range(1, len(names)):
        p = O.run_merge(box, names[:k], out="p%d.j" % k, unm="pu%d.j" % k)
        if p.rc != 0 or box.read("pu%d.j" % k) is not None:
            break
        staged = "stage%d.journal" % k
        box.write(staged, O.rereadable(box.read("p%d.j" % k)))
        compare(box, res, [staged] + names[k:], "split after %d of %d" % (k, len(names)), o, want, want_u)
        matched = True
        if k >= 2:
            # one journal at a time: stage k from stage k-1
            p = O.run_merge(box, ["stage%d.journal" % (k - 1), names[k - 1]], out="q%d.j" % k, unm="qu%d.j" % k)
            if p.rc != 0 or box.read("q%d.j" % k) != box.read("p%d.j" % k):
                res.bad("adding journal %d to the intermediate journal differs from merging the first %d at once (rc=%d)" % (k, k, p.rc))
            res.feat("three stages")
    if matched:
        res.nontrivial = G.nontrivial(m) if valid else True


def compare(box, res, ins, what, o, want, want_u):
    s = O.run_merge(box, ins, out="s.j", unm="s-u.j")
    got, got_u = box.read("s.j"), box.read("s-u.j")
    for n in ("s.j", "s-u.j"):
        if box.read(n) is not None:
            __import__("os").unlink(box.path(n))
    res.feat("splits compared")
    if s.crashed:
        res.bad(what + ": crash: " + s.brief())
    elif (s.rc == 0) != (o.rc == 0):
        res.bad("%s: rc=%d, but merging at once rc=%d; %s / %s" % (what, s.rc, o.rc, s.brief(), o.brief()))
    elif s.rc != 0:
        res.feat("both refused")
    else:
        for label, a, b in (("merged", want, got), ("unmerged", want_u, got_u)):
            if a != b:
                try:
                    d = J.diff_trns(J.read_trns(a or b""), J.read_trns(b or b""))
                except J.Unreadable as e:
                    d = str(e)
                res.bad("%s: %s journal differs from merging at once: %s" % (what, label, d or "(layout only)"))
        if want_u:
            res.feat("both left transactions unmerged")


def shrink(case):
    for f in G.shrink_files(case["files"]):
        if len(f) > 1:
            yield {"files": f}
