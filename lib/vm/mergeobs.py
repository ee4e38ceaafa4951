"""What a merge run did, worked out from its inputs and outputs alone:
which input transactions were set aside, and into which posting of the merged
journal each input posting went (identified by fingerprints).  No matching
rule is assumed here."""
import copy, re
from . import core, journal as J, merge_model as M


def rereadable(out):
    """Merged text for reading in again (cleared postings through the hook)."""
    return re.sub(rb"(?m)^(  )\* ([\[(]?)", rb"\1\2" + J.CLEARED.encode(), out)


def sources(files):
    """Input transactions in processing order: [(set number, source, trn)]."""
    out, n = [], 0
    for f in files:
        groups = {}
        for t in f["trns"]:
            groups.setdefault(t["c"]["v"].get(M.SOURCE, '"%s"' % f["name"]), []).append(t)
        for s in sorted(groups, key=lambda s: s.encode()):
            out += [(n, s, t) for t in groups[s]]
            n += 1
    return out


def strip_cand(p):
    return dict(p, c=dict(p["c"], f=[f for f in p["c"]["f"] if not f.startswith(M.CAND)]))


class Obs:
    """bad: list of conservation faults found while relating outputs to inputs."""

    def __init__(self, files, merged, unmerged):
        self.bad = []
        self.files = files
        self.merged = merged
        self.unmerged = unmerged
        self.inputs = sources(files)
        # Which inputs are in the unmerged journal: same source, header and
        # postings, apart from candidate tags.
        self.set_aside = []         # (input index, unmerged index)
        free = {}
        for i, (n, s, t) in enumerate(self.inputs):
            free.setdefault(self._ukey(s, t), []).append(i)
        for u, t in enumerate(unmerged):
            key = self._ukey(t["c"]["v"].get(M.SOURCE), t)
            if free.get(key):
                self.set_aside.append((free[key].pop(0), u))
            else:
                self.bad.append("the unmerged journal has a transaction that is not in the input (or has been altered, "
                                "or is there too often):\n" + J.canon_trn(t))
        aside = {i for i, _ in self.set_aside}
        self.kept = [i for i in range(len(self.inputs)) if i not in aside]
        # Where each fingerprint ended up.
        self.where = {}
        for ti, t in enumerate(merged):
            for pi, p in enumerate(t["posts"]):
                if not J.fps(p):
                    self.bad.append("merged posting without a fingerprint: %s in %s %s" % (p["acc"], t["date"], t["desc"]))
                for f in J.fps(p):
                    if f in self.where:
                        self.bad.append("fingerprint %s is on two merged postings" % f)
                    self.where[f] = (ti, pi)
        # Chains: merged posting -> input postings, in processing order.
        self.chain = {}
        self.trn_of = {}            # input index -> merged transaction index
        expected_fps = set()
        for i in self.kept:
            n, s, t = self.inputs[i]
            dests = set()
            for k, p in enumerate(t["posts"]):
                refs = {self.where.get(f) for f in J.fps(p)}
                expected_fps.update(J.fps(p))
                if None in refs or len(refs) != 1:
                    self.bad.append("input posting %s of %s %r is %s the merged journal" % (
                        J.fps(p), t["date"], t["desc"], "missing from" if refs == {None} else "not on one posting of"))
                    continue
                ref = refs.pop()
                dests.add(ref[0])
                self.chain.setdefault(ref, []).append((i, k))
            if len(dests) > 1:
                self.bad.append("input transaction %s %r is spread over %d merged transactions" % (t["date"], t["desc"], len(dests)))
            elif dests:
                self.trn_of[i] = dests.pop()
        extra = set(self.where) - expected_fps
        if extra:
            self.bad.append("fingerprints in the merged journal that no merged input has: %s" % sorted(extra)[:4])

    def _ukey(self, s, t):
        c = dict(t["c"], v={k: v for k, v in t["c"]["v"].items() if k != M.SOURCE})
        return (s,) + J.norm_trn(dict(t, c=c, posts=[strip_cand(p) for p in t["posts"]]))

    def input_post(self, ref):
        i, k = ref
        return self.inputs[i][2]["posts"][k]


def run_merge(box, names, out="out.j", unm="unm.j", **kw):
    args = ["merge", "-o", out]
    if unm:
        args += ["-u", unm]
    return box.run(args + names, **kw)


def outputs(box, res, out="out.j", unm="unm.j"):
    """(merged, unmerged), or None after recording that they cannot be read."""
    try:
        merged = J.read_trns(box.read(out))
        raw = box.read(unm)
        return merged, (J.read_trns(raw) if raw else [])
    except J.Unreadable as e:
        res.bad("output cannot be read as a journal: %s" % e)
        return None
