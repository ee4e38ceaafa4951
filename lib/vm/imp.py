"""Import runs: what the checks of the importers share."""
import copy
from . import journal as J


def drop_fps(trns):
    """Without fingerprints, and with the namespace taken off sequence tags."""
    out = copy.deepcopy(trns)
    for t in out:
        for p in t["posts"]:
            p["c"]["f"] = [f for f in p["c"]["f"] if not f.startswith("fp-")]
            if "seq" in p["c"]["v"]:
                p["c"]["v"]["seq"] = p["c"]["v"]["seq"].rpartition("-")[2]
    return out


def zero_ok(want, got):
    """What is paid out has a negated amount, and a zero has no sign: take over
    which unknown account it is on.  (A zero that is paid in is income.)"""
    from decimal import Decimal
    for w, g in zip(want, got):
        for a, b in zip(w["posts"], g["posts"]):
            if a["acc"] == "expenses:unknown" and a["amt"] and b["amt"] and Decimal(a["amt"]["q"]) == 0 and \
                    {a["acc"], b["acc"]} == {"income:unknown", "expenses:unknown"}:
                a["acc"] = b["acc"]


def read(res, data, what="import"):
    try:
        return J.read_trns(data)
    except J.Unreadable as e:
        res.bad("%s: output cannot be read as a journal: %s" % (what, e))
        return None


OLD = b"; previous contents\n\n2001-01-01 keep\n  aa  1 GBP\n"


def refused(res, box, o, before, what):
    """The run must have failed, with a message, changing nothing."""
    if o.timeout or o.crashed:
        res.bad("%s: crash or hang: %s" % (what, o.brief()))
    elif o.rc == 0:
        res.bad("%s was accepted" % what)
    elif not o.err.strip():
        res.bad("%s: failed without a message" % what)
    if o.out.strip():
        res.bad("%s: wrote to standard output: %r" % (what, o.out[:200]))
    after = box.snapshot()
    if after != before:
        res.bad("%s: the failed run changed files: %s" % (what, sorted(
            k for k in set(before) | set(after) if before.get(k, 0) != after.get(k, 0))))


def near_miss(rng, good, chars, ok):
    """A text near `good` that `ok` says is none (and that has no blank at an end: importers trim)."""
    for _ in range(200):
        s = good
        for _ in range(rng.choice([1, 1, 1, 2])):
            i = rng.randrange(len(s) + 1)
            c = rng.choice(chars)
            s = rng.choice([s[:i] + c + s[i:], s[:i] + s[i + 1:], s[:i] + c + s[i + 1:], s[:i] + s[i:i + 1] + s[i:], s[i:] + s[:i]])
        if s and s == s.strip() and not ok(s):
            return s
    return "x" + good
