"""One import of any kind as a case: options, files, run and expectation."""
import os, random
from . import fpr, imp, nw, pdf, pp, words as W

NS_OK = ["NS", "a", "fp", "0", "A_b", "x+y/z", "zz9", "account", "Current", "1zY5uuo1"]
NS_BAD = ["a-b", "a b", "a.b", "\u00e9", "a:b", "x-", "%", "a\nb"]


def some_ns(rng, slashes=True):
    """Any good namespace: the short ones above, or one of up to sixty characters with unusual ends."""
    if rng.random() < 0.5:
        return rng.choice(NS_OK)
    mid = "".join(rng.choice("abzABZ0189_+/") for _ in range(rng.choice([0, 1, 2, 6, 12, 60])))
    ns = rng.choice(["", "_", "+", "/", "0", "fp", "__", "_+", "_/"]) + mid + rng.choice(["", "_", "+", "/", "0", "a", "__", "+_", "/_"])
    if not slashes:
        ns = "/".join(p for p in ns.split("/") if p)
    return ns or "z"


def gen(rng, kind=None, n=None):
    kind = kind or rng.choice(["nw5", "nw6", "pp", "pdf"])
    if kind == "pp":
        return {"kind": kind, "st": pp.statement(rng, n), "legacy": rng.random() < 0.5}
    if kind == "pdf":
        st = pdf.statement(rng, n)
    else:
        acct = rng.choice(nw.ACCOUNTS + ["Current", "x", "Abc123", "A_b"])
        if rng.random() < 0.2:
            # nearly one of those
            m = W.mutate(rng, acct, W.LATIN)
            if m and nw.ok(m):
                acct = m
            elif "  " not in acct and rng.random() < 0.5:
                acct = acct.replace(" ", "  ", 1)
        st = nw.statement(rng, cols=int(kind[2]), n=n, account=acct)
    return {"kind": kind, "st": st, "legacy": rng.random() < 0.5, "ns": {"how": "generated"}}


def faulty(rng):
    """An import that has to fail."""
    from . import c16, c18, c19
    for _ in range(200):
        kind = rng.choice(["nw", "pp", "pdf"])
        if kind == "pdf":
            st = c19.gen(rng, "quick", 0)["st"]
            if st["fault"] and st["fault"]["kind"] != "tool":
                return {"kind": "pdf", "st": st, "legacy": False, "ns": {"how": "generated"}}
        else:
            c = (c16 if kind == "nw" else c18).gen(rng, "quick", 0)
            if c["fault"] and c["fault"]["kind"] != "no-zone-file":
                return {"kind": "pp" if kind == "pp" else "nw%d" % c["st"]["cols"], "st": c["st"], "legacy": c["legacy"],
                        "ns": {"how": "generated"}, "fault": c["fault"]}


def account(case):
    return case["st"].get("account")


def namespace(case):
    """The namespace that was asked for; None when there cannot be one."""
    if case["kind"] == "pp":
        return case["st"]["ns"]
    ns = case["ns"]
    if ns["how"] in ("generated", "default"):
        return fpr.generated_ns(account(case))
    if ns["how"] == "account-name":
        return account(case)
    if ns["how"] == "fixed":
        return ns["v"]
    if ns["how"] == "lookup":
        return dict(map(tuple, ns["table"])).get(account(case))
    return None


def records(case):
    st = case["st"]
    return len(st["recs"]) if case["kind"] == "pp" else len(st["rows"]) if "rows" in st else sum(map(len, st["tables"]))


def ron_str(s):
    return '"%s"' % s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n")


def prepare(box, case, stdin=False):
    """Write the inputs; returns (importer args, environment, stdin bytes)."""
    st, kind = case["st"], case["kind"]
    env, data = {}, None
    if kind == "pp":
        data, zt, oz = pp.write(st), pp.tz_table(st), st["out_tz"]
        if case.get("fault"):
            from . import c18
            recs, zt, oz = c18.malform(st, case["fault"])
            data = nw.to_csv(recs, st["layout"], "utf-8", 0)
        box.write("in.csv", data)
        box.write("tz.csv", zt)
        args = ["paypal-csv", "--output-timezone", oz, "--fingerprint-namespace=" + st["ns"]]
        if case["legacy"]:
            args.append("--include-legacy-fingerprint")
        return args + ["-" if stdin else "in.csv", "tz.csv"], env, data if stdin else None
    ns = case["ns"]
    opt = []
    if ns["how"] == "lookup":
        t = "{%s}" % ", ".join("%s: %s" % (ron_str(a), ron_str(b)) for a, b in ns["table"])
        box.write("ns.ron", t)
        opt = ["--fp-namespace", "lookup:ns.ron"]
    elif ns["how"] == "lookup-bad":
        if ns["v"] is not None:
            box.write("ns.ron", ns["v"])
        opt = ["--fp-namespace", "lookup:ns.ron"]
    elif ns["how"] == "fixed":
        opt = ["--fp-namespace=fixed:" + ns["v"]]
    elif ns["how"] == "bad":
        opt = ["--fp-namespace=" + ns["v"]]
    elif ns["how"] != "default":
        opt = ["--fp-namespace", ns["how"]]
    if kind == "pdf":
        a, env = pdf.setup(box, st)
        return ["nationwide-pdf"] + opt + a, env, None
    data = nw.write(st)
    if case.get("fault"):
        from . import c16
        data = c16.encode(c16.malform(st, case["fault"]), st, case["fault"])
    box.write("in.csv", data)
    args = ["nationwide-csv"] + opt
    if case["legacy"]:
        args.append("--include-legacy-fingerprint")
    return args + ["-" if stdin else "in.csv"], env, data if stdin else None


def expect(case, ns=None, peer_v1=False):
    ns = namespace(case) if ns is None else ns
    if case["kind"] == "pp":
        return pp.expect(case["st"], case["legacy"], peer_v1)
    if case["kind"] == "pdf":
        return pdf.expect(case["st"], ns)
    return nw.expect(case["st"], ns, case["legacy"])
