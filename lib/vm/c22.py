"""C22: namespaces and output options of import are honoured exactly."""
import os
from . import imp, imprun as R, journal as J, words as W

BUDGET = {"quick": (12000, 90), "thorough": (150000, 800)}
RULE = ("A case is one import with a combination of namespace option, output path template, --sub-output-path, --make-parent-dirs and "
        "prior directory state. A model says whether it must fail (then no file may change) or which one file must exist afterwards; "
        "every fingerprint and sequence tag in it must be in the namespace asked for. Non-trivial: has a record, or must fail.")
TEMPLATES = ["out.j", "d/out.j", "d/%FP_NS%.j", "%FP_NS%.j", "%FP_NS%/x/%FP_NS%.j", "a/b/c.j", "d/./e.j", "%FP_NS", "%%FP_NS%%.j",
             "d/%fp_ns%.j", "ABS/z.j", "ABS/n/%FP_NS%-1.j", None, "-"]
REQUIRED = ["ok", "ok substituted", "ok directories made", "stdout ok", "refused: namespace", "refused: stdout option", "refused: directory"]


def gen(rng, tier, i):
    case = R.gen(rng, n=rng.choice([0, 1, 1, 2, 3]))
    tmpl = rng.choice(TEMPLATES)
    slashes = not (tmpl and "%FP_NS%" in tmpl)
    ok = lambda: R.some_ns(rng, slashes)
    some = lambda: rng.choice([ok(), ok(), rng.choice(R.NS_OK + R.NS_BAD)])
    if case["kind"] == "pp":
        case["st"]["ns"] = some()
    else:
        how = rng.choice(["default", "generated", "account-name", "fixed", "fixed", "lookup", "lookup", "lookup-bad", "bad"])
        ns = {"how": how}
        if how == "fixed":
            ns["v"] = "" if rng.random() < 0.03 else some()
        elif how == "lookup":
            acc = case["st"]["account"]
            near = {"Other", "x y", acc.upper(), acc.lower(), acc + "2", acc[:-1], acc[1:], acc.rstrip("0123456789"), acc.strip("*"),
                    acc.split(" ")[0], acc.split(" ")[-1], acc + " ", " " + acc, acc.replace(" ", ""), acc.replace("-", ""),
                    acc.replace("*", ""), "", "*", W.mutate(rng, acc), W.mutate(rng, acc)} - {acc}
            t = [[k, ok()] for k in rng.sample(sorted(near), rng.choice([0, 1, 3, 8]))]
            if rng.random() < 0.8:
                t.insert(rng.randint(0, len(t)), [case["st"]["account"], "" if rng.random() < 0.05 else some()])
            ns["table"] = t
        elif how == "lookup-bad":
            ns["v"] = rng.choice([None, "", "{", "[]", "{1: \"x\"}", "{\"x\": 1}"])
        elif how == "bad":
            ns["v"] = rng.choice(["", "x", "Generated", "fixed", "lookup", "account_name", " generated", "xfixed:a", " fixed:a", "FIXED:a", "Fixed:a",
                                  "fixed=a", "fixed;a", "fix:a", "my-lookup:ns.ron", "lookup=ns.ron", "Lookup:ns.ron", "account-name ", "account-names",
                                  "account-nam", "xaccount-name", "account-name:", "account-name:x", "generated:", "generated:x", "generate",
                                  "ACCOUNT-NAME", ":", ":a", "a:fixed:b", "default", "name", "nationwide", "fixed", "NS", "account name"])
        case["ns"] = ns
    ns = R.namespace(case)
    if tmpl and tmpl.startswith("%") and (not ns or ns.startswith("/") or ".." in ns):
        tmpl = "d/" + tmpl         # stay in the scratch directory
    return {"imp": case, "out": tmpl, "sub": rng.random() < 0.5, "mk": rng.random() < 0.5,
            "dirs": [d for d in ("d", "a", "a/b", "abs") if rng.random() < 0.4], "block": rng.choice([None] * 8 + ["d", "a"]),
            "old": rng.random() < 0.4, "stdin": rng.random() < 0.2}


def check(case, box, res):
    ic = case["imp"]
    stdin = case["stdin"] and ic["kind"] != "pdf"
    args, env, data = R.prepare(box, ic, stdin)
    for d in case["dirs"]:
        if not (case["block"] and (d == case["block"] or d.startswith(case["block"] + "/"))):
            os.makedirs(box.path(d), exist_ok=True)
    if case["block"]:
        box.write(case["block"], "a file in the way\n")
    ns = R.namespace(ic)
    tmpl = case["out"]
    fail = None
    if ns is None or (R.records(ic) and not all(c.isascii() and (c.isalnum() or c in "_+/") for c in ns)):
        fail = "namespace"
    elif ns is not None and not all(c.isascii() and (c.isalnum() or c in "_+/") for c in ns):
        return                      # nothing to put an invalid namespace on
    stdout = tmpl in (None, "-")
    path = None
    if not stdout:
        path = tmpl.replace("ABS", box.path("abs"))
        if case["sub"]:
            path = path.replace("%FP_NS%", ns or "")
        rel = os.path.relpath(os.path.join(box.dir, path), box.dir)
    else:
        if (case["sub"] or case["mk"]) and not fail:
            fail = "stdout option"
    if not fail and not stdout:
        full = os.path.join(box.dir, path)
        parent = os.path.dirname(full)
        # what is there on the way to the file
        p = parent
        while not os.path.lexists(p):
            p = os.path.dirname(p)
        if not os.path.isdir(p) or (p != parent and not case["mk"]) or os.path.isdir(full) or path.endswith("/"):
            fail = "directory"
        elif case["old"] and p == parent:
            box.write(rel, imp.OLD)
    elif fail and not stdout and case["old"] and not case["block"] and "%" not in rel:
        os.makedirs(os.path.dirname(box.path(rel)), exist_ok=True)
        box.write(rel, imp.OLD)
    before = box.snapshot()
    cmd = ["import"]
    if tmpl is not None:
        cmd += ["-o", tmpl.replace("ABS", box.path("abs"))]
    if case["sub"]:
        cmd.append("--sub-output-path")
    if case["mk"]:
        cmd.append("--make-parent-dirs")
    o = box.run(cmd + args, stdin=data, env=env)
    after = box.snapshot()
    what = "%s ns=%s out=%s sub=%s mk=%s" % (ic["kind"], ic.get("ns", ns), tmpl, case["sub"], case["mk"])
    if fail:
        if fail == "directory" and case["mk"]:
            # directories may have been made before the obstacle was met
            after = {k: v for k, v in after.items() if not k.endswith("/") or k in before}
        if o.crashed or o.timeout:
            res.bad("%s: crash or hang: %s" % (what, o.brief()))
        elif o.rc == 0:
            res.bad("%s: should be refused (%s) but succeeded" % (what, fail))
        elif not o.err.strip():
            res.bad("%s: failed without a message" % what)
        if o.out.strip():
            res.bad("%s: failed (%s) but wrote to standard output" % (what, fail))
        if after != before:
            res.bad("%s: failed (%s) but changed %s" % (what, fail, sorted(
                k for k in set(before) | set(after) if before.get(k, 0) != after.get(k, 0))))
        res.feat("refused: " + fail)
        res.nontrivial = True
        return
    if o.rc != 0:
        res.bad("%s: failed: %s" % (what, o.brief()))
        return
    if stdout:
        data = o.out
        if after != before:
            res.bad("%s: writing to standard output changed files" % what)
    else:
        if o.out:
            res.bad("%s: wrote to standard output too: %r" % (what, o.out[:200]))
        key = os.path.normpath(rel)
        data = after.get(key)
        if data is None:
            res.bad("%s: %s was not written" % (what, key))
            return
        want_dirs = set()
        d = os.path.dirname(key)
        while d:
            want_dirs.add(d + "/")
            d = os.path.dirname(d)
        diff = {k for k in set(before) | set(after) if before.get(k, 0) != after.get(k, 0)} - {key}
        if diff - want_dirs:
            res.bad("%s: touched other files: %s" % (what, sorted(diff)))
        if case["sub"] and "%FP_NS%" in tmpl:
            res.feat("ok substituted")
        if diff:
            res.feat("ok directories made")
    got = imp.read(res, data)
    if got is None:
        return
    # values of tags, whatever they are made of, must be in the namespace
    algo = {"nw5": "nwcsv5.1.", "nw6": "nwcsv6.1.", "pp": "ppcsv.1.", "pdf": ""}[ic["kind"]]
    n = 0
    for t in got:
        for p in t["posts"]:
            for f in J.fps(p):
                if f.rpartition("-")[0] not in ("fp-" + algo + ns, "fp-" + ns):
                    res.bad("%s: fingerprint %s is not in namespace %r" % (what, f, ns))
                n += 1
            s = p["c"]["v"].get("seq")
            if s is not None and s.rpartition("-")[0] != ns:
                res.bad("%s: seq %s is not in namespace %r" % (what, s, ns))
    want = R.expect(ic)
    if len(got) != len(want):
        res.bad("%s: %d transactions, expected %d" % (what, len(got), len(want)))
    elif n < sum(len(t["posts"]) for t in got) / 2:
        res.bad("%s: postings without fingerprints" % what)
    res.feat("stdout ok" if stdout else "ok")
    res.nontrivial = bool(got)


def shrink(case):
    for k in ("old", "stdin", "mk", "sub"):
        if case[k]:
            yield dict(case, **{k: False})
