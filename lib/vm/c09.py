"""C09: I/O and input failures are reported and never pass as success."""
import errno, os, random
from . import core, imp, journal as J, scenario as S

LEVEL = "fault_enumeration"
BUDGET = {"quick": (1200, 90), "thorough": (12000, 800)}
CHUNK = 4
RULE = ("A case is a valid run of some command. It is run once with its I/O recorded; then again with each recorded open, read, write "
        "and mkdir of its inputs and outputs failing (several errors), with reads and writes interrupted and cut short, with combinations "
        "of these, with damaged inputs, and with unusable outputs. A run with a failure must exit non-zero with a message and may have "
        "changed only files that it had opened for writing before; short transfers must change nothing, interrupted ones must be continued or reported. "
        "Non-trivial: at least one fault reached the program.")
REQUIRED = ["fault open", "fault read", "fault write", "fault mkdir", "interrupted", "short", "short then error", "damaged input", "missing input",
            "directory as input", "directory as output", "no output directory", "/dev/full", "broken pipe", "bad arguments",
            "input fault left outputs alone"] + ["command " + c for c in S.CMDS]
READ_ERR = [errno.EIO, errno.EISDIR, errno.ENOMEM, errno.EAGAIN, errno.EBADMSG]
WRITE_ERR = [errno.EIO, errno.ENOSPC, errno.EDQUOT, errno.EFBIG, errno.EPIPE, errno.EAGAIN]
OPEN_ERR = [errno.EACCES, errno.ENOENT, errno.EMFILE, errno.EIO, errno.EROFS, errno.ENOSPC]


def gen(rng, tier, i):
    c = S.gen(rng, tier, cmd=S.CMDS[i % len(S.CMDS)], small=True)
    c["fseed"] = rng.randrange(10 ** 9)
    if c["cmd"] == "import":
        c["mk"] = rng.random() < 0.5
    return c


class Log:
    """The I/O calls of one run that concern the scratch directory."""

    def __init__(self, box, name):
        self.calls = []             # (kind, n, path, writable)
        n = {"open": 0, "read": 0, "write": 0, "mkdir": 0}
        fds = {0: None, 1: "<stdout>"}
        data = box.read(name) or b""
        for line in data.decode("utf-8", "replace").splitlines():
            f = line.split(" ", 3)
            if f[0] not in n:
                continue
            n[f[0]] += 1
            if f[0] == "open":
                path = self.mine(box, f[3])
                r, flags = int(f[1]), int(f[2])
                w = bool(flags & (os.O_WRONLY | os.O_RDWR))
                if r >= 0:
                    fds[r] = path
                if path and not flags & os.O_DIRECTORY:
                    # (directories are opened to clean up, after the fact)
                    self.calls.append(("open", n["open"], path, w))
            elif f[0] == "mkdir":
                self.calls.append(("mkdir", n["mkdir"], f[2], True))
            elif fds.get(int(f[1])):
                self.calls.append((f[0], n[f[0]], fds[int(f[1])], f[0] == "write"))

    @staticmethod
    def mine(box, path):
        if path.startswith("/"):
            if not path.startswith(box.dir + "/"):
                return None
            path = os.path.relpath(path, box.dir)
        return os.path.normpath(path) if not path.endswith(".log") else None

    def opened_for_writing(self, upto=None):
        """Paths opened for writing by the calls before (and with) call upto."""
        out = set()
        for c in self.calls:
            if c[0] == "open" and c[3]:
                out.add(c[2])
            if upto is not None and c[:2] == upto:
                break
        return out


def start(box, case, old=True):
    """A fresh directory with the inputs and earlier contents of the outputs."""
    box.fresh()
    out = "made/by/out.j" if case.get("mk") else "out.j"
    plan = S.setup(box, case, out=out)
    if case.get("mk"):
        plan.args.insert(1, "--make-parent-dirs")
    elif case["cmd"] in ("merge", "apply-rules", "import"):
        for n in plan.outs:
            box.write(n, imp.OLD)
    return plan


def snap(box):
    return {k: v for k, v in box.snapshot().items() if not k.endswith(".log")}


def changed(a, b):
    return {k for k in set(a) | set(b) if a.get(k, 0) != b.get(k, 0)}


def check(case, box, res):
    rng = random.Random(case["fseed"])
    cmd = case["cmd"]
    what = cmd + (" " + case["imp"]["kind"] if cmd == "import" else "")
    seed = {"SHIM_SEED": "7"}

    def run(fault=None, args=None, **kw):
        plan = start(box, case)
        before = snap(box)
        shim = dict(seed, SHIM_LOG=box.path("io.log"))
        if fault:
            shim["SHIM_FAULT"] = fault
        o = box.run(args(plan) if args else plan.args, env=plan.env, shim=shim, **kw)
        return plan, before, o, snap(box), Log(box, "io.log")

    plan, before, o, base, log = run()
    if o.rc != 0:
        res.bad("valid %s failed: %s" % (what, o.brief()))
        return
    wrote = log.opened_for_writing()
    extra = changed(before, base) - wrote - {k for k in base if k.endswith("/")}
    if not log.calls:
        res.inconclusive = "no I/O was seen"
        return
    res.feat("command " + cmd)
    res.feat("calls recorded", len(log.calls))

    def must_fail(label, r, allowed, untouched=False):
        plan, before, o, after, lg = r
        if o.timeout or o.crashed:
            res.bad("%s, %s: crash or hang: %s" % (what, label, o.brief()))
        elif o.rc == 0:
            res.bad("%s, %s: reported success" % (what, label))
        elif not o.err.strip():
            res.bad("%s, %s: failed without a message" % (what, label))
        if o.out.strip():
            res.bad("%s, %s: wrote to standard output: %r" % (what, label, o.out[:200]))
        ch = {k for k in changed(before, after) if not (k.endswith("/") and case.get("mk"))} - allowed
        if ch:
            res.bad("%s, %s: changed %s" % (what, label, sorted(ch)))
        elif not allowed & changed(before, after):
            res.feat("input fault left outputs alone")
        res.nontrivial = True

    # every recorded call fails
    calls = log.calls
    limit = 40 if core._W.get("tier") == "thorough" else 14
    if len(calls) > limit:
        # all the opens and writes, some of the reads
        calls = sorted(rng.sample(calls, limit), key=calls.index)
        calls += [c for c in log.calls if c[0] in ("open", "write", "mkdir") and c not in calls][:limit]
    for c in calls:
        kind, n, path, w = c
        e = rng.choice({"open": OPEN_ERR, "read": READ_ERR, "write": WRITE_ERR, "mkdir": [errno.EACCES, errno.EROFS, errno.ENOSPC]}[kind])
        allowed = log.opened_for_writing(c[:2])
        if kind == "open":
            allowed -= {path} if path not in {x[2] for x in log.calls[:log.calls.index(c)] if x[0] == "open" and x[3]} else set()
        r = run("%s:%d:%d" % (kind, n, e))
        must_fail("%s of %s (call %d) failing with %s" % (kind, path, n, errno.errorcode[e]), r, allowed)
        res.feat("fault " + kind)
        if res.violations:
            return
    # interrupted and short transfers, and both: the same result
    for f, feat in (("read:*:eintr,write:*:eintr", "interrupted"), ("read:*:short,write:*:short", "short"),
                    ("read:*:half,write:*:half,read:*:eintr", "short"), ("write:*:half,write:*:eintr", "short")):
        r = run(f)
        _, b, o, after, lg = r
        if "eintr" in f and o.rc != 0:
            # not taken up again, but reported
            must_fail("transfers " + f, r, lg.opened_for_writing())
            res.feat("interruption reported")
            if res.violations:
                return
            continue
        if o.rc != 0 or changed(after, base):
            res.bad("%s: transfers %s changed the result: %s %s" % (what, f, o.brief(), sorted(changed(after, base))))
            return
        res.feat(feat)
    # a short transfer and then an error
    for kind, errs in (("read", READ_ERR), ("write", WRITE_ERR)):
        mine = [c for c in log.calls if c[0] == kind]
        if not mine:
            continue
        c = rng.choice(mine)
        e = rng.choice(errs)
        how = rng.choice(["half", "short"])
        # later calls of the same kind, on whatever file they then are
        f = "%s:%d:%s,%s:%d+:%d" % (kind, c[1], how, kind, c[1] + 1, e)
        r = run(f)
        if any(x[0] == kind and x[1] > c[1] for x in r[4].calls):
            must_fail("%s of %s cut short, then %s" % (kind, c[2], errno.errorcode[e]), r, r[4].opened_for_writing())
            res.feat("short then error")
        if res.violations:
            return

    # damaged, missing and strange inputs: outputs are left alone
    inputs = plan.ins or plan.outs
    pdf = cmd == "import" and case["imp"]["kind"] == "pdf"
    if pdf:
        inputs = sorted(k for k in before if k.startswith("pages/") and not k.endswith("/"))
    for name in rng.sample(inputs, min(2, len(inputs))):
        for how in ("damaged input",) if pdf else ("damaged input", "missing input", "directory as input"):
            plan = start(box, case)
            if how == "damaged input":
                junk = {"in.csv": b"\n\"x\",y\n", "tz.csv": b"x\n", "ns.ron": b"}}"}.get(name)
                if pdf:
                    junk = rng.choice([b"9\tx\n", b"5\t1\t1\t1\t1\t1\tx\t1\t1\t1\t1\tword\n"])
                if junk is None:
                    junk = b"]]" if name.endswith(".ron") else rng.choice([b"\n\nno such line\n", b"\n\n\xff\xfe\n", b"\n\n2020-99-01 x\n  aa  1 GBP\n"])
                with open(box.path(name), "ab") as fh:
                    fh.write(junk)
            else:
                os.unlink(box.path(name))
                if how == "directory as input":
                    os.mkdir(box.path(name))
            before = snap(box)
            lg = {"SHIM_LOG": box.path("io.log")}
            o = box.run(plan.args, env=plan.env, shim=lg)
            # files given before the damaged one may have been rewritten
            allowed = set(plan.outs[:plan.outs.index(name)]) if cmd in ("fmt", "generate-fingerprints") else set()
            must_fail("%s %s" % (how, name), (plan, before, o, snap(box), None), allowed)
            res.feat(how)
            if res.violations:
                return

    # unusable outputs
    if cmd in ("merge", "apply-rules", "import"):
        def out_at(p, args):
            a = list(args)
            a[a.index("-o") + 1] = p
            return a
        empty = not (base.get(plan.outs[0]) or b"").strip()
        plan = start(box, case)
        os.mkdir(box.path("dir.out"))
        for label, p in (("directory as output", "dir.out"), ("no output directory", "none/out.j"), ("/dev/full", "/dev/full")):
            if label == "no output directory" and case.get("mk"):
                continue
            if label == "/dev/full" and empty:
                continue
            plan = start(box, case)
            os.mkdir(box.path("dir.out"))
            before = snap(box)
            o = box.run(out_at(p, plan.args), env=plan.env)
            must_fail(label, (plan, before, o, snap(box), None), {"unm.j"})
            res.feat(label)
        if not empty and not case.get("mk"):
            plan = start(box, case)
            before = snap(box)
            with open("/dev/full", "wb") as full:
                o = box.run(out_at("-", plan.args), env=plan.env, stdout=full)
            must_fail("standard output full", (plan, before, o, snap(box), None), {"unm.j"})
            res.feat("/dev/full")
            plan = start(box, case)
            before = snap(box)
            rfd, wfd = os.pipe()
            os.close(rfd)
            try:
                o = box.run(out_at("-", plan.args), env=plan.env, stdout=wfd)
            finally:
                os.close(wfd)
            must_fail("standard output a broken pipe", (plan, before, o, snap(box), None), {"unm.j"})
            res.feat("broken pipe")

    # arguments that cannot be
    plan = start(box, case)
    before = snap(box)
    a = list(plan.args)
    bad = rng.choice(["--no-such-option", "--output", "--help-me"])
    a.insert(1, bad)
    if bad == "--output":
        a = a[:1] + ["--output=x", "--output=y"] + a[2:]
    o = box.run(a, env=plan.env)
    must_fail("arguments %s" % bad, (plan, before, o, snap(box), None), set())
    res.feat("bad arguments")


def shrink(case):
    for c in S.shrink(case):
        yield dict(c, fseed=case["fseed"], **({"mk": case["mk"]} if "mk" in case else {}))
