"""C25: standard streams behave as files; outputs are replaced entirely."""
import os, random, re, threading, time
from . import core, imp, journal as J, merge_model as M, scenario as S, words as W

BUDGET = {"quick": (2600, 70), "thorough": (60000, 800)}
CHUNK = 10
RULE = ("A case is a valid run of some command, done once with files only, and then in several other ways: inputs from standard input "
        "(a pipe, a file, in pieces), output to standard output (-, or --output left out; a pipe, a file, an appended file), outputs "
        "that exist (longer, shorter, symbolic link, fifo), that are also inputs, named by other paths, files given twice, and with damaged "
        "input. Every way must give the same bytes at its destination, nothing else on standard output, and change no other file. "
        "Non-trivial: a way other than the first was run.")
REQUIRED = ["input from a pipe", "input from a redirected file", "input in pieces", "input through a fifo", "input twice from standard input",
            "output to -", "output left out", "output to appended file", "output to redirected file", "output replaces longer file",
            "output replaces shorter file", "output through a link", "output through a fifo", "output is an input", "output by absolute path", "output of unusual name", "file named -",
            "both outputs on standard output", "in-place on standard streams", "file given twice", "damaged from standard input",
            "table from standard input"] + ["command " + c for c in S.CMDS]
UUID = re.compile(rb"fp-uuidb64-[^:\n]+")


def gen(rng, tier, i):
    c = S.gen(rng, tier, cmd=S.CMDS[i % len(S.CMDS)], small=rng.random() < 0.8)
    c["wseed"] = rng.randrange(10 ** 9)
    return c


def norm(b):
    return None if b is None else UUID.sub(b"fp-uuidb64-X", b)


def sourced(case, k):
    """How transactions of merge input k get their source: none of them has
    one (True), or all have (False); None for a mixture."""
    n = {M.SOURCE in t["c"]["v"] for t in case["files"][k]["trns"]}
    if len(n) > 1:
        return None
    return n != {True}


def renamed(case, name, new, b):
    """Bytes of an unmerged journal with the source called name called new."""
    if b is None:
        return None
    return b.replace(b'source-file: "%s"\n' % name.encode(), b"source-file: " + new + b"\n")


def check(case, box, res):
    rng = random.Random(case["wseed"])
    cmd = case["cmd"]
    kind = case["imp"]["kind"] if cmd == "import" else None
    what = cmd + (" " + kind if kind else "")
    box.fresh()
    plan = S.setup(box, case)
    before = box.snapshot()
    o = box.run(plan.args, env=plan.env)
    if o.rc != 0:
        res.bad("valid %s failed: %s" % (what, o.brief()))
        return
    base = {n: box.read(n) for n in plan.outs}
    if o.out:
        res.bad("%s: wrote to standard output: %r" % (what, o.out[:300]))
    after = box.snapshot()
    ch = {k for k in set(before) | set(after) if before.get(k, 0) != after.get(k, 0)} - set(plan.outs)
    if ch:
        res.bad("%s: changed %s" % (what, sorted(ch)))
    res.feat("command " + cmd)
    ways = inplace if cmd in ("fmt", "generate-fingerprints") else oneout
    for _ in range(3):
        if res.violations:
            return
        res.nontrivial = True
        ways(case, box, res, rng, what, plan, base)


class Feed:
    """Delivers bytes as standard input, or through a fifo, in some way."""

    def __init__(self, box, rng, res, data, fifo=True):
        self.how = rng.choice(["pipe", "file", "pieces", "fifo"] if fifo else ["pipe", "file", "pieces"])
        self.kw, self.arg, self.thread, self.f = {}, "-", None, None
        if self.how == "pipe":
            self.kw["stdin"] = data
            res.feat("input from a pipe")
        elif self.how == "pieces":
            self.kw["stdin"] = data
            self.kw["shim"] = {"SHIM_FAULT": rng.choice(["read:*:short", "read:*:half"])}
            res.feat("input in pieces")
        elif self.how == "fifo":
            p = box.path("fifo.in")
            os.mkfifo(p)
            self.arg = "fifo.in"

            def go():
                try:
                    with open(p, "wb") as f:
                        f.write(data)
                except OSError:
                    pass
            self.thread = threading.Thread(target=go, daemon=True)
            self.thread.start()
            res.feat("input through a fifo")
        else:
            q = box.write("stdin.data", data)
            self.f = open(q, "rb")
            fd = self.f.fileno()
            self.kw["preexec"] = lambda: os.dup2(fd, 0)
            res.feat("input from a redirected file")

    def done(self, box):
        if self.f:
            self.f.close()
        if self.thread:
            # let the writer go if nothing opened the fifo
            try:
                os.close(os.open(box.path("fifo.in"), os.O_RDONLY | os.O_NONBLOCK))
            except OSError:
                pass
            self.thread.join(5)


class Drain:
    """Reads what is written to a fifo."""

    def __init__(self, path):
        self.data, self.stop = b"", False
        self.fd = os.open(path, os.O_RDONLY | os.O_NONBLOCK)
        self.thread = threading.Thread(target=self.go, daemon=True)
        self.thread.start()

    def go(self):
        while True:
            last = self.stop
            try:
                b = os.read(self.fd, 65536)
            except BlockingIOError:
                b = b""
            self.data += b
            if not b:
                if last:
                    return
                time.sleep(0.002)

    def finish(self):
        self.stop = True
        self.thread.join(10)
        os.close(self.fd)


def odd_name(rng, box):
    n = W.odd_name(rng)
    # never one that would lead out of the box
    return n + box.path("o.j") if n == "file://" else n


def damage(rng, name, data):
    junk = {"in.csv": b"\n\"x\",y\n", "tz.csv": rng.choice([b"x\n", b"\xe9\xff,UTC+01\n"]), "ns.ron": rng.choice([b"}}", b" // \xe9\n"])}.get(name) or \
        rng.choice([b"\n\n2020-01-02 caf\xe9\n  aa  1 GBP  ; :fp-damaged:\n", b"\n\nno such line\n", b"\n\n\xff\xfe\n", b"\n\n2020-99-01 x\n  aa  1 GBP\n"])
    if rng.random() < 0.4 and data.strip() and not name.endswith((".csv", ".ron")):
        # what a careful reader might repair
        return rng.choice([data + b"\n\n\x1a\n", data + b"\n\n\0\n", b"\xef\xbb\xbf" + data, data + b"\n\n\x0c\n", data.decode("utf-8", "replace").encode("utf-16"),
                           re.sub(rb"(?m)^(\d\d)(\d\d)", rb"\1\r\2", data, count=1) + (b"" if re.search(rb"(?m)^\d{4}", data) else junk)])
    return data + junk


def oneout(case, box, res, rng, what, _plan, base):
    """merge, apply-rules and import."""
    cmd = case["cmd"]
    kind = case["imp"]["kind"] if cmd == "import" else None
    box.fresh()
    plan = S.setup(box, case)
    args = list(plan.args)
    main, unm = "out.j", "unm.j" if "unm.j" in plan.outs else None
    want = dict(base)
    label = []

    def swap(old, new):
        """The last argument that is old becomes new."""
        i = len(args) - 1 - args[::-1].index(old)
        args[i] = new

    # inputs
    feed, bad = None, False
    streams = [n for n in plan.ins if not n.endswith(".ron")]
    if "lookup:ns.ron" in args:
        streams.append("ns.ron")
    used = None
    if streams and rng.random() < 0.65:
        name = rng.choice(streams)
        k = plan.ins.index(name) if cmd == "merge" else None
        s = sourced(case, k) if cmd == "merge" else False
        if s is not None and not (cmd == "merge" and any(t["c"]["v"].get(M.SOURCE) == '"%s"' % name for f in case["files"] for t in f["trns"])):
            data = box.read(name)
            if rng.random() < 0.12:
                data, bad = damage(rng, name, data), True
                res.feat("damaged from standard input")
            feed = Feed(box, rng, res, data, fifo=rng.random() < 0.5)
            used = name
            swap("lookup:ns.ron" if name == "ns.ron" else name, ("lookup:" if name == "ns.ron" else "") + feed.arg)
            os.unlink(box.path(name))
            if name in ("tz.csv", "ns.ron"):
                res.feat("table from standard input")
            label.append("%s as %s by %s" % (name, feed.arg, feed.how))
            if s and unm:
                want[unm] = renamed(case, name, b"<stdio>" if feed.arg == "-" else b'"%s"' % feed.arg.encode(), want[unm])
            if cmd == "merge" and feed.arg == "-" and rng.random() < 0.3:
                # there is no more to read: as good as an empty file
                i = args.index("--") + 1
                args.insert(rng.randint(args.index("-", i), len(args)), "-")
                label.append("twice")
                res.feat("input twice from standard input")
    # a file that is called -
    plain = [n for n in streams if n != used and n in args and n != "ns.ron"]
    if plain and rng.random() < 0.25:
        name = rng.choice(plain)
        s = sourced(case, plan.ins.index(name)) if cmd == "merge" else False
        if s is not None and not (cmd == "merge" and any(t["c"]["v"].get(M.SOURCE) == '"%s"' % name for f in case["files"] for t in f["trns"])):
            other = rng.choice(["./-", box.path("-"), "sp ace.j", "\u00e9\u4e2d.j", "end ", "./- ", "./ -", "in.j.", "IN.J", "a=b,c", "~", "$HOME", "*", "-x.j" if cmd == "merge" else "./-x.j"])
            if rng.random() < 0.4:
                other = odd_name(rng, box).replace("/../", "/")
                if cmd == "merge" and re.search(r"[\"'\\\u0301]", other):
                    # written with escapes as a source
                    other = "'o"
            os.makedirs(os.path.dirname(box.path(other)), exist_ok=True)
            os.rename(box.path(name), box.path(other))
            swap(name, other)
            if s and unm:
                want[unm] = renamed(case, name, b'"%s"' % other.encode(), want[unm])
            if os.path.basename(other) == "-":
                res.feat("file named -")
            label.append("%s as %s" % (name, other))
    # outputs
    dest = {}                # output -> file name, or None for standard output
    out_i = args.index("-o")
    drain = None
    how = rng.choice(["-", "omit", "input", "longer", "shorter", "link", "absolute", "dash", "odd", "odd", "new", "devstdout", "fifo", "devnull"])
    if how == "input":
        cands = [a for a in args[out_i + 2:] if a in plan.ins and a != used and "/" not in a and os.path.isfile(box.path(a))]
        if not cands:
            how = "longer"
    old = b"; old contents\n" * 3
    if how in ("-", "omit", "devstdout"):
        dest[main] = None
        if how == "-":
            args[out_i + 1] = "-"
            res.feat("output to -")
        elif how == "devstdout":
            args[out_i + 1] = "/dev/stdout"
        else:
            del args[out_i:out_i + 2]
            res.feat("output left out")
    elif how == "input":
        args[out_i + 1] = dest[main] = rng.choice(cands)
        res.feat("output is an input")
    elif how == "longer":
        box.write(main, (base[main] or b"") + old * rng.choice([1, 50]))
        dest[main] = main
        res.feat("output replaces longer file")
    elif how == "shorter":
        box.write(main, rng.choice([b"", (base[main] or b"")[:5], b"x"]))
        dest[main] = main
        res.feat("output replaces shorter file")
    elif how == "link":
        box.write("real.j", (base[main] or b"") + old)
        os.symlink("real.j", box.path(main))
        dest[main] = main
        res.feat("output through a link")
    elif how == "absolute":
        args[out_i + 1] = box.path(main)
        dest[main] = main
        res.feat("output by absolute path")
    elif how == "devnull":
        os.symlink("/dev/null", box.path(main))
    elif how == "fifo":
        os.mkfifo(box.path(main))
        drain = Drain(box.path(main))
        dest[main] = main
        res.feat("output through a fifo")
    elif how == "dash":
        args[out_i + 1] = "./-out"
        dest[main] = "-out"
    elif how == "odd":
        args[out_i + 1] = dest[main] = rng.choice(["out.j ", " out.j", "./- ", " -", "\t-", "out", "OUT.J", "o\u00fct.j", "a b/ c", "n\n", "out.j.", "stdout",
                                                   "~", "*", "$HOME", "%s", "..j", "--x"[1:]])
        if rng.random() < 0.5:
            args[out_i + 1] = dest[main] = odd_name(rng, box)
        if dest[main][:2] == "./":
            dest[main] = dest[main][2:]
        if "/" in dest[main]:
            d = os.path.dirname(dest[main])
            os.makedirs(box.path(d.split("/..")[0]), exist_ok=True)
            dest[main] = os.path.normpath(dest[main])
        if dest[main].startswith("-x"):
            args[out_i:out_i + 2] = ["--output=" + dest[main]]
        res.feat("output of unusual name")
    else:
        dest[main] = main
    label.append("output " + how)
    if unm:
        u_i = args.index("-u")
        if rng.random() < 0.3:
            args[u_i + 1] = "-"
            dest[unm] = None
            label.append("unmerged to -")
        else:
            dest[unm] = unm
            if rng.random() < 0.5:
                box.write(unm, (base[unm] or b"") + old)
                if base[unm] is None:
                    # nothing to set aside: it is not written
                    want[unm] = old
    if cmd == "merge" and rng.random() < 0.3 and "-o" in args:
        # options after the inputs
        i = args.index("-o")
        pair = args[i:i + 2]
        del args[i:i + 2]
        args[args.index("--"):args.index("--")] = pair
    # standard output
    pre = b""
    stdout = None
    mode = rng.choice(["pipe", "pipe", "file", "append"]) if None in dest.values() and how != "devstdout" else "pipe"
    if mode != "pipe":
        pre = b"; earlier\n" if mode == "append" else b""
        box.write("stdout.data", b"; earlier\n")
        stdout = open(box.path("stdout.data"), "ab" if mode == "append" else "wb")
        res.feat("output to appended file" if mode == "append" else "output to redirected file")
        label.append("standard output " + mode)
    before = box.snapshot()
    o = box.run(args, env=plan.env, stdout=stdout, **(feed.kw if feed else {}))
    if feed:
        feed.done(box)
    if drain:
        drain.finish()
    if stdout:
        stdout.close()
        o.out = box.read("stdout.data")
    after = box.snapshot()
    ch = {k for k in set(before) | set(after) if before.get(k, 0) != after.get(k, 0)} - {"stdout.data", "fifo.in"}
    where = "%s (%s)" % (what, ", ".join(label))
    if bad:
        if o.rc == 0 or o.crashed or not o.err.strip():
            res.bad("%s: damaged input was not refused with a message: %s" % (where, o.brief()))
        if o.out != pre or ch:
            res.bad("%s: refused input, but wrote %r to standard output and changed %s" % (where, o.out[:200], sorted(ch)))
        return
    if o.rc != 0:
        res.bad("%s: failed, but not with files: %s" % (where, o.brief()))
        return
    allowed = {d for d in dest.values() if d} | ({"real.j"} if how == "link" else set())
    if ch - allowed:
        res.bad("%s: changed %s" % (where, sorted(ch - allowed)))
    streams_want = [want[n] or b"" for n in (unm, main) if n and dest.get(n, 0) is None]
    if o.out not in (pre + b"".join(streams_want), pre + b"".join(streams_want[::-1])):
        res.bad("%s: standard output differs from the file:\n%r\nis not\n%r" % (where, o.out[:1500], (pre + b"".join(streams_want))[:1500]))
    if len(streams_want) == 2 and all(streams_want):
        res.feat("both outputs on standard output")
    for n, d in dest.items():
        now = None
        if d and not (drain and n == main):
            now = box.read(d)
        elif d:
            now = drain.data
            if after.get(d) != "special":
                res.bad("%s: the output is no longer a fifo" % where)
        if d and now != want[n]:
            res.bad("%s: %s differs:\n%r\nis not\n%r" % (where, d, (now or b"(missing)")[:1500], (want[n] or b"(missing)")[:1500]))
    if how == "devnull" and after.get(main) != "-> /dev/null":
        res.bad("%s: the output was /dev/null, and is replaced" % where)
    if how == "link" and not os.path.exists(box.path("real.j")):
        res.bad("%s: the file that the output links to is gone" % where)


def inplace(case, box, res, rng, what, _plan, base):
    """fmt and generate-fingerprints."""
    box.fresh()
    plan = S.setup(box, case)
    names = list(plan.outs)
    args = list(plan.args)
    k = rng.randrange(4)
    cmd = case["cmd"]
    if k == 0:
        # a file twice, by another name
        name = rng.choice(names)
        args.insert(rng.randint(1, len(args)), rng.choice([name, "./" + name, box.path(name)]))
        o = box.run(args)
        want_out = b""
        res.feat("file given twice")
        label = "%s twice" % name
        if o.rc != 0:
            res.bad("%s (%s): failed: %s" % (what, label, o.brief()))
            return
    else:
        name = rng.choice(names)
        data = box.read(name)
        bad = rng.random() < 0.2
        if bad:
            data = damage(rng, name, data)
            res.feat("damaged from standard input")
        os.unlink(box.path(name))
        feed = Feed(box, rng, res, data, fifo=False)
        args[args.index(name)] = "-"
        label = "%s as - by %s" % (name, feed.how)
        if rng.random() < 0.2:
            args.insert(rng.randint(args.index("-") + 1, len(args)), "-")
            label += " twice"
            res.feat("input twice from standard input")
        mode = rng.choice(["pipe", "file", "append"])
        stdout, pre = None, b""
        if mode != "pipe":
            pre = b"; earlier\n" if mode == "append" else b""
            box.write("stdout.data", b"; earlier\n")
            stdout = open(box.path("stdout.data"), "ab" if mode == "append" else "wb")
        old = {n: box.read(n) for n in names if n != name}
        o = box.run(args, stdout=stdout, **feed.kw)
        feed.done(box)
        if stdout:
            stdout.close()
            o.out = box.read("stdout.data")
        where = "%s (%s)" % (what, label)
        if bad:
            if o.rc == 0 or o.crashed or not o.err.strip():
                res.bad("%s: damaged input was not refused with a message: %s" % (where, o.brief()))
            if o.out != pre:
                res.bad("%s: refused input, but wrote %r" % (where, o.out[:200]))
            for n in names:
                if n != name and norm(box.read(n)) not in (norm(old[n]), norm(base[n])):
                    res.bad("%s: refused input, and %s is neither old nor new" % (where, n))
            return
        if o.rc != 0:
            res.bad("%s: failed: %s" % (where, o.brief()))
            return
        res.feat("in-place on standard streams")
        want_out = pre + base[name]
        if os.path.exists(box.path(name)):
            res.bad("%s: %s was written" % (where, name))
        names.remove(name)
    where = "%s (%s)" % (what, label)
    if norm(o.out) != norm(want_out):
        res.bad("%s: standard output differs from the file:\n%r\nis not\n%r" % (where, o.out[:1500], want_out[:1500]))
    for n in names:
        if norm(box.read(n)) != norm(base[n]):
            res.bad("%s: %s differs:\n%r\nis not\n%r" % (where, n, box.read(n)[:1500], base[n][:1500]))


shrink = S.shrink
