"""C10: output is a function of the input alone."""
import os, random, re
from . import core, imp, imprun, journal as J, mergegen as G, scenario as S

BUDGET = {"quick": (2200, 80), "thorough": (60000, 800)}
RULE = ("A case is a run of fmt, apply-rules, merge (also of faulty journals) or import, repeated 4 to 8 times with different seeds of hash "
        "randomisation (an interposed getrandom), clocks, local time zones, locales, working directories and unrelated environment "
        "variables, process numbers, host names, ages of files, numbers of processors, and values of any variable that the program was seen to ask for. Exit status and the bytes of every output must be the same each time. Non-trivial: the run writes something.")
REQUIRED = ["command merge", "command apply-rules", "command fmt", "command import", "hash seeds served", "ambiguous merge repeated",
            "failing import repeated", "failing merge repeated", "paypal repeated"]
ENVS = [{"TZ": "Asia/Tokyo"}, {"TZ": "America/Los_Angeles"}, {"TZ": None}, {"TZ": "nonsense/zone"}, {"LANG": "de_DE.UTF-8", "LC_ALL": "C"},
        {"LC_ALL": "tr_TR.UTF-8"}, {"HOME": "/nonexistent"}, {"COLUMNS": "20"}, {"TERM": "dumb", "NO_COLOR": "1"}, {"USER": "somebody"},
        {"RUST_BACKTRACE": "1"}, {"LANG": None}, {"LANG": "tr_TR.UTF-8", "LC_ALL": None}, {"LANG": "C", "LC_ALL": None, "LC_CTYPE": "C"},
        {"LANG": "en_US.UTF-8", "LANGUAGE": "en:de"}, {"TMPDIR": None}, {"TMPDIR": "tmp2"}, {"PWD": "/"}, {"LC_TIME": "ja_JP.UTF-8", "LC_NUMERIC": "de_DE"},
        {"RUST_LOG": "trace"}, {"TZ": ":/etc/localtime"}, {"HOSTNAME": "other", "LOGNAME": "x"}, {"COLUMNS": None, "LINES": "1", "CLICOLOR": "0"}]


CPUS = sorted(os.sched_getaffinity(0))


def gen(rng, tier, i):
    k = i % 5
    if k < 2:
        # many tags, sources and candidates
        g = G.Gen(rng, tier, faults=0.15 if k else 0.0, unknown=rng.choice([0.3, 0.6]), fresh=rng.choice([0.3, 0.5]))
        g.amts = g.amts[:rng.choice([1, 2, 6])]
        g.days = g.days[:rng.choice([1, 2, 5])]
        g.rich = rng.choice([0.4, 0.9, 1.0])
        for _ in range(10):
            files, m = g.history()
            if files:
                break
        c = {"cmd": "merge", "files": files, "unmerged": True}
    else:
        c = S.gen(rng, tier, cmd=["apply-rules", "import", "fmt"][k - 2], cleared=True)
        if c["cmd"] == "import" and rng.random() < 0.35:
            c["imp"] = imprun.faulty(rng)
    c["vseed"] = rng.randrange(10 ** 9)
    # names in which someone might see a variable
    c["out"] = rng.choice(["out.j"] * 5 + ["o$LANG.j", "o${HOME}.j", "o${TZ}", "%TMPDIR%.j", "$USER", "o${LC_ALL}$COLUMNS.j", "o$(pwd).j", "~.j", "o%Y-%m-%d.j", "o%d.j",
                                          "o{pid}.j", "o$$.j", "o%p.j", "o${LANG}${PWD}", "o$RUST_BACKTRACE.j"])
    return c


def check(case, box, res):
    rng = random.Random(case["vseed"])
    runs = rng.choice([4, 5, 8]) if case["cmd"] == "merge" else 4
    first = None
    asked = set()
    top = box.dir
    for k in range(runs):
        # the same files under another directory
        box.dir = os.path.join(top, "w%d" % k, *["d" * n for n in range(1, rng.randint(1, 3))])
        os.makedirs(box.dir)
        plan = S.setup(box, case, out=case.get("out", "out.j"))
        if k:
            # files as old as they may be
            for n in plan.ins:
                if os.path.isfile(box.path(n)):
                    t = rng.randint(0, 2 * 10 ** 9)
                    os.utime(box.path(n), (t + rng.randint(-10 ** 6, 10 ** 6) if t > 10 ** 6 else t, t))
            res.feat("files of other ages")
        env = dict(plan.env)
        for e in rng.sample(ENVS, rng.randint(0, 3)) if k else []:
            env.update(e)
        if asked and rng.random() < 0.8:
            # variables that the earlier runs asked for
            for name in rng.sample(sorted(asked), rng.randint(1, len(asked))):
                env[name] = rng.choice([None, "", "1", "0", "true", "x", "/nonexistent", "de_DE.UTF-8", "Asia/Tokyo", "2001-02-03", "-1", "USD"])
            res.feat("variable that was asked for")
        if env.get("TMPDIR"):
            env["TMPDIR"] = os.path.join(top, env["TMPDIR"])
            os.makedirs(env["TMPDIR"], exist_ok=True)
        log = os.path.join(top, "log%d" % k)
        shim = {"SHIM_SEED": str(rng.randrange(1, 10 ** 9)), "SHIM_LOG": log}
        if k and rng.random() < 0.7:
            shim["SHIM_TIME"] = str(rng.randint(-10 ** 9, 10 ** 9))
        if k and rng.random() < 0.3:
            shim["SHIM_TTY"] = "1"
        cpus = {rng.choice(CPUS)} if k and rng.random() < 0.4 else CPUS
        if len(cpus) < len(CPUS):
            res.feat("on one processor")
        mask = rng.choice([0o022, 0o077, 0])

        def before():
            os.umask(mask)
            os.sched_setaffinity(0, cpus)
        o = box.run(plan.args, env=env, shim=shim, preexec=before)
        outs = {n: box.read(n) for n in plan.outs}
        calls = open(log).read()
        n = calls.count("getrandom ")
        asked = set(re.findall(r"^getenv (\w+)$", calls, re.M)) - {"PATH", "LD_PRELOAD", "TMPDIR"} - set(plan.env)
        res.feat("hash seeds served", n)
        here = box.dir
        box.dir = top
        if o.crashed or o.timeout:
            res.bad("%s crashed: %s" % (case["cmd"], o.brief()))
            return
        state = (o.rc, outs, o.out)
        if first is None:
            first = state
        elif state != first:
            if o.rc != first[0]:
                res.bad("%s: exit status %d once and %d another time: %s" % (case["cmd"], first[0], o.rc, o.brief()))
            for n in outs:
                if outs[n] != first[1].get(n):
                    res.bad("%s: run %d wrote a different %s (%s %s):\n%s" % (case["cmd"], k, n, env, shim, S_diff(first[1].get(n), outs[n])))
            if o.out != first[2]:
                res.bad("%s: different standard output" % case["cmd"])
            return
    res.feat("command " + case["cmd"])
    res.feat("repetitions", runs - 1)
    if first[0] != 0:
        res.feat("failing run repeated")
        res.feat("failing %s repeated" % case["cmd"])
    if first[1].get("unm.j"):
        res.feat("ambiguous merge repeated")
    if case["cmd"] == "import" and case["imp"]["kind"] == "pp":
        res.feat("paypal repeated")
    res.nontrivial = any(v for v in first[1].values())


def S_diff(a, b):
    import difflib
    f = lambda x: (x or b"").decode("utf-8", "replace").split("\n")
    return "\n".join(list(difflib.unified_diff(f(a), f(b), lineterm="", n=1))[:30])


def shrink(case):
    for c in S.shrink(case):
        yield dict(c, vseed=case["vseed"])
