"""Build, run and judge: the machinery every check shares.

A check is a module with
  gen(rng, tier) -> case        a JSON-able dict that fully describes a workload
  check(case, box) -> Result    drives the real binary and judges what it saw
  BUDGET = {"quick": (cases, seconds), "thorough": (cases, seconds)}
Verdicts are three-valued: a Result has violations, or is inconclusive, or held.
"""
import fcntl, hashlib, json, multiprocessing as mp, os, random, re, resource, shutil
import signal, subprocess, sys, tempfile, time, traceback

ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, ".build")
TARGET = os.path.join(BUILD, "target")
SHIM = os.path.join(BUILD, "shim.so")
BIN = os.path.join(TARGET, "debug", "accountmerge")

CARGO_ENV = {
    "CARGO_NET_OFFLINE": "true",
    "CARGO_TARGET_DIR": TARGET,
    "CARGO_PROFILE_DEV_OPT_LEVEL": "1",
    "CARGO_PROFILE_DEV_DEBUG": "line-tables-only",
    "CARGO_INCREMENTAL": "1",
}


HOOKS = True      # whether the binary under test was built with the hooks


class CheckError(Exception):
    """The check could not run: neither held nor violated."""


def _cargo(args, env_extra=None):
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
        env.pop(k, None)
    env.update(CARGO_ENV)
    env.update(env_extra or {})
    return subprocess.run(["cargo"] + args, cwd=REPO, env=env, stdin=subprocess.DEVNULL,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def build(asan=False):
    """Build the binary from REPO's working tree (hooks on) and the I/O shim."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        # Sources may have been replaced by older-dated files: always rebuild
        # the crate itself.
        fpdir = os.path.join(TARGET, "debug", ".fingerprint")
        if os.path.isdir(fpdir):
            for d in os.listdir(fpdir):
                if d.startswith("accountmerge-"):
                    shutil.rmtree(os.path.join(fpdir, d), ignore_errors=True)
        hooks = True
        r = _cargo(["rustc", "--offline", "--bin", "accountmerge", "--", "--cfg", "verif_hooks"])
        if r.returncode != 0:
            hooks = False
            r = _cargo(["build", "--offline", "--bin", "accountmerge"])
        if r.returncode != 0:
            sys.stderr.write(r.stdout[-4000:])
            raise CheckError("the working tree of %s does not build" % REPO)
        src = os.path.join(ROOT, "lib", "shim.c")
        if not os.path.exists(SHIM) or os.path.getmtime(SHIM) < os.path.getmtime(src):
            r = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", SHIM + ".tmp", src, "-ldl"],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                raise CheckError("shim does not build: " + r.stdout)
            os.rename(SHIM + ".tmp", SHIM)
        global HOOKS
        HOOKS = hooks
        return hooks


def build_asan():
    """AddressSanitizer build (nightly) of the same sources; None if it cannot be had."""
    tdir = os.path.join(BUILD, "asan")
    env = {"CARGO_TARGET_DIR": tdir, "RUSTFLAGS": "-Zsanitizer=address --cfg verif_hooks",
           "CARGO_PROFILE_DEV_OPT_LEVEL": "1"}
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        trip = "x86_64-unknown-linux-gnu"
        fpdir = os.path.join(tdir, trip, "debug", ".fingerprint")
        if os.path.isdir(fpdir):
            for d in os.listdir(fpdir):
                if d.startswith("accountmerge-"):
                    shutil.rmtree(os.path.join(fpdir, d), ignore_errors=True)
        r = _cargo(["+nightly", "build", "--offline", "--bin", "accountmerge", "--target", trip], env)
        if r.returncode != 0:
            return None
        return os.path.join(tdir, trip, "debug", "accountmerge")


class Out:
    __slots__ = ("rc", "out", "err", "timeout")

    def __init__(self, rc, out, err, timeout=False):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout

    @property
    def crashed(self):
        return self.rc == 101 or self.rc < 0 or self.rc in (134, 139)

    def brief(self):
        e = self.err.decode("utf-8", "replace").split("Stack backtrace")[0].strip()
        return "rc=%s%s stderr=%r" % (self.rc, " TIMEOUT" if self.timeout else "", e[:400])


class Inconclusive(Exception):
    pass


class Box:
    """A scratch directory in which to run the tool; counts what was run."""

    def __init__(self, binary, base):
        self.bin, self.base = binary, base
        self.n = 0
        self.execs = 0
        self.dir = None

    def fresh(self):
        self.close()
        self.n += 1
        self.dir = os.path.join(self.base, "c%d" % self.n)
        os.mkdir(self.dir)
        return self.dir

    def close(self):
        if self.dir:
            for d, ds, _ in os.walk(self.dir):
                for x in ds:
                    try:
                        os.chmod(os.path.join(d, x), 0o700)
                    except OSError:
                        pass
            shutil.rmtree(self.dir, ignore_errors=True)
            self.dir = None

    def path(self, name):
        return os.path.join(self.dir, name)

    def write(self, name, data):
        if isinstance(data, str):
            data = data.encode("utf-8")
        p = self.path(name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data)
        return p

    def read(self, name):
        try:
            with open(self.path(name), "rb") as f:
                return f.read()
        except FileNotFoundError:
            return None

    def snapshot(self):
        """Every file and directory under the scratch dir, with contents."""
        snap = {}
        for d, ds, fs in os.walk(self.dir):
            rel = os.path.relpath(d, self.dir)
            snap[rel + "/"] = None
            for f in fs:
                p = os.path.join(d, f)
                q = os.path.normpath(os.path.join(rel, f))
                if os.path.islink(p):
                    snap[q] = "-> " + os.readlink(p)
                elif os.path.isfile(p):
                    with open(p, "rb") as fh:
                        snap[q] = fh.read()
                else:
                    snap[q] = "special"
        return snap

    def run(self, args, stdin=None, env=None, cwd=None, timeout=60, binary=None, preexec=None, shim=None,
            stdout=None):
        e = {"PATH": "/usr/bin:/bin", "RUST_BACKTRACE": "0", "RUST_LIB_BACKTRACE": "0", "LANG": "C.UTF-8",
             "HOME": self.dir, "TMPDIR": self.dir}
        if shim is not None:
            e["LD_PRELOAD"] = SHIM
            e.update(shim)
        if env:
            for k, v in env.items():
                if v is None:
                    e.pop(k, None)
                else:
                    e[k] = v
        self.execs += 1
        if isinstance(stdin, str):
            stdin = stdin.encode("utf-8")
        kw = {}
        if preexec:
            kw["preexec_fn"] = preexec
        p = subprocess.Popen([binary or self.bin] + list(args), cwd=cwd or self.dir, env=e,
                             stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                             stdout=stdout if stdout is not None else subprocess.PIPE,
                             stderr=subprocess.PIPE, **kw)
        try:
            out, err = p.communicate(stdin, timeout=timeout)
            return Out(p.returncode, out or b"", err)
        except subprocess.TimeoutExpired:
            p.kill()
            out, err = p.communicate()
            return Out(p.returncode, out or b"", err, True)


class Result:
    def __init__(self):
        self.violations = []      # text
        self.known = []           # ids of known findings seen
        self.features = {}        # what was observed: name -> count
        self.nontrivial = False
        self.inconclusive = None

    def feat(self, name, n=1):
        self.features[name] = self.features.get(name, 0) + n

    def bad(self, msg):
        self.violations.append(msg)


def digest(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()[:16]


_W = {}


NOBODY = 65534


def unprivileged(binary):
    """Give up root in this process for good, so that whatever the program
    does, it can only change its scratch directories."""
    if os.geteuid() != 0 or os.environ.get("VERIF_AS_ROOT"):
        return
    try:
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)
    except OSError:
        return


def can_drop(binary):
    """Whether an unprivileged user can run the binary here."""
    pid = os.fork()
    if not pid:
        try:
            unprivileged(binary)
            d = tempfile.mkdtemp(dir=os.path.dirname(binary))
            ok = subprocess.run([binary, "--help"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=d).returncode == 0
            os._exit(0 if ok else 1)
        except BaseException:
            os._exit(1)
    return os.waitpid(pid, 0)[1] == 0


def _aside(fn, *args):
    """fn(*args) in a process that has no privileges."""
    with mp.get_context("fork").Pool(1, _aside_init, (args[0],)) as pool:
        return pool.apply(fn, args[1:])


def _aside_init(binary):
    unprivileged(binary)


def _known(modname, binary, base, k):
    import importlib
    box = Box(binary, tempfile.mkdtemp(prefix="k", dir=base))
    box.fresh()
    try:
        return importlib.import_module("vm." + modname).known(k, box, Result()), box.execs
    finally:
        box.close()


def _finish(modname, binary, base, tier, seed, feats):
    import importlib
    fin = Result()
    box = Box(binary, tempfile.mkdtemp(prefix="f", dir=base))
    box.fresh()
    try:
        extra = importlib.import_module("vm." + modname).finish(tier, seed, box, fin, feats) or {}
    finally:
        box.close()
    return extra, fin, feats, box.execs


def _volume(pid, binary, base, tier, seed):
    from . import volume
    res = Result()
    box = Box(binary, tempfile.mkdtemp(prefix="v", dir=base))
    box.fresh()
    t0 = time.time()
    try:
        volume.go(pid, tier, seed, box, res)
    except Exception:
        res.inconclusive = "volume: " + traceback.format_exc()[-1500:]
    finally:
        box.close()
    res.feat("volume: seconds", int(time.time() - t0))
    return res, box.execs


def _worker_init(modname, binary, base, tier, seed):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    os.environ["VM_WORKER"] = "1"
    import importlib
    unprivileged(binary)
    d = tempfile.mkdtemp(prefix="w", dir=base)
    _W.update(mod=importlib.import_module("vm." + modname), box=Box(binary, d), tier=tier, seed=seed)


def run_one(mod, case, box):
    res = Result()
    try:
        box.fresh()
        mod.check(case, box, res)
    except Inconclusive as e:
        res.inconclusive = str(e)
    except Exception:
        res.inconclusive = "harness error: " + traceback.format_exc()[-1500:]
    finally:
        box.close()
    return res


def _kind(msg):
    """What sort of failure a message is about."""
    return re.sub(r"\d+", "0", msg.split("\n")[0])[:24]


def _shrink(mod, case, box, msg, limit=150):
    """Greedy: ask the module for smaller variants of the failing case, which
    fail in the same way."""
    kind = _kind(msg)
    steps = 0
    t0 = time.time()
    progress = True
    while progress and steps < limit and time.time() - t0 < 20:
        progress = False
        for cand in mod.shrink(case):
            steps += 1
            if steps >= limit:
                break
            r = run_one(mod, cand, box)
            if r.violations and _kind(r.violations[0]) == kind:
                case, progress = cand, True
                break
    return case


def _work(indices):
    out = []
    mod, box = _W["mod"], _W["box"]
    for i in indices:
        rng = random.Random("%s:%s:%s:%d" % (mod.__name__, _W["seed"], _W["tier"], i))
        box.execs = 0
        try:
            case = mod.gen(rng, _W["tier"], i)
        except Exception:
            out.append(dict(i=i, inconclusive="generator: " + traceback.format_exc()[-1500:], execs=0,
                            violations=[], known=[], features={}, nontrivial=False, digest="", case=None))
            continue
        res = run_one(mod, case, box)
        if res.violations and hasattr(mod, "shrink"):
            small = _shrink(mod, case, box, res.violations[0])
            r2 = run_one(mod, small, box)
            if r2.violations:
                case, res.violations = small, r2.violations
        keep = case if (res.violations or i < 3 or res.inconclusive) else None
        out.append(dict(i=i, violations=res.violations, known=res.known, features=res.features,
                        nontrivial=res.nontrivial, inconclusive=res.inconclusive, execs=box.execs,
                        digest=digest(case), case=keep))
    return out


def load_known(pid):
    p = os.path.join(ROOT, "known_findings.json")
    with open(p) as f:
        data = json.load(f)
    return [k for k in data["findings"] if k["property"] == pid]


def drive(pid, mod, modname, tier, seed):
    t0 = time.time()
    hooks = build()
    base = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    code = 2
    try:
        # A private copy: a later build by another check must not pull the
        # binary from under this one.
        binary = os.path.join(base, "accountmerge")
        shutil.copy2(BIN, binary)
        os.chmod(base, 0o1777)
        global SHIM
        shim = os.path.join(base, "shim.so")
        shutil.copy2(SHIM, shim)
        SHIM = shim
        if not can_drop(binary):
            os.environ["VERIF_AS_ROOT"] = "1"
        code = _drive(pid, mod, modname, tier, seed, binary, base, hooks, t0)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return code


def _drive(pid, mod, modname, tier, seed, binary, base, hooks, t0):
    if hasattr(mod, "prepare"):
        mod.prepare(tier)
    if getattr(mod, "ASAN", None):
        mod.ASAN = shutil.copy2(mod.ASAN, os.path.join(base, "asan"))
    # Known findings first, deterministically.
    known_lines, violations = [], []
    execs = 0
    for k in load_known(pid):
        if k["status"] != "known":
            continue
        still, n = _aside(_known, binary, modname, binary, base, k)
        execs += n
        if still:
            known_lines.append("KNOWN-FINDING: property=%s %s: %s" % (pid, k["id"], k["what"]))

    cases, seconds = mod.BUDGET[tier]
    ncpu = os.cpu_count() or 4
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    cases = int(cases * scale)
    chunk = max(1, min(getattr(mod, "CHUNK", 25), cases // (ncpu * 4) or 1))
    jobs = [list(range(i, min(i + chunk, cases))) for i in range(0, cases, chunk)]
    feats, digests, samples, inconcl = {}, set(), [], []
    evals = 0
    stop = False
    deadline = time.time() + seconds
    large = mp.get_context("fork").Pool(1, _aside_init, (binary,))
    volume = large.apply_async(_volume, (pid, binary, base, tier, seed))
    with mp.get_context("fork").Pool(ncpu, _worker_init, (modname, binary, base, tier, seed)) as pool:
        it = pool.imap_unordered(_work, jobs)
        while True:
            try:
                batch = it.next(timeout=max(1.0, deadline + 120 - time.time()))
            except StopIteration:
                break
            except mp.TimeoutError:
                inconcl.append("a worker did not answer")
                break
            for r in batch:
                if r["case"] is None and r["inconclusive"]:
                    inconcl.append(r["inconclusive"])
                    continue
                evals += 1
                execs += r["execs"]
                for f, n in r["features"].items():
                    feats[f] = feats.get(f, 0) + n
                if r["inconclusive"]:
                    inconcl.append(r["inconclusive"])
                elif r["nontrivial"]:
                    digests.add(r["digest"])
                if r["case"] is not None and len(samples) < 3 and not r["inconclusive"]:
                    samples.append(_trim(r["case"]))
                if r["violations"]:
                    violations.append(r)
            if len(violations) >= 5 or time.time() > deadline:
                stop = True
                break
        pool.terminate()
    try:
        vol, n = volume.get(timeout=30 if violations else max(300, deadline + 60 - time.time()))
        execs += n
        for f, k in vol.features.items():
            feats[f] = feats.get(f, 0) + k
        if vol.violations:
            violations.append(dict(i=-2, violations=vol.violations, case={"volume": [pid, tier, seed]}, digest="volume"))
        if vol.inconclusive:
            inconcl.append(vol.inconclusive)
    except mp.TimeoutError:
        if not violations:
            inconcl.append("the long run did not end")
    large.terminate()
    extra = {}
    if hasattr(mod, "finish"):
        extra, fin, feats, n = _aside(_finish, binary, modname, binary, base, tier, seed, feats)
        execs += n
        if fin.violations:
            violations.append(dict(i=-1, violations=fin.violations, case={"finish": True}, digest="finish"))
        if fin.inconclusive:
            inconcl.append(fin.inconclusive)

    rc = 0
    for line in known_lines:
        print(line)
    for v in sorted(violations, key=lambda v: v["i"])[:5]:
        rp = os.path.join(ROOT, "replays", pid, v["digest"])
        os.makedirs(rp, exist_ok=True)
        with open(os.path.join(rp, "case.json"), "w") as f:
            json.dump(v["case"], f, indent=1, ensure_ascii=False, default=str)
        with open(os.path.join(rp, "why.txt"), "w") as f:
            f.write("\n".join(v["violations"]) + "\n")
        for m in v["violations"][:3]:
            print("  [%s case %s] %s" % (pid, v["i"], m[:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        rc = 1

    missing = [f for f in getattr(mod, "REQUIRED", []) if not feats.get(f)] if scale >= 1 else []
    cov = {
        "evaluations": evals,
        "distinct_nontrivial": len(digests),
        "rule": mod.RULE,
        "samples": samples or ["(none)"],
        "tool_executions": execs,
        "observed": dict(sorted(feats.items())),
        "inconclusive_cases": len(inconcl),
        "hooks_compiled_in": hooks,
        "stopped_early": stop,
    }
    cov.update(extra)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
          "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2),
          "violations": len(violations)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    tmp = os.path.join(ROOT, "evidence", ".%s.tmp" % pid)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False, default=str)
    os.rename(tmp, os.path.join(ROOT, "evidence", pid + ".json"))
    print("%s %s: %d cases (%d distinct non-trivial), %d executions, %d inconclusive, %.1fs" % (
        pid, tier, evals, len(digests), execs, len(inconcl), time.time() - t0))
    if os.environ.get("VERIF_VERBOSE"):
        for k, n in sorted(feats.items()):
            print("   %-50s %d" % (k, n))
    if rc == 0:
        if inconcl:
            print("inconclusive, e.g.: " + inconcl[0][-1500:])
        if len(inconcl) > max(3, evals // 50):
            print("too many inconclusive cases")
            return 2
        if missing:
            print("the workload never reached: %s" % ", ".join(missing))
            return 2
        if evals < min(10, cases):
            print("too few cases were run")
            return 2
    return rc


def _trim(x, n=1500):
    s = json.dumps(x, ensure_ascii=False, default=str)
    return json.loads(s) if len(s) <= n else s[:n] + "…"
