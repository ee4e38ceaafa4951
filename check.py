#!/usr/bin/env python3
"""check.py ID [--replay DIR]: run the check of one property (VERIF_TIER, VERIF_SEED)."""
import importlib, json, os, shutil, sys, tempfile

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
from vm import core


def main():
    pid = sys.argv[1]
    modname = pid.lower()
    mod = importlib.import_module("vm." + modname)
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        core.build()
        base = tempfile.mkdtemp(prefix="verif-replay-")
        try:
            binary = shutil.copy2(core.BIN, base)
            core.SHIM = shutil.copy2(core.SHIM, base)
            os.chmod(base, 0o1777)
            case = json.load(open(os.path.join(sys.argv[3], "case.json")))
            core.unprivileged(binary)
            if "volume" in case:
                r, _ = core._volume(case["volume"][0], binary, tempfile.mkdtemp(dir=base), *case["volume"][1:])
                print(*r.violations, sep="\n")
                return 1 if r.violations else 0
            r = core.run_one(mod, case, core.Box(binary, tempfile.mkdtemp(dir=base)))
            print(r.inconclusive or "", *r.violations, sep="\n")
            return 1 if r.violations else 0
        finally:
            shutil.rmtree(base, ignore_errors=True)
    tier = os.environ.get("VERIF_TIER", "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    try:
        return core.drive(pid, mod, modname, "thorough" if tier == "thorough" else "quick", seed)
    except core.CheckError as e:
        print("check error: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
