"""Source of /verif/MANIFEST.json (run: python3 tools/manifest.py)."""
import json, os, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOOK = "9161037"

NOTES = {
 "C01": ("offline monitor: conservation by fingerprints over generated merge histories",
         "Held on the histories that were run; the oracle relates outputs to inputs by fingerprints and assumes no matching rule."),
 "C02": ("offline monitor: merge runs against an executable model of the matching algorithm",
         "Held on the histories that were run; trusts the model (lib/vm/merge_model.py), which was written from README and code."),
 "C03": ("offline monitor: update rules folded over observed chains of merged postings",
         "Held on the chains observed; cleared postings are driven through the cfg hook."),
 "C04": ("offline monitor: candidate sets against a model, plus a differential run without the ambiguous transactions",
         "Held on the ambiguous merges that were run."),
 "C05": ("offline monitor: byte comparison of repeated merges over generated histories",
         "Held on the histories and repetitions that were run."),
 "C06": ("offline monitor: differential runs of staged and one-shot merges at every split point",
         "Held on the histories and splits that were run."),
 "C07": ("offline monitor: order of introduction worked out from observed fingerprints",
         "Held on the histories that were run, some with more than 30 transactions."),
 "C08": ("fault injection in generated inputs with a monitor over exit status and file system snapshots",
         "Held for the 16 kinds of fault at the positions tried."),
 "C09": ("I/O fault injection (LD_PRELOAD) at every observed call, with a monitor over exit status and files",
         "Each open/read/write call that the recorded runs make was failed, shortened and interrupted in turn."),
 "C10": ("differential runs under controlled getrandom, environment and working directory",
         "Held on the inputs and seeds that were run; a hash-order dependence shows only with two or more elements in play."),
 "C11": ("offline monitor: journals generated from a model, formatted, read back and compared",
         "Held on generated journals within the syntax that the journal library supports."),
 "C12": ("offline monitor: comment model compared before and after every rewriting command",
         "Held on generated transactions."),
 "C13": ("offline monitor: comparison before and after, and uniqueness over all fingerprints of the run",
         "Uniqueness is observed on the fingerprints generated in the run, with real randomness."),
 "C14": ("offline monitor: rule runs against an independent rule interpreter",
         "Held on generated rule programs and journals."),
 "C15": ("offline monitor: generated include graphs with injected faults against a loader model",
         "Held on the graphs and faults that were run."),
 "C16": ("offline monitor: imports of generated statements against a model",
         "Held on generated statements; malformations are injected at random positions."),
 "C17": ("offline monitor: import fingerprints against an independent implementation, with metamorphic runs",
         "Values are compared with a separate Python implementation of the fingerprint form."),
 "C18": ("offline monitor: imports of generated PayPal statements against a model",
         "Held on generated statements, zones and tables; time zone data comes from the system for the reference side."),
 "C19": ("offline monitor with stand-in OCR programs: imports of generated OCR tables against a model",
         "gm and tesseract are replaced by stand-ins; OCR quality is out of scope."),
 "C20": ("crash and hang monitor under hostile and mutated inputs, also in an AddressSanitizer build",
         "No crash or hang on the inputs that were run."),
 "C21": ("offline monitor: conservation of records over simulated histories of imports, rules and merges",
         "Held on the histories that were run."),
 "C22": ("offline monitor: file system snapshots and tags over all combinations of namespace and output options",
         "Held on the combinations that were run."),
 "C23": ("offline monitor: every command's output fed to every other command and compared",
         "Held on the outputs produced."),
 "C24": ("offline monitor: resolution of unmerged journals as documented, over generated ambiguous histories",
         "Held on the histories and choices that were run."),
 "C25": ("differential runs: standard streams against files, with I/O call log",
         "Held on the commands, inputs and stream choices that were run."),
}
LEVELS = {"C09": "fault_enumeration"}


def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
    checks, na = [], []
    for i in ids:
        if os.path.exists(os.path.join(ROOT, "lib", "vm", i.lower() + ".py")):
            t, n = NOTES[i]
            checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py " + i,
                           "technique": t, "level": LEVELS.get(i, "exploration"), "level_note": n})
        else:
            na.append({"property": i, "reason": "no check has been built yet"})
    hook = subprocess.run(["git", "-C", "/repo", "rev-parse", HOOK], capture_output=True, text=True).stdout.strip()
    m = {"version": 1, "setup_cmd": "bash setup.sh",
         "hooks": {"guard": "cfg(verif_hooks)", "enable": "cargo rustc --bin accountmerge -- --cfg verif_hooks",
                   "source_commits": [hook]},
         "checks": checks, "not_applicable": na,
         "notes": "VERIF_TIER selects quick or thorough; check.py ID --replay DIR re-judges a recorded case."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")


if __name__ == "__main__":
    main()
