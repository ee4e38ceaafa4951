"""Source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, os

M = "src/merge/merger.rs"
P = "src/merge/posting.rs"
T = "src/merge/transaction.rs"
S = "src/merge/sources.rs"
MC = "src/merge/cmd.rs"
CM = "src/comment.rs"
FS = "src/filespec.rs"
IN = "src/internal.rs"
RT = "src/rules/table/mod.rs"
RS = "src/rules/table/source.rs"
RP = "src/rules/table/predicate.rs"
FP = "src/fingerprint.rs"
NW = "src/importers/nationwide.rs"
NC = "src/importers/nationwide_csv.rs"
NP = "src/importers/nationwide_pdf.rs"
TS = "src/importers/tesseract.rs"
PC = "src/importers/paypal_csv.rs"
IC = "src/importers/cmd.rs"
TZ = "src/tzabbr.rs"
FMT = "src/fmt.rs"
FG = "src/fpgen.rs"


def mech(*pairs):
    return [{"name": n, "where": w} for n, w in pairs]


OBS_MERGE = ["exit status of `accountmerge merge`", "merged journal (--output)", "unmerged journal (--unmerged)"]

PROPS = [
 dict(id="C01", title="Merge neither loses nor duplicates nor invents postings",
  statement="Merging valid journals succeeds, and then each input transaction is either wholly present in the merged journal, with all of its postings (identified by their fingerprints) in one single transaction, or wholly present in the unmerged journal. In the merged journal every fingerprint is on exactly one posting, no two postings of one source set share a posting, and every posting and amount there came from an input. Nothing else is in either output.",
  over=["inputs", "histories"], text="All sequences of input journals, over all mixtures of fingerprint matches, soft matches, ambiguous matches and new postings.",
  why="The merger tests sample a few dozen hand-written two-set merges; conservation has to hold for every overlap of every number of journals.",
  files=[M, P, T, MC, IN], mech=mech(("pending merge actions applied only after all are determined", M + " merge/apply_pending"), ("fingerprint index", P + " register_fingerprints")),
  observe=OBS_MERGE),
 dict(id="C02", title="Merge matches postings exactly as the documented algorithm says",
  statement="Each source posting is matched to an existing posting by fingerprint if any of its fingerprints is known, and otherwise by equal transaction date, equal amount, equal balances where both have one, and equal accounts unless either is tagged unknown-account. A single match merges the posting there; an unmatched posting joins the transaction that its sibling postings matched, or forms a new transaction with them. Postings of one source set (the transactions of one input file with the same source-file) are never matched with each other, while sets merged earlier are candidates for later ones.",
  over=["inputs", "histories"], text="All sequences of input journals and source sets.",
  why="Existing tests fix the outcome of selected pairs of sets; the combination of criteria across several postings, dates, fingerprints and earlier sets is unbounded.",
  files=[M, P, S, "src/merge/matchset.rs", "README.md"], mech=mech(("find_matching_postings", P), ("to_transaction_merge_action", M), ("grouping by source-file", S)),
  observe=OBS_MERGE),
 dict(id="C03", title="Merging into a posting only adds to or improves what it says",
  statement="When a source posting is merged into an existing one, the existing amount, reality and any balance, status or known account are kept, except that status may advance from pending to cleared; a missing balance or status, and the account of an unknown-account posting when the source knows it (dropping that tag), are filled in from the source. The result carries the union of both postings' fingerprints, flag tags and distinct comment lines and all value tags, with the source's value winning for a shared key, and never gains unknown-account. The header of the existing transaction is unchanged.",
  over=["inputs", "histories"], text="All pairs and chains of merged postings, with any status, balance, account, tags and comments.",
  why="posting.rs tests cover a table of single merges in memory; chains of merges and their round trip through the journal are not covered.",
  files=[P, M, CM, T], mech=mech(("merge", P), ("Comment::merge_from", CM)), observe=OBS_MERGE),
 dict(id="C04", title="Ambiguous matches are set aside whole, with exactly their candidates",
  statement="If a posting soft-matches several existing postings, its whole source transaction goes unchanged to the unmerged journal with its source-file recorded, and each ambiguous posting gains one candidate-FINGERPRINT tag for every existing posting that it could match and for no other. The merged journal is then the same as if that source transaction had not been in the input. Without an unmerged output to write to, merge fails instead of dropping it.",
  over=["inputs", "histories"], text="All merges in which at least one posting has two or more soft matches.",
  why="Tests cover a couple of two-candidate cases; exactness of the candidate set and non-interference must hold for any number of candidates, siblings and files.",
  files=[M, P, MC, S], mech=mech(("determine_posting_action Many", M), ("MergeActionsAccumulator", M), ("unmerged output", MC)), observe=OBS_MERGE),
 dict(id="C05", title="Re-merging a merged journal with its inputs changes nothing",
  statement="If merging journals leaves nothing unmerged, then merging the merged journal followed by the same journals (all of them in their order, or the last few) succeeds, leaves nothing unmerged and yields the same journal again. Merging the merged journal on its own also reproduces it.",
  over=["inputs", "histories"], text="All sequences of input journals whose merge leaves nothing unmerged; repeated any number of times.",
  why="run_examples.sh does it once on one example without comparing; the property is about every history of merges.",
  files=[M, P, CM, S], mech=mech(("fingerprint matches take precedence", P + " find_matching_postings"), ("merge_from avoids duplicate lines", CM)), observe=OBS_MERGE),
 dict(id="C06", title="Merging in stages gives the same journal as merging at once",
  statement="If merging a prefix of the input journals leaves nothing unmerged, then merging that intermediate merged journal followed by the remaining journals gives the same merged and unmerged journals, or fails alike, as merging all of the original journals in one run.",
  over=["inputs", "histories"], text="All sequences of input journals and every split point.",
  why="No test merges in stages; the state that the merger carries between sets has to equal the state that it rebuilds from its own output.",
  files=[M, P, T, CM, MC], mech=mech(("posting index by date and fingerprint", P)), observe=OBS_MERGE),
 dict(id="C07", title="Merged journals are in date order and keep the order within a date",
  statement="Transactions in the merged journal are in ascending date order, and transactions of the same date are in the order in which they were first introduced: by input file, then by source-file name, then by position in the file. Within a transaction, existing postings keep their order and added postings follow in source order; the unmerged journal lists transactions in the order they were set aside.",
  over=["inputs"], text="All sequences of input journals, in any date order, over any number of dates and source sets.",
  why="Tests have at most a handful of transactions; order must not depend on hash iteration or on the input's size.",
  files=[T, S, M], mech=mech(("into_iter sorts by date", T), ("sort by source", S)), observe=OBS_MERGE),
 dict(id="C08", title="Merge rejects bad input as a whole and writes nothing",
  statement="Merge fails, with a non-zero exit status and without creating or changing any output file, if any input posting lacks a fingerprint or carries a candidate- tag, a fingerprint occurs twice in one source set, a posting's fingerprints identify several existing postings, a source transaction's postings match in several existing transactions, or several postings of a source set match one existing posting. It likewise fails if any input is missing, unreadable as a journal, or has items other than transactions. Input that has none of these faults is accepted.",
  over=["inputs", "histories"], text="Every kind of fault at every position in every input file, in otherwise valid merges.",
  why="Tests inject each fault once in memory, and none looks at the files left behind.",
  files=[M, P, MC, IN], mech=mech(("check_pending", M), ("Input::from_posting_internal", P), ("from_ledger rejects other items", IN)), observe=OBS_MERGE + ["contents of pre-existing output files"]),
 dict(id="C09", title="I/O and input failures are reported and never pass as success",
  statement="A command exits with status 0 only if every output was written completely; any failure to read an input or write an output gives a non-zero exit status. Short reads and writes do not change the result, and interrupted ones are continued or reported. When a command fails before it starts writing an output, because of bad input, rules or arguments, the existing file there is left exactly as it was.",
  over=["fault_sequences", "inputs"], text="Every I/O call of each command failing, being interrupted or transferring less than asked, and every kind of bad input.",
  why="Unit tests never inject I/O faults nor run the commands against files.",
  files=[FS, FMT, FG, MC, IC, "src/rules/cmd.rs"], mech=mech(("read_file/write_file propagate errors", FS), ("everything is computed before writing", MC)), observe=["exit status", "bytes of all files", "I/O calls seen by an interposed library"]),
 dict(id="C10", title="Output is a function of the input alone",
  statement="Running fmt, apply-rules, merge or import again on the same inputs gives byte-identical output files and the same exit status, whatever the process's hash randomisation, environment, local time zone, locale or working directory.",
  over=["inputs", "configurations"], text="All inputs, under all hash seeds and environments.",
  why="A test run sees one random hash order per process, and mostly compares in-memory values.",
  files=[M, P, T, S, CM, RP, PC], mech=mech(("sorted tags", CM), ("sorted sources and dates", S), ("primary_fingerprint", P)), observe=["bytes of outputs over several runs with controlled getrandom"]),
 dict(id="C11", title="fmt preserves the journal's meaning and is idempotent",
  statement="Formatting a journal in place keeps every item in order: all comments, blank lines, includes and commodity prices, and of each transaction its dates, status, code, description and comments, and of each posting its status, account, reality, amount, lot price, price, balance and comments, with quantities exact. Formatting the result again leaves it byte-identical, and journals are independent of each other when several are given.",
  over=["inputs"], text="All journals in the supported syntax.",
  why="There is no test of fmt at all.",
  files=[FMT, FS], mech=mech(("parse and print through ledger_parser", FS)), observe=["bytes of the files before and after"]),
 dict(id="C12", title="Comments, tags and values survive every rewriting command",
  statement="merge, apply-rules and generate-fingerprints keep every part of a transaction that they were not asked to change: header fields, postings and amounts in order, and in comments every text line, flag tag and value tag (a key given twice keeps its last value). Tags and values may be re-laid out, but the layout is a fixed point: rewriting the output again leaves it byte-identical.",
  over=["inputs"], text="All transactions, with any mixture of text, flag tag groups and value tags over inline and following comment lines.",
  why="comment.rs tests parse and print single comments; preservation of whole transactions through the commands over all mixtures is not tested.",
  files=[CM, IN, "src/ledgerutil.rs"], mech=mech(("from_opt_comment / into_opt_comment", CM)), observe=["output journals"]),
 dict(id="C13", title="generate-fingerprints only adds unique fingerprints where missing",
  statement="generate-fingerprints gives each posting that has no fingerprint tag exactly one new fp-uuidb64- tag, different from every other fingerprint ever generated, and changes nothing else. Postings that have a fingerprint are unchanged, so that running it again leaves the journal byte-identical, and its output is acceptable to merge.",
  over=["inputs", "histories"], text="All journals, and all pairs of postings within and across runs.",
  why="There is no test of the command; uniqueness is a statement about all pairs of generated values.",
  files=[FG, FP, CM], mech=mech(("update_transactions", FG), ("uuid v4", FG)), observe=["journals before and after", "all generated tags of the run"]),
 dict(id="C14", title="apply-rules does exactly what the rule table says",
  statement="For each posting of each transaction in order, the start chain's rules are evaluated in order: a rule whose predicate holds performs its action and then continues, or leaves the current chain (only) on Return. Predicates see the current posting and transaction including earlier edits (also those made to the transaction by earlier postings), actions do what their name says and nothing else, an Error action aborts without output, and whatever no action touched is unchanged.",
  over=["inputs", "programs"], text="All rule tables over all predicates, string matches, actions, results and chain structures, applied to all journals.",
  why="Tests apply one to three rules to one posting; rule tables are programs with unbounded composition.",
  files=[RT, RP, "src/rules/cmd.rs", "src/rules/table/commontypes.rs"], mech=mech(("Chain/Rule/Action apply", RT), ("Predicate::is_match", RP)), observe=["output journal", "exit status"]),
 dict(id="C15", title="Rule files are loaded completely or rejected before any use",
  statement="Includes are resolved relative to the including file, each file is loaded once however often and by whatever path it is included (also cyclically), and the result is the union of all chains. A table is rejected, before anything is written, if the start chain is missing, a chain is defined twice, a jump anywhere in an action names no existing chain, a regular expression or the syntax is invalid, or an included file is missing.",
  over=["inputs", "programs"], text="All include graphs over directories and links, and all placements of definitions, jumps and faults, also in rules that are never reached.",
  why="Tests load rule strings without includes; include resolution is not tested at all.",
  files=[RS, RT], mech=mech(("File::load_into", RS), ("Table::validate", RT)), observe=["exit status", "output journal", "existing output file"]),
 dict(id="C16", title="Nationwide CSV rows become exactly the right transactions",
  statement="Every row of a Nationwide CSV statement (five or six columns, Windows-1252) yields, in order, one transaction with the row's date and description and two postings that sum to zero: assets:unknown with the exact amount paid in (or minus that paid out) and the row's balance if it has one, and the opposite amount on income:unknown or expenses:unknown by sign. Both are tagged unknown-account and with account, bank and the row's details, and import-self with its sequence within the date, respectively import-peer. A statement with a malformed header, row, date or amount is rejected as a whole.",
  over=["inputs"], text="All statements: every date, amount, text and column variant, any number of rows per date, and malformations at any position.",
  why="Two golden files with a few rows each.",
  files=[NC, NW, "src/importers/util.rs"], mech=mech(("process_rows", NC), ("form_postings", NC), ("GbpValue", NC)), observe=["imported journal", "exit status"]),
 dict(id="C17", title="Import fingerprints identify the record: stable, unique, by one algorithm",
  statement="Every imported posting carries a fingerprint of the documented form that depends only on the namespace and on the record itself (including its position among the records of its date or group), not on the other contents of the file or on the importing run. Different records, the two sides of a record, and different namespaces or algorithms never share a fingerprint. The value for given data never changes between versions, so that journals written by earlier releases still match.",
  over=["inputs", "histories", "configurations"], text="All records, files containing them, namespaces and versions of the code.",
  why="Golden files pin a few values; collisions and dependence on context are statements about pairs of files.",
  files=[FP, NC, NP, PC, "src/importers/util.rs", NW, "README.md"], mech=mech(("length-prefixed SHA-1 accumulator", FP), ("per-date counter", NC)), observe=["fp- tags of imported journals, compared with an independent implementation"]),
 dict(id="C18", title="PayPal CSV records become exactly the right transactions",
  statement="Consecutive PayPal records of the same instant form one transaction, dated by that instant in the output time zone and described by the group's first name, with two postings per record in order: assets:unknown with the exact amount, currency and balance, and the opposite amount on income:unknown or expenses:unknown by sign. Status, name, type and receipt are carried over, and time zone abbreviations are resolved by the given table. Unknown zones, duplicate or malformed zone definitions, nameless groups and malformed records are rejected as a whole.",
  over=["inputs", "configurations"], text="All record sequences, time zones on both sides, and abbreviation tables.",
  why="One golden file with one zone and small amounts.",
  files=[PC, TZ, "src/importers/util.rs"], mech=mech(("form_transaction / form_postings", PC), ("TzAbbrDB", TZ)), observe=["imported journal", "exit status"]),
 dict(id="C19", title="Nationwide PDF tables are read exactly, or the import fails",
  statement="From the OCR'd statement, every line of each transaction table with a payment or receipt becomes one transaction with the exact amount, the date implied by the year and day lines above it, the joined detail lines as description, its effective date and its balance; lines after a vertical gap, and outside the table, contribute nothing. The account's sort code and number are found anywhere in the document. Missing dates, out-of-range years, negative or unreadable amounts, inconsistent OCR structure, and failure of the external programs fail the import as a whole.",
  over=["inputs", "fault_sequences"], text="All OCR outputs: layouts, page and table structures, dates, amounts, and failures of the external programs.",
  why="The PDF importer has no end-to-end test.",
  files=[NP, TS], mech=mech(("Table::read_lines", NP), ("TransactionsAccumulator", NP), ("push_checked", TS)), observe=["imported journal", "exit status"]),
 dict(id="C20", title="No input makes the program crash or hang",
  statement="Whatever the bytes of its input files and arguments, each command ends in bounded time with status 0 or with an error status and message; it never panics, aborts, overflows or corrupts memory.",
  over=["inputs"], text="All byte sequences as journals, rule tables, CSV and OCR files and option values.",
  why="Tests feed well-formed input with few exceptions.",
  files=["src/main.rs", FS, CM, RT, RS, NC, PC, NP, TS, TZ, M], mech=mech(("errors are returned as anyhow::Result", "src/main.rs")), observe=["exit status", "termination signal", "panic messages", "sanitizer reports"]),
 dict(id="C21", title="Overlapping statements imported, ruled and merged count each record once",
  statement="Importing overlapping statements of the same accounts (each with whole days), applying rules, and merging them into a growing journal, run after run, leaves exactly one transaction for each distinct record, with two postings of the record's amounts on the accounts that rules or the user gave them, however the statements overlap and whatever formatting, re-merging or edits of accounts come between. A transfer seen from both accounts on the same day, or an entry made by hand before or after its record, becomes one transaction. (Unrelated records with the same amount on the same day may match each other by design and are left out.)",
  over=["histories", "inputs"], text="All histories of statement exports from a set of accounts, with any overlaps, rule tables and interleavings of runs.",
  why="No test runs more than one stage; the guarantee is about the composition of import, rules and merge over time.",
  files=[NC, PC, FP, RT, M, P, S], mech=mech(("import fingerprints", FP), ("fingerprint matching", P)), observe=["final journal"]),
 dict(id="C22", title="Import namespaces and output options are honoured exactly",
  statement="The fingerprint namespace is the one asked for: the account's own name, a fixed value, the lookup table's entry or a hash generated from bank and account name; it is used in every fingerprint and sequence tag. The output goes to exactly the named file, with %FP_NS% replaced by the namespace only when substitution is asked for, and missing parent directories are created only when that is asked for. Unknown accounts, invalid namespaces, and options that cannot apply to standard output are errors that write nothing.",
  over=["inputs", "configurations"], text="All combinations of namespace and output options, names and directory states.",
  why="No test covers the import command's options.",
  files=[IC, NW, FP, FS], mech=mech(("Command::run", IC), ("FpNamespace", NW)), observe=["files created", "tags", "exit status"]),
 dict(id="C23", title="Every journal written can be read back with the same meaning",
  statement="Any journal that import, apply-rules, merge, generate-fingerprints or fmt writes is accepted by all of the other commands and means the same to them: the same transactions, accounts, amounts, tags, values and text.",
  over=["inputs"], text="All outputs of all commands.",
  why="No test feeds one command's output to another.",
  files=[CM, IN, FS, NC, PC, NP], mech=mech(("into_opt_comment / from_opt_comment", CM)), observe=["output of fmt and of an empty rule table on each output"]),
 dict(id="C24", title="Resolving unmerged transactions as documented completes the merge",
  statement="If, for each ambiguous posting in the unmerged journal, the user strips the candidate- prefix from one of its candidate tags and deletes the others, then merging the merged journal with the edited unmerged journal merges each such posting into exactly the chosen existing posting, leaves the rest of the merged journal as it was and each fingerprint on one posting. Re-merging the unmerged journal with candidate tags left in is refused.",
  over=["histories", "inputs"], text="All ambiguous merges and all choices of candidates that do not conflict with each other.",
  why="Tests stop at the creation of candidate tags.",
  files=[M, P, S, MC, "README.md"], mech=mech(("candidate tags are fingerprints of the destination", M), ("source-file kept on unmerged transactions", S)), observe=OBS_MERGE),
 dict(id="C25", title="Standard input and output behave as files do",
  statement="Reading from - is the same as reading a file with those bytes and writing to - (or leaving out --output) writes the same bytes to standard output as would go to a file; nothing else is written to standard output. An output file that exists is replaced entirely, and one that is also an input is read in full before it is replaced.",
  over=["inputs", "configurations"], text="All commands, inputs and choices of files, standard streams and pre-existing outputs, including outputs that are also inputs.",
  why="No test exercises the file layer.",
  files=[FS, FMT, FG, MC, IC, "src/rules/cmd.rs"], mech=mech(("FileSpec", FS)), observe=["standard output", "file bytes"]),
]


def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": p["mech"], "observe_at": p["observe"],
                            "hook_needed": "cfg verif_hooks: journals can express cleared postings" if p["id"] in ("C02", "C03", "C01", "C05", "C06") else None},
            }, ensure_ascii=False) + "\n")


if __name__ == "__main__":
    main()
