"""Source of /verif/known_findings.json (run: python3 tools/known.py).  The
checks only ever read that file."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NW_HEAD = '"Account Name:","Current"\r\n"Account Balance:","£1.00"\r\n"Available Balance:","£1.00"\r\n\r\n' \
          '"Date","Transactions","Location","Paid out","Paid in"\r\n'
PP_HEAD = "Date,Time,Time zone,Name,Type,Status,Currency,Amount,Receipt ID,Balance\n"


def known(prop, ident, what, **kw):
    return dict({"property": prop, "id": ident, "status": "known", "what": what}, **kw)


def fixed(prop, commit, what):
    return {"property": prop, "id": "fixed-" + commit, "status": "fixed", "commit": commit, "what": what,
            "line": "fixed: property=%s %s %s" % (prop, commit, what)}


F = [
 known("C11", "cleared-posting-lost", "fmt turns a cleared posting ('  * account  amount') into a comment, losing the posting "
       "(the ledger-parser crate takes '*' for a comment mark)",
       input="2020-01-01 x\n  * assets:bank  1 GBP\n  expenses:food  -1 GBP\n",
       becomes="2020-01-01 x\n  ; assets:bank  1 GBP\n  expenses:food  -1 GBP\n"),
 known("C11", "price-comment-lost", "fmt drops the comment after a commodity price",
       input="P 2020-01-01 12:00:00 GBP 1.25 USD ; note\n", becomes="P 2020-01-01 12:00:00 GBP 1.25 USD\n"),
 known("C11", "commodity-quotes-lost", "fmt drops the quotes of a quoted commodity, which cannot be read again",
       input='2020-01-01 x\n  aa  1 "FOO 2"\n  bb  -1 "FOO 2"\n', becomes="2020-01-01 x\n  aa  1 FOO 2\n  bb  -1 FOO 2\n"),
 known("C11", "quantity-rounded", "fmt rounds quantities of more than 28 decimal places",
       input="2020-01-01 x\n  aa  0.12345678901234567890123456789 GBP\n", becomes="2020-01-01 x\n  aa  0.1234567890123456789012345679 GBP\n"),
 known("C12", "text-becomes-value-tag", "a comment text of the form 'word: text' next to a flag tag becomes a value tag when a rule "
       "removes the only flag tag",
       input="2020-01-01 x\n  aa  1 GBP\n  ; :a: foo: bar\n",
       rules='[Chain("start",[Rule(predicate:True,action:RemovePostingFlagTag("a"),result:Continue)])]',
       becomes="2020-01-01 x\n  aa  1 GBP\n  ; foo: bar\n"),
 known("C17", "paypal-peer-without-fingerprint", "the peer postings of PayPal imports carry no fingerprint unless --include-legacy-fingerprint "
       "is given (the golden file of the existing tests fixes this output)"),
 known("C17", "csv-counter-restarts", "rows of a Nationwide CSV that bear the same date but are not next to each other are counted from the "
       "start again, so two equal ones (five-column form) get the same fingerprint",
       input="rows of 5, 6 and 5 January 2020, all 'Tesco', GBP 5.00 paid out"),
 known("C17", "pdf-counter-restarts-on-page", "a transaction whose details go on at the top of the next table of a PDF statement makes the "
       "counting within that date start again, so an equal transaction of the same date gets the same fingerprint",
       input="two card payments of GBP 5.00 on 5 January 2020, the details of the first ending on the next page"),
 known("C21", "paypal-peer-without-fingerprint", "PayPal imports without --include-legacy-fingerprint cannot be merged: peer postings have no "
       "fingerprint (the golden file of the existing tests fixes this output)"),
 known("C20", "nom-incomplete-panic", "a journal that ends in a posting followed by a line of blanks (and other cut-off input) panics in the "
       "ledger-parser crate: nom's finish() on Incomplete; recognised by that call site",
       input="2020-01-01 x\n  aa  1 GBP\n  \n"),
 known("C23", "paypal-completed-unreadable", "PayPal records with status Completed are written as cleared postings, which are lost when read back",
       kind="pp", csv=PP_HEAD + "01/02/2020,10:00:00,GMT,Someone,Payment,Completed,GBP,-1.00,,2.00\n"),
 known("C23", "description-starts-with-parenthesis", "a description that begins with '(...)' is read back as a transaction code",
       kind="nw", desc="(code) shop", csv=NW_HEAD + '"01 Feb 2020","(code) shop","","£1.00",""\r\n'),
 known("C23", "description-starts-with-status", "a description that begins with '* ' or '! ' is read back as a transaction status",
       kind="nw", csv=NW_HEAD + '"01 Feb 2020","*  shop","","£1.00",""\r\n'),
 known("C23", "description-with-comment", "a description with two blanks and a semicolon is read back as a comment",
       kind="nw", csv=NW_HEAD + '"01 Feb 2020","shop  ; :tag:","","£1.00",""\r\n'),
 known("C23", "field-with-newline", "a field that contains a line break breaks the journal that is written",
       kind="nw", csv=NW_HEAD + '"01 Feb 2020","shop\nmore","","£1.00",""\r\n'),
 known("C23", "currency-not-a-commodity", "a PayPal currency that is empty, or has digits, punctuation or blanks in it, gives a journal that cannot be read",
       kind="pp", csv="Date,Time,Time zone,Name,Type,Status,Currency,Amount,Receipt ID,Balance\n"
       "01/02/2020,10:00:00,GMT,Someone,Payment,Pending,A1,-1.00,,2.00\n"),
 fixed("C16", "adbfbe8", "malformed Nationwide CSV money was misread instead of refused ('£1.5' as 1.05, '£1.234' as 3.34, '-£1.23' as +1.23)"),
 fixed("C10", "f8740c2", "the fingerprint put into candidate tags was picked by hash order (also C04)"),
 fixed("C15", "2f175bc", "jumps to missing chains nested in All actions were accepted"),
 fixed("C19", "cd0c4b1", "failures of gm and tesseract were ignored by the PDF import (also C09)"),
 fixed("C18", "751b28f", "PayPal amounts went through binary floating point and lost digits"),
 fixed("C20", "01bd9f4", "chains that jump to each other without end overflowed the stack (also C14)"),
 fixed("C02", "e1467fd", "soft matching looked postings up by their own date, not that of the transaction they were merged into (also C06)"),
 fixed("C19", "94ef136", "a quote character in Tesseract's output swallowed the following words"),
 fixed("C19", "27552b4", "PDF transactions after a line that only gives the year were taken for text after the table, and lost"),
 fixed("C20", "7efe6ee", "extreme positions in Tesseract's output overflowed"),
 fixed("C19", "48b713f", "malformed PDF amounts were misread instead of refused"),
 fixed("C19", "ab5edb6", "the pages of PDF statements of more than 100 pages were read in the order 10, 100, 101, ..., 11"),
 fixed("C12", "4044742", "comment text that looks like a value tag became one when rewritten (also C23)"),
 fixed("C20", "15688f3", "rule files that include one another thousands deep overflowed the stack"),
 fixed("C20", "c2f3b7c", "rule chains that jump to one another from within nested lists of actions overflowed the stack"),
 fixed("C20", "cd47431", "dates of years beyond four digits were imported into journals that cannot be read, and one near the last possible date panicked "
       "(also C16, C18, C23)"),
 fixed("C09", "a62693c", "a read error at the start of Tesseract's output or the time zone table passed as an empty file (also C19)"),
]


# Why each known finding was recorded rather than repaired.
WHY = {
    "cleared-posting-lost": "the grammar is that of the ledger-parser crate, a dependency",
    "price-comment-lost": "the ledger-parser crate has no place for that comment",
    "commodity-quotes-lost": "the ledger-parser crate drops the quotes when it parses and writes none",
    "quantity-rounded": "the limit of rust_decimal; the ledger-parser crate calls the rounding parse",
    "text-becomes-value-tag": "needs an escape in the comment syntax, which is for the maintainer to design",
    "paypal-peer-without-fingerprint": "a deliberate legacy switch; the golden file of the existing tests fixes this output",
    "csv-counter-restarts": "counting differently changes fingerprints of records that users have imported already",
    "pdf-counter-restarts-on-page": "counting differently changes fingerprints of records that users have imported already",
    "nom-incomplete-panic": "the call is inside the ledger-parser crate",
    "paypal-completed-unreadable": "status is read back by the ledger-parser crate; writing it otherwise changes golden output",
    "description-starts-with-parenthesis": "the journal format has no escape; which substitute to write is the maintainer's choice",
    "description-starts-with-status": "as above",
    "description-with-comment": "as above",
    "field-with-newline": "as above",
    "currency-not-a-commodity": "real statements have currency codes; which names to refuse or to quote is the maintainer's choice"
}
for f in F:
    if f["status"] == "known":
        f["why"] = WHY[f["id"]]


def main():
    with open(os.path.join(ROOT, "known_findings.json"), "w") as f:
        json.dump({"findings": F}, f, indent=1, ensure_ascii=False)
        f.write("\n")


if __name__ == "__main__":
    main()
