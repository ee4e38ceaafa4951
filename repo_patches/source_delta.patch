From adbfbe89bbfa6c7bbd88f2b046e48ab1d0129e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:38 +0000
Subject: [PATCH 01/18] fix: reject malformed Nationwide CSV monetary values
 instead of misreading them
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The pattern was unanchored and accepted any number of pence digits, so that
"£1.5" was read as 1.05, "£1.234" as 3.34 and "-£1.23" as +1.23. Very
large values overflowed the pounds to pence conversion.
---
 src/importers/nationwide_csv.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/importers/nationwide_csv.rs b/src/importers/nationwide_csv.rs
index bcd26f6..04ee787 100644
--- a/src/importers/nationwide_csv.rs
+++ b/src/importers/nationwide_csv.rs
@@ -478,7 +478,7 @@ mod de {
 
         fn visit_str<E: de::Error>(self, s: &str) -> Result<Self::Value, E> {
             lazy_static! {
-                static ref RE: Regex = Regex::new(r"£(-?)(\d+)\.(\d+)").unwrap();
+                static ref RE: Regex = Regex::new(r"^£(-?)([0-9]+)\.([0-9]{2})$").unwrap();
             }
             let captures = RE
                 .captures(s)
@@ -486,7 +486,11 @@ mod de {
             let is_negative: bool = captures.get(1).unwrap().as_str() == "-";
             let pounds: i64 = deserialize_captured_number(&captures, 2)?;
             let pence: i64 = deserialize_captured_number(&captures, 3)?;
-            let mut quantity = Decimal::new(pounds * 100 + pence, 2);
+            let total_pence: i64 = pounds
+                .checked_mul(100)
+                .and_then(|p| p.checked_add(pence))
+                .ok_or_else(|| de::Error::custom("monetary value is out of range"))?;
+            let mut quantity = Decimal::new(total_pence, 2);
             quantity.set_sign_negative(is_negative);
             Ok(GbpValue(Amount {
                 commodity: Commodity {
-- 
2.43.0


From f8740c226a7bb1b284a433bc1810211428f23d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:43 +0000
Subject: [PATCH 02/18] fix: name candidate postings by a deterministic
 fingerprint

A destination posting with several fingerprints was named in candidate-* tags
by whichever fingerprint came first in hash order, so that the same merge
wrote different unmerged files from one run to the next.
---
 src/merge/posting.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/merge/posting.rs b/src/merge/posting.rs
index 003693f..c480a3f 100644
--- a/src/merge/posting.rs
+++ b/src/merge/posting.rs
@@ -318,8 +318,9 @@ fn merge(dest: &mut PostingInternal, mut src: PostingInternal) {
 }
 
 fn primary_fingerprint(comment: &Comment) -> &str {
+    // Choose by value, because the iteration order of the tags is arbitrary.
     fingerprints_from_comment(comment)
-        .next()
+        .min()
         .expect("must always have a fingerprint tag")
 }
 
-- 
2.43.0


From 2f175bc637b6e9e16dc8ce8f8ce6c0e46b0d1b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:48 +0000
Subject: [PATCH 03/18] fix: validate chain jumps nested inside All actions

A JumpChain to a missing chain was only found at load time when it was the
rule's outermost action.
---
 src/rules/table/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rules/table/mod.rs b/src/rules/table/mod.rs
index 27143dd..d1b3b03 100644
--- a/src/rules/table/mod.rs
+++ b/src/rules/table/mod.rs
@@ -245,6 +245,7 @@ impl Action {
         use Action::*;
 
         match self {
+            All(actions) => actions.iter().try_for_each(|a| a.validate(table)),
             JumpChain(name) => table.get_chain(name).map(|_| ()),
             _ => Ok(()),
         }
-- 
2.43.0


From cd0c4b1891457680770e8a1d81a3a2a1db6ebde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:52 +0000
Subject: [PATCH 04/18] fix: fail the PDF import when Graphics Magick or
 Tesseract fail

Their exit status was ignored, so that a conversion that stopped part way
through silently imported only the pages that it had produced.
---
 src/importers/nationwide_pdf.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/importers/nationwide_pdf.rs b/src/importers/nationwide_pdf.rs
index a9d164d..8b3ee73 100644
--- a/src/importers/nationwide_pdf.rs
+++ b/src/importers/nationwide_pdf.rs
@@ -98,10 +98,16 @@ impl NationwidePdf {
                 png_fmt.as_os_str(),
             ];
 
-            Command::new(self.graphics_magic_binary.as_os_str())
+            let status = Command::new(self.graphics_magic_binary.as_os_str())
                 .args(gm_args)
                 .status()
                 .context("converting PDF into PNG files")?;
+            if !status.success() {
+                bail!(
+                    "converting PDF into PNG files: Graphics Magick failed: {}",
+                    status
+                );
+            }
         }
 
         let png_list_file_path = tmpdir.path().join("png-files.txt");
@@ -137,10 +143,13 @@ impl NationwidePdf {
                 // Configuration to use (i.e output format).
                 "tsv".as_ref(),
             ];
-            Command::new(self.tesseract_binary.as_os_str())
+            let status = Command::new(self.tesseract_binary.as_os_str())
                 .args(tess_args)
                 .status()
                 .context("performing OCR on PNG files")?;
+            if !status.success() {
+                bail!("performing OCR on PNG files: Tesseract failed: {}", status);
+            }
         }
 
         {
-- 
2.43.0


From 751b28f0b68bd7a283cd0b197ec0699261c5dd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:00 +0000
Subject: [PATCH 05/18] fix: read PayPal amounts exactly

Amounts and balances were read via a floating point value, which altered
values with more than about 15 significant digits without any error.
---
 src/importers/paypal_csv.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/importers/paypal_csv.rs b/src/importers/paypal_csv.rs
index 3b7fd20..9edb535 100644
--- a/src/importers/paypal_csv.rs
+++ b/src/importers/paypal_csv.rs
@@ -269,14 +269,24 @@ mod de {
         pub status: Status,
         #[serde(rename = "Currency")]
         pub currency: String,
-        #[serde(rename = "Amount")]
+        #[serde(rename = "Amount", deserialize_with = "exact_decimal")]
         pub amount: Decimal,
         #[serde(rename = "Receipt ID")]
         pub receipt_id: Option<String>,
-        #[serde(rename = "Balance")]
+        #[serde(rename = "Balance", deserialize_with = "exact_decimal")]
         pub balance: Decimal,
     }
 
+    /// Reads a decimal value exactly. The default is to go via a floating point
+    /// value, which corrupts values with many digits.
+    fn exact_decimal<'de, D: Deserializer<'de>>(d: D) -> Result<Decimal, D::Error> {
+        let s = String::deserialize(d)?;
+        Decimal::from_str_exact(&s)
+            .or_else(|_| Decimal::from_scientific(&s))
+            .map(|v| v.normalize())
+            .map_err(de::Error::custom)
+    }
+
     #[derive(Debug)]
     pub struct Date(pub NaiveDate);
 
-- 
2.43.0


From 01bd9f4214f2a65b4b68418200c56a29402a3666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:47 +0000
Subject: [PATCH 06/18] fix: report rule chains that jump without end instead
 of crashing

A chain that (indirectly) jumped to itself overflowed the stack, which
aborted the process without any error message.
---
 src/rules/table/mod.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/rules/table/mod.rs b/src/rules/table/mod.rs
index d1b3b03..e197d01 100644
--- a/src/rules/table/mod.rs
+++ b/src/rules/table/mod.rs
@@ -18,6 +18,10 @@ mod source;
 
 const START_CHAIN: &str = "start";
 
+/// Maximum number of chains that can be nested by jumping from one to another.
+/// Guards against chains that jump to each other without end.
+const MAX_CHAIN_DEPTH: usize = 1000;
+
 fn load_from_path(path: &std::path::Path) -> Result<Table> {
     let rf = source::File::from_path(path)?;
     let table = rf.load()?;
@@ -77,7 +81,7 @@ impl Table {
                 trn: &mut trn.trn,
                 post,
             };
-            start.apply(self, &mut ctx)?;
+            start.apply(self, &mut ctx, 1)?;
         }
         Ok(trn)
     }
@@ -114,9 +118,15 @@ impl Chain {
         Self(rules)
     }
 
-    fn apply(&self, table: &Table, ctx: &mut PostingContext) -> Result<()> {
+    fn apply(&self, table: &Table, ctx: &mut PostingContext, depth: usize) -> Result<()> {
+        if depth > MAX_CHAIN_DEPTH {
+            return Err(anyhow!(
+                "rule chains jumped more than {} deep, do they jump to each other without end?",
+                MAX_CHAIN_DEPTH
+            ));
+        }
         for rule in &self.0 {
-            match rule.apply(table, ctx)? {
+            match rule.apply(table, ctx, depth)? {
                 RuleResult::Continue => {}
                 RuleResult::Return => break,
             }
@@ -140,9 +150,9 @@ pub struct Rule {
 }
 
 impl Rule {
-    fn apply(&self, table: &Table, ctx: &mut PostingContext) -> Result<RuleResult> {
+    fn apply(&self, table: &Table, ctx: &mut PostingContext, depth: usize) -> Result<RuleResult> {
         if self.predicate.is_match(ctx) {
-            self.action.apply(table, ctx)?;
+            self.action.apply(table, ctx, depth)?;
             Ok(self.result)
         } else {
             Ok(RuleResult::Continue)
@@ -179,7 +189,7 @@ enum Action {
 }
 
 impl Action {
-    fn apply(&self, table: &Table, ctx: &mut PostingContext) -> Result<()> {
+    fn apply(&self, table: &Table, ctx: &mut PostingContext, depth: usize) -> Result<()> {
         use Action::*;
 
         match self {
@@ -203,7 +213,7 @@ impl Action {
             }
             All(actions) => {
                 for action in actions {
-                    action.apply(table, ctx)?;
+                    action.apply(table, ctx, depth)?;
                 }
             }
             Error(err_msg) => {
@@ -216,7 +226,7 @@ impl Action {
             }
             Noop => {}
             JumpChain(name) => {
-                table.get_chain(name)?.apply(table, ctx)?;
+                table.get_chain(name)?.apply(table, ctx, depth + 1)?;
             }
             SetAccount(v) => {
                 ctx.post.raw.account = v.clone();
-- 
2.43.0


From e1467fda72829d9982f841e4863a69a0c12beb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:35 +0000
Subject: [PATCH 07/18] fix: soft match postings by the date of the transaction
 they were merged into

A posting that was added to an existing transaction with another date was
looked up by the date of the transaction that it came from, so that a third
journal matched or duplicated it depending on whether the first two had been
merged in the same run.
---
 src/merge/merger.rs  |  5 ++++-
 src/merge/posting.rs | 12 +++++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/merge/merger.rs b/src/merge/merger.rs
index 1dce4f5..b65d26e 100644
--- a/src/merge/merger.rs
+++ b/src/merge/merger.rs
@@ -145,10 +145,13 @@ impl Merger {
         dest_trn_idx: transaction::Index,
         post_actions: Vec<(posting::Input, PostingMergeAction)>,
     ) -> Result<()> {
+        // The source transaction can have a different date to that of the
+        // existing transaction that its postings are going into.
+        let dest_date = self.trns.get(dest_trn_idx).trn.raw.date;
         for (post, action) in post_actions {
             match action {
                 PostingMergeAction::New => {
-                    let post_idx = self.posts.add(post, dest_trn_idx)?;
+                    let post_idx = self.posts.add(post, dest_trn_idx, dest_date)?;
                     self.trns.add_post_to_trn(dest_trn_idx, post_idx);
                 }
                 PostingMergeAction::MergeIntoExisting(dest_post_idx) => {
diff --git a/src/merge/posting.rs b/src/merge/posting.rs
index c480a3f..4ba5932 100644
--- a/src/merge/posting.rs
+++ b/src/merge/posting.rs
@@ -50,13 +50,19 @@ impl IndexedPostings {
         ConsumePostings(self.post_arena)
     }
 
-    /// Adds a new posting, updating the fingerprint index.
-    pub fn add(&mut self, input: Input, parent_trn: transaction::Index) -> Result<Index> {
+    /// Adds a new posting, updating the fingerprint index. `trn_date` is the
+    /// date of the parent transaction.
+    pub fn add(
+        &mut self,
+        input: Input,
+        parent_trn: transaction::Index,
+        trn_date: NaiveDate,
+    ) -> Result<Index> {
         #![allow(clippy::needless_collect)] // Collect because `input` is moved into Holder::from_input.
         let fingerprints: Vec<String> = fingerprints_from_comment(&input.posting.comment)
             .map(str::to_string)
             .collect();
-        let (holder, trn_date) = Holder::from_input(input, parent_trn);
+        let (holder, _) = Holder::from_input(input, parent_trn);
         let idx = self.post_arena.insert(holder);
         self.register_fingerprints(fingerprints.into_iter(), idx)?;
 
-- 
2.43.0


From 91610376c367918a0359f2c07e2e4e40273e80b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:09 +0000
Subject: [PATCH 08/18] Add verification hook to read cleared postings

Compiled in only with --cfg verif_hooks.
---
 src/filespec.rs    |  5 ++++-
 src/main.rs        |  4 ++++
 src/verif_hooks.rs | 24 ++++++++++++++++++++++++
 3 files changed, 32 insertions(+), 1 deletion(-)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/filespec.rs b/src/filespec.rs
index bcb45c3..3d124a4 100644
--- a/src/filespec.rs
+++ b/src/filespec.rs
@@ -73,7 +73,10 @@ pub fn read_file(file_spec: &FileSpec) -> Result<String> {
 
 pub fn read_ledger_file(file_spec: &FileSpec) -> Result<Ledger> {
     let content: String = read_file(file_spec)?;
-    ledger_parser::parse(&content).map_err(Into::into)
+    let ledger = ledger_parser::parse(&content)?;
+    #[cfg(verif_hooks)]
+    let ledger = crate::verif_hooks::unmark_cleared_postings(ledger);
+    Ok(ledger)
 }
 
 pub fn write_file(file_spec: &FileSpec, content: &str) -> Result<()> {
diff --git a/src/main.rs b/src/main.rs
index e002bf0..3ceab6b 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)] // For verif_hooks.
+
 use anyhow::Result;
 use clap::{Parser, Subcommand};
 
@@ -18,6 +20,8 @@ mod mutcell;
 mod rules;
 mod tags;
 mod tzabbr;
+#[cfg(verif_hooks)]
+mod verif_hooks;
 
 #[derive(Debug, Parser)]
 /// Utilities for working with Ledger journals.
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..4671e08
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,24 @@
+//! Verification hooks, compiled in only with `--cfg verif_hooks`.
+//!
+//! `ledger_parser` reads a posting that starts with `*` (a cleared posting) as
+//! a comment, so that the handling of cleared postings cannot be driven from
+//! journal files. With the hooks compiled in, a posting for the account
+//! `verif-cleared=NAME` is read as a cleared posting for the account `NAME`.
+
+use ledger_parser::{Ledger, LedgerItem, TransactionStatus};
+
+const CLEARED_PREFIX: &str = "verif-cleared=";
+
+pub fn unmark_cleared_postings(mut ledger: Ledger) -> Ledger {
+    for item in &mut ledger.items {
+        if let LedgerItem::Transaction(trn) = item {
+            for post in &mut trn.postings {
+                if let Some(account) = post.account.strip_prefix(CLEARED_PREFIX) {
+                    post.account = account.to_string();
+                    post.status = Some(TransactionStatus::Cleared);
+                }
+            }
+        }
+    }
+    ledger
+}
-- 
2.43.0


From 94ef1365aa91a116dd543dc2fb7683eb85c92bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:53 +0000
Subject: [PATCH 09/18] fix: read quote characters in Tesseract output
 literally

---
 src/importers/tesseract.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/importers/tesseract.rs b/src/importers/tesseract.rs
index 24379ce..db20080 100644
--- a/src/importers/tesseract.rs
+++ b/src/importers/tesseract.rs
@@ -38,6 +38,8 @@ impl Document {
         let r = csv::ReaderBuilder::new()
             .delimiter(b'\t')
             .has_headers(true)
+            // Tesseract does not quote text that contains quote characters.
+            .quoting(false)
             .trim(csv::Trim::All)
             .from_reader(reader);
 
-- 
2.43.0


From 27552b447442e78183b4eb7cb3af6bd94ff1a0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:18 +0000
Subject: [PATCH 10/18] fix: read PDF transactions that follow a change of year

---
 src/importers/nationwide_pdf.rs | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/src/importers/nationwide_pdf.rs b/src/importers/nationwide_pdf.rs
index 8b3ee73..01124b9 100644
--- a/src/importers/nationwide_pdf.rs
+++ b/src/importers/nationwide_pdf.rs
@@ -165,21 +165,9 @@ impl NationwidePdf {
         acc: &mut TransactionsAccumulator,
         trn_lines: Vec<table::TransactionLine>,
     ) -> Result<()> {
-        let mut prev_trn_line: Option<&table::TransactionLine> = None;
-
         for trn_line in &trn_lines {
-            if let Some(prev_trn_line) = prev_trn_line {
-                if trn_line.top > prev_trn_line.top + prev_trn_line.height * 2 {
-                    // There have been blank lines, this is probably the end of
-                    // the transactions.
-                    break;
-                }
-            }
-
             acc.feed_line(trn_line)
                 .with_context(|| format!("for transaction line {}", trn_line))?;
-
-            prev_trn_line = Some(trn_line);
         }
 
         Ok(())
@@ -459,6 +447,9 @@ mod table {
             let mut trn_lines = Vec::<TransactionLine>::new();
             let mut date_parts: chrono::format::Parsed = Default::default();
             let mut date: Option<NaiveDate> = None;
+            // The last line that was part of the transactions, including those
+            // that only specify the year.
+            let mut prev_line: Option<&Line> = None;
             // Skip lines up to and including the line that contains the header
             // that we already found.
             for line in self
@@ -467,6 +458,14 @@ mod table {
                 .iter()
                 .skip(self.columns.header_line_idx + 1)
             {
+                if let Some(prev_line) = prev_line {
+                    if line.top > prev_line.top + prev_line.height * 2 {
+                        // There have been blank lines, this is probably the
+                        // end of the transactions.
+                        break;
+                    }
+                }
+
                 match self
                     .columns
                     .update_date_from_line(&mut date_parts, &mut date, line)?
@@ -475,6 +474,7 @@ mod table {
                         // A transaction will not start on this line.
                         // Lines starting with years only specify the year, and
                         // maybe a carry-over balance.
+                        prev_line = prev_line.and(Some(line));
                     }
                     _ => {
                         // Lines that start with day and month or nothing at all
@@ -486,9 +486,8 @@ mod table {
                                 payment: self.columns.payments.join_words_in(line),
                                 receipt: self.columns.receipts.join_words_in(line),
                                 balance: self.columns.balance.join_words_in(line),
-                                top: line.top,
-                                height: line.height,
                             });
+                            prev_line = Some(line);
                         }
                     }
                 }
@@ -517,10 +516,6 @@ mod table {
         pub payment: Option<String>,
         pub receipt: Option<String>,
         pub balance: Option<String>,
-
-        // Spatial position of the line on the page.
-        pub top: i32,
-        pub height: i32,
     }
 
     impl fmt::Display for TransactionLine {
-- 
2.43.0


From 7efe6ee87650c0e6c29963a0725f2ae6197b3958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:18 +0000
Subject: [PATCH 11/18] fix: do not overflow on extreme positions in Tesseract
 output

---
 src/importers/nationwide_pdf.rs | 4 +++-
 src/importers/tesseract.rs      | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/importers/nationwide_pdf.rs b/src/importers/nationwide_pdf.rs
index 01124b9..91ea979 100644
--- a/src/importers/nationwide_pdf.rs
+++ b/src/importers/nationwide_pdf.rs
@@ -459,7 +459,9 @@ mod table {
                 .skip(self.columns.header_line_idx + 1)
             {
                 if let Some(prev_line) = prev_line {
-                    if line.top > prev_line.top + prev_line.height * 2 {
+                    if i64::from(line.top)
+                        > i64::from(prev_line.top) + i64::from(prev_line.height) * 2
+                    {
                         // There have been blank lines, this is probably the
                         // end of the transactions.
                         break;
diff --git a/src/importers/tesseract.rs b/src/importers/tesseract.rs
index db20080..7613547 100644
--- a/src/importers/tesseract.rs
+++ b/src/importers/tesseract.rs
@@ -260,7 +260,7 @@ impl Word {
     pub fn horiz_bounds(&self) -> Bounds {
         Bounds {
             min: self.left,
-            max: self.left + self.width,
+            max: self.left.saturating_add(self.width),
         }
     }
 }
-- 
2.43.0


From 48b713f70eb4a01f29db20486a143fb1af48ee35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:22 +0000
Subject: [PATCH 12/18] fix: reject malformed amounts in PDF statements instead
 of misreading them

---
 src/importers/nationwide_pdf.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/importers/nationwide_pdf.rs b/src/importers/nationwide_pdf.rs
index 91ea979..b4714c4 100644
--- a/src/importers/nationwide_pdf.rs
+++ b/src/importers/nationwide_pdf.rs
@@ -395,11 +395,16 @@ impl TransactionBuilder {
 }
 
 fn parse_amount(s: &str) -> Result<Amount> {
-    let quantity = if s.contains(',') {
-        Decimal::from_str(&s.replace(',', ""))?
-    } else {
-        Decimal::from_str(s)?
-    };
+    lazy_static! {
+        // Commas must be in the places of thousands separators, because the
+        // OCR might mistake a decimal point for one.
+        static ref AMOUNT_RX: Regex =
+            Regex::new(r"^-?([0-9]+|[0-9]{1,3}(,[0-9]{3})+)(\.[0-9]+)?$").unwrap();
+    }
+    if !AMOUNT_RX.is_match(s) {
+        bail!("amount {:?} is not in a recognized format", s);
+    }
+    let quantity = Decimal::from_str(&s.replace(',', ""))?;
     Ok(Amount {
         quantity,
         commodity: ledger_parser::Commodity {
-- 
2.43.0


From 404474248cee2831a09a2cdddc2cc6053b9ca974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:45 +0000
Subject: [PATCH 13/18] fix: keep comment text that looks like a value tag as
 text

Text after a flag tag was written on a line of its own, where it was read
back as a value tag.
---
 src/comment.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/comment.rs b/src/comment.rs
index 6ed03c3..a7a13eb 100644
--- a/src/comment.rs
+++ b/src/comment.rs
@@ -6,6 +6,10 @@ use regex::Regex;
 /// Maximum length of a tag before it gets put onto a line on its own.
 const MAX_INLINE_TAG_LEN: usize = 12;
 
+lazy_static! {
+    static ref VALUE_TAG_RX: Regex = Regex::new(r"^[ ]*([^: ]+):(?:[ ]+(.+))?$").unwrap();
+}
+
 /// Parsed contents of a Ledger comment, suitable for manipulation before being
 /// (re)output.
 #[derive(Clone, Debug, Default, Eq, PartialEq)]
@@ -39,9 +43,6 @@ impl Comment {
 
     /// Parses the given string into a `Comment`.
     pub fn from_opt_comment(comment: Option<&str>) -> Self {
-        lazy_static! {
-            static ref VALUE_TAG_RX: Regex = Regex::new(r"^[ ]*([^: ]+):(?:[ ]+(.+))?$").unwrap();
-        }
         lazy_static! {
             static ref FLAG_TAG_RX: Regex = Regex::new(r":((?:[^: ]+:)+)").unwrap();
         }
@@ -99,6 +100,7 @@ impl Comment {
     /// Formats this `Comment` into a string.
     pub fn into_opt_comment(self) -> Option<String> {
         let mut out_lines = Vec::<String>::new();
+        let first_tag: Option<String> = self.tags.iter().min().cloned();
 
         if !self.tags.is_empty() {
             let (mut short_tags, mut long_tags): (Vec<String>, Vec<String>) = self
@@ -122,7 +124,15 @@ impl Comment {
                 out_lines[0].push(' ');
                 out_lines[0].push_str(line.trim());
             } else {
-                out_lines.push(trim_string(line));
+                let line = trim_string(line);
+                match &first_tag {
+                    // On a line of its own this text would be read back as a
+                    // value tag. Following a flag tag it is still text.
+                    Some(tag) if VALUE_TAG_RX.is_match(&line) => {
+                        out_lines.push(format!(":{}: {}", tag, line));
+                    }
+                    _ => out_lines.push(line),
+                }
             }
         }
 
-- 
2.43.0


From a62693c04154cb54fc51ae20efd252027b218be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:34 +0000
Subject: [PATCH 14/18] fix: report errors reading the start of Tesseract and
 time zone CSV files

The csv crate's deserializing iterators ignore errors from reading the
headers, after which the file looks empty: a page of a statement could be
left out without notice.
---
 src/importers/tesseract.rs | 4 +++-
 src/tzabbr.rs              | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/importers/tesseract.rs b/src/importers/tesseract.rs
index 7613547..4b2c99e 100644
--- a/src/importers/tesseract.rs
+++ b/src/importers/tesseract.rs
@@ -35,13 +35,15 @@ impl Document {
 
     /// Reads the `Document` from a reader of a Tesseract TSV file.
     pub fn from_tsv_reader<R: std::io::Read>(reader: R) -> Result<Self> {
-        let r = csv::ReaderBuilder::new()
+        let mut r = csv::ReaderBuilder::new()
             .delimiter(b'\t')
             .has_headers(true)
             // Tesseract does not quote text that contains quote characters.
             .quoting(false)
             .trim(csv::Trim::All)
             .from_reader(reader);
+        // Deserializing ignores errors from reading the headers.
+        r.headers()?;
 
         let mut doc = Document::new();
 
diff --git a/src/tzabbr.rs b/src/tzabbr.rs
index 114e3ec..de0793e 100644
--- a/src/tzabbr.rs
+++ b/src/tzabbr.rs
@@ -25,6 +25,8 @@ impl TzAbbrDB {
 
         let mut map = HashMap::new();
         let mut rdr = csv::Reader::from_reader(r);
+        // Deserializing ignores errors from reading the headers.
+        rdr.headers()?;
         for result in rdr.deserialize() {
             let record: TzRecord = result?;
             let offset: FixedOffset = parse_utc_offset(&record.utc_offset)?;
-- 
2.43.0


From ab5edb66bcbfbd01b7247f05fb5f453013e3ec43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:16 +0000
Subject: [PATCH 15/18] fix: keep the order of pages in PDF statements of more
 than 100 pages

The page images are listed in the alphabetical order of their names, so
page-100.png came before page-11.png.
---
 src/importers/nationwide_pdf.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/importers/nationwide_pdf.rs b/src/importers/nationwide_pdf.rs
index b4714c4..d60c3cd 100644
--- a/src/importers/nationwide_pdf.rs
+++ b/src/importers/nationwide_pdf.rs
@@ -86,7 +86,8 @@ impl NationwidePdf {
             .ok_or_else(|| anyhow!("converting glob path to utf-8 string"))?;
 
         {
-            let png_fmt = tmpdir.path().join("page-%02d.png");
+            // Enough digits that the names sort in the order of the pages.
+            let png_fmt = tmpdir.path().join("page-%05d.png");
             let gm_args: [&OsStr; 6] = [
                 "convert".as_ref(),
                 // DPI of the PNG files.
-- 
2.43.0


From 15688f3d783d6453ac6a5387d3c5c07b75088a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:20 +0000
Subject: [PATCH 16/18] fix: refuse rule files included too deep instead of
 overflowing the stack

---
 src/rules/table/source.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/rules/table/source.rs b/src/rules/table/source.rs
index 9441849..06ccc4b 100644
--- a/src/rules/table/source.rs
+++ b/src/rules/table/source.rs
@@ -7,6 +7,10 @@ use serde_derive::Deserialize;
 
 use crate::rules::table::{Chain, Rule, Table};
 
+/// Maximum number of files that can be nested by including one from another.
+/// Guards against overflowing the stack.
+const MAX_INCLUDE_DEPTH: usize = 1000;
+
 #[derive(Debug)]
 pub struct File {
     source: Option<PathBuf>,
@@ -37,7 +41,7 @@ impl File {
     pub fn load(self) -> Result<Table> {
         let mut chains = HashMap::<String, Chain>::new();
         let mut seen_paths = HashSet::new();
-        self.load_into(&mut chains, &mut seen_paths)?;
+        self.load_into(&mut chains, &mut seen_paths, 0)?;
         Ok(Table::new(chains))
     }
 
@@ -45,7 +49,14 @@ impl File {
         self,
         chains: &mut HashMap<String, Chain>,
         seen_paths: &mut HashSet<Option<PathBuf>>,
+        depth: usize,
     ) -> Result<()> {
+        if depth > MAX_INCLUDE_DEPTH {
+            bail!(
+                "rule files are included more than {} deep",
+                MAX_INCLUDE_DEPTH
+            );
+        }
         let self_path = self
             .source
             .as_ref()
@@ -75,7 +86,7 @@ impl File {
 
                     let included_file = Self::from_path(&include_path)?;
                     included_file
-                        .load_into(chains, seen_paths)
+                        .load_into(chains, seen_paths, depth + 1)
                         .with_context(|| format!("when including from {:?}", include_path))?;
                 }
                 Entry::Chain(name, rules) => {
-- 
2.43.0


From c2f3b7c944ad43ed98bde62fa7d2e9aba9db5d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:29 +0000
Subject: [PATCH 17/18] fix: count nested lists of actions towards the depth of
 rule chains, they overflowed the stack

---
 src/rules/table/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/rules/table/mod.rs b/src/rules/table/mod.rs
index e197d01..72067bd 100644
--- a/src/rules/table/mod.rs
+++ b/src/rules/table/mod.rs
@@ -18,7 +18,8 @@ mod source;
 
 const START_CHAIN: &str = "start";
 
-/// Maximum number of chains that can be nested by jumping from one to another.
+/// Maximum number of chains (and lists of actions) that can be nested by
+/// jumping from one to another.
 /// Guards against chains that jump to each other without end.
 const MAX_CHAIN_DEPTH: usize = 1000;
 
@@ -121,7 +122,7 @@ impl Chain {
     fn apply(&self, table: &Table, ctx: &mut PostingContext, depth: usize) -> Result<()> {
         if depth > MAX_CHAIN_DEPTH {
             return Err(anyhow!(
-                "rule chains jumped more than {} deep, do they jump to each other without end?",
+                "rule chains nest more than {} deep, do they jump to each other without end?",
                 MAX_CHAIN_DEPTH
             ));
         }
@@ -212,8 +213,9 @@ impl Action {
                     .insert(name.to_string(), value.to_string());
             }
             All(actions) => {
+                // Counts towards the depth, because this also uses the stack.
                 for action in actions {
-                    action.apply(table, ctx, depth)?;
+                    action.apply(table, ctx, depth + 1)?;
                 }
             }
             Error(err_msg) => {
-- 
2.43.0


From cd47431bad9e8e19304536b5c6e430b4ff23bb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:07 +0000
Subject: [PATCH 18/18] fix: refuse to import dates that a journal cannot
 express, one of them panicked

---
 src/importers/cmd.rs        | 7 +++++++
 src/importers/paypal_csv.rs | 9 +++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/importers/cmd.rs b/src/importers/cmd.rs
index d76a579..6ea25fe 100644
--- a/src/importers/cmd.rs
+++ b/src/importers/cmd.rs
@@ -1,4 +1,5 @@
 use anyhow::{anyhow, bail, Result};
+use chrono::Datelike;
 use clap::{Args, Subcommand};
 
 use crate::filespec::{self, FileSpec};
@@ -61,6 +62,12 @@ pub struct Command {
 impl Command {
     pub fn run(&self) -> Result<()> {
         let import = self.importer.do_import()?;
+        for trn in &import.transactions {
+            // Journals have room for years of four digits only.
+            if !(0..=9999).contains(&trn.date.year()) {
+                bail!("date {} is out of the range of a journal", trn.date);
+            }
+        }
         let output = if !self.substitute_output_path {
             self.output.clone()
         } else {
diff --git a/src/importers/paypal_csv.rs b/src/importers/paypal_csv.rs
index 9edb535..b266bff 100644
--- a/src/importers/paypal_csv.rs
+++ b/src/importers/paypal_csv.rs
@@ -1,5 +1,5 @@
 use anyhow::{anyhow, bail, Result};
-use chrono::{DateTime, FixedOffset, NaiveDateTime, TimeZone};
+use chrono::{DateTime, FixedOffset, NaiveDateTime, Offset, TimeZone};
 use chrono_tz::Tz;
 use clap::Args;
 use itertools::Itertools;
@@ -85,7 +85,12 @@ impl PaypalCsv {
         dt: DateTime<FixedOffset>,
         records: Vec<Record>,
     ) -> Result<Transaction> {
-        let date = dt.with_timezone(&self.output_timezone).naive_local().date();
+        let offset = dt.with_timezone(&self.output_timezone).offset().fix();
+        let date = dt
+            .naive_utc()
+            .checked_add_offset(offset)
+            .ok_or_else(|| anyhow!("date time {} is out of range", dt))?
+            .date();
 
         let description = records
             .iter()
-- 
2.43.0

