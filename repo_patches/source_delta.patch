From 966eee0713a3c5c887e55396d87937d36f1a23f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:02 +0000
Subject: [PATCH 1/3] fix: validate chain jumps nested inside All actions

---
 src/rules/table/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rules/table/mod.rs b/src/rules/table/mod.rs
index 27143dd..76359cd 100644
--- a/src/rules/table/mod.rs
+++ b/src/rules/table/mod.rs
@@ -245,6 +245,12 @@ impl Action {
         use Action::*;
 
         match self {
+            All(actions) => {
+                for action in actions {
+                    action.validate(table)?;
+                }
+                Ok(())
+            }
             JumpChain(name) => table.get_chain(name).map(|_| ()),
             _ => Ok(()),
         }
-- 
2.43.0


From 9334c614da605fbbef410be592e61d683ba9d710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:02 +0000
Subject: [PATCH 2/3] fix: reject malformed or overflowing money values in
 Nationwide CSV

---
 src/importers/nationwide_csv.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/importers/nationwide_csv.rs b/src/importers/nationwide_csv.rs
index bcd26f6..31bb9a7 100644
--- a/src/importers/nationwide_csv.rs
+++ b/src/importers/nationwide_csv.rs
@@ -478,7 +478,7 @@ mod de {
 
         fn visit_str<E: de::Error>(self, s: &str) -> Result<Self::Value, E> {
             lazy_static! {
-                static ref RE: Regex = Regex::new(r"£(-?)(\d+)\.(\d+)").unwrap();
+                static ref RE: Regex = Regex::new(r"^£(-?)(\d+)\.(\d{2})$").unwrap();
             }
             let captures = RE
                 .captures(s)
@@ -486,7 +486,11 @@ mod de {
             let is_negative: bool = captures.get(1).unwrap().as_str() == "-";
             let pounds: i64 = deserialize_captured_number(&captures, 2)?;
             let pence: i64 = deserialize_captured_number(&captures, 3)?;
-            let mut quantity = Decimal::new(pounds * 100 + pence, 2);
+            let total_pence = pounds
+                .checked_mul(100)
+                .and_then(|p| p.checked_add(pence))
+                .ok_or_else(|| de::Error::custom("monetary value is too large"))?;
+            let mut quantity = Decimal::new(total_pence, 2);
             quantity.set_sign_negative(is_negative);
             Ok(GbpValue(Amount {
                 commodity: Commodity {
-- 
2.43.0


From c2cd2e76266ad02ffd640716bb76f0abd0681c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:17 +0000
Subject: [PATCH 3/3] fix: avoid integer overflow on extreme OCR coordinates

---
 src/importers/nationwide_pdf.rs | 5 ++++-
 src/importers/tesseract.rs      | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/importers/nationwide_pdf.rs b/src/importers/nationwide_pdf.rs
index a9d164d..1016d07 100644
--- a/src/importers/nationwide_pdf.rs
+++ b/src/importers/nationwide_pdf.rs
@@ -160,7 +160,10 @@ impl NationwidePdf {
 
         for trn_line in &trn_lines {
             if let Some(prev_trn_line) = prev_trn_line {
-                if trn_line.top > prev_trn_line.top + prev_trn_line.height * 2 {
+                // Widen, as OCR output can hold any values.
+                if i64::from(trn_line.top)
+                    > i64::from(prev_trn_line.top) + i64::from(prev_trn_line.height) * 2
+                {
                     // There have been blank lines, this is probably the end of
                     // the transactions.
                     break;
diff --git a/src/importers/tesseract.rs b/src/importers/tesseract.rs
index 24379ce..1d79f0d 100644
--- a/src/importers/tesseract.rs
+++ b/src/importers/tesseract.rs
@@ -258,7 +258,8 @@ impl Word {
     pub fn horiz_bounds(&self) -> Bounds {
         Bounds {
             min: self.left,
-            max: self.left + self.width,
+            // Saturate, as OCR output can hold any values.
+            max: self.left.saturating_add(self.width),
         }
     }
 }
-- 
2.43.0

