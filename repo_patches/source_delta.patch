From 3a718e21dd9f8dc8f8667f52446ae6922c2a9f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:45 +0000
Subject: [PATCH 01/10] fix: don't duplicate byte sequences when reading a
 token set from JSON

The Bits* token sets are created with the default sequences, the ones listed
in JSON were added on top, so the tokenizer refused the token set.
---
 src/tokenset.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tokenset.rs b/src/tokenset.rs
index b0d15ee..61f7830 100644
--- a/src/tokenset.rs
+++ b/src/tokenset.rs
@@ -291,6 +291,8 @@ impl TokenSet {
         }
 
         if value.as_object().unwrap().contains_key("sequences") {
+            // The JSON lists all the sequences, including the default ones.
+            token_set.sequences.clear();
             for seq in value["sequences"].as_array().unwrap().iter() {
                 let string = if let Token::Str(s) = parse_token(&seq["string"]) { s } else {panic!()};
                 let mut tokens = Vec::new();
-- 
2.43.0


From 1023d31e0ca6e76dd05f288eb3d50c20e2f949cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:45 +0000
Subject: [PATCH 02/10] fix: read split_paragraphs under the name it is written
 with

---
 src/tokenset.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tokenset.rs b/src/tokenset.rs
index 61f7830..f50c49d 100644
--- a/src/tokenset.rs
+++ b/src/tokenset.rs
@@ -259,7 +259,10 @@ impl TokenSet {
             Some("byteshuff") => TokenType::BytesHuff,
             _ => panic!("Unknown token type"),
         };
-        let split_paragraphs = match value.get("split_paragraph") {
+        let split_paragraphs = match value
+            .get("split_paragraphs")
+            .or_else(|| value.get("split_paragraph"))
+        {
             None => false,
             Some(&Value::Bool(v)) => v,
             _ => panic!("Can't parse split_paragraphs field."),
-- 
2.43.0


From 318e1dadb8ecc4a82aaff48bc0097c5b01baf146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:45 +0000
Subject: [PATCH 03/10] fix: don't use case markers for words that can't be
 restored

The lower-case form of letters like U+212A (Kelvin sign) or U+0130 doesn't
convert back to the original letter, so the text couldn't be recovered.
---
 src/processing.rs | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/processing.rs b/src/processing.rs
index 1212967..0b6147a 100644
--- a/src/processing.rs
+++ b/src/processing.rs
@@ -39,6 +39,16 @@ fn get_char_type(ch: char) -> CharType {
     }
 }
 
+/// The lower-case form of a capital letter if it consists of a single letter
+/// that can be converted back.
+fn reversible_lowercase(ch: char) -> Option<char> {
+    let mut lower = ch.to_lowercase();
+    match (lower.next(), lower.next()) {
+        (Some(l), None) if l.to_uppercase().eq(std::iter::once(ch)) => Some(l),
+        _ => None,
+    }
+}
+
 fn add_word(out: &mut String, word: &str) {
     assert!(!word.is_empty());
 
@@ -46,17 +56,19 @@ fn add_word(out: &mut String, word: &str) {
     let first = chars.next().unwrap();
     let rest = chars.as_str();
 
-    if first.is_uppercase() {
-        if rest.chars().all(|ch| ch.is_lowercase()) {
-            out.push('\x14');
-            out.push(first.to_lowercase().next().unwrap());
-            out.push_str(rest);
-        } else if rest.chars().all(|ch| ch.is_uppercase()) {
-            out.push('\x15');
-            out.push_str(word.to_lowercase().as_str());
-        } else {
-            out.push_str(word);
-        }
+    // Words whose lower-case form can't be converted back are left as they are.
+    let lower_first = reversible_lowercase(first);
+    let lower_word = word.to_lowercase();
+
+    if !first.is_uppercase() {
+        out.push_str(word);
+    } else if lower_first.is_some() && rest.chars().all(|ch| ch.is_lowercase()) {
+        out.push('\x14');
+        out.push(lower_first.unwrap());
+        out.push_str(rest);
+    } else if rest.chars().all(|ch| ch.is_uppercase()) && lower_word.to_uppercase() == word {
+        out.push('\x15');
+        out.push_str(&lower_word);
     } else {
         out.push_str(word);
     }
-- 
2.43.0


From 9ac9e48bf55eea51e8bf2ea3906d4f9b1e936a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:45 +0000
Subject: [PATCH 04/10] fix: report write errors at the end of process_file

The last buffer was only written when BufWriter was dropped, which ignores
errors. A newline could get lost in a short write.
---
 src/processing.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/processing.rs b/src/processing.rs
index 0b6147a..5b9ad05 100644
--- a/src/processing.rs
+++ b/src/processing.rs
@@ -148,10 +148,10 @@ pub fn process_file<R: Read, W: Write>(input: &mut R, output: &mut W) -> io::Res
         let line = line?;
         let processed = process(&line);
         writer.write_all(processed.as_bytes())?;
-        writer.write(b"\n")?;
+        writer.write_all(b"\n")?;
     }
 
-    Ok(())
+    writer.flush()
 }
 
 #[cfg(test)]
-- 
2.43.0


From d36608dc686e01868d31d809be983d7f4aee3cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:45 +0000
Subject: [PATCH 05/10] fix: don't add an invalid token when no pair of tokens
 is valid

If every pair spanned paragraphs, the last one considered was added.
---
 src/optimize.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/optimize.rs b/src/optimize.rs
index c3e747f..b4d9033 100644
--- a/src/optimize.rs
+++ b/src/optimize.rs
@@ -54,14 +54,13 @@ fn add_token_bpe(stats: &TokenStats) -> Option<(TokenSet, i64)> {
         .collect::<Vec<usize>>();
     pairs.sort_by_key(|&i| -(stats.pair_counts[i] as i64));
 
-    let mut new_token = Vec::new();
-    let mut token_count = 0;
+    let mut new_token: Option<(Vec<u8>, u64)> = None;
 
     for &pair_idx in pairs.iter() {
         let itoken1 = pair_idx / stats.ntokens();
         let itoken2 = pair_idx % stats.ntokens();
 
-        new_token = match (
+        let joined = match (
             &stats.token_set.tokens[itoken1],
             &stats.token_set.tokens[itoken2],
         ) {
@@ -71,19 +70,22 @@ fn add_token_bpe(stats: &TokenStats) -> Option<(TokenSet, i64)> {
             _ => unreachable!(),
         };
 
-        if is_valid_token(&new_token) {
-            token_count = stats.pair_counts[pair_idx];
+        if is_valid_token(&joined) {
+            new_token = Some((joined, stats.pair_counts[pair_idx]));
             break;
         }
     }
 
-    if new_token.is_empty() {
-        dbg!(&stats.token_set.tokens);
-        dbg!(&stats.token_counts);
-        dbg!(&stats.pair_counts);
+    let (new_token, token_count) = match new_token {
+        Some(found) => found,
+        None => {
+            dbg!(&stats.token_set.tokens);
+            dbg!(&stats.token_counts);
+            dbg!(&stats.pair_counts);
 
-        return None;
-    }
+            return None;
+        }
+    };
 
     let mut new_tokenset = stats.token_set.clone();
     new_tokenset.add_token(&new_token);
-- 
2.43.0


From 8c807bc209288508e7b70240b201b386e76b573c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:46 +0000
Subject: [PATCH 06/10] fix: don't ask for more than 256 byte tokens in
 SimpleBytesOptimizer

Optimizing a Bits* token set with room for more tokens panicked.
---
 src/optimize_bytes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimize_bytes.rs b/src/optimize_bytes.rs
index 0220410..4c0567d 100644
--- a/src/optimize_bytes.rs
+++ b/src/optimize_bytes.rs
@@ -14,7 +14,7 @@ pub struct SimpleBytesOptimizer {}
 
 impl BytesOptimizer for SimpleBytesOptimizer {
     fn optimize_bytes(stats: &TokenStats, n_byte_ext_tokens: usize) -> TokenSet {
-        let n_byte_tokens = n_byte_ext_tokens - stats.token_set.n_ext_tokens;
+        let n_byte_tokens = min(n_byte_ext_tokens - stats.token_set.n_ext_tokens, 256);
 
         let mut byte_counts: [i64; 256] = [0; 256];
         let mut single_byte_tokens = Vec::new();
-- 
2.43.0


From 25d60f38103c11fb343e5c2e0ce30e0794ff441c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:46 +0000
Subject: [PATCH 07/10] fix: finish optimization with growing samples on the
 full data

If the samples reached the size of the data without converging (always with
less than 16 MiB of data) optimization panicked; it never ended with an
initial size of 0.
---
 src/main.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 084d31b..340736d 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -157,8 +157,7 @@ fn optimize_with_increasing_data(
     let full_sampler = FileSampler::new(filename, 1 << 24, None);
     let full_size = std::fs::metadata(filename).unwrap().len() as usize;
     let mut tokenset = input_token_set;
-    let mut size = min_data_size;
-    let mut full_stats = None;
+    let mut size = std::cmp::max(min_data_size, 1);
 
     while size < full_size {
         let sampler = MemorySampler::sample_from_file(filename, size, 1 << 20);
@@ -184,8 +183,7 @@ fn optimize_with_increasing_data(
                 < 0.005
         {
             println!("The difference is less than 0.5%. Stopping.");
-            full_stats = Some(new_full_stats);
-            break;
+            return new_full_stats;
         }
 
         tokenset = Some(stats.token_set);
@@ -193,7 +191,8 @@ fn optimize_with_increasing_data(
         size *= 2;
     }
 
-    full_stats.unwrap()
+    println!("Optimizing with the full data.");
+    optimizer.optimize(&full_sampler, tokenset)
 }
 
 fn optimize(
-- 
2.43.0


From 0054b45b5dc03fca0f7929574b253933b66b3be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:46 +0000
Subject: [PATCH 08/10] fix: don't cut characters between the samples of
 MemorySampler

A character on the border of two chunks was replaced by U+FFFD in both.
---
 src/input/memory_sampler.rs | 11 ++++++++---
 src/input/util.rs           |  8 ++++++++
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/input/memory_sampler.rs b/src/input/memory_sampler.rs
index 673f7df..70adeb4 100644
--- a/src/input/memory_sampler.rs
+++ b/src/input/memory_sampler.rs
@@ -3,7 +3,7 @@ use std::fs::File;
 
 use crate::input::sample::{Sample, Sampler};
 
-use super::util::find_paragraph_end;
+use super::util::{complete_chars_len, find_paragraph_end};
 
 pub struct MemorySampler {
     data: Vec<u8>,
@@ -90,8 +90,13 @@ impl<'a> Iterator for MemoryIterator<'a> {
             self.position =
                 std::cmp::min(start + self.sampler.chunk_size, self.sampler.data.len());
             let paragraph_end = find_paragraph_end(&self.sampler.data, self.position);
-            if self.position < self.sampler.data.len() && paragraph_end > start {
-                self.position = paragraph_end;
+            if self.position < self.sampler.data.len() {
+                if paragraph_end > start {
+                    self.position = paragraph_end;
+                } else {
+                    let chunk = &self.sampler.data[start..self.position];
+                    self.position = start + complete_chars_len(chunk);
+                }
             }
             Some(Sample::from_bytes(&self.sampler.data[start..self.position]))
         } else {
diff --git a/src/input/util.rs b/src/input/util.rs
index 088dc6a..c10784b 100644
--- a/src/input/util.rs
+++ b/src/input/util.rs
@@ -17,6 +17,14 @@ pub fn extract_valid_utf8_slice<'a>(data: &'a [u8]) -> &'a [u8] {
     &data[start..end]
 }
 
+/// Length of the data without a UTF-8 character that is cut off at its end.
+pub fn complete_chars_len(data: &[u8]) -> usize {
+    match std::str::from_utf8(data) {
+        Err(e) if e.error_len().is_none() && e.valid_up_to() > 0 => e.valid_up_to(),
+        _ => data.len(),
+    }
+}
+
 pub fn find_paragraph_end(data: &[u8], end: usize) -> usize {
     let mut pos = end;
     while pos >= 2 && (data[pos - 1] != 10 || data[pos - 2] != 10) {
-- 
2.43.0


From 32b3d10d5cfbf9115c3ef38bf100bb75d8ffe15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:46 +0000
Subject: [PATCH 09/10] fix: don't cut characters between the samples of
 FileSampler

A character on the border of two samples caused a panic.
---
 src/input/file_sampler.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/input/file_sampler.rs b/src/input/file_sampler.rs
index b9d681e..40c6bec 100644
--- a/src/input/file_sampler.rs
+++ b/src/input/file_sampler.rs
@@ -6,7 +6,7 @@ use std::iter::Iterator;
 
 use crate::input::sample::{Sample, Sampler};
 
-use super::util::find_paragraph_end;
+use super::util::{complete_chars_len, find_paragraph_end};
 
 pub struct FileSampler {
     filename: String,
@@ -102,7 +102,8 @@ impl<'a> Iterator for FileIterator<'a> {
                 buffer.truncate(read_bytes);
                 Some(Sample::from_vec(buffer))
             } else {
-                let end = find_paragraph_end(&buffer, read_bytes);
+                let paragraph_end = find_paragraph_end(&buffer, read_bytes);
+                let end = complete_chars_len(&buffer[..paragraph_end]);
                 if end < read_bytes {
                     buffer.truncate(end);
                     self.file
-- 
2.43.0


From 0803a658ee65d4d205388f930db1e70bbdd469cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:51 +0000
Subject: [PATCH 10/10] fix: don't cut characters at the end of the first
 sample of MemorySampler

---
 src/input/memory_sampler.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/input/memory_sampler.rs b/src/input/memory_sampler.rs
index 70adeb4..9c4cd92 100644
--- a/src/input/memory_sampler.rs
+++ b/src/input/memory_sampler.rs
@@ -93,10 +93,9 @@ impl<'a> Iterator for MemoryIterator<'a> {
             if self.position < self.sampler.data.len() {
                 if paragraph_end > start {
                     self.position = paragraph_end;
-                } else {
-                    let chunk = &self.sampler.data[start..self.position];
-                    self.position = start + complete_chars_len(chunk);
                 }
+                let chunk = &self.sampler.data[start..self.position];
+                self.position = start + complete_chars_len(chunk);
             }
             Some(Sample::from_bytes(&self.sampler.data[start..self.position]))
         } else {
-- 
2.43.0

