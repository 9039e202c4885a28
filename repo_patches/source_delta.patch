From f8ad036eca4d18e4536e9e5c88c0cb02e4b5579d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:09 +0000
Subject: [PATCH 01/25] fix: count_sigma overflows on a text with all 256 byte
 values

---
 src/bin/count_sigma.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bin/count_sigma.rs b/src/bin/count_sigma.rs
index 58330b0..eb0e603 100644
--- a/src/bin/count_sigma.rs
+++ b/src/bin/count_sigma.rs
@@ -8,9 +8,9 @@ use log::info;
 
 /// counts the number of different characters in a byte string
 // fn count_sigma(s : &[u8]) -> u8 {
-fn count_sigma<'a, I: Iterator<Item = &'a u8>>(text_iter: I) -> u8 {
-    let mut inc = 0_u8;
-    let mut alphabet_to_reduced: Vec<u8> = vec![0; u8::MAX as usize + 1]; //@ maps a u8 char to its symbol of the effective alphabet, we start at 1 since 0 is treated as a special symbol
+fn count_sigma<'a, I: Iterator<Item = &'a u8>>(text_iter: I) -> usize {
+    let mut inc = 0_usize;
+    let mut alphabet_to_reduced: Vec<usize> = vec![0; u8::MAX as usize + 1]; //@ maps a u8 char to its symbol of the effective alphabet, we start at 1 since 0 is treated as a special symbol
     for c in text_iter {
         let index = *c as usize;
         if alphabet_to_reduced[index] == 0 {
-- 
2.43.0


From 6fd07cbafd977a8e8602dde8a0b4b85031ba6de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:09 +0000
Subject: [PATCH 02/25] fix: mtf panics on byte 255, which is missing from its
 table

---
 src/bin/mtf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/mtf.rs b/src/bin/mtf.rs
index 9fb08f3..b0424b7 100644
--- a/src/bin/mtf.rs
+++ b/src/bin/mtf.rs
@@ -5,7 +5,7 @@ use stringology::core;
 use stringology::io;
 
 pub fn mtf<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer: &mut W) {
-    let mut mtfvector: Vec<u8> = (0..u8::MAX).collect();
+    let mut mtfvector: Vec<u8> = (0..=u8::MAX).collect();
     loop {
         match io::read_char(&mut reader) {
             Err(_) => break,
-- 
2.43.0


From e1db47e62e31d43bb63188c958d24b6b79d9970e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:09 +0000
Subject: [PATCH 03/25] fix: human-readable run-length encoding overflows on
 runs longer than 255

---
 src/bin/rle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/rle.rs b/src/bin/rle.rs
index d179068..ed87028 100644
--- a/src/bin/rle.rs
+++ b/src/bin/rle.rs
@@ -10,7 +10,7 @@ pub fn rle_text<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer:
     match io::read_char(&mut reader) {
         Err(_) => (),
         Ok(first_char) => {
-            let mut run_counter = 0_u8; //@ counts the number of character runs
+            let mut run_counter = 0_usize; //@ counts the number of character runs
             let mut prev_char = first_char; //@ the current character of the chracter run
             loop {
                 match io::read_char(&mut reader) {
-- 
2.43.0


From 934d49875b6d45bfd188eda08beef45fefbc193c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:29 +0000
Subject: [PATCH 04/25] fix: run-length encoder loses or overflows runs longer
 than 256 and drops letters after zero runs

---
 src/bin/rle.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/bin/rle.rs b/src/bin/rle.rs
index ed87028..bbabd4b 100644
--- a/src/bin/rle.rs
+++ b/src/bin/rle.rs
@@ -1,7 +1,5 @@
 // extern crate byte_string;
 extern crate env_logger;
-#[macro_use]
-extern crate more_asserts;
 
 use stringology::core;
 use stringology::io;
@@ -42,8 +40,8 @@ pub fn rle<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer: &mut
                 match io::read_char(&mut reader) {
                     Err(_) => break,
                     Ok(next_char) => {
-                        if next_char != prev_char {
-                            assert_lt!(run_counter, u8::MAX);
+                        //@ a run that is too long for the counter is split
+                        if next_char != prev_char || run_counter == u8::MAX {
                             writer.write_all(&[prev_char, run_counter]).unwrap();
                             prev_char = next_char;
                             run_counter = 0;
@@ -65,7 +63,7 @@ pub fn rle_zero<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer:
     match io::read_char(&mut reader) {
         Err(_) => (),
         Ok(first_char) => {
-            let mut run_counter = 0; //@ counts the number of character runs
+            let mut run_counter = 0_usize; //@ counts the number of character runs
             if first_char == CHR_ZERO {
                 run_counter = 1;
             } else {
@@ -76,23 +74,30 @@ pub fn rle_zero<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer:
                     Err(_) => break,
                     Ok(next_char) => {
                         if next_char != CHR_ZERO {
-                            if run_counter == 0 {
-                                writer.write_all(&[next_char]).unwrap();
-                            } else {
-                                assert_lt!(run_counter - 1, u8::MAX);
+                            if run_counter > 0 {
                                 writer
-                                    .write_all(&[CHR_ZERO, run_counter.saturating_sub(1)])
+                                    .write_all(&[CHR_ZERO, (run_counter - 1) as u8])
                                     .unwrap();
                                 run_counter = 0;
                             }
+                            writer.write_all(&[next_char]).unwrap();
                         } else {
+                            //@ a run that is too long for the counter is split
+                            if run_counter > u8::MAX as usize {
+                                writer
+                                    .write_all(&[CHR_ZERO, (run_counter - 1) as u8])
+                                    .unwrap();
+                                run_counter = 0;
+                            }
                             run_counter += 1;
                         }
                     }
                 }
             }
             if run_counter > 0 {
-                writer.write_all(&[CHR_ZERO, run_counter]).unwrap();
+                writer
+                    .write_all(&[CHR_ZERO, (run_counter - 1) as u8])
+                    .unwrap();
             }
         }
     }
-- 
2.43.0


From 85c147a5a7cd0c38cffb90b479239ed78570b248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:55 +0000
Subject: [PATCH 05/25] fix: rle cannot be started because two of its short
 options are taken twice

---
 src/bin/rle.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bin/rle.rs b/src/bin/rle.rs
index bbabd4b..03483ee 100644
--- a/src/bin/rle.rs
+++ b/src/bin/rle.rs
@@ -118,12 +118,12 @@ struct Args {
     #[arg(short, long)]
     outfilename: Option<String>,
 
-    /// the length of the prefix to parse
-    #[arg(short, long)]
+    /// encode only runs of the character '0'
+    #[arg(short = 'z', long)]
     onlyzero: bool,
 
     /// human-readable output
-    #[arg(short, long)]
+    #[arg(long)]
     human: bool,
 }
 
-- 
2.43.0


From f43896413dd3b43fd216423c8bd3477c89633679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:02 +0000
Subject: [PATCH 06/25] fix: escape does not split its comma-separated symbol
 lists

---
 src/bin/escape.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/escape.rs b/src/bin/escape.rs
index 89e7561..c9b5d7d 100644
--- a/src/bin/escape.rs
+++ b/src/bin/escape.rs
@@ -35,11 +35,11 @@ struct Args {
     escape_symbol: u8,
 
     /// byte codes that need to be escaped, a list separeted by commas
-    #[arg(short, long)]
+    #[arg(short, long, value_delimiter = ',')]
     from_symbols: Vec<u8>,
 
     /// list byte codes that are safe and equal of length to from
-    #[arg(short, long)]
+    #[arg(short, long, value_delimiter = ',')]
     to_symbols: Vec<u8>,
 
     /// if true, invert the conversion
-- 
2.43.0


From 7a1e31530616df56d78e8631a99545abce90117c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:02 +0000
Subject: [PATCH 07/25] fix: escape without a prefix length processes nothing
 instead of the whole input

---
 src/bin/escape.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/bin/escape.rs b/src/bin/escape.rs
index c9b5d7d..5bd72f3 100644
--- a/src/bin/escape.rs
+++ b/src/bin/escape.rs
@@ -94,6 +94,12 @@ fn main() {
     env_logger::init();
     info!("args.prefixlength: {}", args.prefixlength);
 
+    //@ a prefix length of zero stands for the entire input
+    let prefixlength = match args.prefixlength {
+        0 => usize::MAX,
+        prefixlength => prefixlength,
+    };
+
     if args.is_reversion {
         let revert_mapping = {
             let mut revert_mapping = HashMap::new();
@@ -102,7 +108,7 @@ fn main() {
             }
             revert_mapping
         };
-        for _ in 0..args.prefixlength {
+        for _ in 0..prefixlength {
             match io::read_char(&mut reader) {
                 Err(_) => break,
                 Ok(cur_char) => {
@@ -129,7 +135,7 @@ fn main() {
             }
             char_mapping
         };
-        for _ in 0..args.prefixlength {
+        for _ in 0..prefixlength {
             match io::read_char(&mut reader) {
                 Err(_) => break,
                 Ok(cur_char) => {
-- 
2.43.0


From 62c737c17c107696ecb9c495a4a6ef8fee1d8dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:02 +0000
Subject: [PATCH 08/25] fix: escape accepts symbol lists with duplicates, which
 cannot be unescaped

---
 src/bin/escape.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bin/escape.rs b/src/bin/escape.rs
index 5bd72f3..9601ed2 100644
--- a/src/bin/escape.rs
+++ b/src/bin/escape.rs
@@ -90,6 +90,12 @@ fn main() {
         .from_symbols
         .iter()
         .any(|&i| args.to_symbols.contains(&i)));
+    for symbols in [&args.from_symbols, &args.to_symbols] {
+        assert!(
+            (1..symbols.len()).all(|i| !symbols[..i].contains(&symbols[i])),
+            "The --from and --to symbols must not contain duplicates!"
+        );
+    }
 
     env_logger::init();
     info!("args.prefixlength: {}", args.prefixlength);
-- 
2.43.0


From 30826317879b4c7f41bac43124eda0949db7508c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:02 +0000
Subject: [PATCH 09/25] fix: PLCP entry of the smallest suffix is compared with
 the largest suffix

---
 src/core.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core.rs b/src/core.rs
index 5f1dfb9..ab8b1f3 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -268,6 +268,11 @@ pub fn compute_plcp(text: &[u8], phi: &[i32]) -> Vec<u32> {
         {
             length += 1;
         }
+        //@ only the lexicographically smallest suffix, for which phi wraps around to the largest
+        //@ suffix, can be a prefix of its phi-suffix; it has no predecessor to share a prefix with
+        if position_b + length == text.len() {
+            length = 0;
+        }
         plcp[position_b] = length as u32;
         length = length.saturating_sub(1);
     }
-- 
2.43.0


From 3b2bbde9bca9b2c7eb4cae7c1384dc27a7eef8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:02 +0000
Subject: [PATCH 10/25] fix: matrix BWT of terminated texts with at least 100
 characters panics

---
 src/bin/bwt.rs     | 3 +++
 src/bin/count_r.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/bin/bwt.rs b/src/bin/bwt.rs
index 87a1944..086bb4a 100644
--- a/src/bin/bwt.rs
+++ b/src/bin/bwt.rs
@@ -61,6 +61,9 @@ fn main() {
         true => {
             if text.len() < 100 {
                 core::bwt_by_matrix_naive(&text)
+            } else if !args.no_dollar {
+                //@ with a unique terminator, the rotations are sorted like the suffixes
+                core::bwt_from_text_by_sa(&text)
             } else {
                 core::bwt_by_matrix(&text)
             }
diff --git a/src/bin/count_r.rs b/src/bin/count_r.rs
index d9b0185..36721c5 100644
--- a/src/bin/count_r.rs
+++ b/src/bin/count_r.rs
@@ -60,6 +60,9 @@ fn main() {
         true => {
             if text.len() < 100 {
                 core::bwt_by_matrix_naive(&text)
+            } else if !args.no_dollar {
+                //@ with a unique terminator, the rotations are sorted like the suffixes
+                core::bwt_from_text_by_sa(&text)
             } else {
                 core::bwt_by_matrix(&text)
             }
-- 
2.43.0


From 0b1965f1ffc8fd2396f2da6b3eadd04f29e345f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:02 +0000
Subject: [PATCH 11/25] fix: a prefix longer than the standard input panics
 instead of taking the whole input

---
 src/io.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index d95055d..ee5fb90 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -33,8 +33,11 @@ pub fn stdin2byte_vector(prefix_length: usize) -> Vec<u8> {
     let mut reader = std::io::stdin();
     // let reader = stdin.lock();
     if prefix_length > 0 {
-        let mut buffer = vec![0; prefix_length];
-        reader.read_exact(buffer.as_mut_slice()).unwrap();
+        let mut buffer = Vec::new();
+        reader
+            .take(prefix_length as u64)
+            .read_to_end(&mut buffer)
+            .unwrap();
         buffer
     } else {
         let mut buffer = Vec::new();
-- 
2.43.0


From 5549c470457aaae36ec52249f2afa520c48982bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:02 +0000
Subject: [PATCH 12/25] fix: read_char takes an interrupted read for the end of
 the input

---
 src/io.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index ee5fb90..185eb07 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -81,18 +81,21 @@ pub fn stream_or_stdout(filename: Option<&str>) -> Box<dyn std::io::Write> {
 /// read a single u8 character
 pub fn read_char<R: std::io::Read>(reader: &mut R) -> std::io::Result<u8> {
     let mut buffer = [0u8];
-    match reader.read(buffer.as_mut()) {
-        Result::Ok(u) => {
-            if u == 1 {
-                Ok(buffer[0])
-            } else {
-                Err(std::io::Error::new(
-                    std::io::ErrorKind::Other,
-                    "end of file",
-                ))
+    loop {
+        return match reader.read(buffer.as_mut()) {
+            Result::Ok(u) => {
+                if u == 1 {
+                    Ok(buffer[0])
+                } else {
+                    Err(std::io::Error::new(
+                        std::io::ErrorKind::Other,
+                        "end of file",
+                    ))
+                }
+                // assert_eq!(u, 1);
             }
-            // assert_eq!(u, 1);
-        }
-        Err(error) => Err(error),
+            Err(error) if error.kind() == std::io::ErrorKind::Interrupted => continue,
+            Err(error) => Err(error),
+        };
     }
 }
-- 
2.43.0


From c38a82a6b06393381e53e0dbcc1e08852127dfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:02 +0000
Subject: [PATCH 13/25] fix: BinaryStringGenerator is not lexicographic and
 does not stop after the last string

---
 src/core.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index ab8b1f3..b4f04c5 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -505,12 +505,13 @@ impl Iterator for BinaryStringGenerator {
     type Item = Vec<u8>;
 
     fn next(&mut self) -> Option<Vec<u8>> {
-        if self.m_rank == u64::MAX {
+        let number_of_strings = 1_u64.checked_shl(self.m_length as u32);
+        if self.m_rank == number_of_strings.unwrap_or(u64::MAX) {
             return None;
         }
         let mut text = Vec::with_capacity(self.m_length as usize);
-        for i in 0..self.m_length {
-            let bit = self.m_rank & (1 << i);
+        for i in (0..self.m_length).rev() {
+            let bit = self.m_rank.checked_shr(i as u32).unwrap_or(0) & 1;
             text.push(if bit == 0 { b'0' } else { b'1' });
         }
         self.m_rank += 1;
-- 
2.43.0


From aeb24551d4278c4e802f324ce974c088e65a6d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:02 +0000
Subject: [PATCH 14/25] fix: attractor checker panics when an uncovered
 substring is not UTF-8

---
 src/bin/is_stringattractor.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bin/is_stringattractor.rs b/src/bin/is_stringattractor.rs
index aa4505b..63618a6 100644
--- a/src/bin/is_stringattractor.rs
+++ b/src/bin/is_stringattractor.rs
@@ -222,7 +222,6 @@ fn is_attractor(text: &[u8], attractor: &[u64]) -> bool {
 
     use segment_tree::ops::Min;
     use segment_tree::SegmentPoint;
-    use std::str;
     let d_rmq = SegmentPoint::build(arr_d.clone(), Min);
 
     let mut is_attractor = true;
@@ -237,7 +236,7 @@ fn is_attractor(text: &[u8], attractor: &[u64]) -> bool {
             let endpos = std::cmp::min(sa[lcpinterval.begin as usize] as usize + lcplength, n);
             println!(
                 "substring '{}' not covered!",
-                str::from_utf8(&text[startpos..endpos]).unwrap()
+                String::from_utf8_lossy(&text[startpos..endpos])
             );
         }
     }
-- 
2.43.0


From e99707409368b05c8284cbb302e544b287d1a9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:02 +0000
Subject: [PATCH 15/25] fix: lyndonfactorization reports the prefix option as
 the text length

---
 src/bin/lyndonfactorization.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/bin/lyndonfactorization.rs b/src/bin/lyndonfactorization.rs
index 0838652..d0d1e58 100644
--- a/src/bin/lyndonfactorization.rs
+++ b/src/bin/lyndonfactorization.rs
@@ -37,17 +37,17 @@ fn main() {
     env_logger::init();
     use std::time::Instant;
 
-    let result_format = format!(
-        "RESULT file={} length={} ",
-        core::get_filename(&args.infilename),
-        args.prefixlength
-    );
-
     info!("read text");
 
     let text =
         io::file_or_stdin2byte_vector(core::stringopt_stropt(&args.infilename), args.prefixlength);
 
+    let result_format = format!(
+        "RESULT file={} length={} ",
+        core::get_filename(&args.infilename),
+        text.len()
+    );
+
     let timenow = Instant::now();
 
     let factors = core::duval(&text);
-- 
2.43.0


From fe5cb37b062b3236f65cd87cfb149cfd275e54b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:30 +0000
Subject: [PATCH 16/25] fix: last letter of power2_sequence is a NUL byte

---
 src/word.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/word.rs b/src/word.rs
index 168b228..c854ef4 100644
--- a/src/word.rs
+++ b/src/word.rs
@@ -597,7 +597,7 @@ pub fn power2_sequence(k: u8) -> Vec<u8> {
     // let mut text : Vec<u8> = Vec::with_capacity(n);
     // unsafe { text.set_len(n); }
     let mut most_significant_bit = 0;
-    for j in 1..n {
+    for j in 1..=n {
         while j > 1 << (most_significant_bit + 1) {
             most_significant_bit += 1;
         }
-- 
2.43.0


From 4e02cc7562bea2d19064a9d7451be9f3fe4feb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:30 +0000
Subject: [PATCH 17/25] fix: mus does not append the terminator that get_mus
 relies on

---
 src/bin/mus.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/bin/mus.rs b/src/bin/mus.rs
index a81400f..a023b1a 100644
--- a/src/bin/mus.rs
+++ b/src/bin/mus.rs
@@ -65,8 +65,14 @@ fn main() {
     info!("Build DS");
     let now = Instant::now();
 
-    let text =
-        io::file_or_stdin2byte_vector(core::stringopt_stropt(&args.infilename), args.prefixlength);
+    let text = {
+        let mut text = io::file_or_stdin2byte_vector(
+            core::stringopt_stropt(&args.infilename),
+            args.prefixlength,
+        );
+        text.push(0u8);
+        text
+    };
 
     let sa = {
         let mut sa = vec![0; text.len()];
-- 
2.43.0


From 9442289a412da7e9378b578a40dac77f06534644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:30 +0000
Subject: [PATCH 18/25] fix: binary_debruijn_word misses words because it takes
 prenecklaces for necklaces

---
 src/word.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/word.rs b/src/word.rs
index c854ef4..9bb9d59 100644
--- a/src/word.rs
+++ b/src/word.rs
@@ -554,7 +554,9 @@ pub fn binary_debruijn_word(k: u8) -> Vec<u8> {
     loop {
         let mut first_char = word.pop_front().unwrap();
         word.push_back(CHR_B);
-        if is_necklace(&word, word.len()) {
+        //@ `is_necklace` also accepts proper prefixes of necklaces, but not if we double the word
+        let doubled_word: VecDeque<u8> = word.iter().chain(word.iter()).copied().collect();
+        if is_necklace(&doubled_word, doubled_word.len()) {
             first_char = reverse(first_char);
         }
         *word.back_mut().unwrap() = first_char;
-- 
2.43.0


From d39d9106a8dcb3812b7838a912a6bda6ab7e6ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:53 +0000
Subject: [PATCH 19/25] fix: entropy_kmer result varies with the random
 iteration order of hash maps

---
 src/bin/entropy_kmer.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/bin/entropy_kmer.rs b/src/bin/entropy_kmer.rs
index f4450b5..60f8a5b 100644
--- a/src/bin/entropy_kmer.rs
+++ b/src/bin/entropy_kmer.rs
@@ -46,6 +46,13 @@ fn entropy_via_kmer_counting<I: Iterator<Item = std::io::Result<u8>>>(
         };
     }
 
+    //@ floating-point sums depend on the order of the summands, but that of a hash map is random
+    fn sorted_counts(kmers: HashMap<u64, u64>) -> Vec<u64> {
+        let mut counts: Vec<u64> = kmers.into_values().collect();
+        counts.sort_unstable();
+        counts
+    }
+
     for byte in text_iter {
         increment_kmer(order, ringbuf, &mut kmers);
         ringbuf <<= 8;
@@ -66,12 +73,12 @@ fn entropy_via_kmer_counting<I: Iterator<Item = std::io::Result<u8>>>(
     }
     increment_kmer(order, ringbuf, &mut kmers);
     let mut kmersum = 0.0;
-    for kmer in kmers {
-        kmersum += (kmer.1 as f64) * (kmer.1 as f64).log2();
+    for kmer in sorted_counts(kmers) {
+        kmersum += (kmer as f64) * (kmer as f64).log2();
     }
     let mut kplusmersum = 0.0;
-    for kplusmer in kplusmers {
-        kplusmersum += (kplusmer.1 as f64) * (kplusmer.1 as f64).log2();
+    for kplusmer in sorted_counts(kplusmers) {
+        kplusmersum += (kplusmer as f64) * (kplusmer as f64).log2();
     }
     ((kmersum - kplusmersum) / (count as f64), count)
 }
-- 
2.43.0


From 937e28179923150500e666b901ee5798269d96cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:01 +0000
Subject: [PATCH 20/25] fix: word reports a failing write of its buffered
 output

---
 src/bin/word.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin/word.rs b/src/bin/word.rs
index 3ce7afe..24a4a9b 100644
--- a/src/bin/word.rs
+++ b/src/bin/word.rs
@@ -54,4 +54,5 @@ fn main() {
         WordName::Vtm => word::vtm_word,
     };
     writer.write_all(fun(args.k).as_slice()).unwrap();
+    writer.flush().unwrap();
 }
-- 
2.43.0


From c15f08591e47578bd1c7174d5ef12c34ee85a991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:01 +0000
Subject: [PATCH 21/25] fix: randomstring reports a failing write of its
 buffered output

---
 src/bin/randomstring.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin/randomstring.rs b/src/bin/randomstring.rs
index ed12ab7..53a9dd9 100644
--- a/src/bin/randomstring.rs
+++ b/src/bin/randomstring.rs
@@ -58,4 +58,5 @@ fn main() {
         charset.insert(newchar);
         writer.write_all(&[newchar]).unwrap();
     }
+    writer.flush().unwrap();
 }
-- 
2.43.0


From 22fb101d60398380ddb4613a57ff66e549d94e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:01 +0000
Subject: [PATCH 22/25] fix: lyndonfactorization reports a failing write of its
 output file

---
 src/bin/lyndonfactorization.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin/lyndonfactorization.rs b/src/bin/lyndonfactorization.rs
index d0d1e58..5998358 100644
--- a/src/bin/lyndonfactorization.rs
+++ b/src/bin/lyndonfactorization.rs
@@ -96,6 +96,7 @@ fn main() {
                 os.write_all(&text[factors[factor_id - 1] + 1..factors[factor_id] + 1])
                     .unwrap();
             }
+            os.flush().unwrap();
         }
     };
 
-- 
2.43.0


From 2ac2a068c75693418368e00f438c330f4ed8265a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:54 +0000
Subject: [PATCH 23/25] fix: a read error is taken for the end of the input

The tools working character by character ended successfully with a
truncated result when their input could not be read.
---
 src/bin/escape.rs | 12 ++++++------
 src/bin/mtf.rs    |  6 +++---
 src/bin/rle.rs    | 36 ++++++++++++++++++------------------
 src/core.rs       | 12 ++++++------
 src/io.rs         | 12 +++++++++++-
 5 files changed, 44 insertions(+), 34 deletions(-)

diff --git a/src/bin/escape.rs b/src/bin/escape.rs
index 9601ed2..d8bea30 100644
--- a/src/bin/escape.rs
+++ b/src/bin/escape.rs
@@ -115,9 +115,9 @@ fn main() {
             revert_mapping
         };
         for _ in 0..prefixlength {
-            match io::read_char(&mut reader) {
-                Err(_) => break,
-                Ok(cur_char) => {
+            match io::next_char(&mut reader) {
+                None => break,
+                Some(cur_char) => {
                     if cur_char == args.escape_symbol {
                         let next_char = io::read_char(&mut reader).unwrap();
                         if next_char == args.escape_symbol {
@@ -142,9 +142,9 @@ fn main() {
             char_mapping
         };
         for _ in 0..prefixlength {
-            match io::read_char(&mut reader) {
-                Err(_) => break,
-                Ok(cur_char) => {
+            match io::next_char(&mut reader) {
+                None => break,
+                Some(cur_char) => {
                     if cur_char == args.escape_symbol {
                         writer
                             .write_all(&[args.escape_symbol, args.escape_symbol])
diff --git a/src/bin/mtf.rs b/src/bin/mtf.rs
index b0424b7..dd3d65e 100644
--- a/src/bin/mtf.rs
+++ b/src/bin/mtf.rs
@@ -7,9 +7,9 @@ use stringology::io;
 pub fn mtf<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer: &mut W) {
     let mut mtfvector: Vec<u8> = (0..=u8::MAX).collect();
     loop {
-        match io::read_char(&mut reader) {
-            Err(_) => break,
-            Ok(cur_char) => {
+        match io::next_char(&mut reader) {
+            None => break,
+            Some(cur_char) => {
                 let pos = mtfvector.iter().position(|&c| c == cur_char).unwrap();
                 for j in 0..pos {
                     mtfvector[pos - j] = mtfvector[pos - j - 1];
diff --git a/src/bin/rle.rs b/src/bin/rle.rs
index 03483ee..39f3d76 100644
--- a/src/bin/rle.rs
+++ b/src/bin/rle.rs
@@ -5,15 +5,15 @@ use stringology::core;
 use stringology::io;
 
 pub fn rle_text<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer: &mut W) {
-    match io::read_char(&mut reader) {
-        Err(_) => (),
-        Ok(first_char) => {
+    match io::next_char(&mut reader) {
+        None => (),
+        Some(first_char) => {
             let mut run_counter = 0_usize; //@ counts the number of character runs
             let mut prev_char = first_char; //@ the current character of the chracter run
             loop {
-                match io::read_char(&mut reader) {
-                    Err(_) => break,
-                    Ok(next_char) => {
+                match io::next_char(&mut reader) {
+                    None => break,
+                    Some(next_char) => {
                         if next_char != prev_char {
                             write!(writer, "({},{})", prev_char as char, run_counter + 1).unwrap();
                             prev_char = next_char;
@@ -31,15 +31,15 @@ pub fn rle_text<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer:
 }
 
 pub fn rle<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer: &mut W) {
-    match io::read_char(&mut reader) {
-        Err(_) => (),
-        Ok(first_char) => {
+    match io::next_char(&mut reader) {
+        None => (),
+        Some(first_char) => {
             let mut run_counter = 0_u8; //@ counts the number of character runs
             let mut prev_char = first_char; //@ the current character of the chracter run
             loop {
-                match io::read_char(&mut reader) {
-                    Err(_) => break,
-                    Ok(next_char) => {
+                match io::next_char(&mut reader) {
+                    None => break,
+                    Some(next_char) => {
                         //@ a run that is too long for the counter is split
                         if next_char != prev_char || run_counter == u8::MAX {
                             writer.write_all(&[prev_char, run_counter]).unwrap();
@@ -60,9 +60,9 @@ pub fn rle<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer: &mut
 const CHR_ZERO: u8 = b'0';
 
 pub fn rle_zero<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer: &mut W) {
-    match io::read_char(&mut reader) {
-        Err(_) => (),
-        Ok(first_char) => {
+    match io::next_char(&mut reader) {
+        None => (),
+        Some(first_char) => {
             let mut run_counter = 0_usize; //@ counts the number of character runs
             if first_char == CHR_ZERO {
                 run_counter = 1;
@@ -70,9 +70,9 @@ pub fn rle_zero<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer:
                 writer.write_all(&[first_char]).unwrap();
             }
             loop {
-                match io::read_char(&mut reader) {
-                    Err(_) => break,
-                    Ok(next_char) => {
+                match io::next_char(&mut reader) {
+                    None => break,
+                    Some(next_char) => {
                         if next_char != CHR_ZERO {
                             if run_counter > 0 {
                                 writer
diff --git a/src/core.rs b/src/core.rs
index b4f04c5..2b7a4e9 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -559,15 +559,15 @@ impl<C: Eq + Copy + Clone> Iterator for ConjugateIterator<'_, C> {
 
 /// counts the number of runs in an array `arr`
 pub fn number_of_runs<R: std::io::Read>(reader: &mut R) -> usize {
-    match io::read_char(reader) {
-        Err(_) => 0,
-        Ok(first_char) => {
+    match io::next_char(reader) {
+        None => 0,
+        Some(first_char) => {
             let mut run_counter = 1; //@ counts the number of character runs
             let mut prev_char = first_char; //@ the current character of the chracter run
             loop {
-                match io::read_char(reader) {
-                    Err(_) => break,
-                    Ok(next_char) => {
+                match io::next_char(reader) {
+                    None => break,
+                    Some(next_char) => {
                         if next_char != prev_char {
                             prev_char = next_char;
                             run_counter += 1;
diff --git a/src/io.rs b/src/io.rs
index 185eb07..2d16fdf 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -88,7 +88,7 @@ pub fn read_char<R: std::io::Read>(reader: &mut R) -> std::io::Result<u8> {
                     Ok(buffer[0])
                 } else {
                     Err(std::io::Error::new(
-                        std::io::ErrorKind::Other,
+                        std::io::ErrorKind::UnexpectedEof,
                         "end of file",
                     ))
                 }
@@ -99,3 +99,13 @@ pub fn read_char<R: std::io::Read>(reader: &mut R) -> std::io::Result<u8> {
         };
     }
 }
+
+/// read the next u8 character, or `None` at the end of the input
+/// - panics if the input cannot be read
+pub fn next_char<R: std::io::Read>(reader: &mut R) -> Option<u8> {
+    match read_char(reader) {
+        Ok(c) => Some(c),
+        Err(error) if error.kind() == std::io::ErrorKind::UnexpectedEof => None,
+        Err(error) => panic!("unable to read the input: {}", error),
+    }
+}
-- 
2.43.0


From a485a7bc4bad546d12e43d89a0096ea09fbfd6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:05 +0000
Subject: [PATCH 24/25] fix: entropy_kmer panics on texts shorter than the
 order

---
 src/bin/entropy_kmer.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bin/entropy_kmer.rs b/src/bin/entropy_kmer.rs
index 60f8a5b..2ff1272 100644
--- a/src/bin/entropy_kmer.rs
+++ b/src/bin/entropy_kmer.rs
@@ -28,9 +28,13 @@ fn entropy_via_kmer_counting<I: Iterator<Item = std::io::Result<u8>>>(
     let mut kmers = HashMap::new();
     let mut kplusmers = HashMap::new();
     let mut ringbuf: u64 = 0;
-    for _ in 0..order {
+    for length in 0..order {
         ringbuf <<= 8;
-        ringbuf |= text_iter.next().unwrap().unwrap() as u64;
+        ringbuf |= match text_iter.next() {
+            Some(byte) => byte.unwrap() as u64,
+            //@ no k-mer occurs in a text shorter than k
+            None => return (0.0, length),
+        };
     }
     let mut count = order;
 
-- 
2.43.0


From 5657cafe3bf88e83fb6dd5fe49952277d5ecc279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:12 +0000
Subject: [PATCH 25/25] fix: a pipe given as the input file is taken for an
 empty file

---
 src/io.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/io.rs b/src/io.rs
index 2d16fdf..e13cc56 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -7,6 +7,16 @@ pub fn file2byte_vector(filename: &str, prefix_length: usize) -> Vec<u8> {
     let path = std::path::Path::new(filename);
     let mut f = fs::File::open(path).expect("no file found");
     let metadata = fs::metadata(path).expect("unable to read metadata");
+    if metadata.len() == 0 {
+        //@ pipes and the like do not know the length of what they deliver
+        let limit = match prefix_length {
+            0 => u64::MAX,
+            prefix_length => prefix_length as u64,
+        };
+        let mut buffer = Vec::new();
+        f.take(limit).read_to_end(&mut buffer).unwrap();
+        return buffer;
+    }
     let buffer_length = if prefix_length > 0 {
         std::cmp::min(prefix_length as u64, metadata.len())
     } else {
-- 
2.43.0

