From 093d0e8fcd1f48dff4763d807bda1f473fb62b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:35 +0000
Subject: [PATCH 01/58] hook: cfg(jsparse_verif) makes the tokenizer module
 nameable

---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index f3971fe..de602dd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -6,7 +6,11 @@ extern crate time;
 // #[macro_use]
 // pub mod ast;
 
+#[cfg(not(jsparse_verif))]
 mod tokenizer;
+// Verification builds (RUSTFLAGS="--cfg jsparse_verif") can name the tokenizer's types.
+#[cfg(jsparse_verif)]
+pub mod tokenizer;
 
 pub use tokenizer::IntoTokenizer;
 pub use tokenizer::Tokenizer;
-- 
2.43.0


From 853ef3a4659a7f57a2e234fa74e1acfe064b5c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:11 +0000
Subject: [PATCH 02/58] fix: skip whole U+00A0 and U+FEFF blanks and count them
 as one column

---
 src/tokenizer/slice.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 0aa1fad..9e86a84 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -23,24 +23,25 @@ impl<'code> Clone for SliceTokenizer<'code> {
 }
 
 fn eat_whitespace(code: &str, pos: &mut Position) {
+    let bytes = code.as_bytes();
     let mut index = pos.offset;
 
-    for &b in code[pos.offset..].as_bytes() {
-        match b {
+    while index < bytes.len() {
+        match bytes[index] {
             b'\x09' | b'\x0B' | b'\x0C' | b'\x20' => {
                 index += 1;
             }
             b'\xEF' if code[index..].starts_with(WS_ZWNBSP) => {
-                index += 1;
+                index += WS_ZWNBSP.len();
             }
             b'\xC2' if code[index..].starts_with(WS_NBSP) => {
-                index += 1;
+                index += WS_NBSP.len();
             }
             _ => break,
         }
+        pos.column += 1;
     }
 
-    pos.column += index - pos.offset;
     pos.offset = index;
 }
 
-- 
2.43.0


From 54e52fd1797203d18b1bd1caeef07b97a5cab1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:12 +0000
Subject: [PATCH 03/58] fix: treat CRLF as a single line terminator token

---
 src/tokenizer/slice.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 9e86a84..6750fd9 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -318,6 +318,10 @@ pub fn read_next<'code, 'b, 'c, 'tok>(code: &'code str, hint: &'c Hint, token: &
         b'\xC2' if code.starts_with(WS_NBSP) => {
             unreachable!();
         }
+        b'\x0D' if len > 1 && bytes[1] == b'\x0A' => {
+            *token = tokens::LineTerminatorToken {}.into();
+            2
+        }
         b'\x0A' | b'\x0D' => {
             *token = tokens::LineTerminatorToken {}.into();
             1
-- 
2.43.0


From c172524138380de989b4fa1ec9cf618454d6b378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:12 +0000
Subject: [PATCH 04/58] fix: line numbers are 1-indexed, as documented

---
 src/tokenizer/slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 6750fd9..494bada 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -103,7 +103,7 @@ impl<'code> IntoTokenizer<'code> for &'code str {
     fn into_tokenizer(self) -> Self::Item {
         SliceTokenizer {
             code: self,
-            position: Default::default(),
+            position: Position { line: 1, ..Default::default() },
         }
     }
 }
-- 
2.43.0


From b0d48171aa376fc1641b23d33f890a61d376369f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:13 +0000
Subject: [PATCH 05/58] fix: hexadecimal digits above 9 have the wrong value

---
 src/tokenizer/slice.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 494bada..f40584c 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -455,11 +455,11 @@ fn tok_zero_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>)
                     }
                     v @ b'a'...b'f' => {
                         val *= 16f64;
-                        val += (v - b'a') as f64;
+                        val += (v - b'a' + 10) as f64;
                     }
                     v @ b'A'...b'F' => {
                         val *= 16f64;
-                        val += (v - b'A') as f64;
+                        val += (v - b'A' + 10) as f64;
                     }
                     _ => break,
                 }
-- 
2.43.0


From ff01ada82efc285ffed120c4b7d88d9fdba8ee26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:13 +0000
Subject: [PATCH 06/58] fix: check the first digit of hexadecimal, octal and
 binary literals

---
 src/tokenizer/slice.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index f40584c..9acefb6 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -442,9 +442,9 @@ fn tok_zero_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>)
     let b = if index + 2 < len { bytes[index + 1] } else { 0 };
     match b {
         b'x' | b'X' => {
-            let mut val = (bytes[index + 2] - b'0') as f64;
+            let mut val = 0f64;
 
-            let mut i = index + 3;
+            let mut i = index + 2;
             loop {
                 if i == len { break }
 
@@ -467,13 +467,17 @@ fn tok_zero_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>)
                 i += 1;
             }
 
+            if i == index + 2 {
+                unimplemented!("invalid number error")
+            }
+
             number(val, code[index..i].into(), token);
             i
         }
         b'o' | b'O' => {
-            let mut val = (bytes[index + 2] - b'0') as f64;
+            let mut val = 0f64;
 
-            let mut i = index + 3;
+            let mut i = index + 2;
             loop {
                 if i == len { break }
 
@@ -491,13 +495,17 @@ fn tok_zero_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>)
                 i += 1;
             }
 
+            if i == index + 2 {
+                unimplemented!("invalid number error")
+            }
+
             number(val, code[index..i].into(), token);
             i
         }
         b'b' | b'B' => {
-            let mut val = (bytes[index + 2] - b'0') as f64;
+            let mut val = 0f64;
 
-            let mut i = index + 3;
+            let mut i = index + 2;
             loop {
                 if i == len { break }
 
@@ -515,6 +523,10 @@ fn tok_zero_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>)
                 i += 1;
             }
 
+            if i == index + 2 {
+                unimplemented!("invalid number error")
+            }
+
             number(val, code[index..i].into(), token);
             i
         }
-- 
2.43.0


From 8f8dea146c45be648b868c3ff58bfe1fd0749edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:14 +0000
Subject: [PATCH 07/58] fix: two-byte prefixes such as 0. and 0x at the end of
 the input

---
 src/tokenizer/slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 9acefb6..93d7ddb 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -439,7 +439,7 @@ fn tok_zero_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>)
     let len = code.len();
     let index = 0;
 
-    let b = if index + 2 < len { bytes[index + 1] } else { 0 };
+    let b = if index + 1 < len { bytes[index + 1] } else { 0 };
     match b {
         b'x' | b'X' => {
             let mut val = 0f64;
-- 
2.43.0


From b5c4ef8185fc225f2639e9279be41129a0b3684d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:14 +0000
Subject: [PATCH 08/58] fix: exponent after a plain zero

---
 src/tokenizer/slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 93d7ddb..55c1237 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -553,7 +553,7 @@ fn tok_zero_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>)
             offset
         }
         _ => {
-            let (_, num) = parse_exponent(bytes);
+            let (_, num) = parse_exponent(&bytes[index + 1..]);
 
             number(0f64, code[index..index + num + 1].into(), token);
             index + num + 1
-- 
2.43.0


From 3b5802f25443dd096b6b9a30ed4a4a3bed9df9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:15 +0000
Subject: [PATCH 09/58] fix: exponent overflow panics

---
 src/tokenizer/slice.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 55c1237..98960b5 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -884,8 +884,7 @@ fn parse_exponent(bytes: &[u8]) -> (i32, usize) {
             v @ b'0' ... b'9' => {
                 let val = (v - b'0') as i32;
                 if val != 0 || value != 0 {
-                    value *= 10;
-                    value += val;
+                    value = i32::saturating_add(i32::saturating_mul(value, 10), val);
                 }
             }
             _ => break,
-- 
2.43.0


From ef8e0aefbee42e08db8d7e7a6443cb9d44876410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:15 +0000
Subject: [PATCH 10/58] fix: an exponent needs at least one digit

---
 src/tokenizer/slice.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 98960b5..ddd004f 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -893,6 +893,10 @@ fn parse_exponent(bytes: &[u8]) -> (i32, usize) {
         i += 1;
     }
 
+    if i == offset {
+        return (0, 0);
+    }
+
     (sign * value, i)
 }
 
-- 
2.43.0


From c0e48c5b5fc1bbc96f03d995a49549d8a685dfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:16 +0000
Subject: [PATCH 11/58] fix: a zero with a large exponent is zero, not NaN

---
 src/tokenizer/slice.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index ddd004f..747bfcd 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -349,7 +349,7 @@ fn tok_fractional<'code, 'tok>(code: &'code str, token: &'tok mut tokens::Token<
     let (exp, num) = parse_exponent(&bytes[offset..]);
 
     if num != 0 {
-        val = val * 10f64.powi(exp);
+        val = if val == 0f64 { val } else { val * 10f64.powi(exp) };
         offset += num;
     }
 
@@ -545,7 +545,7 @@ fn tok_zero_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>)
 
             let (exp, num) = parse_exponent(&bytes[offset..]);
             if num != 0 {
-                val = val * 10f64.powi(exp);
+                val = if val == 0f64 { val } else { val * 10f64.powi(exp) };
                 offset += num;
             }
 
-- 
2.43.0


From 5a12310b9be3a2e313d1bda61e5ae5d7eb08b48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:36 +0000
Subject: [PATCH 12/58] fix: a lone line feed after an escaped carriage return
 is only ignored next to it

---
 src/tokenizer/slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 747bfcd..737b2b0 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -792,7 +792,7 @@ fn tok_str<'code, 'tok>(t: u8, code: &'code str, token: &mut tokens::Token<'code
                 end = i + 1;
                 break;
             },
-            b'\n' if ignore_nl => {
+            b'\n' if ignore_nl && bytes[i - 1] == b'\r' => {
 
             }
             b'\r' | b'\n' => {
-- 
2.43.0


From 329181419cf130b2566b9a87f8327ba6a87873bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:37 +0000
Subject: [PATCH 13/58] fix: diagnose unterminated strings instead of returning
 an empty token

---
 src/tokenizer/slice.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 737b2b0..27e3b84 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -807,6 +807,11 @@ fn tok_str<'code, 'tok>(t: u8, code: &'code str, token: &mut tokens::Token<'code
         }
     }
 
+    if end == start {
+        // Invalid string
+        panic!("unterminated string");
+    }
+
     let raw = Cow::from(&code[start..end]);
 
     if pieces.len() == 1 {
-- 
2.43.0


From 7e0b36d24e71c96024f209b25e1ee55ce94529d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:37 +0000
Subject: [PATCH 14/58] fix: validate hexadecimal and unicode escapes in
 strings

---
 src/tokenizer/slice.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 27e3b84..ebf8296 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -749,6 +749,18 @@ fn tok_str<'code, 'tok>(t: u8, code: &'code str, token: &mut tokens::Token<'code
                 }
             }
         }
+        if in_escape > 1 {
+            let valid = match b {
+                b'0'...b'9' | b'a'...b'f' | b'A'...b'F' => true,
+                b'{' => in_unicode_escape && in_escape == 2,
+                b'}' => in_long_unicode_escape && in_escape > 3,
+                _ => false,
+            };
+            if !valid {
+                // Invalid string
+                panic!("invalid escape");
+            }
+        }
         if in_hex_escape && in_escape == 3 {
             in_escape = 0;
             in_hex_escape = false;
-- 
2.43.0


From d549e0a3f120ea90e400ab8ee524284f07e7cec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:38 +0000
Subject: [PATCH 15/58] fix: accept escaped characters without special meaning
 in strings

---
 src/tokenizer/slice.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index ebf8296..dd91ce4 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -745,7 +745,8 @@ fn tok_str<'code, 'tok>(t: u8, code: &'code str, token: &mut tokens::Token<'code
                     panic!("numbers not allowed");
                 }
                 _ => {
-                    unimplemented!("totally bad escapes");
+                    in_escape = 0;
+                    continue;
                 }
             }
         }
-- 
2.43.0


From 49d03bce9347a33cbfa393d47946f560aa0b2ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:39 +0000
Subject: [PATCH 16/58] fix: honour backslash escapes in template chunks

---
 src/tokenizer/slice.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index dd91ce4..ca4b5c5 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -387,9 +387,17 @@ fn tok_template_head<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'c
     let bytes = code.as_bytes();
 
     let mut break_curly = false;
+    let mut in_escape = false;
 
     for (i, &b) in bytes.iter().enumerate().skip(1) {
         match b {
+            _ if in_escape => {
+                in_escape = false;
+            }
+            b'\\' => {
+                in_escape = true;
+                break_curly = false;
+            }
             b'{' if  break_curly => {
                 template(code[1..i - 1].into(), code[1..i - 1].into(), TemplateFormat::Head, token);
                 return i + 1;
@@ -665,9 +673,17 @@ fn tok_curly_close<'code, 'tok>(code: &'code str, hint: &Hint, token: &mut token
     let bytes = code.as_bytes();
     if hint.template {
         let mut break_curly = false;
+        let mut in_escape = false;
 
         for (i, &b) in bytes.iter().enumerate().skip(1) {
             match b {
+                _ if in_escape => {
+                    in_escape = false;
+                }
+                b'\\' => {
+                    in_escape = true;
+                    break_curly = false;
+                }
                 b'{' if break_curly => {
 
                     template(code[1..i - 1].into(), code[1..i - 1].into(), TemplateFormat::Middle, token);
-- 
2.43.0


From c46008fd57544f2fefdabf5a4ee323f5bd49a218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:39 +0000
Subject: [PATCH 17/58] fix: diagnose unknown characters instead of producing
 an empty identifier

---
 src/tokenizer/slice.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index ca4b5c5..0228435 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -376,6 +376,10 @@ fn tok_ident<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>) ->
         }
     }
 
+    if end == index {
+        unimplemented!("unexpected character");
+    }
+
     *token = tokens::IdentifierNameToken {
         name: (&code[..end]).into(),
     }.into();
-- 
2.43.0


From 35654c815c2ac0b9ebcb4d7789ce027c73ca3225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:40 +0000
Subject: [PATCH 18/58] fix: regular expressions cannot contain line
 terminators

---
 src/tokenizer/slice.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 0228435..29434e6 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -625,9 +625,10 @@ fn tok_slash<'code, 'tok>(code: &'code str, hint: &Hint, token: &mut tokens::Tok
         let mut in_class = false;
         for (i, &b) in bytes.iter().enumerate().skip(1) {
             match b {
+                b'\r' | b'\n' => break,
+                b'\xE2' if code[i..].starts_with(NS_LS) || code[i..].starts_with(NS_PS) => break,
                 _ if in_escape => {
                     in_escape = false;
-                    // TODO: Throw if newlines?
                 }
                 b'\\' => {
                     in_escape = true;
-- 
2.43.0


From 9af9101dd5aac5201786b54f64ba098dae301799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:41 +0000
Subject: [PATCH 19/58] fix: --> is not a token

---
 src/tokenizer/slice.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 29434e6..a46fcd3 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -235,11 +235,7 @@ pub fn read_next<'code, 'b, 'c, 'tok>(code: &'code str, hint: &'c Hint, token: &
         }
         b'-' => {
             if len > 1 && bytes[1] == b'-' {
-                if len > 2 && bytes[2] == b'>' {
-                    punc(PunctuatorToken::MinusMinusAngle, 3, token)
-                } else {
-                    punc(PunctuatorToken::MinusMinus, 2, token)
-                }
+                punc(PunctuatorToken::MinusMinus, 2, token)
             } else if len > 1 && bytes[1] == b'=' {
                 punc(PunctuatorToken::MinusEq, 2, token)
             } else {
-- 
2.43.0


From 0e251d8a4848bc56e90e1b3f5bd1897cd5a22839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:21 +0000
Subject: [PATCH 20/58] fix: an expression hint must not outlive the token it
 was meant for

---
 src/parser/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index e6947c8..9265364 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -184,7 +184,10 @@ where
 
 impl<'code, T: Tokenizer<'code>> Parser<'code, T> {
     pub fn expect_expression(&mut self) {
-        self.hint = self.hint.expression(true);
+        // The hint only concerns a token that has yet to be read.
+        if self.count == 0 {
+            self.hint = self.hint.expression(true);
+        }
     }
 
     pub fn semicolon(&mut self) -> TokenResult<()> {
-- 
2.43.0


From fac04757700018570f90e6f50dcbbf3dd47a0323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:22 +0000
Subject: [PATCH 21/58] fix: a slash after this, super, null, true and false is
 a division

---
 src/parser/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 9265364..41e6889 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -307,7 +307,10 @@ impl<'code, T: Tokenizer<'code>> Parser<'code, T> {
         if self.count < 2 {
             let flags = self.flags;
             let expect_expression = if let tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name }) = *self.token() {
-                !is_binding_identifier(&flags, name)
+                match &**name {
+                    "this" | "super" | "null" | "true" | "false" => false,
+                    _ => !is_binding_identifier(&flags, name),
+                }
             } else {
                 return None;
             };
-- 
2.43.0


From 4f43554bed0fe88ffb05fa05e1a628e11231534f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:23 +0000
Subject: [PATCH 22/58] fix: module code is strict, and await is reserved in it

---
 src/parser/file.rs | 9 ++++++---
 src/parser/mod.rs  | 4 ++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/parser/file.rs b/src/parser/file.rs
index 0d05c39..265a59f 100644
--- a/src/parser/file.rs
+++ b/src/parser/file.rs
@@ -1,5 +1,5 @@
 use tokenizer::Tokenizer;
-use parser::Parser;
+use parser::{Parser, Flag};
 use parser::utils::{OptResult, Result, TokenResult};
 
 impl<'code, T> Parser<'code, T>
@@ -14,10 +14,13 @@ where
         Ok(())
     }
     pub fn parse_module(&mut self) -> Result<()> {
-        while let TokenResult::Some(_) = self.parse_module_item()? {
+        let mut parser = self.with(Flag::Module);
+        let mut parser = parser.with(Flag::Strict);
+
+        while let TokenResult::Some(_) = parser.parse_module_item()? {
         }
 
-        eat_value!(self.eof());
+        eat_value!(parser.eof());
         Ok(())
     }
 
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 41e6889..0afe774 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -547,8 +547,8 @@ fn is_binding_identifier(flags: &GrammarFlags, s: &str) -> bool {
 
     match s {
         // Conditional keywords
-        "yield" if !flags.allow_yield => false,
-        "await" if !flags.allow_await => false,
+        "yield" if flags.allow_yield => false,
+        "await" if flags.allow_await || flags.is_module => false,
 
         // Keywords
         "break" | "case" | "catch" | "class" | "const" | "continue" | "debugger" | "default" | "delete" |
-- 
2.43.0


From 98d4b221be9d9017ccd800f535f7fa1146f423c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:24 +0000
Subject: [PATCH 23/58] fix: yield is only an expression in generators and
 takes an assignment expression

---
 src/parser/expressions.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 63c4ddd..a1cfee4 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -142,14 +142,20 @@ where
     }
 
     fn parse_yield_expression(&mut self) -> OptResult<()> {
+        if !self.flags.allow_yield {
+            return Ok(TokenResult::None);
+        }
+
         try_value!(self.keyword("yield"));
 
+        self.expect_expression();
         if self.no_line_terminator() {
-            self.expect_expression();
-            opt_value!(self.punc(tokens::PunctuatorToken::Star));
-
-            self.expect_expression();
-            opt_value!(self.parse_expression()?);
+            if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Star) {
+                self.expect_expression();
+                eat_value!(self.parse_assignment_expression()?);
+            } else {
+                opt_value!(self.parse_assignment_expression()?);
+            }
         }
 
         Ok(TokenResult::Some(()))
-- 
2.43.0


From 62e9ddd3ea6e2ef20981edd71dc12da590710855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:24 +0000
Subject: [PATCH 24/58] fix: throw forbids a line break and ends in a semicolon

---
 src/parser/statements.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 21b23b1..bb19517 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -671,10 +671,13 @@ where
     fn parse_throw_statement(&mut self) -> OptResult<()> {
         try_value!(self.keyword("throw"));
 
-        if self.no_line_terminator() {
-            self.expect_expression();
-            eat_value!(self.with(Flag::In).parse_expression()?);
+        self.expect_expression();
+        if !self.no_line_terminator() {
+            bail!("Unexpected line terminator after throw");
         }
+        eat_value!(self.with(Flag::In).parse_expression()?);
+
+        eat_value!(self.semicolon());
 
         Ok(TokenResult::Some(()))
     }
-- 
2.43.0


From eae01d30f7b461c99ec825c92a47852a8eebd503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:25 +0000
Subject: [PATCH 25/58] fix: read a slash as regex wherever a statement or
 operand may start

---
 src/parser/declarations.rs |  1 +
 src/parser/expressions.rs  |  5 +++++
 src/parser/module.rs       |  3 +++
 src/parser/statements.rs   | 12 +++++++++++-
 4 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/parser/declarations.rs b/src/parser/declarations.rs
index 5ece444..086b1f9 100644
--- a/src/parser/declarations.rs
+++ b/src/parser/declarations.rs
@@ -72,6 +72,7 @@ where
             eat_value!(self.parse_initializer()?);
         } else {
             eat_value!(self.binding_identifier());
+            self.expect_expression();
 
             if initializer_required {
                 eat_value!(self.parse_initializer()?);
diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index a1cfee4..dfaa5f0 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -391,6 +391,7 @@ where
     }
     fn parse_left_hand_expression(&mut self, allow_call: bool) -> OptResult<()> {
         if let TokenResult::Some(_) = self.keyword("new") {
+            self.expect_expression();
             eat_value!(self.parse_left_hand_expression(false)?);
         } else {
             if let TokenResult::None = try_sequence!(
@@ -430,6 +431,7 @@ where
                 LeftType::Call if allow_call => eat_value!(self.parse_call_arguments()?),
                 LeftType::Computed => {
                     self.pop();
+                    self.expect_expression();
                     // eat_value!(self.punc(tokens::PunctuatorToken::SquareOpen));
                     eat_value!(self.with(Flag::In).parse_expression()?);
                     eat_value!(self.punc(tokens::PunctuatorToken::SquareClose));
@@ -637,6 +639,7 @@ where
         try_value!(self.punc(tokens::PunctuatorToken::SquareOpen));
 
         loop {
+            self.expect_expression();
             if let TokenResult::Some(_) = self.parse_array_item()? {
             }
 
@@ -691,6 +694,7 @@ where
     }
     fn parse_array_item(&mut self) -> OptResult<()> {
         if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Ellipsis) {
+            self.expect_expression();
             eat_value!(self.parse_assignment_expression()?);
         } else if let TokenResult::Some(_) = self.parse_assignment_expression()? {
         }
@@ -708,6 +712,7 @@ where
         if tok.format == tokens::TemplateFormat::Head {
             let mut parser = self.with(Flag::Template);
             loop {
+                parser.expect_expression();
                 eat_value!(parser.parse_expression()?);
 
                 let next = eat_value!(parser.template_tail());
diff --git a/src/parser/module.rs b/src/parser/module.rs
index d54b2b1..5c404c5 100644
--- a/src/parser/module.rs
+++ b/src/parser/module.rs
@@ -39,6 +39,7 @@ where
             eat_value!(self.string());
         }
 
+        self.expect_expression();
         eat_value!(self.semicolon());
 
         Ok(TokenResult::Some(()))
@@ -63,6 +64,8 @@ where
         if let TokenResult::Some(_) = self.keyword("default") {
             let mut parser = self.with(Flag::Default);
 
+            parser.expect_expression();
+
             if let TokenResult::Some(_) = parser.parse_function_declaration()? {
 
             } else if let TokenResult::Some(_) = parser.parse_class_declaration()? {
diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index bb19517..804fc3c 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -157,6 +157,7 @@ where
             eat_value!(self.parse_initializer()?);
         } else {
             eat_value!(self.binding_identifier());
+            self.expect_expression();
             opt_value!(self.parse_initializer()?);
         }
         Ok(TokenResult::Some(()))
@@ -310,6 +311,7 @@ where
 
         eat_value!(self.parse_statement()?);
 
+        self.expect_expression();
         if let TokenResult::Some(_) = self.keyword("else") {
             eat_value!(self.parse_statement()?);
         }
@@ -344,6 +346,7 @@ where
         eat_value!(self.with(Flag::In).parse_expression()?);
         eat_value!(self.punc(tokens::PunctuatorToken::ParenClose));
 
+        self.expect_expression();
         eat_value!(self.semicolon_dowhile());
 
         Ok(TokenResult::Some(()))
@@ -602,10 +605,12 @@ where
     fn parse_continue_statement(&mut self) -> OptResult<()> {
         try_value!(self.keyword("continue"));
 
+        self.expect_expression();
         if self.no_line_terminator() {
             opt_value!(self.label_identifier());
         }
 
+        self.expect_expression();
         eat_value!(self.semicolon());
 
         Ok(TokenResult::Some(()))
@@ -613,10 +618,12 @@ where
     fn parse_break_statement(&mut self) -> OptResult<()> {
         try_value!(self.keyword("break"));
 
+        self.expect_expression();
         if self.no_line_terminator() {
             opt_value!(self.label_identifier());
         }
 
+        self.expect_expression();
         eat_value!(self.semicolon());
         Ok(TokenResult::Some(()))
     }
@@ -624,8 +631,8 @@ where
     fn parse_return_statement(&mut self) -> OptResult<()> {
         try_value!(self.keyword("return"));
 
+        self.expect_expression();
         if self.no_line_terminator() {
-            self.expect_expression();
             opt_value!(self.with(Flag::In).parse_expression()?);
         }
 
@@ -699,6 +706,7 @@ where
             eat_value!(self.parse_block_statement()?);
         }
 
+        self.expect_expression();
         if let TokenResult::Some(_) = self.keyword("finally") {
             eat_value!(self.parse_block_statement()?);
         }
@@ -708,6 +716,8 @@ where
 
     fn parse_debugger_statement(&mut self) -> OptResult<()> {
         try_value!(self.keyword("debugger"));
+
+        self.expect_expression();
         eat_value!(self.semicolon());
 
         Ok(TokenResult::Some(()))
-- 
2.43.0


From 57747d77b1d7d80770102dcfac1f4af3c1306b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:13 +0000
Subject: [PATCH 26/58] fix: allow the in operator everywhere but in for heads

---
 src/parser/expressions.rs | 40 +++++++++++++++++++++------------------
 src/parser/file.rs        |  1 +
 src/parser/functions.rs   | 17 +++++++++--------
 src/parser/statements.rs  |  1 +
 4 files changed, 33 insertions(+), 26 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index dfaa5f0..a3b5085 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -636,24 +636,26 @@ where
         Ok(TokenResult::Some(()))
     }
     fn parse_array_literal_expression(&mut self) -> OptResult<()> {
-        try_value!(self.punc(tokens::PunctuatorToken::SquareOpen));
+        let mut parser = self.with(Flag::In);
+        try_value!(parser.punc(tokens::PunctuatorToken::SquareOpen));
 
         loop {
-            self.expect_expression();
-            if let TokenResult::Some(_) = self.parse_array_item()? {
+            parser.expect_expression();
+            if let TokenResult::Some(_) = parser.parse_array_item()? {
             }
 
-            if let TokenResult::None = self.punc(tokens::PunctuatorToken::Comma) {
+            if let TokenResult::None = parser.punc(tokens::PunctuatorToken::Comma) {
                 break;
             }
         }
 
-        eat_value!(self.punc(tokens::PunctuatorToken::SquareClose));
+        eat_value!(parser.punc(tokens::PunctuatorToken::SquareClose));
 
         Ok(TokenResult::Some(()))
     }
     fn parse_object_literal_expression(&mut self) -> OptResult<()> {
         let mut parser = self.without(Flag::Template);
+        let mut parser = parser.with(Flag::In);
         try_value!(parser.punc(tokens::PunctuatorToken::CurlyOpen));
 
         loop {
@@ -711,6 +713,7 @@ where
 
         if tok.format == tokens::TemplateFormat::Head {
             let mut parser = self.with(Flag::Template);
+            let mut parser = parser.with(Flag::In);
             loop {
                 parser.expect_expression();
                 eat_value!(parser.parse_expression()?);
@@ -726,32 +729,33 @@ where
         Ok(TokenResult::Some(()))
     }
     fn parse_cover_parenthesized_expression(&mut self) -> OptResult<()> {
-        try_value!(self.punc(tokens::PunctuatorToken::ParenOpen));
+        let mut parser = self.with(Flag::In);
+        try_value!(parser.punc(tokens::PunctuatorToken::ParenOpen));
 
-        self.expect_expression();
+        parser.expect_expression();
 
-        if let Some(_) = opt_value!(self.parse_assignment_expression()?) {
-            while let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Comma) {
-                self.expect_expression();
-                if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Ellipsis) {
-                    if let TokenResult::Some(_) = self.parse_binding_pattern()? {
+        if let Some(_) = opt_value!(parser.parse_assignment_expression()?) {
+            while let TokenResult::Some(_) = parser.punc(tokens::PunctuatorToken::Comma) {
+                parser.expect_expression();
+                if let TokenResult::Some(_) = parser.punc(tokens::PunctuatorToken::Ellipsis) {
+                    if let TokenResult::Some(_) = parser.parse_binding_pattern()? {
                     } else {
-                        eat_value!(self.binding_identifier());
+                        eat_value!(parser.binding_identifier());
                     }
                 } else {
-                    eat_value!(self.parse_assignment_expression()?)
+                    eat_value!(parser.parse_assignment_expression()?)
                 }
             }
         } else {
-            if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Ellipsis) {
-                if let TokenResult::Some(_) = self.parse_binding_pattern()? {
+            if let TokenResult::Some(_) = parser.punc(tokens::PunctuatorToken::Ellipsis) {
+                if let TokenResult::Some(_) = parser.parse_binding_pattern()? {
                 } else {
-                    eat_value!(self.binding_identifier());
+                    eat_value!(parser.binding_identifier());
                 }
             }
         }
 
-        eat_value!(self.punc(tokens::PunctuatorToken::ParenClose));
+        eat_value!(parser.punc(tokens::PunctuatorToken::ParenClose));
 
         Ok(TokenResult::Some(()))
     }
diff --git a/src/parser/file.rs b/src/parser/file.rs
index 265a59f..78870e4 100644
--- a/src/parser/file.rs
+++ b/src/parser/file.rs
@@ -16,6 +16,7 @@ where
     pub fn parse_module(&mut self) -> Result<()> {
         let mut parser = self.with(Flag::Module);
         let mut parser = parser.with(Flag::Strict);
+        let mut parser = parser.with(Flag::In);
 
         while let TokenResult::Some(_) = parser.parse_module_item()? {
         }
diff --git a/src/parser/functions.rs b/src/parser/functions.rs
index 4fbbee2..db35498 100644
--- a/src/parser/functions.rs
+++ b/src/parser/functions.rs
@@ -102,27 +102,28 @@ where
     }
 
     pub fn parse_function_params(&mut self) -> OptResult<()> {
-        try_value!(self.punc(tokens::PunctuatorToken::ParenOpen));
+        let mut parser = self.with(Flag::In);
+        try_value!(parser.punc(tokens::PunctuatorToken::ParenOpen));
 
         loop {
-            if let TokenResult::Some(_) = self.parse_binding_rest_element()? {
+            if let TokenResult::Some(_) = parser.parse_binding_rest_element()? {
                 break;
             }
 
-            if let TokenResult::Some(_) = self.parse_binding_pattern()? {
-                opt_value!(self.parse_initializer()?);
-            } else if let TokenResult::Some(_) = self.binding_identifier() {
-                opt_value!(self.parse_initializer()?);
+            if let TokenResult::Some(_) = parser.parse_binding_pattern()? {
+                opt_value!(parser.parse_initializer()?);
+            } else if let TokenResult::Some(_) = parser.binding_identifier() {
+                opt_value!(parser.parse_initializer()?);
             } else {
                 break;
             }
 
-            if let TokenResult::None = self.punc(tokens::PunctuatorToken::Comma) {
+            if let TokenResult::None = parser.punc(tokens::PunctuatorToken::Comma) {
                 break;
             }
         }
 
-        eat_value!(self.punc(tokens::PunctuatorToken::ParenClose));
+        eat_value!(parser.punc(tokens::PunctuatorToken::ParenClose));
 
         Ok(TokenResult::Some(()))
     }
diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 804fc3c..042ff65 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -126,6 +126,7 @@ where
 
     pub fn parse_block_statement(&mut self) -> OptResult<()> {
         let mut parser = self.without(Flag::Template);
+        let mut parser = parser.with(Flag::In);
         try_value!(parser.punc(tokens::PunctuatorToken::CurlyOpen));
 
         let mut body = vec![];
-- 
2.43.0


From b937341eecc7c4c7f1e61ac258528b3489797008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:13 +0000
Subject: [PATCH 27/58] fix: arrow parameters may end in a comma, and a rest
 parameter must be last

---
 src/parser/expressions.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index a3b5085..d352ac9 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -742,8 +742,9 @@ where
                     } else {
                         eat_value!(parser.binding_identifier());
                     }
-                } else {
-                    eat_value!(parser.parse_assignment_expression()?)
+                    break;
+                } else if let TokenResult::None = parser.parse_assignment_expression()? {
+                    break;
                 }
             }
         } else {
-- 
2.43.0


From acc266336c1b6c372ebda2f0bcd442b7f4bf3215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:14 +0000
Subject: [PATCH 28/58] fix: several spread arguments in a call

---
 src/parser/expressions.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index d352ac9..9ed0f9f 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -460,6 +460,7 @@ where
                 eat_value!(parser.parse_assignment_expression()?);
 
                 if let TokenResult::Some(_) = parser.punc(tokens::PunctuatorToken::Comma) {
+                    continue;
                 } else {
                     break;
                 }
-- 
2.43.0


From 6edc4a19abe83e2dcf9b44aca14209f8fd075ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:14 +0000
Subject: [PATCH 29/58] fix: class expressions consume their name, heritage and
 body

---
 src/parser/classes.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/classes.rs b/src/parser/classes.rs
index 359e694..d29fc37 100644
--- a/src/parser/classes.rs
+++ b/src/parser/classes.rs
@@ -24,6 +24,10 @@ where
     pub fn parse_class_expression(&mut self) -> OptResult<()> {
         try_value!(self.keyword("class"));
 
+        opt_value!(self.binding_identifier());
+        opt_value!(self.parse_class_heritage()?);
+        eat_value!(self.parse_class_body()?);
+
         Ok(TokenResult::Some(()))
     }
 
-- 
2.43.0


From 400edb20a4caf37042366f0d05c8ad7d442c4be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:15 +0000
Subject: [PATCH 30/58] fix: new.target

---
 src/parser/expressions.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 9ed0f9f..3bee021 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -392,11 +392,14 @@ where
     fn parse_left_hand_expression(&mut self, allow_call: bool) -> OptResult<()> {
         if let TokenResult::Some(_) = self.keyword("new") {
             self.expect_expression();
-            eat_value!(self.parse_left_hand_expression(false)?);
+            if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Period) {
+                eat_value!(self.keyword("target"));
+            } else {
+                eat_value!(self.parse_left_hand_expression(false)?);
+            }
         } else {
             if let TokenResult::None = try_sequence!(
                 self.parse_primary_expression()?,
-                self.parse_meta_property_expression()?,
                 self.parse_super_expression()?,
             ) {
                 return Ok(TokenResult::None);
@@ -481,13 +484,6 @@ where
         Ok(TokenResult::Some(()))
     }
 
-    fn parse_meta_property_expression(&mut self) -> OptResult<()> {
-        try_value!(self.keyword("new"));
-        eat_value!(self.punc(tokens::PunctuatorToken::Period));
-        eat_value!(self.keyword("target"));
-
-        Ok(TokenResult::Some(()))
-    }
     fn parse_super_expression(&mut self) -> OptResult<()> {
         try_value!(self.keyword("super"));
 
-- 
2.43.0


From a92dba1533265b60644e4defa5d561d1115aae01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:15 +0000
Subject: [PATCH 31/58] fix: exported declarations need no second semicolon

---
 src/parser/module.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/parser/module.rs b/src/parser/module.rs
index 5c404c5..bd8779f 100644
--- a/src/parser/module.rs
+++ b/src/parser/module.rs
@@ -76,11 +76,9 @@ where
             }
         } else {
             if let TokenResult::Some(_) = self.parse_variable_statement()? {
-
-            } else if let TokenResult::Some(_) = self.parse_let_declaration()? {
-
-            } else if let TokenResult::Some(_) = self.parse_const_declaration()? {
-
+                return Ok(TokenResult::Some(()));
+            } else if let TokenResult::Some(_) = self.parse_declaration()? {
+                return Ok(TokenResult::Some(()));
             } else if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Star) {
                 eat_value!(self.keyword("from"));
                 eat_value!(self.string());
@@ -102,6 +100,7 @@ where
                 }
             }
 
+            self.expect_expression();
             eat_value!(self.semicolon());
         }
 
-- 
2.43.0


From 22d64b57ebc2be28c586ffc4fe83f6dd3d1ee922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:16 +0000
Subject: [PATCH 32/58] fix: export default takes an assignment expression

---
 src/parser/module.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/module.rs b/src/parser/module.rs
index bd8779f..7f5ce85 100644
--- a/src/parser/module.rs
+++ b/src/parser/module.rs
@@ -71,7 +71,7 @@ where
             } else if let TokenResult::Some(_) = parser.parse_class_declaration()? {
 
             } else {
-                eat_value!(parser.with(Flag::In).parse_expression()?);
+                eat_value!(parser.with(Flag::In).parse_assignment_expression()?);
                 eat_value!(parser.semicolon());
             }
         } else {
-- 
2.43.0


From 23a3460ff6f51aceb0c37ef9dbb39bf0a7a1e4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:16 +0000
Subject: [PATCH 33/58] fix: anonymous declarations are only allowed directly
 after export default

---
 src/parser/statements.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 042ff65..aa3da36 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -127,6 +127,7 @@ where
     pub fn parse_block_statement(&mut self) -> OptResult<()> {
         let mut parser = self.without(Flag::Template);
         let mut parser = parser.with(Flag::In);
+        let mut parser = parser.without(Flag::Default);
         try_value!(parser.punc(tokens::PunctuatorToken::CurlyOpen));
 
         let mut body = vec![];
-- 
2.43.0


From a63d04cb54934d8461b56240b215e05ed4cee563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:17 +0000
Subject: [PATCH 34/58] fix: a try statement needs a catch or finally clause

---
 src/parser/statements.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index aa3da36..450d921 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -696,7 +696,9 @@ where
 
         eat_value!(self.parse_block_statement()?);
 
+        let mut handled = false;
         if let TokenResult::Some(_) = self.keyword("catch") {
+            handled = true;
             eat_value!(self.punc(tokens::PunctuatorToken::ParenOpen));
 
             if let TokenResult::None = self.parse_binding_pattern()? {
@@ -711,6 +713,8 @@ where
         self.expect_expression();
         if let TokenResult::Some(_) = self.keyword("finally") {
             eat_value!(self.parse_block_statement()?);
+        } else if !handled {
+            bail!("Expected catch or finally after try block");
         }
 
         Ok(TokenResult::Some(()))
-- 
2.43.0


From 144eeab0e2561609b88770da660f0537cef0e125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:18 +0000
Subject: [PATCH 35/58] fix: no line break before an arrow

---
 src/parser/expressions.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 3bee021..627b2a5 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -98,11 +98,16 @@ where
             _ => return Ok(TokenResult::Some(())),
         };
 
+        if let Reify::Arrow = t {
+            if !self.no_line_terminator() {
+                bail!("Unexpected line terminator before arrow");
+            }
+        }
+
         self.pop();
 
         eat_value!(match t {
             Reify::Arrow => {
-                // TODO: No LineTerminator allowed before arrow.
                 // TODO: This needs to know if the left was an "async(foo)" to decide if "await" is allowed.
                 self.reify_arrow(left)?
             }
-- 
2.43.0


From a15b6756ab11b2363858319cfd44b4d79ca06028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:53 +0000
Subject: [PATCH 36/58] fix: async functions are declarations and expressions,
 and only on one line

---
 src/parser/declarations.rs |  4 +++-
 src/parser/expressions.rs  | 15 ++-------------
 src/parser/functions.rs    | 20 +++-----------------
 src/parser/mod.rs          | 16 ++++++++++++++++
 4 files changed, 24 insertions(+), 31 deletions(-)

diff --git a/src/parser/declarations.rs b/src/parser/declarations.rs
index 086b1f9..656522e 100644
--- a/src/parser/declarations.rs
+++ b/src/parser/declarations.rs
@@ -17,11 +17,13 @@ where
             Const,
         }
 
+        let is_async_function = self.is_async_function();
+
         let t = match *self.token() {
             tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name }) => {
                 match &**name {
                     "class" => DeclType::Class,
-                    // TODO: Async
+                    "async" if is_async_function => DeclType::Function,
                     "function" => DeclType::Function,
                     "let" => DeclType::Let,
                     "const" => DeclType::Const,
diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 627b2a5..ea3066c 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -515,6 +515,7 @@ where
         }
 
         let flags = self.flags;
+        let is_async_function = self.is_async_function();
 
         let t = match *self.token() {
             tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name }) => {
@@ -524,7 +525,7 @@ where
                     "false" => PrimaryType::False,
                     "null" => PrimaryType::Null,
 
-                    // TODO: Ignores async functions
+                    "async" if is_async_function => PrimaryType::Function,
                     "function" => PrimaryType::Function,
                     "class" => PrimaryType::Class,
                     _ => {
@@ -587,18 +588,6 @@ where
         Ok(TokenResult::Some(()))
     }
     fn parse_identifier_reference_expression(&mut self) -> OptResult<()> {
-        if let Some(ahead) = self.ident_lookahead() {
-            match ahead.token {
-                tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name}) => {
-                    if name == "function" {
-                        return Ok(TokenResult::None);
-                    }
-                }
-                _ => {}
-            }
-
-        }
-
         try_value!(self.reference_identifier());
 
         Ok(TokenResult::Some(()))
diff --git a/src/parser/functions.rs b/src/parser/functions.rs
index db35498..45d9f52 100644
--- a/src/parser/functions.rs
+++ b/src/parser/functions.rs
@@ -1,5 +1,5 @@
 use tokenizer::{Tokenizer, tokens};
-use parser::{Parser, Flag, LookaheadResult};
+use parser::{Parser, Flag};
 use parser::utils::{OptResult, TokenResult};
 // use parser::utils;
 
@@ -8,14 +8,7 @@ where
     T: Tokenizer<'code>
 {
     pub fn parse_function_declaration(&mut self) -> OptResult<()> {
-        let maybe_async = if let Some(&LookaheadResult {
-            line: false,
-            token: tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name })
-        }) = self.ident_lookahead() {
-            name == "function"
-        } else {
-            false
-        };
+        let maybe_async = self.is_async_function();
 
         let star = if maybe_async {
             try_value!(self.keyword("async"));
@@ -57,14 +50,7 @@ where
     }
 
     pub fn parse_function_expression(&mut self) -> OptResult<()> {
-        let maybe_async = if let Some(&LookaheadResult {
-            line: false,
-            token: tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name })
-        }) = self.ident_lookahead() {
-            name == "function"
-        } else {
-            false
-        };
+        let maybe_async = self.is_async_function();
 
         let star = if maybe_async {
             try_value!(self.keyword("async"));
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 0afe774..502a136 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -324,6 +324,22 @@ impl<'code, T: Tokenizer<'code>> Parser<'code, T> {
         Some(&self.tokens[look_index])
     }
 
+    // True for "async" and "function" with no line terminator in between.
+    pub fn is_async_function(&mut self) -> bool {
+        let is_async = match *self.token() {
+            tokens::Token::IdentifierName(ref v) => v.name == "async",
+            _ => false,
+        };
+
+        is_async && match self.ident_lookahead() {
+            Some(&LookaheadResult {
+                line: false,
+                token: tokens::Token::IdentifierName(ref v)
+            }) => v.name == "function",
+            _ => false,
+        }
+    }
+
     pub fn punc(&mut self, punc: tokens::PunctuatorToken) -> TokenResult<tokens::PunctuatorToken> {
         let same = match *self.token() {
             tokens::Token::Punctuator(ref p) if *p == punc => { true }
-- 
2.43.0


From 149290b4b3054e6ff5b6b7a10cdb528cda91b8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:53 +0000
Subject: [PATCH 37/58] fix: await and yield contexts of arrow functions and
 accessors

---
 src/parser/classes.rs     | 23 +++++++++++++++--------
 src/parser/expressions.rs | 39 ++++++++++++++++++++++++++++++---------
 2 files changed, 45 insertions(+), 17 deletions(-)

diff --git a/src/parser/classes.rs b/src/parser/classes.rs
index d29fc37..a05f7d5 100644
--- a/src/parser/classes.rs
+++ b/src/parser/classes.rs
@@ -138,21 +138,28 @@ where
     pub fn parse_method_tail(&mut self, head: MethodHead) -> OptResult<()> {
         match head.kind {
             MethodKind::Get => {
-                try_value!(self.punc(tokens::PunctuatorToken::ParenOpen));
-                eat_value!(self.punc(tokens::PunctuatorToken::ParenClose));
+                let mut parser = self.without(Flag::Await);
+                let mut parser = parser.without(Flag::Yield);
 
-                eat_value!(self.parse_function_body()?);
+                try_value!(parser.punc(tokens::PunctuatorToken::ParenOpen));
+                eat_value!(parser.punc(tokens::PunctuatorToken::ParenClose));
+
+                eat_value!(parser.parse_function_body()?);
             }
             MethodKind::Set => {
-                try_value!(self.punc(tokens::PunctuatorToken::ParenOpen));
+                let mut parser = self.without(Flag::Await);
+                let mut parser = parser.without(Flag::Yield);
+
+                try_value!(parser.punc(tokens::PunctuatorToken::ParenOpen));
 
-                if let TokenResult::None = self.parse_binding_pattern()? {
-                    eat_value!(self.binding_identifier());
+                if let TokenResult::None = parser.parse_binding_pattern()? {
+                    eat_value!(parser.binding_identifier());
                 }
+                opt_value!(parser.with(Flag::In).parse_initializer()?);
 
-                eat_value!(self.punc(tokens::PunctuatorToken::ParenClose));
+                eat_value!(parser.punc(tokens::PunctuatorToken::ParenClose));
 
-                eat_value!(self.parse_function_body()?);
+                eat_value!(parser.parse_function_body()?);
             }
             MethodKind::None => {
                 if head.async {
diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index ea3066c..21a54fa 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -52,12 +52,24 @@ where
                 }
 
                 eat_value!(self.punc(tokens::PunctuatorToken::Arrow));
-                eat_value!(self.reify_arrow(())?);
+                eat_value!(self.reify_arrow((), true)?);
 
                 return Ok(TokenResult::Some(()));
             }
         }
 
+        let is_async = match *self.token() {
+            tokens::Token::IdentifierName(ref v) => v.name == "async",
+            _ => false,
+        };
+        let async_call = is_async && match self.ident_lookahead() {
+            Some(&LookaheadResult {
+                line: false,
+                token: tokens::Token::Punctuator(tokens::PunctuatorToken::ParenOpen)
+            }) => true,
+            _ => false,
+        };
+
         // TODO: Alternatively this can kick off the cover lookahead here then skip reify
 
         let left = try_value!(self.parse_conditional_expression()?);
@@ -108,8 +120,7 @@ where
 
         eat_value!(match t {
             Reify::Arrow => {
-                // TODO: This needs to know if the left was an "async(foo)" to decide if "await" is allowed.
-                self.reify_arrow(left)?
+                self.reify_arrow(left, async_call)?
             }
             Reify::Eq => self.reify_assignment(left, tokens::PunctuatorToken::Eq)?,
             Reify::StarEq => self.reify_assignment(left, tokens::PunctuatorToken::StarEq)?,
@@ -128,13 +139,23 @@ where
 
         Ok(TokenResult::Some(()))
     }
-    fn reify_arrow(&mut self, _left: ()) -> OptResult<()> {
-        self.expect_expression();
+    fn reify_arrow(&mut self, _left: (), is_async: bool) -> OptResult<()> {
+        let mut parser = self.without(Flag::Yield);
+        let mut parser = if is_async {
+            parser.with(Flag::Await)
+        } else {
+            parser.without(Flag::Await)
+        };
+
+        parser.expect_expression();
+
+        if let TokenResult::Some(_) = parser.parse_block_statement()? {
+            // Only a new statement can start with a slash after the body.
+            parser.expect_expression();
+            return Ok(TokenResult::Some(()));
+        }
 
-        Ok(try_sequence!(
-            self.parse_block_statement()?,
-            self.parse_assignment_expression()?,
-        ))
+        parser.parse_assignment_expression()
     }
     fn reify_assignment(&mut self, _left: (), _op: tokens::PunctuatorToken) -> OptResult<()> {
         self.expect_expression();
-- 
2.43.0


From d7a4cfb20a6886c36709bb540ee5c4b9ec241c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:32 +0000
Subject: [PATCH 38/58] fix: only identifiers are statement labels

---
 src/parser/statements.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 450d921..fc66798 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -1,6 +1,6 @@
 
 use tokenizer::{Tokenizer, tokens};
-use parser::{Parser, Flag, LookaheadResult};
+use parser::{Parser, Flag, LookaheadResult, is_binding_identifier};
 use parser::utils::{OptResult, TokenResult};
 
 // enum ForInit {
@@ -657,7 +657,13 @@ where
     }
 
     fn parse_labelled_statement(&mut self) -> OptResult<()> {
-        let is_label = if let Some(&LookaheadResult {
+        let flags = self.flags;
+        let is_identifier = match *self.token() {
+            tokens::Token::IdentifierName(ref v) => is_binding_identifier(&flags, &v.name),
+            _ => false,
+        };
+
+        let is_label = is_identifier && if let Some(&LookaheadResult {
             line: _line,
             token: tokens::Token::Punctuator(tokens::PunctuatorToken::Colon),
         }) = self.ident_lookahead() {
@@ -667,7 +673,7 @@ where
         };
 
         if is_label {
-            eat_value!(self.identifier());
+            eat_value!(self.label_identifier());
             eat_value!(self.punc(tokens::PunctuatorToken::Colon));
             eat_value!(self.parse_statement()?);
             Ok(TokenResult::Some(()))
-- 
2.43.0


From e24f1df02318d9ecd3f16b82907b9dfa777f2f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:32 +0000
Subject: [PATCH 39/58] fix: imported names must be binding identifiers

---
 src/parser/module.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/parser/module.rs b/src/parser/module.rs
index 7f5ce85..cf28ef3 100644
--- a/src/parser/module.rs
+++ b/src/parser/module.rs
@@ -1,5 +1,5 @@
 use tokenizer::{Tokenizer, tokens};
-use parser::{Parser, Flag};
+use parser::{Parser, Flag, is_binding_identifier};
 use parser::utils::{OptResult, TokenResult};
 
 impl<'code, T> Parser<'code, T>
@@ -46,13 +46,18 @@ where
     }
 
     fn parse_import_specifier(&mut self) -> OptResult<()> {
+        let flags = self.flags;
+        let is_binding = match *self.token() {
+            tokens::Token::IdentifierName(ref v) => is_binding_identifier(&flags, &v.name),
+            _ => false,
+        };
+
         try_value!(self.identifier());
 
         if let TokenResult::Some(_) = self.keyword("as") {
-            // TODO: Validate BindingIdentifier
-            eat_value!(self.identifier());
-        } else {
-            // TODO: Validate first is BindingIdentifier
+            eat_value!(self.binding_identifier());
+        } else if !is_binding {
+            bail!("Expected a binding identifier");
         }
 
         Ok(TokenResult::Some(()))
-- 
2.43.0


From 536efcedff7470eae0dd8cde83b90fd2cee85a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:33 +0000
Subject: [PATCH 40/58] fix: shorthand properties of object patterns must be
 binding identifiers

---
 src/parser/statements.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index fc66798..b42049a 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -198,10 +198,18 @@ where
     // foo: {bar} = 4
     // "foo": bar = 4
     fn parse_binding_property(&mut self) -> OptResult<()> {
+        let flags = self.flags;
+        let is_binding = match *self.token() {
+            tokens::Token::IdentifierName(ref v) => is_binding_identifier(&flags, &v.name),
+            _ => false,
+        };
+
         let _name = try_value!(self.parse_property_name()?);
 
         if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Colon) {
             eat_value!(self.parse_binding_element()?);
+        } else if !is_binding {
+            bail!("Expected a binding identifier");
         } else {
             opt_value!(self.with(Flag::In).parse_initializer()?);
         }
-- 
2.43.0


From 8722b56d5c7da06e3ff0eb43d90743b01b178142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:33 +0000
Subject: [PATCH 41/58] fix: computed property names are not optional

---
 src/parser/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index b42049a..530ce16 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -239,7 +239,7 @@ where
         try_value!(self.punc(tokens::PunctuatorToken::SquareOpen));
 
         self.expect_expression();
-        opt_value!(self.with(Flag::In).parse_assignment_expression()?);
+        eat_value!(self.with(Flag::In).parse_assignment_expression()?);
 
         eat_value!(self.punc(tokens::PunctuatorToken::SquareClose));
 
-- 
2.43.0


From 6d2938413e18a6997a192db41dae795db522af65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:34 +0000
Subject: [PATCH 42/58] fix: a template continuation does not start an
 expression

---
 src/parser/expressions.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 21a54fa..1cc292a 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -560,7 +560,8 @@ where
             }
             tokens::Token::StringLiteral(_) => PrimaryType::String,
             tokens::Token::NumericLiteral(_) => PrimaryType::Number,
-            tokens::Token::Template(_) => PrimaryType::Template,
+            tokens::Token::Template(tokens::TemplateToken { format: tokens::TemplateFormat::NoSubstitution, .. }) |
+            tokens::Token::Template(tokens::TemplateToken { format: tokens::TemplateFormat::Head, .. }) => PrimaryType::Template,
             tokens::Token::RegularExpressionLiteral(_) => PrimaryType::Regex,
             tokens::Token::Punctuator(tokens::PunctuatorToken::SquareOpen) => PrimaryType::Array,
             tokens::Token::Punctuator(tokens::PunctuatorToken::CurlyOpen) => PrimaryType::Object,
-- 
2.43.0


From 19db6e13f23b0137b72e3bbce0873d513aed5930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:35 +0000
Subject: [PATCH 43/58] fix: super must be followed by a property access or a
 call

---
 src/parser/expressions.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 1cc292a..df681fb 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -426,7 +426,7 @@ where
         } else {
             if let TokenResult::None = try_sequence!(
                 self.parse_primary_expression()?,
-                self.parse_super_expression()?,
+                self.parse_super_expression(allow_call)?,
             ) {
                 return Ok(TokenResult::None);
             }
@@ -510,9 +510,16 @@ where
         Ok(TokenResult::Some(()))
     }
 
-    fn parse_super_expression(&mut self) -> OptResult<()> {
+    fn parse_super_expression(&mut self, allow_call: bool) -> OptResult<()> {
         try_value!(self.keyword("super"));
 
+        match *self.token() {
+            tokens::Token::Punctuator(tokens::PunctuatorToken::Period) |
+            tokens::Token::Punctuator(tokens::PunctuatorToken::SquareOpen) => {}
+            tokens::Token::Punctuator(tokens::PunctuatorToken::ParenOpen) if allow_call => {}
+            _ => bail!("Unexpected super"),
+        }
+
         Ok(TokenResult::Some(()))
     }
 
-- 
2.43.0


From 6880d9bcf387b2f8221343d791527d2ab90348fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:35 +0000
Subject: [PATCH 44/58] fix: a unary operand of ** must be parenthesized

---
 src/parser/expressions.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index df681fb..a9d33f9 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -231,7 +231,6 @@ where
                 tokens::Token::Punctuator(tokens::PunctuatorToken::Star) => 10,
                 tokens::Token::Punctuator(tokens::PunctuatorToken::Percent) => 10,
                 tokens::Token::Punctuator(tokens::PunctuatorToken::Slash) => 10,
-                tokens::Token::Punctuator(tokens::PunctuatorToken::StarStar) => 11,
 
                 tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name }) => {
                     match &**name {
@@ -247,14 +246,10 @@ where
 
             self.expect_expression();
 
-
-            // if new_precedence === 12 {
-            //     self.parse_fancy()
-            // }
-            if new_precedence >= precedence && new_precedence != 11 {
+            if new_precedence >= precedence {
                 precedence = new_precedence;
 
-                eat_value!(self.parse_unary_expression()?);
+                eat_value!(self.parse_exponential_expression()?);
             } else {
                 eat_value!(self.parse_fancy(new_precedence)?);
             }
@@ -264,15 +259,28 @@ where
     }
 
     fn parse_exponential_expression(&mut self) -> OptResult<()> {
+        let is_unary = match *self.token() {
+            tokens::Token::Punctuator(tokens::PunctuatorToken::Plus) |
+            tokens::Token::Punctuator(tokens::PunctuatorToken::Minus) |
+            tokens::Token::Punctuator(tokens::PunctuatorToken::Tilde) |
+            tokens::Token::Punctuator(tokens::PunctuatorToken::Exclam) => true,
+            tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name }) => {
+                match &**name {
+                    "delete" | "void" | "typeof" | "await" => true,
+                    _ => false,
+                }
+            }
+            _ => false,
+        };
+
         try_value!(self.parse_unary_expression()?);
 
-        // TODO:
-        // if is_update_expression(expr) {
+        if !is_unary {
             if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::StarStar) {
                 self.expect_expression();
                 eat_value!(self.parse_exponential_expression()?);
             }
-        // }
+        }
 
         Ok(TokenResult::Some(()))
     }
-- 
2.43.0


From 10f7f9775a8c7cad41d9a012370d2f0983ac785f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:36 +0000
Subject: [PATCH 45/58] fix: expression statements do not start with function
 or class

---
 src/parser/statements.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 530ce16..3bbabbf 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -302,6 +302,14 @@ where
     }
 
     fn parse_expression_statement(&mut self) -> OptResult<()> {
+        let is_declaration = self.is_async_function() || match *self.token() {
+            tokens::Token::IdentifierName(ref v) => v.name == "function" || v.name == "class",
+            _ => false,
+        };
+        if is_declaration {
+            return Ok(TokenResult::None);
+        }
+
         try_value!(self.with(Flag::In).parse_expression()?);
 
         eat_value!(self.semicolon());
-- 
2.43.0


From 250ab601336a41bca81c7099c09a5bf21584c3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:37 +0000
Subject: [PATCH 46/58] fix: for heads

---
 src/parser/statements.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 3bbabbf..27e5706 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -443,7 +443,7 @@ where
         } else {
             let (maybe_decl, bracket) = if let Some(&LookaheadResult { line: _line, ref token }) = self.ident_lookahead() {
                 match *token {
-                    tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name }) => (name != "in" && name != "of", false),
+                    tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name }) => (name != "in", false),
                     tokens::Token::Punctuator(tokens::PunctuatorToken::SquareOpen) => (true, true),
                     tokens::Token::Punctuator(tokens::PunctuatorToken::CurlyOpen) => (true, false),
                     _ => (false, false),
@@ -474,7 +474,7 @@ where
                     if !pattern || initialized {
                         while let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Comma) {
                             multiple = true;
-                            eat_value!(self.without(Flag::In).parse_lexical_declarator(true)?);
+                            eat_value!(self.without(Flag::In).parse_lexical_declarator(false)?);
                         }
                     }
 
@@ -491,9 +491,9 @@ where
             } else {
                 // TODO: What to do here? If this is a LeftHandSideExpression,
                 // the for can be any type, otherwise it _must_ be 'ForStatement'
-                opt_value!(self.without(Flag::In).parse_expression()?);
+                let found = opt_value!(self.without(Flag::In).parse_expression()?).is_some();
 
-                ("expression", false, false, false, false, true /* tmp */)
+                ("expression", false, false, false, false, found /* tmp */)
             }
         };
 
@@ -543,7 +543,7 @@ where
             if maybe_x {
                 if let TokenResult::Some(_) = self.keyword("in") {
                     self.expect_expression();
-                    eat_value!(self.with(Flag::In).parse_assignment_expression()?);
+                    eat_value!(self.with(Flag::In).parse_expression()?);
                 } else if let TokenResult::Some(_) = self.keyword("of") {
                     self.expect_expression();
                     eat_value!(self.with(Flag::In).parse_assignment_expression()?);
-- 
2.43.0


From 465c6038a82b90cc6735cd417fde73db89d3c0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:02 +0000
Subject: [PATCH 47/58] fix: getters and setters are not generators

---
 src/parser/classes.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/classes.rs b/src/parser/classes.rs
index a05f7d5..219a396 100644
--- a/src/parser/classes.rs
+++ b/src/parser/classes.rs
@@ -89,7 +89,8 @@ where
             false
         };
 
-        let star = if async {
+        let accessor = if let MethodKind::None = kind { false } else { true };
+        let star = if async || accessor {
             None
         } else {
             opt_value!(self.punc(tokens::PunctuatorToken::Star))
-- 
2.43.0


From 63d8965237960180fa62e624d5d20da7f8739d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:03 +0000
Subject: [PATCH 48/58] fix: a method named async is not asynchronous

---
 src/parser/classes.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/classes.rs b/src/parser/classes.rs
index 219a396..fe97d66 100644
--- a/src/parser/classes.rs
+++ b/src/parser/classes.rs
@@ -79,7 +79,7 @@ where
             MethodKind::None
         };
 
-        let async = if let MethodKind::None = kind {
+        let mut async = if let MethodKind::None = kind {
             if let TokenResult::Some(_) = self.keyword("async") {
                 true
             } else {
@@ -102,11 +102,13 @@ where
                 // async fn method
             } else {
                 // method named  "async"
+                async = false;
             }
         } else {
             if async {
                 // has lineterminator
                 // method named  "async"
+                async = false;
             } else if let TokenResult::Some(_) = self.parse_property_name()? {
 
             } else {
-- 
2.43.0


From 9d02fcd3071cf985d4b00c75bc3a9ab211362f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:03 +0000
Subject: [PATCH 49/58] fix: object literals have no static members

---
 src/parser/expressions.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index a9d33f9..b07addb 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -708,8 +708,7 @@ where
             return Ok(TokenResult::Some(()));
         }
 
-        // TODO: Disallow static
-        let head = try_value!(self.parse_method_head(true)?);
+        let head = try_value!(self.parse_method_head(false)?);
 
         if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Colon) {
             self.expect_expression();
-- 
2.43.0


From 763d07d3c02b6bfeac55de097ab4fdf35e3eac99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:04 +0000
Subject: [PATCH 50/58] fix: only plain names are shorthand properties or take
 a value

---
 src/parser/classes.rs     | 24 ++++++++++++++++++++++--
 src/parser/expressions.rs | 10 ++++++----
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/parser/classes.rs b/src/parser/classes.rs
index fe97d66..0e4e536 100644
--- a/src/parser/classes.rs
+++ b/src/parser/classes.rs
@@ -1,5 +1,5 @@
 use tokenizer::{Tokenizer, tokens};
-use parser::{Parser, Flag};
+use parser::{Parser, Flag, is_binding_identifier};
 use parser::utils::{OptResult, TokenResult};
 
 impl<'code, T> Parser<'code, T>
@@ -96,22 +96,29 @@ where
             opt_value!(self.punc(tokens::PunctuatorToken::Star))
         };
 
-        let is_ident = false;
+        let flags = self.flags;
+        let mut is_ident = match *self.token() {
+            tokens::Token::IdentifierName(ref v) => is_binding_identifier(&flags, &v.name),
+            _ => false,
+        };
         let _name = if async && self.no_line_terminator() {
             if let TokenResult::Some(_) = self.parse_property_name()? {
                 // async fn method
             } else {
                 // method named  "async"
                 async = false;
+                is_ident = true;
             }
         } else {
             if async {
                 // has lineterminator
                 // method named  "async"
                 async = false;
+                is_ident = true;
             } else if let TokenResult::Some(_) = self.parse_property_name()? {
 
             } else {
+                is_ident = true;
                 match (&stat, &kind, &star) {
                     (_, _, &Some(_)) => bail!("expected method name"),
                     (_, &MethodKind::Get, _) => {
@@ -204,3 +211,16 @@ pub struct MethodHead {
     generator: bool,
     async: bool,
 }
+impl MethodHead {
+    // True if there is nothing but a name.
+    pub fn is_plain(&self) -> bool {
+        match self.kind {
+            MethodKind::None => !self.generator && !self.async,
+            _ => false,
+        }
+    }
+    // True if the name is also usable as an identifier reference.
+    pub fn is_ident(&self) -> bool {
+        self.is_ident
+    }
+}
diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index b07addb..b0ba64a 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -710,13 +710,15 @@ where
 
         let head = try_value!(self.parse_method_head(false)?);
 
-        if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Colon) {
+        if !head.is_plain() {
+            eat_value!(self.parse_method_tail(head)?);
+        } else if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Colon) {
             self.expect_expression();
             eat_value!(self.parse_assignment_expression()?);
-        } else {
-            // TODO: This needs to handle singlename prop access
-            // eat_value!(self.parse_method_tail(head)?);
+        } else if head.is_ident() {
             opt_value!(self.parse_method_tail(head)?);
+        } else {
+            eat_value!(self.parse_method_tail(head)?);
         }
 
         Ok(TokenResult::Some(()))
-- 
2.43.0


From 52d78efb1b1511ac7b81fd4cf9abb84f1c654cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:05 +0000
Subject: [PATCH 51/58] fix: accept shorthand properties with a default value
 for object patterns

---
 src/parser/expressions.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index b0ba64a..9fe356f 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -716,6 +716,10 @@ where
             self.expect_expression();
             eat_value!(self.parse_assignment_expression()?);
         } else if head.is_ident() {
+            // An initializer is only valid if this turns out to be a pattern.
+            if let TokenResult::Some(_) = self.parse_initializer()? {
+                return Ok(TokenResult::Some(()));
+            }
             opt_value!(self.parse_method_tail(head)?);
         } else {
             eat_value!(self.parse_method_tail(head)?);
-- 
2.43.0


From 61c113ea4a47576a78201d27ebb2bf334623c508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:20 +0000
Subject: [PATCH 52/58] fix: locally exported names must be identifier
 references

---
 src/parser/module.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/parser/module.rs b/src/parser/module.rs
index cf28ef3..e16bd80 100644
--- a/src/parser/module.rs
+++ b/src/parser/module.rs
@@ -90,7 +90,9 @@ where
             } else {
                 eat_value!(self.punc(tokens::PunctuatorToken::CurlyOpen));
 
-                while let TokenResult::Some(_) = self.parse_export_specifier()? {
+                let mut local = true;
+                while let TokenResult::Some(is_reference) = self.parse_export_specifier()? {
+                    local = local && is_reference;
                     if let TokenResult::None = self.punc(tokens::PunctuatorToken::Comma) {
                         break;
                     }
@@ -100,8 +102,8 @@ where
 
                 if let TokenResult::Some(_) = self.keyword("from") {
                     eat_value!(self.string());
-                } else {
-                    // TODO: Validate BindingIdentifier for local specifiers
+                } else if !local {
+                    bail!("Expected an identifier reference");
                 }
             }
 
@@ -112,14 +114,20 @@ where
         Ok(TokenResult::Some(()))
     }
 
-    fn parse_export_specifier(&mut self) -> OptResult<()> {
+    fn parse_export_specifier(&mut self) -> OptResult<bool> {
+        let flags = self.flags;
+        let is_reference = match *self.token() {
+            tokens::Token::IdentifierName(ref v) => is_binding_identifier(&flags, &v.name),
+            _ => false,
+        };
+
         try_value!(self.identifier());
 
         if let TokenResult::Some(_) = self.keyword("as") {
             eat_value!(self.identifier());
         }
 
-        Ok(TokenResult::Some(()))
+        Ok(TokenResult::Some(is_reference))
     }
 }
 
-- 
2.43.0


From 3084cb0b7c56108541a50e9aaf2edcf4dbfc3f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:37 +0000
Subject: [PATCH 53/58] fix: object literals have no elisions

---
 src/parser/expressions.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 9fe356f..3f73ef8 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -687,7 +687,8 @@ where
         try_value!(parser.punc(tokens::PunctuatorToken::CurlyOpen));
 
         loop {
-            if let TokenResult::Some(_) = parser.parse_object_property()? {
+            if let TokenResult::None = parser.parse_object_property()? {
+                break;
             }
 
             if let TokenResult::None = parser.punc(tokens::PunctuatorToken::Comma) {
-- 
2.43.0


From ab85ffd64fd893c347298850a23e40e6a4b0faa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:31 +0000
Subject: [PATCH 54/58] hook: cfg(jsparse_verif_parser) shows the parser's
 state between productions

---
 src/parser/mod.rs | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 502a136..3339559 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -588,6 +588,43 @@ fn is_binding_identifier(flags: &GrammarFlags, s: &str) -> bool {
     }
 }
 
+// Verification builds (RUSTFLAGS="--cfg jsparse_verif_parser") can look at the parser's state between two productions.
+#[cfg(jsparse_verif_parser)]
+impl<'code, T: Tokenizer<'code>> Parser<'code, T> {
+    pub fn verif_new<I: IntoTokenizer<'code, Item = T>>(t: I) -> Self {
+        Parser {
+            tok: t.into_tokenizer(),
+            hint: Default::default(),
+            flags: Default::default(),
+            flags_stack: vec![],
+
+            tokens: Default::default(),
+            index: 0,
+            count: 0,
+        }
+    }
+
+    // The grammar context, the number of saved contexts, and the number of buffered tokens.
+    pub fn verif_state(&self) -> ([bool; 8], usize, u8) {
+        let f = &self.flags;
+        let flags = [
+            f.allow_in, f.allow_yield, f.allow_await, f.allow_return,
+            f.allow_default, f.is_module, f.is_strict, f.expect_template,
+        ];
+        (flags, self.flags_stack.len(), self.count)
+    }
+
+    pub fn verif_token(&mut self) -> (bool, tokens::Token<'code>) {
+        self.token_and_line();
+        let result = &self.tokens[self.index as usize];
+        (result.line, result.token.clone())
+    }
+
+    pub fn verif_lookahead(&mut self) -> Option<(bool, tokens::Token)> {
+        self.ident_lookahead().map(|result| (result.line, result.token.clone()))
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 9845e6452b7130562962b29bdc9fe2fcc8996d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:36 +0000
Subject: [PATCH 55/58] fix: the null escape must not be followed by a digit

---
 src/tokenizer/slice.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index a46fcd3..539f496 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -749,6 +749,9 @@ fn tok_str<'code, 'tok>(t: u8, code: &'code str, token: &mut tokens::Token<'code
                     continue;
                 }
                 b'0' => {
+                    if let Some(&b'0'...b'9') = bytes.get(i + 1) {
+                        panic!("numbers not allowed");
+                    }
                     in_escape = 0;
                     continue;
                 }
-- 
2.43.0


From ad7d76b19da7af36bb6668f069609942883d579b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:47 +0000
Subject: [PATCH 56/58] fix: a slash after an export list starts a regex

---
 src/parser/module.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/module.rs b/src/parser/module.rs
index e16bd80..c06d37e 100644
--- a/src/parser/module.rs
+++ b/src/parser/module.rs
@@ -100,6 +100,7 @@ where
 
                 eat_value!(self.punc(tokens::PunctuatorToken::CurlyClose));
 
+                self.expect_expression();
                 if let TokenResult::Some(_) = self.keyword("from") {
                     eat_value!(self.string());
                 } else if !local {
-- 
2.43.0


From d6418aafe5f8de2665d12077369756605610e4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:48 +0000
Subject: [PATCH 57/58] fix: only what is inside of braces suspends a template
 continuation

---
 src/parser/classes.rs     |  3 ++-
 src/parser/expressions.rs |  3 ++-
 src/parser/statements.rs  | 10 ++++++----
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/parser/classes.rs b/src/parser/classes.rs
index 0e4e536..41d815a 100644
--- a/src/parser/classes.rs
+++ b/src/parser/classes.rs
@@ -41,8 +41,9 @@ where
     }
 
     fn parse_class_body(&mut self) -> OptResult<()> {
+        eat_value!(self.punc(tokens::PunctuatorToken::CurlyOpen));
+
         let mut parser = self.without(Flag::Template);
-        eat_value!(parser.punc(tokens::PunctuatorToken::CurlyOpen));
 
         while let TokenResult::Some(_) = parser.parse_class_item()? {
         }
diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 3f73ef8..5b1031b 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -682,9 +682,10 @@ where
         Ok(TokenResult::Some(()))
     }
     fn parse_object_literal_expression(&mut self) -> OptResult<()> {
+        try_value!(self.punc(tokens::PunctuatorToken::CurlyOpen));
+
         let mut parser = self.without(Flag::Template);
         let mut parser = parser.with(Flag::In);
-        try_value!(parser.punc(tokens::PunctuatorToken::CurlyOpen));
 
         loop {
             if let TokenResult::None = parser.parse_object_property()? {
diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 27e5706..78442d6 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -125,10 +125,11 @@ where
     }
 
     pub fn parse_block_statement(&mut self) -> OptResult<()> {
+        try_value!(self.punc(tokens::PunctuatorToken::CurlyOpen));
+
         let mut parser = self.without(Flag::Template);
         let mut parser = parser.with(Flag::In);
         let mut parser = parser.without(Flag::Default);
-        try_value!(parser.punc(tokens::PunctuatorToken::CurlyOpen));
 
         let mut body = vec![];
         while let TokenResult::Some(item) = parser.parse_statement_list_item()? {
@@ -173,9 +174,9 @@ where
     }
 
     pub fn parse_object_binding_pattern(&mut self) -> OptResult<()> {
-        let mut parser = self.without(Flag::Template);
+        try_value!(self.punc(tokens::PunctuatorToken::CurlyOpen));
 
-        try_value!(parser.punc(tokens::PunctuatorToken::CurlyOpen));
+        let mut parser = self.without(Flag::Template);
 
         loop {
             if let TokenResult::Some(_) = parser.parse_binding_property()? {
@@ -571,8 +572,9 @@ where
         eat_value!(self.punc(tokens::PunctuatorToken::ParenClose));
 
 
+        eat_value!(self.punc(tokens::PunctuatorToken::CurlyOpen));
+
         let mut parser = self.without(Flag::Template);
-        eat_value!(parser.punc(tokens::PunctuatorToken::CurlyOpen));
 
         let mut body = vec![];
         let mut has_default = false;
-- 
2.43.0


From 6d1db1484fcb7176a3c6c798dcf0ed9bc3a0215c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:01 +0000
Subject: [PATCH 58/58] fix: counting the digits of a long unicode escape in a
 string overflowed an i32

---
 src/tokenizer/slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 539f496..9a90601 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -719,7 +719,7 @@ fn tok_str<'code, 'tok>(t: u8, code: &'code str, token: &mut tokens::Token<'code
     let start = index;
     let mut end = start;
 
-    let mut in_escape = 0;
+    let mut in_escape = 0usize;
     let mut in_hex_escape = false;
     let mut in_unicode_escape = false;
     let mut in_long_unicode_escape = false;
-- 
2.43.0

