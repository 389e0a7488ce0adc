From a31921ac638cff52bfbcde5645893252f120839a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:10 +0000
Subject: [PATCH 01/29] fix: end the arrays of a record with an empty block

Avro readers take what follows a non-empty array as another block of it,
so no record with headers or assertions could be read back.
---
 lib/src/writer.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/src/writer.rs b/lib/src/writer.rs
index f2b191b..da082dc 100644
--- a/lib/src/writer.rs
+++ b/lib/src/writer.rs
@@ -92,7 +92,9 @@ impl<W: Write> Writer<W> {
                 encode_long(2, &mut data);
                 encode_bytes(header.name.as_bytes(), &mut data);
                 encode_bytes(header.value.as_bytes(), &mut data);
+                encode_long(0, &mut data);
             }
+            encode_array_end(!record.request.headers.is_empty(), &mut data);
             encode_bytes(record.request.body.as_bytes(), &mut data);
             encode_bytes(record.response.version.as_bytes(), &mut data);
             encode_long(record.response.status as i64, &mut data);
@@ -102,7 +104,9 @@ impl<W: Write> Writer<W> {
                 encode_long(2, &mut data);
                 encode_bytes(header.name.as_bytes(), &mut data);
                 encode_bytes(header.value.as_bytes(), &mut data);
+                encode_long(0, &mut data);
             }
+            encode_array_end(!record.response.headers.is_empty(), &mut data);
             encode_bytes(record.response.body.as_bytes(), &mut data);
             encode_long(record.asserts.len() as i64, &mut data);
             for assert in record.asserts.iter() {
@@ -112,6 +116,7 @@ impl<W: Write> Writer<W> {
                 encode_bytes(assert.right.as_bytes(), &mut data);
                 encode_bool(assert.result, &mut data);
             }
+            encode_array_end(!record.asserts.is_empty(), &mut data);
             encode_bytes(record.error.as_bytes(), &mut data);
         }
         let mut buffer = Vec::new();
@@ -136,6 +141,13 @@ fn header() -> Vec<u8> {
     header
 }
 
+// an array is a series of blocks ended by an empty one, the count of an empty array already is that block
+fn encode_array_end(has_items: bool, buffer: &mut Vec<u8>) {
+    if has_items {
+        encode_long(0, buffer);
+    }
+}
+
 fn encode_bool(b: bool, buffer: &mut Vec<u8>) {
     buffer.push(u8::from(b));
 }
-- 
2.43.0


From ec3091329973c5c3d9b8015b5467619b58352eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:32 +0000
Subject: [PATCH 02/29] fix: write a block of records completely

Write::write may take only part of the buffer, what was left over was
dropped and everything behind it in the file became unreadable.
---
 lib/src/writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/writer.rs b/lib/src/writer.rs
index da082dc..91f69e0 100644
--- a/lib/src/writer.rs
+++ b/lib/src/writer.rs
@@ -64,7 +64,7 @@ pub struct Writer<W> {
 
 impl<W: Write> Writer<W> {
     pub fn new(mut w: W) -> Self {
-        let _ = w.write(&header());
+        let _ = w.write_all(&header());
         Writer { w }
     }
 
@@ -124,7 +124,7 @@ impl<W: Write> Writer<W> {
         encode_long(data.len() as i64, &mut buffer);
         buffer.extend_from_slice(&data);
         buffer.extend_from_slice(MARKER);
-        let _ = self.w.write(&buffer);
+        let _ = self.w.write_all(&buffer);
     }
 }
 
-- 
2.43.0


From 615c6cfd4c2aff343161b16ac4248c74642faaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:34 +0000
Subject: [PATCH 03/29] fix: do not write records behind an incomplete block

After a failed write the file ends with a part of a block or of the
header, a later block behind it makes the file corrupt instead of short.
---
 lib/src/writer.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib/src/writer.rs b/lib/src/writer.rs
index 91f69e0..ffa67f0 100644
--- a/lib/src/writer.rs
+++ b/lib/src/writer.rs
@@ -60,15 +60,20 @@ const MARKER: &[u8; 16] = b"afilesyncmarker\x02";
 
 pub struct Writer<W> {
     w: W,
+    failed: bool,
 }
 
 impl<W: Write> Writer<W> {
     pub fn new(mut w: W) -> Self {
-        let _ = w.write_all(&header());
-        Writer { w }
+        let failed = w.write_all(&header()).is_err();
+        Writer { w, failed }
     }
 
     pub fn write(&mut self, records: &[Record], name: &str, thread: u32, number: u32) {
+        // a failed write may leave a part of a block, what comes behind it can not be read
+        if self.failed {
+            return;
+        }
         let mut data = Vec::new();
         for (order, record) in records.iter().enumerate() {
             encode_bytes(name.as_bytes(), &mut data);
@@ -124,7 +129,7 @@ impl<W: Write> Writer<W> {
         encode_long(data.len() as i64, &mut buffer);
         buffer.extend_from_slice(&data);
         buffer.extend_from_slice(MARKER);
-        let _ = self.w.write_all(&buffer);
+        self.failed = self.w.write_all(&buffer).is_err();
     }
 }
 
-- 
2.43.0


From 9d387dc5de984936953ecd65e21f94ef1cdee81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:35 +0000
Subject: [PATCH 04/29] fix: do not write blocks without records

An iteration that made no request wrote an empty block, readers take it
for the end of the file and lose the records of all later iterations.
---
 lib/src/writer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/writer.rs b/lib/src/writer.rs
index ffa67f0..98d1ad3 100644
--- a/lib/src/writer.rs
+++ b/lib/src/writer.rs
@@ -74,6 +74,10 @@ impl<W: Write> Writer<W> {
         if self.failed {
             return;
         }
+        // readers stop at a block without records
+        if records.is_empty() {
+            return;
+        }
         let mut data = Vec::new();
         for (order, record) in records.iter().enumerate() {
             encode_bytes(name.as_bytes(), &mut data);
-- 
2.43.0


From 0d9928d94634fa85199b461a1325fccf4df54956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:37 +0000
Subject: [PATCH 05/29] fix: report a request that failed as FAIL

A request without a response passed if its assertions happened to hold
for the default response, or if it had none.
---
 lib/src/context.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/context.rs b/lib/src/context.rs
index 7059e40..4833d9a 100644
--- a/lib/src/context.rs
+++ b/lib/src/context.rs
@@ -101,7 +101,7 @@ impl Display for Assert {
 impl Display for Record {
     fn fmt(&self, f: &mut Formatter<'_>) -> Result {
         writeln!(f, "=== TEST  {}", self.name)?;
-        let mut flag = true;
+        let mut flag = self.error.is_empty();
         for assert in self.asserts.iter() {
             flag &= assert.result;
             writeln!(
-- 
2.43.0


From 7544677a221b0da9c5d74d8d5077f7c0ab95462a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:56 +0000
Subject: [PATCH 06/29] fix: report the requests of an iteration that ends with
 an error

When a test run by name failed half way, the requests it had already made
were neither printed nor recorded nor counted.
---
 cmd/src/command.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cmd/src/command.rs b/cmd/src/command.rs
index 3f67921..5dffebf 100644
--- a/cmd/src/command.rs
+++ b/cmd/src/command.rs
@@ -93,12 +93,9 @@ pub fn test(
                         handles.push(std::thread::spawn(move || {
                             let mut number = u32::default();
                             while continuous.load(Ordering::Relaxed) && number < maximun {
-                                match eval_block(test.as_ref(), &mut context) {
-                                    Ok(_) => {}
-                                    Err(error) => {
-                                        println!("{}", error);
-                                        break;
-                                    }
+                                let result = eval_block(test.as_ref(), &mut context);
+                                if let Err(error) = &result {
+                                    println!("{}", error);
                                 }
                                 let records = context.records();
                                 records.iter().for_each(|record| println!("{}", record));
@@ -106,6 +103,9 @@ pub fn test(
                                     writer.write(&records, &name, thread, number)
                                 }
                                 stat.then(|| sender.send(records));
+                                if result.is_err() {
+                                    break;
+                                }
                                 number += 1;
                             }
                         }));
-- 
2.43.0


From f611bfff9c1d7b83d6fadf18f4a1c5215257c8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:58 +0000
Subject: [PATCH 07/29] fix: run as many iterations as requested

The remainder of number / threads was dropped, 10 iterations on 4 threads
ran only 8 and 3 on 4 none. Zero threads paniced with a division by zero.
---
 cmd/src/command.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/src/command.rs b/cmd/src/command.rs
index 5dffebf..fb1f7f7 100644
--- a/cmd/src/command.rs
+++ b/cmd/src/command.rs
@@ -82,8 +82,9 @@ pub fn test(
                     let name = Arc::new(name);
                     let test = Arc::new(test);
                     let continuous = Arc::new(AtomicBool::new(true));
-                    let maximun = number / threads;
                     for thread in 0..threads {
+                        // the first threads run what the division leaves over
+                        let maximun = number / threads + u32::from(thread < number % threads);
                         let sender = sender.to_owned();
                         let continuous = continuous.to_owned();
                         let name = name.to_owned();
-- 
2.43.0


From cecaaf0d6acd86d192794fae742448f04950ee6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:00 +0000
Subject: [PATCH 08/29] fix: leave the repl at the end of the input

At the end of the input, or when it could not be read any more, the repl
spun forever instead of ending.
---
 cmd/src/command.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/cmd/src/command.rs b/cmd/src/command.rs
index fb1f7f7..e41cc27 100644
--- a/cmd/src/command.rs
+++ b/cmd/src/command.rs
@@ -17,14 +17,23 @@ pub fn repl() {
     let mut lines = stdin().lock().lines();
     let mut context = Context::new();
     loop {
-        if let Some(Ok(text)) = lines.next() {
-            if text == "exit" {
-                break;
+        match lines.next() {
+            Some(Ok(text)) => {
+                if text == "exit" {
+                    break;
+                }
+                if text.trim().is_empty() {
+                    continue;
+                }
+                context = eval(text, Some(context));
             }
-            if text.trim().is_empty() {
-                continue;
+            // a line that is not text is skipped as a whole
+            Some(Err(error)) if error.kind() == std::io::ErrorKind::InvalidData => println!("{}", error),
+            Some(Err(error)) => {
+                println!("{}", error);
+                break;
             }
-            context = eval(text, Some(context));
+            None => break,
         }
     }
 }
-- 
2.43.0


From 29bdcd8b3b357c5a6a9823f86c9dffd64073fb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:01 +0000
Subject: [PATCH 09/29] fix: handle the interrupt signal before the threads
 start

An interrupt that arrived while the threads were being started killed the
process instead of letting the running iterations finish.
---
 cmd/src/command.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/src/command.rs b/cmd/src/command.rs
index e41cc27..6e0131a 100644
--- a/cmd/src/command.rs
+++ b/cmd/src/command.rs
@@ -91,6 +91,8 @@ pub fn test(
                     let name = Arc::new(name);
                     let test = Arc::new(test);
                     let continuous = Arc::new(AtomicBool::new(true));
+                    // handle interrupt signal
+                    handle_interrupt(continuous.clone());
                     for thread in 0..threads {
                         // the first threads run what the division leaves over
                         let maximun = number / threads + u32::from(thread < number % threads);
@@ -120,8 +122,6 @@ pub fn test(
                             }
                         }));
                     }
-                    // handle interrupt signal
-                    handle_interrupt(continuous.clone());
                     // completed after thread sleep duration
                     std::thread::spawn(move || {
                         std::thread::sleep(duration);
-- 
2.43.0


From a4364a684f45bd0c86a3bad1967197f8e66260fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:05 +0000
Subject: [PATCH 10/29] fix: integer arithmetic reports an error instead of a
 panic

A division by zero, an overflow or a too large shift ended the thread
without a word, and a value of a response could cause it.
---
 lib/src/evaluator.rs |  5 ++++-
 lib/src/value.rs     | 28 +++++++++++++++++++++-------
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/lib/src/evaluator.rs b/lib/src/evaluator.rs
index f638c12..72e4734 100644
--- a/lib/src/evaluator.rs
+++ b/lib/src/evaluator.rs
@@ -117,7 +117,10 @@ fn eval_unary_expr(token: &Token, right: &Expr, context: &mut Context) -> Result
         (Kind::Not, Value::Boolean(false)) | (Kind::Not, Value::Null) => Ok(Value::Boolean(true)),
         (Kind::Not, Value::Integer(integer)) => Ok(Value::Integer(!integer)),
         (Kind::Not, _) => Ok(Value::Boolean(false)),
-        (Kind::Sub, Value::Integer(integer)) => Ok(Value::Integer(-integer)),
+        (Kind::Sub, Value::Integer(integer)) => match integer.checked_neg() {
+            Some(integer) => Ok(Value::Integer(integer)),
+            None => Err(format!("integer overflow: -{}", integer)),
+        },
         (Kind::Sub, Value::Float(float)) => Ok(Value::Float(-float)),
         (_, right) => Err(format!("unknown operator: {}{:?}", token, right)),
     }
diff --git a/lib/src/value.rs b/lib/src/value.rs
index f3b8d00..b7a3ef8 100644
--- a/lib/src/value.rs
+++ b/lib/src/value.rs
@@ -38,11 +38,19 @@ impl Display for Value {
     }
 }
 
+fn integer(value: Option<i64>, left: i64, operator: &str, right: i64) -> std::result::Result<Value, String> {
+    match value {
+        Some(integer) => Ok(Value::Integer(integer)),
+        None if right == 0 && (operator == "/" || operator == "%") => Err(format!("division by zero: {} {} {}", left, operator, right)),
+        None => Err(format!("integer overflow: {} {} {}", left, operator, right)),
+    }
+}
+
 impl Add for Value {
     type Output = std::result::Result<Self, String>;
     fn add(self, other: Self) -> Self::Output {
         match (self, other) {
-            (Value::Integer(left), Value::Integer(right)) => Ok(Value::Integer(left + right)),
+            (Value::Integer(left), Value::Integer(right)) => integer(left.checked_add(right), left, "+", right),
             (Value::Float(left), Value::Float(right)) => Ok(Value::Float(left + right)),
             (Value::Integer(left), Value::Float(right)) => Ok(Value::Float(left as f64 + right)),
             (Value::Float(left), Value::Integer(right)) => Ok(Value::Float(left + right as f64)),
@@ -56,7 +64,7 @@ impl Sub for Value {
     type Output = std::result::Result<Self, String>;
     fn sub(self, other: Self) -> Self::Output {
         match (self, other) {
-            (Value::Integer(left), Value::Integer(right)) => Ok(Value::Integer(left - right)),
+            (Value::Integer(left), Value::Integer(right)) => integer(left.checked_sub(right), left, "-", right),
             (Value::Float(left), Value::Float(right)) => Ok(Value::Float(left - right)),
             (Value::Integer(left), Value::Float(right)) => Ok(Value::Float(left as f64 - right)),
             (Value::Float(left), Value::Integer(right)) => Ok(Value::Float(left - right as f64)),
@@ -69,7 +77,7 @@ impl Mul for Value {
     type Output = std::result::Result<Self, String>;
     fn mul(self, other: Self) -> Self::Output {
         match (self, other) {
-            (Value::Integer(left), Value::Integer(right)) => Ok(Value::Integer(left * right)),
+            (Value::Integer(left), Value::Integer(right)) => integer(left.checked_mul(right), left, "*", right),
             (Value::Float(left), Value::Float(right)) => Ok(Value::Float(left * right)),
             (Value::Integer(left), Value::Float(right)) => Ok(Value::Float(left as f64 * right)),
             (Value::Float(left), Value::Integer(right)) => Ok(Value::Float(left * right as f64)),
@@ -82,7 +90,7 @@ impl Div for Value {
     type Output = std::result::Result<Self, String>;
     fn div(self, other: Self) -> Self::Output {
         match (self, other) {
-            (Value::Integer(left), Value::Integer(right)) => Ok(Value::Integer(left / right)),
+            (Value::Integer(left), Value::Integer(right)) => integer(left.checked_div(right), left, "/", right),
             (Value::Float(left), Value::Float(right)) => Ok(Value::Float(left / right)),
             (Value::Integer(left), Value::Float(right)) => Ok(Value::Float(left as f64 / right)),
             (Value::Float(left), Value::Integer(right)) => Ok(Value::Float(left / right as f64)),
@@ -95,7 +103,7 @@ impl Rem for Value {
     type Output = std::result::Result<Self, String>;
     fn rem(self, other: Self) -> Self::Output {
         match (self, other) {
-            (Value::Integer(left), Value::Integer(right)) => Ok(Value::Integer(left % right)),
+            (Value::Integer(left), Value::Integer(right)) => integer(left.checked_rem(right), left, "%", right),
             (Value::Float(left), Value::Float(right)) => Ok(Value::Float(left % right)),
             (Value::Integer(left), Value::Float(right)) => Ok(Value::Float(left as f64 % right)),
             (Value::Float(left), Value::Integer(right)) => Ok(Value::Float(left % right as f64)),
@@ -138,7 +146,10 @@ impl Shl for Value {
     type Output = std::result::Result<Self, String>;
     fn shl(self, other: Self) -> Self::Output {
         match (self, other) {
-            (Value::Integer(left), Value::Integer(right)) => Ok(Value::Integer(left << right)),
+            (Value::Integer(left), Value::Integer(right)) => {
+                let value = u32::try_from(right).ok().and_then(|right| left.checked_shl(right));
+                integer(value, left, "<<", right)
+            }
             (left, right) => Err(format!("type mismatch: {} << {}", left, right)),
         }
     }
@@ -148,7 +159,10 @@ impl Shr for Value {
     type Output = std::result::Result<Self, String>;
     fn shr(self, other: Self) -> Self::Output {
         match (self, other) {
-            (Value::Integer(left), Value::Integer(right)) => Ok(Value::Integer(left >> right)),
+            (Value::Integer(left), Value::Integer(right)) => {
+                let value = u32::try_from(right).ok().and_then(|right| left.checked_shr(right));
+                integer(value, left, ">>", right)
+            }
             (left, right) => Err(format!("type mismatch: {} >> {}", left, right)),
         }
     }
-- 
2.43.0


From 8c47555c2ddee64228484f6f53eaa260a7875d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:07 +0000
Subject: [PATCH 11/29] fix: parse an expr followed by a token that is no
 binary operator

The parser never ended when an expr was followed by '!', so a response
with the body 'Hello world!' kept its thread busy for ever.
---
 lib/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parser.rs b/lib/src/parser.rs
index bd473eb..38944e7 100644
--- a/lib/src/parser.rs
+++ b/lib/src/parser.rs
@@ -142,7 +142,7 @@ impl Parser {
                     self.next_token();
                     self.parse_field_expr(left)?
                 }
-                _ => left,
+                _ => break,
             };
         }
         Ok(left)
-- 
2.43.0


From 7e8de176b6efcd11cf610d32eee912762eb18267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:22 +0000
Subject: [PATCH 12/29] fix: do not parse an expr that is nested too deep

A response body with some thousand opening brackets, or a long chain of
operators like a base64 text, overflowed the stack and killed the process.
---
 lib/src/parser.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/lib/src/parser.rs b/lib/src/parser.rs
index 38944e7..3ccd4bb 100644
--- a/lib/src/parser.rs
+++ b/lib/src/parser.rs
@@ -13,13 +13,30 @@ pub struct Source {
 pub struct Parser {
     tokens: Vec<Token>,
     index: usize,
+    // number of exprs around the current one
+    depth: usize,
+    // height of the highest expr parsed so far inside the current one
+    height: usize,
 }
 
+// parse, eval, display and drop recurse into an expr, a higher one would overflow the stack of a thread
+const MAX_HEIGHT: usize = 256;
+
 impl Parser {
     pub fn new(text: &str) -> Parser {
         Parser {
             tokens: lexer::segment(text),
             index: usize::MIN,
+            depth: usize::MIN,
+            height: usize::MIN,
+        }
+    }
+
+    fn check_height(&self) -> Result<(), String> {
+        if self.depth + self.height > MAX_HEIGHT {
+            Err(format!("expr nested too deep: {}", self.current_token()))
+        } else {
+            Ok(())
         }
     }
 
@@ -90,6 +107,9 @@ impl Parser {
     }
 
     fn parse_expr(&mut self, mut precedence: u8) -> Result<Expr, String> {
+        let height = std::mem::take(&mut self.height);
+        self.depth += 1;
+        self.check_height()?;
         let mut left = match self.current_token().kind {
             Kind::Ident => self.parse_ident_expr(),
             Kind::Integer => self.parse_integer_literal()?,
@@ -144,7 +164,11 @@ impl Parser {
                 }
                 _ => break,
             };
+            self.height += 1;
+            self.check_height()?;
         }
+        self.depth -= 1;
+        self.height = height.max(self.height + 1);
         Ok(left)
     }
 
-- 
2.43.0


From a933728ce5472a39a227a03769f90024354f9730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:59 +0000
Subject: [PATCH 13/29] fix: keep the whole reason phrase of a response

Only its first word was kept, 404 Not Found had the reason Not.
---
 lib/src/http/response.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/http/response.rs b/lib/src/http/response.rs
index 2e9224d..96a6ec8 100644
--- a/lib/src/http/response.rs
+++ b/lib/src/http/response.rs
@@ -37,7 +37,7 @@ impl Response {
         let mut splits = line.split_whitespace();
         let version = parse::<String>(splits.next());
         let status = parse::<u16>(splits.next());
-        let reason = parse::<String>(splits.next());
+        let reason = splits.collect::<Vec<&str>>().join(" ");
         // headers
         let mut headers = Headers::default();
         loop {
-- 
2.43.0


From 3c68d7373c75674e84e0ed6767fd15198f1a7f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:01 +0000
Subject: [PATCH 14/29] fix: fail a request whose response ends within its head

A connection closed before or within the head of the response was taken
for a complete response, with status 0 when not even a byte had come.
---
 lib/src/http/response.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/src/http/response.rs b/lib/src/http/response.rs
index 96a6ec8..2fb8b55 100644
--- a/lib/src/http/response.rs
+++ b/lib/src/http/response.rs
@@ -33,7 +33,7 @@ impl Response {
             f()
         }
         let mut line = String::from_utf8(buf).unwrap_or_default();
-        reader.read_line(&mut line).map_err(Error::ReadFailed)?;
+        read_line(&mut reader, &mut line)?;
         let mut splits = line.split_whitespace();
         let version = parse::<String>(splits.next());
         let status = parse::<u16>(splits.next());
@@ -42,7 +42,7 @@ impl Response {
         let mut headers = Headers::default();
         loop {
             let mut line = String::new();
-            reader.read_line(&mut line).map_err(Error::ReadFailed)?;
+            read_line(&mut reader, &mut line)?;
             if line.trim().is_empty() {
                 break;
             } else if let Some((name, value)) = line.split_once(':') {
@@ -88,6 +88,15 @@ impl Response {
     }
 }
 
+// the connection must not end within the head
+fn read_line<R: BufRead>(reader: &mut R, line: &mut String) -> Result<(), Error> {
+    reader.read_line(line).map_err(Error::ReadFailed)?;
+    match line.ends_with('\n') {
+        true => Ok(()),
+        false => Err(Error::ReadFailed(std::io::ErrorKind::UnexpectedEof.into())),
+    }
+}
+
 fn parse<T: std::str::FromStr + std::default::Default>(str: Option<&str>) -> T {
     match str {
         Some(str) => str.parse::<T>().unwrap_or_default(),
-- 
2.43.0


From 157fea6d88a38a6dbef486e567f15338c0a3b7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:03 +0000
Subject: [PATCH 15/29] fix: fail a request whose response has less body than
 declared

A connection lost within the body was taken for the end of the body, so a
truncated response passed for a complete one.
---
 lib/src/http/client.rs   |  5 +++++
 lib/src/http/response.rs | 12 ++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/lib/src/http/client.rs b/lib/src/http/client.rs
index e4362e0..2a2af12 100644
--- a/lib/src/http/client.rs
+++ b/lib/src/http/client.rs
@@ -1,3 +1,4 @@
+use super::Error;
 use super::Request;
 use super::Response;
 use super::Stream;
@@ -30,6 +31,10 @@ impl Client {
         };
         let read = Instant::now();
         let response = match Response::from(BufReader::new(stream), Some(|| time.delay = read.elapsed())) {
+            Ok(response) if response.is_incomplete(&request.method) => {
+                let error = Error::ReadFailed(std::io::ErrorKind::UnexpectedEof.into());
+                return (request, Response::default(), time, error.to_string());
+            }
             Ok(response) => response,
             Err(error) => return (request, Response::default(), time, error.to_string()),
         };
diff --git a/lib/src/http/response.rs b/lib/src/http/response.rs
index 2fb8b55..9c34f40 100644
--- a/lib/src/http/response.rs
+++ b/lib/src/http/response.rs
@@ -1,6 +1,7 @@
 use super::Error;
 use super::Header;
 use super::Headers;
+use super::Method;
 use super::Stream;
 use crate::Parser;
 use crate::Source;
@@ -63,6 +64,17 @@ impl Response {
         })
     }
 
+    /// The body is shorter than the response declared.
+    pub fn is_incomplete(&self, method: &Method) -> bool {
+        let without_body = *method == Method::Head || matches!(self.status, 100..=199 | 204 | 304);
+        let length = self
+            .headers
+            .iter()
+            .find(|header| header.name.eq_ignore_ascii_case("content-length"))
+            .and_then(|header| header.value.parse::<u64>().ok());
+        !without_body && length.is_some_and(|length| (self.body.len() as u64) < length)
+    }
+
     pub fn to_map(&self) -> HashMap<String, Value> {
         let mut map = HashMap::new();
         map.insert(String::from("version"), Value::String(self.version.to_string()));
-- 
2.43.0


From 22092315ffa17fc6222ff5cbde3ce266c578543b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:18 +0000
Subject: [PATCH 16/29] fix: print the statistics when all tests are run

The option --stat had no effect without the name of a test.
---
 cmd/src/command.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/src/command.rs b/cmd/src/command.rs
index 6e0131a..00cdcbe 100644
--- a/cmd/src/command.rs
+++ b/cmd/src/command.rs
@@ -135,6 +135,7 @@ pub fn test(
         }
         None => {
             for (thread, (name, test)) in tests.into_iter().enumerate() {
+                let sender = sender.to_owned();
                 let mut writer = writer(record.as_ref(), thread as u32);
                 let mut context = context.to_owned();
                 handles.push(std::thread::spawn(move || {
@@ -149,6 +150,7 @@ pub fn test(
                     if let Some(ref mut writer) = writer {
                         writer.write(&records, &name, thread as u32, u32::default())
                     }
+                    stat.then(|| sender.send(records));
                 }));
             }
         }
-- 
2.43.0


From ce1d4f9c271120144bc1c4a0aa62887d2b9aad85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:21 +0000
Subject: [PATCH 17/29] fix: fail a request with a file that can not be read

It was sent without any content and reported as if nothing was wrong.
---
 lib/src/http/client.rs  | 4 ++++
 lib/src/http/content.rs | 2 ++
 lib/src/http/request.rs | 2 +-
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/src/http/client.rs b/lib/src/http/client.rs
index 2a2af12..7d17378 100644
--- a/lib/src/http/client.rs
+++ b/lib/src/http/client.rs
@@ -1,3 +1,4 @@
+use super::Content;
 use super::Error;
 use super::Request;
 use super::Response;
@@ -19,6 +20,9 @@ impl Client {
     pub fn send(&self, message: &str) -> (Request, Response, Time, String) {
         let (mut request, content) = Request::from(message);
         let mut time = Time::default();
+        if let Content::Failed(error) = content {
+            return (request, Response::default(), time, error.to_string());
+        }
         let start = Instant::now();
         let mut stream = match Stream::connect(&request.url, self.connect_tiomeout, self.read_tiomeout) {
             Ok(stream) => stream,
diff --git a/lib/src/http/content.rs b/lib/src/http/content.rs
index 8a67b98..928669e 100644
--- a/lib/src/http/content.rs
+++ b/lib/src/http/content.rs
@@ -5,6 +5,7 @@ pub enum Content<'a> {
     Empty,
     Byte(Vec<u8>),
     Multipart(multipart::client::lazy::PreparedFields<'a>),
+    Failed(std::io::Error),
 }
 
 impl Content<'_> {
@@ -16,6 +17,7 @@ impl Content<'_> {
                 std::io::copy(prepared, writer).map_err(Error::WriteFailed)?;
                 Ok(())
             }
+            Content::Failed(error) => Err(Error::ReadFailed(error.kind().into())),
         }
     }
 }
diff --git a/lib/src/http/request.rs b/lib/src/http/request.rs
index f0cb496..15fff5c 100644
--- a/lib/src/http/request.rs
+++ b/lib/src/http/request.rs
@@ -75,7 +75,7 @@ impl Request {
                     }
                     match parts.prepare() {
                         Ok(parts) => content = Content::Multipart(parts),
-                        Err(_) => content = Content::Empty,
+                        Err(error) => content = Content::Failed(error.error),
                     }
                 }
                 _ => {
-- 
2.43.0


From 3b3fdf211abcf2c8bce22d158402072d17d9436f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:42 +0000
Subject: [PATCH 18/29] fix: record the url of a request with its port

The port was dropped, so the recorded url did not tell where the request
went.
---
 lib/src/http/url.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/lib/src/http/url.rs b/lib/src/http/url.rs
index bba5999..c225a43 100644
--- a/lib/src/http/url.rs
+++ b/lib/src/http/url.rs
@@ -27,13 +27,7 @@ impl std::convert::From<&str> for Url {
             }
             None => ("localhost".to_string(), None, "/".to_string()),
         };
-        let port = match port {
-            Some(port) => port,
-            None => match scheme {
-                Scheme::Http => 80,
-                Scheme::Https => 443,
-            },
-        };
+        let port = port.unwrap_or(default_port(&scheme));
         Url { scheme, host, port, path }
     }
 }
@@ -60,7 +54,18 @@ impl Default for Url {
 
 impl std::fmt::Display for Url {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        write!(f, "{}://{}{}", self.scheme, self.host, self.path)
+        write!(f, "{}://{}", self.scheme, self.host)?;
+        if self.port != default_port(&self.scheme) {
+            write!(f, ":{}", self.port)?;
+        }
+        f.write_str(&self.path)
+    }
+}
+
+fn default_port(scheme: &Scheme) -> u16 {
+    match scheme {
+        Scheme::Http => 80,
+        Scheme::Https => 443,
     }
 }
 
-- 
2.43.0


From 2e42e9c59eaaa4087df51c58861c3421f66ca9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:45 +0000
Subject: [PATCH 19/29] fix: keep the line breaks of a request body

The lines of a body were glued together.
---
 lib/src/http/request.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/http/request.rs b/lib/src/http/request.rs
index 15fff5c..3077fd8 100644
--- a/lib/src/http/request.rs
+++ b/lib/src/http/request.rs
@@ -79,7 +79,7 @@ impl Request {
                     }
                 }
                 _ => {
-                    body = String::from_iter(lines);
+                    body = lines.collect::<Vec<&str>>().join("\n");
                     if body.trim().is_empty() {
                         content = Content::Empty;
                     } else {
-- 
2.43.0


From 249f9a10cfc1968633c12cd0074fe24fd5043215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:48 +0000
Subject: [PATCH 20/29] fix: trim the names and values of a form

The blank behind the colon was sent as part of the value, a: b became
a=+b. Headers and multipart fields are trimmed as well.
---
 lib/src/http/request.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/http/request.rs b/lib/src/http/request.rs
index 3077fd8..e73c3ae 100644
--- a/lib/src/http/request.rs
+++ b/lib/src/http/request.rs
@@ -54,7 +54,7 @@ impl Request {
                     let mut serializer = form_urlencoded::Serializer::new(String::default());
                     for line in lines.by_ref() {
                         if let Some((name, value)) = line.trim().split_once(':') {
-                            serializer.append_pair(name, value);
+                            serializer.append_pair(name.trim(), value.trim());
                             body.push_str(line);
                         }
                     }
-- 
2.43.0


From 2c2f190089cf3a4dc35d44a9899008a850441086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:08 +0000
Subject: [PATCH 21/29] fix: do not run the tests when a source can not be
 examined

A file or directory that exists but could not be examined was skipped, the
tests ran with a part of the sources.
---
 cmd/src/command.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cmd/src/command.rs b/cmd/src/command.rs
index 00cdcbe..8df0cca 100644
--- a/cmd/src/command.rs
+++ b/cmd/src/command.rs
@@ -179,7 +179,12 @@ fn read_to_string(path: PathBuf) -> String {
 }
 
 fn read(path: PathBuf, text: &mut String) -> std::io::Result<()> {
-    if path.is_dir() {
+    let metadata = match std::fs::metadata(&path) {
+        // a link to nowhere is no source
+        Err(error) if error.kind() == std::io::ErrorKind::NotFound => return Ok(()),
+        metadata => metadata?,
+    };
+    if metadata.is_dir() {
         let mut entries = std::fs::read_dir(path)?
             .map(|r| r.map(|e| e.path()))
             .collect::<Result<Vec<PathBuf>, std::io::Error>>()?;
@@ -187,7 +192,7 @@ fn read(path: PathBuf, text: &mut String) -> std::io::Result<()> {
         for entry in entries {
             read(entry, text)?;
         }
-    } else if path.is_file() && path.extension() == Some(std::ffi::OsStr::new("fan")) {
+    } else if metadata.is_file() && path.extension() == Some(std::ffi::OsStr::new("fan")) {
         text.push_str(&std::fs::read_to_string(path)?)
     }
     Ok(())
-- 
2.43.0


From 511e1ed192974ee49f3a3944d49c246ef8b81967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:13 +0000
Subject: [PATCH 22/29] fix: tell the boundary of a multipart body

A server can not take a multipart body apart without its boundary in the
content type.
---
 lib/src/http/header.rs  | 8 ++++++++
 lib/src/http/request.rs | 8 +++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/lib/src/http/header.rs b/lib/src/http/header.rs
index d57bbf6..090fb84 100644
--- a/lib/src/http/header.rs
+++ b/lib/src/http/header.rs
@@ -16,6 +16,14 @@ impl Headers {
         self.inner.push(header)
     }
 
+    /// Adds the boundary of a multipart body to the content type.
+    pub fn set_boundary(&mut self, boundary: &str) {
+        if let Some(header) = self.inner.iter_mut().find(|header| header.name.eq_ignore_ascii_case("content-type")) {
+            header.value.push_str("; boundary=");
+            header.value.push_str(boundary);
+        }
+    }
+
     pub fn iter(&self) -> Iter<'_, Header> {
         self.inner.iter()
     }
diff --git a/lib/src/http/request.rs b/lib/src/http/request.rs
index e73c3ae..f132092 100644
--- a/lib/src/http/request.rs
+++ b/lib/src/http/request.rs
@@ -74,7 +74,13 @@ impl Request {
                         }
                     }
                     match parts.prepare() {
-                        Ok(parts) => content = Content::Multipart(parts),
+                        Ok(parts) => {
+                            // without any field there is no boundary
+                            if !body.is_empty() {
+                                headers.set_boundary(parts.boundary());
+                            }
+                            content = Content::Multipart(parts)
+                        }
                         Err(error) => content = Content::Failed(error.error),
                     }
                 }
-- 
2.43.0


From a3c22316e2f4989b6304e3a0b1ebf37800a2617c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:40 +0000
Subject: [PATCH 23/29] fix: fail a request when reading one of its files is
 interrupted

The read was repeated although the multipart crate had already thrown away
the fields read before, the request was sent without them.
---
 lib/src/http/content.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/src/http/content.rs b/lib/src/http/content.rs
index 928669e..5a8f311 100644
--- a/lib/src/http/content.rs
+++ b/lib/src/http/content.rs
@@ -1,4 +1,5 @@
 use super::Error;
+use std::io::Read;
 use std::io::Write;
 
 pub enum Content<'a> {
@@ -14,8 +15,15 @@ impl Content<'_> {
             Content::Empty => Ok(()),
             Content::Byte(bytes) => Ok(writer.write_all(bytes).map_err(Error::WriteFailed)?),
             Content::Multipart(ref mut prepared) => {
-                std::io::copy(prepared, writer).map_err(Error::WriteFailed)?;
-                Ok(())
+                // the fields lose what they have read so far when a read is interrupted, so it must not be
+                // repeated as std::io::copy does
+                let mut buffer = [0; 8192];
+                loop {
+                    match prepared.read(&mut buffer).map_err(Error::ReadFailed)? {
+                        0 => break Ok(()),
+                        length => writer.write_all(&buffer[..length]).map_err(Error::WriteFailed)?,
+                    }
+                }
             }
             Content::Failed(error) => Err(Error::ReadFailed(error.kind().into())),
         }
-- 
2.43.0


From 310a905855a60502b29231facc9692ab8c103579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:26 +0000
Subject: [PATCH 24/29] fix: record the body of a form as it is sent

---
 lib/src/http/request.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/http/request.rs b/lib/src/http/request.rs
index f132092..95ab304 100644
--- a/lib/src/http/request.rs
+++ b/lib/src/http/request.rs
@@ -55,10 +55,10 @@ impl Request {
                     for line in lines.by_ref() {
                         if let Some((name, value)) = line.trim().split_once(':') {
                             serializer.append_pair(name.trim(), value.trim());
-                            body.push_str(line);
                         }
                     }
-                    content = Content::Byte(serializer.finish().into_bytes());
+                    body = serializer.finish();
+                    content = Content::Byte(body.as_bytes().to_owned());
                 }
                 Some("multipart/form-data") => {
                     let mut parts = multipart::client::lazy::Multipart::new();
-- 
2.43.0


From c60c4d304e890fe4a0ead6b002c0f11a32d7b356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:37 +0000
Subject: [PATCH 25/29] fix: keep the blanks within the reason phrase of a
 response

---
 lib/src/http/response.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/src/http/response.rs b/lib/src/http/response.rs
index 9c34f40..3609cba 100644
--- a/lib/src/http/response.rs
+++ b/lib/src/http/response.rs
@@ -35,10 +35,11 @@ impl Response {
         }
         let mut line = String::from_utf8(buf).unwrap_or_default();
         read_line(&mut reader, &mut line)?;
-        let mut splits = line.split_whitespace();
+        // the reason is the rest of the line, blanks within it belong to it
+        let mut splits = line.trim().splitn(3, char::is_whitespace);
         let version = parse::<String>(splits.next());
         let status = parse::<u16>(splits.next());
-        let reason = splits.collect::<Vec<&str>>().join(" ");
+        let reason = parse::<String>(splits.next());
         // headers
         let mut headers = Headers::default();
         loop {
-- 
2.43.0


From 7ace187dfdf740352500a2cf081e10819d70570c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:27 +0000
Subject: [PATCH 26/29] fix: the path of a url ended at the next "://" within
 it

---
 lib/src/http/url.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/http/url.rs b/lib/src/http/url.rs
index c225a43..209ecf3 100644
--- a/lib/src/http/url.rs
+++ b/lib/src/http/url.rs
@@ -9,7 +9,8 @@ pub struct Url {
 
 impl std::convert::From<&str> for Url {
     fn from(str: &str) -> Self {
-        let mut splits = str.split("://");
+        // the path may contain the separator, too
+        let mut splits = str.splitn(2, "://");
         let scheme = Scheme::from(splits.next());
         let (host, port, path) = match splits.next() {
             Some(str) => {
-- 
2.43.0


From fd8a77cf44a10fe2a5baf59d49b6765a4b032b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:53 +0000
Subject: [PATCH 27/29] fix: a query directly behind the host was taken as part
 of the host

---
 lib/src/http/url.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lib/src/http/url.rs b/lib/src/http/url.rs
index 209ecf3..7d387ff 100644
--- a/lib/src/http/url.rs
+++ b/lib/src/http/url.rs
@@ -14,17 +14,18 @@ impl std::convert::From<&str> for Url {
         let scheme = Scheme::from(splits.next());
         let (host, port, path) = match splits.next() {
             Some(str) => {
-                let (host, path) = if let Some(i) = str.find('/') {
-                    (&str[..i], &str[i..])
-                } else {
-                    (str, "/")
+                let (host, path) = match str.find(['/', '?']) {
+                    // a query may follow the host at once
+                    Some(i) if str[i..].starts_with('?') => (&str[..i], format!("/{}", &str[i..])),
+                    Some(i) => (&str[..i], str[i..].to_string()),
+                    None => (str, "/".to_string()),
                 };
                 let (host, port) = if let Some(j) = host.find(':') {
                     (&host[..j], host[j + 1..].parse::<u16>().ok())
                 } else {
                     (host, None)
                 };
-                (host.to_string(), port, path.to_string())
+                (host.to_string(), port, path)
             }
             None => ("localhost".to_string(), None, "/".to_string()),
         };
-- 
2.43.0


From 432d59d838790347cbc6e7ac0908e899e943e82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:13 +0000
Subject: [PATCH 28/29] fix: create all recordings before any worker makes a
 request

A recording that could not be created ended the program with a panic while the
workers started before it were already making requests that nobody reported.
---
 cmd/src/command.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cmd/src/command.rs b/cmd/src/command.rs
index 8df0cca..69895d9 100644
--- a/cmd/src/command.rs
+++ b/cmd/src/command.rs
@@ -93,14 +93,15 @@ pub fn test(
                     let continuous = Arc::new(AtomicBool::new(true));
                     // handle interrupt signal
                     handle_interrupt(continuous.clone());
-                    for thread in 0..threads {
+                    // all recordings are created before any worker begins
+                    let writers = (0..threads).map(|thread| writer(record.as_ref(), thread)).collect::<Vec<_>>();
+                    for (thread, mut writer) in (0..threads).zip(writers) {
                         // the first threads run what the division leaves over
                         let maximun = number / threads + u32::from(thread < number % threads);
                         let sender = sender.to_owned();
                         let continuous = continuous.to_owned();
                         let name = name.to_owned();
                         let test = test.to_owned();
-                        let mut writer = writer(record.as_ref(), thread);
                         let mut context = context.to_owned();
                         handles.push(std::thread::spawn(move || {
                             let mut number = u32::default();
@@ -134,9 +135,9 @@ pub fn test(
             }
         }
         None => {
-            for (thread, (name, test)) in tests.into_iter().enumerate() {
+            let writers = (0..tests.len()).map(|thread| writer(record.as_ref(), thread as u32)).collect::<Vec<_>>();
+            for ((thread, (name, test)), mut writer) in tests.into_iter().enumerate().zip(writers) {
                 let sender = sender.to_owned();
-                let mut writer = writer(record.as_ref(), thread as u32);
                 let mut context = context.to_owned();
                 handles.push(std::thread::spawn(move || {
                     match eval_block(test.as_ref(), &mut context) {
-- 
2.43.0


From bd5f974fc4ede31d5625c9e551535672708aab89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:58 +0000
Subject: [PATCH 29/29] fix: keep the negative numbers of a json body

---
 lib/src/syntax.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/src/syntax.rs b/lib/src/syntax.rs
index 9356670..df9748c 100644
--- a/lib/src/syntax.rs
+++ b/lib/src/syntax.rs
@@ -1,3 +1,4 @@
+use crate::Kind;
 use crate::Token;
 use crate::Value;
 use std::collections::HashMap;
@@ -44,6 +45,12 @@ impl Expr {
                     .map(|(k, v)| (k.eval().to_string(), v.eval()))
                     .collect::<HashMap<String, Value>>(),
             ),
+            // a negative number
+            Expr::Unary(token, right) if token.kind == Kind::Sub => match right.eval() {
+                Value::Integer(integer) => integer.checked_neg().map_or(Value::Null, Value::Integer),
+                Value::Float(float) => Value::Float(-float),
+                _ => Value::Null,
+            },
             _ => Value::Null,
         }
     }
-- 
2.43.0

