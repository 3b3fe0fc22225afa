From 79d5aac64d0c7b9d3d086acf5bfd0989da603807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:25 +0000
Subject: [PATCH 01/65] fix: an escaped backslash in a quoted string must not
 escape the next character

---
 src/compiler/lexer/tokenizer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compiler/lexer/tokenizer.rs b/src/compiler/lexer/tokenizer.rs
index 5c8e591..dafd439 100644
--- a/src/compiler/lexer/tokenizer.rs
+++ b/src/compiler/lexer/tokenizer.rs
@@ -460,6 +460,8 @@ impl Iterator for Tokenizer<'_> {
                     b'\\' => {
                         if last_ch == b'\\' {
                             self.push_byte(ch);
+                            // This backslash was escaped, it does not escape the next character
+                            self.last_ch = 0;
                         }
                     }
                     b'0'..=b'9' => {
-- 
2.43.0


From b0f72f671c08e707c4e727d91b8ec4f8a4ff2f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:08 +0000
Subject: [PATCH 02/65] fix: do not drop a token ended by the end of the script

---
 src/compiler/lexer/tokenizer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compiler/lexer/tokenizer.rs b/src/compiler/lexer/tokenizer.rs
index dafd439..a188399 100644
--- a/src/compiler/lexer/tokenizer.rs
+++ b/src/compiler/lexer/tokenizer.rs
@@ -568,7 +568,8 @@ impl Iterator for Tokenizer<'_> {
                     error_type: (&self.state).into(),
                 }))
             }
-            _ => None,
+            // Do not drop a token terminated by the end of the script
+            State::None | State::HashComment => self.get_current_token().map(Ok),
         }
     }
 }
-- 
2.43.0


From baaf028527cd3fdf0fb70ea73e4a9db6916d1702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:43 +0000
Subject: [PATCH 03/65] fix: reject empty test lists and test lists missing a
 comma

---
 src/compiler/grammar/test.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/compiler/grammar/test.rs b/src/compiler/grammar/test.rs
index cec2294..48121b1 100644
--- a/src/compiler/grammar/test.rs
+++ b/src/compiler/grammar/test.rs
@@ -129,10 +129,23 @@ impl CompilerState<'_> {
             jmps: Vec::new(),
         };
         let mut is_not = false;
+        let mut has_test = false;
 
         loop {
             let token_info = self.tokens.unwrap_next()?;
             self.reset_param_check();
+
+            // Tests have to be separated by commas and test lists cannot be empty
+            match &token_info.token {
+                Token::Identifier(_) | Token::Unknown(_) | Token::ParenthesisOpen if has_test => {
+                    return Err(token_info.expected("',' or ')'"));
+                }
+                Token::ParenthesisClose if !has_test => {
+                    return Err(token_info.expected("test name"));
+                }
+                _ => (),
+            }
+
             let test: Instruction =
                 match token_info.token {
                     Token::Comma
@@ -150,6 +163,7 @@ impl CompilerState<'_> {
                             ) =>
                     {
                         is_not = block.is_not;
+                        has_test = false;
                         block.jmps.push(self.instructions.len());
                         self.instructions.push(if block.is_all {
                             Instruction::Jz(usize::MAX)
@@ -553,6 +567,7 @@ impl CompilerState<'_> {
 
             self.instructions
                 .push(if !is_not { test } else { test.set_not() });
+            has_test = true;
 
             if block_stack.is_empty() {
                 break;
-- 
2.43.0


From 0f5107daab3eb22ff234bf143a7bd9c28c9e0d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:43 +0000
Subject: [PATCH 04/65] fix: the string and environment tests must stop at the
 first matching key

---
 src/runtime/tests/test_string.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/runtime/tests/test_string.rs b/src/runtime/tests/test_string.rs
index 3364acd..48777da 100644
--- a/src/runtime/tests/test_string.rs
+++ b/src/runtime/tests/test_string.rs
@@ -59,7 +59,7 @@ impl TestString {
                 let mut captured_values = Vec::new();
                 let sources = ctx.eval_values(&self.source);
 
-                for pattern in &self.key_list {
+                'outer: for pattern in &self.key_list {
                     let key = ctx.eval_value(pattern);
                     for source in &sources {
                         if !empty_is_null || !source.is_empty() {
@@ -89,7 +89,7 @@ impl TestString {
                             };
 
                             if result {
-                                break;
+                                break 'outer;
                             }
                         }
                     }
-- 
2.43.0


From fd65fc1b6dbccc4c51bb337c72f0f6f1eadc969b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:43 +0000
Subject: [PATCH 05/65] fix: negating the smallest integer in an expression
 must not overflow

---
 src/runtime/expression.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/runtime/expression.rs b/src/runtime/expression.rs
index 017e196..c0b7d86 100644
--- a/src/runtime/expression.rs
+++ b/src/runtime/expression.rs
@@ -225,7 +225,10 @@ impl Variable {
 
     pub fn op_minus(self) -> Variable {
         match self {
-            Variable::Integer(n) => Variable::Integer(-n),
+            Variable::Integer(n) => match n.checked_neg() {
+                Some(n) => Variable::Integer(n),
+                None => Variable::Float(-(n as f64)),
+            },
             Variable::Float(n) => Variable::Float(-n),
             _ => self.parse_number().op_minus(),
         }
-- 
2.43.0


From be5111dee30829e03e35a1b654e9d96982316bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:19 +0000
Subject: [PATCH 06/65] fix: the date, currentdate and hasflag tests must honor
 :regex

---
 src/runtime/tests/test_date.rs    | 16 ++++++++-------
 src/runtime/tests/test_hasflag.rs | 34 ++++++++++++++++++++++++-------
 2 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/src/runtime/tests/test_date.rs b/src/runtime/tests/test_date.rs
index dfc1ab7..b125b16 100644
--- a/src/runtime/tests/test_date.rs
+++ b/src/runtime/tests/test_date.rs
@@ -94,7 +94,7 @@ impl TestDate {
                         if let Some(dt) = ctx.find_dates(header) {
                             let date_part =
                                 self.date_part.eval(self.zone.eval(dt.as_ref()).as_ref());
-                            for key in &key_list {
+                            for (key, pattern) in key_list.iter().zip(&self.key_list) {
                                 if match &self.match_type {
                                     MatchType::Is => self.comparator.is(&date_part.as_str(), key),
                                     MatchType::Contains => self
@@ -113,9 +113,10 @@ impl TestDate {
                                             &mut captured_values,
                                         )
                                     }
-                                    MatchType::Regex(capture_positions) => self.comparator.matches(
+                                    MatchType::Regex(capture_positions) => self.comparator.regex(
+                                        pattern,
+                                        key,
                                         &date_part,
-                                        key.to_string().as_ref(),
                                         *capture_positions,
                                         &mut captured_values,
                                     ),
@@ -182,8 +183,8 @@ impl TestCurrentDate {
                     }),
                 );
 
-                for key in &self.key_list {
-                    let key = ctx.eval_value(key);
+                for pattern in &self.key_list {
+                    let key = ctx.eval_value(pattern);
 
                     if match &self.match_type {
                         MatchType::Is => self.comparator.is(&date_part.as_str(), &key),
@@ -200,9 +201,10 @@ impl TestCurrentDate {
                             *capture_positions,
                             &mut captured_values,
                         ),
-                        MatchType::Regex(capture_positions) => self.comparator.matches(
+                        MatchType::Regex(capture_positions) => self.comparator.regex(
+                            pattern,
+                            &key,
                             &date_part,
-                            key.to_string().as_ref(),
                             *capture_positions,
                             &mut captured_values,
                         ),
diff --git a/src/runtime/tests/test_hasflag.rs b/src/runtime/tests/test_hasflag.rs
index de671b9..6a62488 100644
--- a/src/runtime/tests/test_hasflag.rs
+++ b/src/runtime/tests/test_hasflag.rs
@@ -45,6 +45,30 @@ impl TestHasFlag {
                 }
             }
             result
+        } else if let MatchType::Regex(capture_positions) = &self.match_type {
+            let mut captured_values = Vec::new();
+            let patterns = ctx.eval_values(&self.flags);
+            let result = patterns.iter().zip(&self.flags).any(|(key, pattern)| {
+                variable_list
+                    .iter()
+                    .filter_map(|variable| ctx.get_variable(variable))
+                    .filter(|flags| !flags.is_empty())
+                    .any(|flags| {
+                        flags.to_string().split(' ').any(|flag| {
+                            self.comparator.regex(
+                                pattern,
+                                key,
+                                flag,
+                                *capture_positions,
+                                &mut captured_values,
+                            )
+                        })
+                    })
+            });
+            if !captured_values.is_empty() {
+                ctx.set_match_variables(captured_values);
+            }
+            result
         } else {
             let mut captured_values = Vec::new();
             let result = ctx.tokenize_flags(&self.flags, |check_flag| {
@@ -68,13 +92,9 @@ impl TestHasFlag {
                                             &mut captured_values,
                                         )
                                     }
-                                    MatchType::Regex(capture_positions) => self.comparator.matches(
-                                        flag,
-                                        check_flag,
-                                        *capture_positions,
-                                        &mut captured_values,
-                                    ),
-                                    MatchType::Count(_) | MatchType::List => false,
+                                    MatchType::Regex(_)
+                                    | MatchType::Count(_)
+                                    | MatchType::List => false,
                                 } {
                                     return true;
                                 }
-- 
2.43.0


From 2f220369bd6aa8603fd2f1a2439603a77b67f2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:19 +0000
Subject: [PATCH 07/65] fix: an invalid regular expression in a variable is not
 a compiler bug

---
 src/runtime/tests/comparator.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/runtime/tests/comparator.rs b/src/runtime/tests/comparator.rs
index 8779fe1..6aa2283 100644
--- a/src/runtime/tests/comparator.rs
+++ b/src/runtime/tests/comparator.rs
@@ -97,10 +97,8 @@ impl Comparator {
         } else {
             match fancy_regex::Regex::new(pattern_expr.to_string().as_ref()) {
                 Ok(regex) => eval_regex(&regex, value, capture_positions, captured_values),
-                Err(err) => {
-                    debug_assert!(false, "Failed to compile regex: {err:?}");
-                    false
-                }
+                // The pattern is only known at runtime and might not be valid
+                Err(_) => false,
             }
         }
     }
-- 
2.43.0


From 45daf247dc6b19ad97c3caa98b7ff2595bed9061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:19 +0000
Subject: [PATCH 08/65] fix: deliver the envelope change made by let

---
 src/runtime/context.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/runtime/context.rs b/src/runtime/context.rs
index 76cf232..3213a48 100644
--- a/src/runtime/context.rs
+++ b/src/runtime/context.rs
@@ -286,6 +286,9 @@ impl<'x> Context<'x> {
                     Instruction::Let(let_) => match self.eval_expression(&let_.expr) {
                         Ok(result) => {
                             self.set_variable(&let_.name, result);
+                            if let Some(event) = self.queued_events.next() {
+                                return Some(Ok(event));
+                            }
                         }
                         Err(event) => {
                             return Some(Ok(event));
-- 
2.43.0


From 633b827ebc1f3689b74bda059d8b04bad1dc0191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:19 +0000
Subject: [PATCH 09/65] fix: leave invalid encoded characters untouched also
 when the last code is invalid

---
 src/compiler/lexer/string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/lexer/string.rs b/src/compiler/lexer/string.rs
index d72e373..d51f9ed 100644
--- a/src/compiler/lexer/string.rs
+++ b/src/compiler/lexer/string.rs
@@ -190,7 +190,7 @@ impl CompilerState<'_> {
                                 is_var_error = true;
                             }
                         }
-                        if ch == b'}' {
+                        if ch == b'}' && !is_var_error {
                             if decode_buf.len() != initial_buf_size {
                                 state = State::None;
                             } else {
-- 
2.43.0


From 2b3829ec7823afac7288a35d452f36524fd44866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:04 +0000
Subject: [PATCH 10/65] fix: match variables in the arguments of a test refer
 to the previous matches

---
 src/compiler/grammar/instruction.rs | 25 +++-----------------
 src/compiler/grammar/mod.rs         | 10 ++------
 src/compiler/grammar/test.rs        | 36 ++++++++++++++++++++++++++---
 3 files changed, 38 insertions(+), 33 deletions(-)

diff --git a/src/compiler/grammar/instruction.rs b/src/compiler/grammar/instruction.rs
index 0baff56..de66d6d 100644
--- a/src/compiler/grammar/instruction.rs
+++ b/src/compiler/grammar/instruction.rs
@@ -8,7 +8,7 @@ use ahash::{AHashMap, AHashSet};
 
 use crate::{
     compiler::{
-        grammar::{test::Test, MatchType},
+        grammar::test::Test,
         lexer::{tokenizer::Tokenizer, word::Word, Token},
         CompileError, ErrorType, Value, VariableType,
     },
@@ -903,30 +903,11 @@ impl CompilerState<'_> {
 
             for pos in &block.match_test_pos {
                 if let Some(Instruction::Test(test)) = self.instructions.get_mut(*pos) {
-                    let match_type = match test {
-                        Test::Address(t) => &mut t.match_type,
-                        Test::Body(t) => &mut t.match_type,
-                        Test::Date(t) => &mut t.match_type,
-                        Test::CurrentDate(t) => &mut t.match_type,
-                        Test::Envelope(t) => &mut t.match_type,
-                        Test::HasFlag(t) => &mut t.match_type,
-                        Test::Header(t) => &mut t.match_type,
-                        Test::Metadata(t) => &mut t.match_type,
-                        Test::NotifyMethodCapability(t) => &mut t.match_type,
-                        Test::SpamTest(t) => &mut t.match_type,
-                        Test::String(t) | Test::Environment(t) => &mut t.match_type,
-                        Test::VirusTest(t) => &mut t.match_type,
-                        _ => {
-                            debug_assert!(false, "This should not have happened: {test:?}");
-                            return false;
-                        }
-                    };
-                    if let MatchType::Matches(positions) | MatchType::Regex(positions) = match_type
-                    {
+                    if let Some(positions) = test.match_positions() {
                         *positions |= 1 << num;
                         block.match_test_vars = *positions;
                     } else {
-                        debug_assert!(false, "This should not have happened");
+                        debug_assert!(false, "This should not have happened: {test:?}");
                         return false;
                     }
                 } else {
diff --git a/src/compiler/grammar/mod.rs b/src/compiler/grammar/mod.rs
index dba1559..392cb31 100644
--- a/src/compiler/grammar/mod.rs
+++ b/src/compiler/grammar/mod.rs
@@ -264,14 +264,8 @@ impl CompilerState<'_> {
         match word {
             Word::Is => Ok(MatchType::Is),
             Word::Contains => Ok(MatchType::Contains),
-            Word::Matches => {
-                self.block.match_test_pos.push(self.instructions.len());
-                Ok(MatchType::Matches(0))
-            }
-            Word::Regex => {
-                self.block.match_test_pos.push(self.instructions.len());
-                Ok(MatchType::Regex(0))
-            }
+            Word::Matches => Ok(MatchType::Matches(0)),
+            Word::Regex => Ok(MatchType::Regex(0)),
             Word::List => Ok(MatchType::List),
             _ => {
                 let token_info = self.tokens.unwrap_next()?;
diff --git a/src/compiler/grammar/test.rs b/src/compiler/grammar/test.rs
index 48121b1..35df171 100644
--- a/src/compiler/grammar/test.rs
+++ b/src/compiler/grammar/test.rs
@@ -32,7 +32,7 @@ use super::{
         test_specialuse::TestSpecialUseExists,
         test_string::TestString,
     },
-    Capability, Invalid,
+    Capability, Invalid, MatchType,
 };
 
 #[allow(clippy::enum_variant_names)]
@@ -565,8 +565,15 @@ impl CompilerState<'_> {
                 block.p_count -= 1;
             }
 
-            self.instructions
-                .push(if !is_not { test } else { test.set_not() });
+            let mut test = if !is_not { test } else { test.set_not() };
+            if let Instruction::Test(test) = &mut test {
+                // Only tests that were fully parsed can set match variables, the arguments
+                // of a test refer to the values set by the previous ones.
+                if test.match_positions().is_some() {
+                    self.block.match_test_pos.push(self.instructions.len());
+                }
+            }
+            self.instructions.push(test);
             has_test = true;
 
             if block_stack.is_empty() {
@@ -606,6 +613,29 @@ impl CompilerState<'_> {
     }
 }
 
+impl Test {
+    pub(crate) fn match_positions(&mut self) -> Option<&mut u64> {
+        match match self {
+            Test::Address(t) => &mut t.match_type,
+            Test::Body(t) => &mut t.match_type,
+            Test::Date(t) => &mut t.match_type,
+            Test::CurrentDate(t) => &mut t.match_type,
+            Test::Envelope(t) => &mut t.match_type,
+            Test::HasFlag(t) => &mut t.match_type,
+            Test::Header(t) => &mut t.match_type,
+            Test::Metadata(t) => &mut t.match_type,
+            Test::NotifyMethodCapability(t) => &mut t.match_type,
+            Test::SpamTest(t) => &mut t.match_type,
+            Test::String(t) | Test::Environment(t) => &mut t.match_type,
+            Test::VirusTest(t) => &mut t.match_type,
+            _ => return None,
+        } {
+            MatchType::Matches(positions) | MatchType::Regex(positions) => Some(positions),
+            _ => None,
+        }
+    }
+}
+
 impl From<Test> for Instruction {
     fn from(test: Test) -> Self {
         Instruction::Test(test)
-- 
2.43.0


From d7663a999ca93587e8eeb7124919fae157b8651a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:34 +0000
Subject: [PATCH 11/65] fix: unmatched regex groups must reset their match
 variables

---
 src/runtime/tests/comparator.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/runtime/tests/comparator.rs b/src/runtime/tests/comparator.rs
index 6aa2283..89141e4 100644
--- a/src/runtime/tests/comparator.rs
+++ b/src/runtime/tests/comparator.rs
@@ -125,9 +125,13 @@ fn eval_regex(
         while capture_positions != 0 {
             let index = 63 - capture_positions.leading_zeros();
             capture_positions ^= 1 << index;
-            if let Some(match_var) = captures.get(index as usize) {
-                captured_values.push((index as usize, match_var.as_str().to_string()));
-            }
+            captured_values.push((
+                index as usize,
+                captures
+                    .get(index as usize)
+                    .map(|match_var| match_var.as_str().to_string())
+                    .unwrap_or_default(),
+            ));
         }
         true
     } else {
-- 
2.43.0


From 53a6c419943727e9077e8800bcd4d26de39c8ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:34 +0000
Subject: [PATCH 12/65] fix: resolve script-local variables used in modifiers

---
 src/compiler/grammar/instruction.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/compiler/grammar/instruction.rs b/src/compiler/grammar/instruction.rs
index de66d6d..e74930b 100644
--- a/src/compiler/grammar/instruction.rs
+++ b/src/compiler/grammar/instruction.rs
@@ -27,7 +27,7 @@ use super::{
         action_notify::Notify,
         action_redirect::Redirect,
         action_reject::Reject,
-        action_set::{Let, Set},
+        action_set::{Let, Modifier, Set},
         action_vacation::Vacation,
     },
     expr::Expression,
@@ -968,6 +968,7 @@ impl CompilerState<'_> {
                     v.value.map_local_vars(last_id);
                 }
                 Instruction::ExtractText(v) => {
+                    v.modifiers.map_local_vars(last_id);
                     v.name.map_local_vars(last_id);
                 }
                 Instruction::Convert(v) => {
@@ -984,6 +985,7 @@ impl CompilerState<'_> {
                     v.value_patterns.map_local_vars(last_id);
                 }
                 Instruction::Set(v) => {
+                    v.modifiers.map_local_vars(last_id);
                     v.name.map_local_vars(last_id);
                     v.value.map_local_vars(last_id);
                 }
@@ -1161,6 +1163,15 @@ impl<T: MapLocalVars> MapLocalVars for Option<T> {
     }
 }
 
+impl MapLocalVars for Modifier {
+    fn map_local_vars(&mut self, last_id: usize) {
+        if let Modifier::Replace { find, replace } = self {
+            find.map_local_vars(last_id);
+            replace.map_local_vars(last_id);
+        }
+    }
+}
+
 impl MapLocalVars for Expression {
     fn map_local_vars(&mut self, last_id: usize) {
         if let Expression::Variable(var) = self {
-- 
2.43.0


From bb8500e1a4547412c3582e5309bb4670607ce086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:54 +0000
Subject: [PATCH 13/65] fix: continue in nested loops and out of foreverypart

---
 src/compiler/grammar/instruction.rs | 41 ++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/src/compiler/grammar/instruction.rs b/src/compiler/grammar/instruction.rs
index e74930b..3aa0be8 100644
--- a/src/compiler/grammar/instruction.rs
+++ b/src/compiler/grammar/instruction.rs
@@ -582,24 +582,45 @@ impl Compiler {
                                 token_info.line_num,
                                 token_info.line_pos,
                             )?;
-                            let mut found_while = 0;
+                            let mut found_while = false;
+                            let mut loop_start = None;
+                            let mut num_pops = 0;
+                            let mut match_vars = 0;
+                            let mut num_vars = 0;
                             for block in [&state.block]
                                 .into_iter()
                                 .chain(state.block_stack.iter().rev())
                             {
-                                if let Word::While = &block.btype {
-                                    found_while += 1;
-                                } else if found_while == 1 {
-                                    state
-                                        .instructions
-                                        .push(Instruction::Jmp(block.last_block_start));
-                                    found_while += 1;
+                                if found_while {
+                                    loop_start = Some(block.last_block_start);
                                     break;
                                 }
+                                match_vars |= block.match_test_vars;
+                                num_vars += block.vars_local.len();
+                                match &block.btype {
+                                    Word::While => found_while = true,
+                                    Word::ForEveryPart => num_pops += 1,
+                                    _ => (),
+                                }
+                            }
+                            let loop_start = loop_start.ok_or_else(|| {
+                                token_info.custom(ErrorType::ContinueOutsideLoop)
+                            })?;
+
+                            // The end of the blocks is skipped by the jump
+                            if match_vars != 0 || num_vars > 0 {
+                                state.instructions.push(Instruction::Clear(Clear {
+                                    match_vars,
+                                    local_vars_idx: (state.vars_num - num_vars) as u32,
+                                    local_vars_num: num_vars as u32,
+                                }));
                             }
-                            if found_while != 2 {
-                                return Err(token_info.custom(ErrorType::ContinueOutsideLoop));
+                            if num_pops > 0 {
+                                state
+                                    .instructions
+                                    .push(Instruction::ForEveryPartPop(num_pops));
                             }
+                            state.instructions.push(Instruction::Jmp(loop_start));
                         }
 
                         _ => {
-- 
2.43.0


From a79f52b9e9b09cb1690cf446044be6165efc1f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:52 +0000
Subject: [PATCH 14/65] fix: keep part positions valid after replace and
 enclose, size accounting must not underflow

---
 src/runtime/actions/action_convert.rs    | 14 ++---
 src/runtime/actions/action_editheader.rs |  2 +-
 src/runtime/actions/action_mime.rs       | 67 +++++++++++++++++++-----
 3 files changed, 63 insertions(+), 20 deletions(-)

diff --git a/src/runtime/actions/action_convert.rs b/src/runtime/actions/action_convert.rs
index ff62b97..9fb1253 100644
--- a/src/runtime/actions/action_convert.rs
+++ b/src/runtime/actions/action_convert.rs
@@ -81,12 +81,14 @@ impl Convert {
                 offset_end: 0,
                 offset_field: 0,
             }];
-            ctx.message_size = ctx.message_size + ct.len() + new_body.len() + 16
-                - (if part.offset_body != 0 {
-                    (part.offset_end - part.offset_header) as usize
-                } else {
-                    part.body.len()
-                });
+            ctx.message_size =
+                (ctx.message_size + ct.len() + new_body.len() + 16).saturating_sub(
+                    if part.offset_body != 0 {
+                        (part.offset_end - part.offset_header) as usize
+                    } else {
+                        part.body.len()
+                    },
+                );
             part.offset_body = 0;
             part.body = new_body;
             part.encoding = Encoding::QuotedPrintable; //Used as non-mime flag
diff --git a/src/runtime/actions/action_editheader.rs b/src/runtime/actions/action_editheader.rs
index 8f14dbe..98fdd97 100644
--- a/src/runtime/actions/action_editheader.rs
+++ b/src/runtime/actions/action_editheader.rs
@@ -132,7 +132,7 @@ impl DeleteHeader {
             }
         }
 
-        ctx.message_size -= deleted_bytes;
+        ctx.message_size = ctx.message_size.saturating_sub(deleted_bytes);
     }
 }
 
diff --git a/src/runtime/actions/action_mime.rs b/src/runtime/actions/action_mime.rs
index 4732512..cc711fd 100644
--- a/src/runtime/actions/action_mime.rs
+++ b/src/runtime/actions/action_mime.rs
@@ -4,8 +4,6 @@
  * SPDX-License-Identifier: AGPL-3.0-only OR LicenseRef-SEL
  */
 
-use std::cmp::Reverse;
-
 use mail_parser::{
     decoders::html::html_to_text, Encoding, HeaderName, Message, MessagePart, PartType,
 };
@@ -26,11 +24,7 @@ use mail_builder::headers::message_id::generate_message_id_header;
 impl Replace {
     pub(crate) fn exec(&self, ctx: &mut Context) {
         // Delete children parts
-        let mut part_ids = ctx.find_nested_parts_ids(false);
-        part_ids.sort_unstable_by_key(|a| Reverse(*a));
-        for part_id in part_ids {
-            ctx.message.parts.remove(part_id as usize);
-        }
+        ctx.remove_nested_parts();
         ctx.has_changes = true;
 
         // Update part
@@ -39,12 +33,12 @@ impl Replace {
 
         let part = &mut ctx.message.parts[ctx.part as usize];
 
-        ctx.message_size = ctx.message_size + body_len
-            - (if part.offset_body != 0 {
-                (part.offset_end - part.offset_header) as usize
-            } else {
-                part.body.len()
-            });
+        // Headers or nested parts might have been removed already
+        ctx.message_size = (ctx.message_size + body_len).saturating_sub(if part.offset_body != 0 {
+            (part.offset_end - part.offset_header) as usize
+        } else {
+            part.body.len()
+        });
         part.body = PartType::Text(body.into());
         part.encoding = if !self.mime {
             Encoding::QuotedPrintable
@@ -187,6 +181,12 @@ impl Enclose {
 
         ctx.message_size += ((boundary.len() + 6) * 3) + body.len() + 2;
         ctx.part = 0;
+        // The parts being iterated are no longer part of the enclosing message
+        ctx.part_iter = Vec::new().into_iter();
+        for (part, part_iter) in ctx.part_iter_stack.iter_mut() {
+            *part = 0;
+            *part_iter = Vec::new().into_iter();
+        }
         ctx.has_changes = true;
         ctx.message = Message {
             html_body: Vec::with_capacity(0),
@@ -380,6 +380,47 @@ enum StackItem<'x> {
 }
 
 impl Context<'_> {
+    fn remove_nested_parts(&mut self) {
+        let mut removed_ids = self.find_nested_parts_ids(false);
+        if removed_ids.is_empty() {
+            return;
+        }
+        removed_ids.sort_unstable();
+        for part_id in removed_ids.iter().rev() {
+            self.message.parts.remove(*part_id as usize);
+        }
+
+        // Update the position of the remaining parts
+        let new_id = |part_id: u32| match removed_ids.binary_search(&part_id) {
+            Ok(_) => None,
+            Err(num_removed) => Some(part_id - num_removed as u32),
+        };
+        let new_ids = |part_ids: &[u32]| {
+            part_ids
+                .iter()
+                .filter_map(|part_id| new_id(*part_id))
+                .collect::<Vec<_>>()
+        };
+        for part in self.message.parts.iter_mut() {
+            if let PartType::Multipart(part_ids) = &mut part.body {
+                *part_ids = new_ids(part_ids);
+            }
+        }
+        for part_ids in [
+            &mut self.message.html_body,
+            &mut self.message.text_body,
+            &mut self.message.attachments,
+        ] {
+            *part_ids = new_ids(part_ids);
+        }
+        self.part = new_id(self.part).unwrap_or_default();
+        self.part_iter = new_ids(self.part_iter.as_slice()).into_iter();
+        for (part, part_iter) in self.part_iter_stack.iter_mut() {
+            *part = new_id(*part).unwrap_or_default();
+            *part_iter = new_ids(part_iter.as_slice()).into_iter();
+        }
+    }
+
     pub(crate) fn build_message_id(&mut self) -> Option<Event> {
         if self.has_changes {
             self.last_message_id += 1;
-- 
2.43.0


From 0ee7a94dfec653adf51b71e25e8e6506bc4718ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:16 +0000
Subject: [PATCH 15/65] fix: only the implicit keep is cancelled by fileinto,
 redirect and discard

---
 src/lib.rs                             | 1 +
 src/runtime/actions/action_fileinto.rs | 5 ++---
 src/runtime/actions/action_redirect.rs | 6 +++++-
 src/runtime/context.rs                 | 7 ++++++-
 4 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ab464b4..fb2033c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -128,6 +128,7 @@ pub struct Context<'x> {
 
     pub(crate) queued_events: IntoIter<Event>,
     pub(crate) final_event: Option<Event>,
+    pub(crate) explicit_keep: bool,
     pub(crate) last_message_id: usize,
     pub(crate) main_message_id: usize,
 
diff --git a/src/runtime/actions/action_fileinto.rs b/src/runtime/actions/action_fileinto.rs
index a8aa47d..3ebd703 100644
--- a/src/runtime/actions/action_fileinto.rs
+++ b/src/runtime/actions/action_fileinto.rs
@@ -14,9 +14,8 @@ impl FileInto {
             events.push(event);
         }
 
-        if !self.copy
-            && !matches!(&ctx.final_event, Some(Event::Keep { flags, .. }) if !flags.is_empty())
-        {
+        // Only the implicit keep is cancelled
+        if !self.copy && !ctx.explicit_keep {
             ctx.final_event = None;
         }
 
diff --git a/src/runtime/actions/action_redirect.rs b/src/runtime/actions/action_redirect.rs
index f4ae341..063b2f3 100644
--- a/src/runtime/actions/action_redirect.rs
+++ b/src/runtime/actions/action_redirect.rs
@@ -29,7 +29,11 @@ impl Redirect {
                     return;
                 }
 
-                if !self.copy && matches!(&ctx.final_event, Some(Event::Keep { .. })) {
+                // Only the implicit keep is cancelled
+                if !self.copy
+                    && !ctx.explicit_keep
+                    && matches!(&ctx.final_event, Some(Event::Keep { .. }))
+                {
                     ctx.final_event = None;
                 }
 
diff --git a/src/runtime/context.rs b/src/runtime/context.rs
index 3213a48..482203b 100644
--- a/src/runtime/context.rs
+++ b/src/runtime/context.rs
@@ -59,6 +59,7 @@ impl<'x> Context<'x> {
                 message_id: 0,
             }
             .into(),
+            explicit_keep: false,
             queued_events: vec![].into_iter(),
             has_changes: false,
             user_address: "".into(),
@@ -195,6 +196,7 @@ impl<'x> Context<'x> {
                     }
                     Instruction::Keep(keep) => {
                         let next_event = self.build_message_id();
+                        self.explicit_keep = true;
                         self.final_event = Event::Keep {
                             flags: self.get_local_or_global_flags(&keep.flags),
                             message_id: self.main_message_id,
@@ -217,7 +219,9 @@ impl<'x> Context<'x> {
                         }
                     }
                     Instruction::Discard => {
-                        self.final_event = Event::Discard.into();
+                        if !self.explicit_keep {
+                            self.final_event = Event::Discard.into();
+                        }
                     }
                     Instruction::Stop => {
                         self.script_stack.clear();
@@ -672,6 +676,7 @@ impl<'x> Context<'x> {
                 message_id: 0,
             }
             .into(),
+            explicit_keep: false,
             queued_events: vec![].into_iter(),
             has_changes: false,
             user_address: "".into(),
-- 
2.43.0


From c7bf75d33681ad605b80a13f2ca5486c4f6f6f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:47 +0000
Subject: [PATCH 16/65] fix: the raw name and value of headers inserted by the
 script

---
 src/runtime/eval.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/runtime/eval.rs b/src/runtime/eval.rs
index 43da865..1bd7529 100644
--- a/src/runtime/eval.rs
+++ b/src/runtime/eval.rs
@@ -361,14 +361,17 @@ impl HeaderVariable {
                 _ => None,
             },
 
-            HeaderPart::Raw => raw
+            HeaderPart::Raw if header.offset_end != 0 => raw
                 .get(header.offset_start as usize..header.offset_end as usize)
                 .map(sanitize_raw_header)
                 .map(Variable::from),
-            HeaderPart::RawName => raw
+            HeaderPart::Raw => header.value.as_text().map(Variable::from),
+            HeaderPart::RawName if header.offset_field < header.offset_start => raw
                 .get(header.offset_field as usize..header.offset_start as usize - 1)
                 .map(|bytes| std::str::from_utf8(bytes).unwrap_or_default())
                 .map(Variable::from),
+            // Header added or renamed by the script
+            HeaderPart::RawName => Variable::from(header.name.as_str()).into(),
             HeaderPart::Exists => Variable::from(true).into(),
             _ => match (&header.value, &self.part) {
                 (HeaderValue::ContentType(ct), HeaderPart::ContentType(part)) => match part {
-- 
2.43.0


From e7654a586dcb6b322286c5a73141d30beb61faa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:10 +0000
Subject: [PATCH 17/65] fix: the implicit keep stores the edited message also
 when fileinto :copy stored it before

---
 src/runtime/context.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/runtime/context.rs b/src/runtime/context.rs
index 482203b..954228c 100644
--- a/src/runtime/context.rs
+++ b/src/runtime/context.rs
@@ -416,8 +416,11 @@ impl<'x> Context<'x> {
         match self.final_event.take() {
             Some(Event::Keep {
                 mut flags,
-                message_id,
+                mut message_id,
             }) => {
+                if !self.explicit_keep {
+                    message_id = self.main_message_id;
+                }
                 let create_event = if self.has_changes {
                     self.build_message_id()
                 } else {
@@ -452,9 +455,12 @@ impl<'x> Context<'x> {
         if let Some(event) = self.final_event.take() {
             self.queued_events = if let Event::Keep {
                 mut flags,
-                message_id,
+                mut message_id,
             } = event
             {
+                if !self.explicit_keep {
+                    message_id = self.main_message_id;
+                }
                 let global_flags = self.get_global_flags();
                 if flags.is_empty() && !global_flags.is_empty() {
                     flags = global_flags;
-- 
2.43.0


From c7ce652bddb92d594b4284f7edf85956a45bbfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:17 +0000
Subject: [PATCH 18/65] fix: count the messages sent by mailto notifications

---
 src/runtime/actions/action_notify.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/runtime/actions/action_notify.rs b/src/runtime/actions/action_notify.rs
index 88d5909..f7783a6 100644
--- a/src/runtime/actions/action_notify.rs
+++ b/src/runtime/actions/action_notify.rs
@@ -213,6 +213,7 @@ impl Notify {
             });
 
             if is_mailto {
+                ctx.num_out_messages += 1;
                 events.push(Event::SendMessage {
                     recipient: Recipient::Group(
                         params
-- 
2.43.0


From 90be4ebe79d6b27f807720631c74eadbd2fca21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:15 +0000
Subject: [PATCH 19/65] fix: line breaks in notification, vacation and redirect
 values must not inject headers

---
 src/runtime/actions/action_notify.rs   | 13 +++++++------
 src/runtime/actions/action_redirect.rs |  2 +-
 src/runtime/actions/action_vacation.rs | 22 +++++++++++++++++-----
 3 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/runtime/actions/action_notify.rs b/src/runtime/actions/action_notify.rs
index f7783a6..4992f07 100644
--- a/src/runtime/actions/action_notify.rs
+++ b/src/runtime/actions/action_notify.rs
@@ -15,7 +15,7 @@ use crate::{
     Context, Event, Importance, Recipient,
 };
 
-use super::action_vacation::MAX_SUBJECT_LEN;
+use super::action_vacation::{write_header_text, MAX_SUBJECT_LEN};
 
 impl Notify {
     pub(crate) fn exec(&self, ctx: &mut Context) {
@@ -94,7 +94,7 @@ impl Notify {
 
             let mut message = Vec::with_capacity(message_len);
             message.extend_from_slice(b"From: ");
-            message.extend_from_slice(from.as_bytes());
+            write_header_text(&mut message, &from);
             message.extend_from_slice(b"\r\n");
 
             for (header, addresses) in [("To: ", &params.to), ("Cc: ", &params.cc)] {
@@ -107,7 +107,7 @@ impl Notify {
                         if !address.contains('<') {
                             message.push(b'<');
                         }
-                        message.extend_from_slice(address.as_bytes());
+                        write_header_text(&mut message, address);
                         if !address.contains('<') {
                             message.push(b'>');
                         }
@@ -136,9 +136,9 @@ impl Notify {
                     }
                     _ => (),
                 }
-                message.extend_from_slice(header.as_str().as_bytes());
+                write_header_text(&mut message, header.as_str());
                 message.extend_from_slice(b": ");
-                message.extend_from_slice(value.as_bytes());
+                write_header_text(&mut message, value);
                 message.extend_from_slice(b"\r\n");
             }
 
@@ -185,7 +185,7 @@ impl Notify {
             #[allow(clippy::while_let_on_iterator)]
             while let Some((pos, char)) = iter.next() {
                 if pos < MAX_SUBJECT_LEN {
-                    message.extend_from_slice(char.encode_utf8(&mut buf).as_bytes());
+                    write_header_text(&mut message, char.encode_utf8(&mut buf));
                 } else {
                     break;
                 }
@@ -418,6 +418,7 @@ fn parse_mailto(uri: &str) -> Option<MailtoMessage> {
                                     return None;
                                 }
                             }
+                            b'\r' | b'\n' => return None,
                             _ => {
                                 buf.push(ch);
                             }
diff --git a/src/runtime/actions/action_redirect.rs b/src/runtime/actions/action_redirect.rs
index 063b2f3..997fe30 100644
--- a/src/runtime/actions/action_redirect.rs
+++ b/src/runtime/actions/action_redirect.rs
@@ -125,7 +125,7 @@ pub(crate) fn sanitize_address(addr: &str) -> Option<String> {
             }
             '>' => (),
             _ => {
-                if !ch.is_ascii_whitespace() || in_quote {
+                if !ch.is_ascii_whitespace() || (in_quote && !matches!(ch, '\r' | '\n')) {
                     result.push(ch);
                 }
             }
diff --git a/src/runtime/actions/action_vacation.rs b/src/runtime/actions/action_vacation.rs
index bee00dd..e49433a 100644
--- a/src/runtime/actions/action_vacation.rs
+++ b/src/runtime/actions/action_vacation.rs
@@ -262,7 +262,7 @@ impl Vacation {
         write_header(&mut message, "From: ", vacation_from.to_string().as_ref());
         if let Some(vacation_to_full) = vacation_to_full {
             message.extend_from_slice(b"To:");
-            message.extend_from_slice(vacation_to_full);
+            write_raw_header_value(&mut message, vacation_to_full);
         } else {
             write_header(&mut message, "To: ", vacation_to.to_string().as_ref());
         }
@@ -273,14 +273,14 @@ impl Vacation {
         );
         if let Some(message_id) = message_id {
             message.extend_from_slice(b"In-Reply-To: <");
-            message.extend_from_slice(message_id.as_bytes());
+            write_header_text(&mut message, message_id);
             message.extend_from_slice(b">\r\n");
 
             message.extend_from_slice(b"References: <");
-            message.extend_from_slice(message_id.as_bytes());
+            write_header_text(&mut message, message_id);
             if let Some(references) = references {
                 message.extend_from_slice(b"> ");
-                message.extend_from_slice(references);
+                write_raw_header_value(&mut message, references);
             } else {
                 message.extend_from_slice(b">\r\n");
             }
@@ -338,6 +338,18 @@ impl Vacation {
 
 fn write_header(buf: &mut Vec<u8>, name: &str, value: &str) {
     buf.extend_from_slice(name.as_bytes());
-    buf.extend_from_slice(value.as_bytes());
+    write_header_text(buf, value);
     buf.extend_from_slice(b"\r\n");
 }
+
+// A line break in a header value would start a new header
+pub(crate) fn write_header_text(buf: &mut Vec<u8>, text: &str) {
+    buf.extend(text.bytes().filter(|ch| !matches!(ch, b'\r' | b'\n')));
+}
+
+fn write_raw_header_value(buf: &mut Vec<u8>, value: &[u8]) {
+    buf.extend_from_slice(value);
+    if !value.ends_with(b"\n") {
+        buf.extend_from_slice(b"\r\n");
+    }
+}
-- 
2.43.0


From 611d0d0205fa17abdaa95096918beb354994641f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:32 +0000
Subject: [PATCH 20/65] fix: headers set by replace, enclose and convert must
 be visible to tests

---
 src/runtime/actions/action_convert.rs |  2 +-
 src/runtime/actions/action_mime.rs    | 32 +++++++++++++--------------
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/runtime/actions/action_convert.rs b/src/runtime/actions/action_convert.rs
index 9fb1253..520e6e8 100644
--- a/src/runtime/actions/action_convert.rs
+++ b/src/runtime/actions/action_convert.rs
@@ -75,7 +75,7 @@ impl Convert {
                 }
             };
             part.headers = vec![Header {
-                name: HeaderName::Other("Content-Type".into()),
+                name: HeaderName::ContentType,
                 value: HeaderValue::Text(ct.to_string().into()),
                 offset_start: 0,
                 offset_end: 0,
diff --git a/src/runtime/actions/action_mime.rs b/src/runtime/actions/action_mime.rs
index cc711fd..ee8647b 100644
--- a/src/runtime/actions/action_mime.rs
+++ b/src/runtime/actions/action_mime.rs
@@ -84,7 +84,7 @@ impl Replace {
                 if !from.is_empty() {
                     ctx.insert_header(
                         0,
-                        HeaderName::Other("From".into()),
+                        HeaderName::From,
                         from.to_string()
                             .as_ref()
                             .remove_crlf(ctx.runtime.max_header_size),
@@ -96,7 +96,7 @@ impl Replace {
             if add_from {
                 ctx.insert_header(
                     0,
-                    HeaderName::Other("From".to_string().into()),
+                    HeaderName::From,
                     ctx.user_from_field(),
                     true,
                 );
@@ -107,7 +107,7 @@ impl Replace {
                 if !subject.is_empty() {
                     ctx.insert_header(
                         0,
-                        HeaderName::Other("Subject".into()),
+                        HeaderName::Subject,
                         subject
                             .to_string()
                             .as_ref()
@@ -126,7 +126,7 @@ impl Replace {
 
                 ctx.insert_header(
                     0,
-                    HeaderName::Other("Date".to_string().into()),
+                    HeaderName::Date,
                     header_value,
                     true,
                 );
@@ -141,7 +141,7 @@ impl Replace {
 
             ctx.insert_header(
                 0,
-                HeaderName::Other("Message-ID".to_string().into()),
+                HeaderName::MessageId,
                 String::from_utf8(header_value).unwrap(),
                 true,
             );
@@ -150,7 +150,7 @@ impl Replace {
         if !self.mime {
             ctx.insert_header(
                 ctx.part,
-                HeaderName::Other("Content-Type".into()),
+                HeaderName::ContentType,
                 "text/plain; charset=utf-8".to_string(),
                 true,
             );
@@ -226,20 +226,20 @@ impl Enclose {
 
         ctx.insert_header(
             0,
-            HeaderName::Other("Content-Type".into()),
+            HeaderName::ContentType,
             format!("multipart/mixed; boundary=\"{boundary}\""),
             true,
         );
-        ctx.insert_header(0, HeaderName::Other("Subject".into()), subject, true);
+        ctx.insert_header(0, HeaderName::Subject, subject, true);
         ctx.insert_header(
             1,
-            HeaderName::Other("Content-Type".into()),
+            HeaderName::ContentType,
             "text/plain; charset=utf-8",
             true,
         );
         ctx.insert_header(
             2,
-            HeaderName::Other("Content-Type".into()),
+            HeaderName::ContentType,
             "message/rfc822",
             true,
         );
@@ -256,7 +256,7 @@ impl Enclose {
                 header_name = header_name.trim();
                 header_value = header_value.trim();
                 if !header_value.is_empty() {
-                    if let Some(name) = HeaderName::parse(header_name) {
+                    if let Some(name) = HeaderName::parse(header_name.to_string()) {
                         if !ctx.runtime.protected_headers.contains(&name) {
                             match &name {
                                 HeaderName::Date => {
@@ -273,7 +273,7 @@ impl Enclose {
 
                             ctx.insert_header(
                                 0,
-                                HeaderName::Other(header_name.to_string().into()),
+                                name,
                                 header_value.remove_crlf(ctx.runtime.max_header_size),
                                 true,
                             );
@@ -286,7 +286,7 @@ impl Enclose {
         if add_from {
             ctx.insert_header(
                 0,
-                HeaderName::Other("From".to_string().into()),
+                HeaderName::From,
                 ctx.user_from_field(),
                 true,
             );
@@ -300,7 +300,7 @@ impl Enclose {
 
             ctx.insert_header(
                 0,
-                HeaderName::Other("Date".to_string().into()),
+                HeaderName::Date,
                 header_value,
                 true,
             );
@@ -315,7 +315,7 @@ impl Enclose {
 
             ctx.insert_header(
                 0,
-                HeaderName::Other("Message-ID".to_string().into()),
+                HeaderName::MessageId,
                 String::from_utf8(header_value).unwrap(),
                 true,
             );
@@ -482,7 +482,7 @@ impl Context<'_> {
                             );
                         }
                     } else {
-                        if header.name == HeaderName::Other("Content-Type".into()) {
+                        if header.name == HeaderName::ContentType {
                             ct_pos = header_pos;
                         }
 
-- 
2.43.0


From 36a494a68e954ba0f7d2407801c85242ddc022f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:24 +0000
Subject: [PATCH 21/65] fix: converting the root part must not remove the
 headers of the message

---
 src/runtime/actions/action_convert.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/runtime/actions/action_convert.rs b/src/runtime/actions/action_convert.rs
index 520e6e8..e2e9cb9 100644
--- a/src/runtime/actions/action_convert.rs
+++ b/src/runtime/actions/action_convert.rs
@@ -49,7 +49,7 @@ impl Convert {
             return TestResult::Bool(false ^ self.is_not);
         };
         let mut did_convert = false;
-        for part in ctx.message.parts.iter_mut() {
+        for (part_id, part) in ctx.message.parts.iter_mut().enumerate() {
             let (new_body, ct) = match (&part.body, conversion) {
                 (PartType::Html(html), Conversion::HtmlToText) => (
                     PartType::Text(html_to_text(html.as_ref()).into()),
@@ -74,13 +74,30 @@ impl Convert {
                     continue;
                 }
             };
-            part.headers = vec![Header {
+            // Only the MIME headers of the message are replaced
+            if part_id == 0 {
+                part.headers.retain(|header| !header.name.is_mime_header());
+                ctx.message_size += part
+                    .headers
+                    .iter()
+                    .map(|header| {
+                        if header.offset_end != 0 {
+                            (header.offset_end - header.offset_field) as usize
+                        } else {
+                            header.name.as_str().len() + header.value.len() + 4
+                        }
+                    })
+                    .sum::<usize>();
+            } else {
+                part.headers.clear();
+            }
+            part.headers.push(Header {
                 name: HeaderName::ContentType,
                 value: HeaderValue::Text(ct.to_string().into()),
                 offset_start: 0,
                 offset_end: 0,
                 offset_field: 0,
-            }];
+            });
             ctx.message_size =
                 (ctx.message_size + ct.len() + new_body.len() + 16).saturating_sub(
                     if part.offset_body != 0 {
-- 
2.43.0


From 1fcfb2687bcb1055c1b3d0238f7c5bc6be19f808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:34 +0000
Subject: [PATCH 22/65] fix: escape sequences in expression strings

---
 src/compiler/grammar/expr/tokenizer.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/compiler/grammar/expr/tokenizer.rs b/src/compiler/grammar/expr/tokenizer.rs
index 9e8310a..c780275 100644
--- a/src/compiler/grammar/expr/tokenizer.rs
+++ b/src/compiler/grammar/expr/tokenizer.rs
@@ -185,12 +185,13 @@ where
 
                             for (_, &ch) in self.iter.by_ref() {
                                 if last_ch != b'\\' {
-                                    if ch != stop_ch {
-                                        buf.push(ch);
-                                    } else {
+                                    if ch == stop_ch {
                                         found_end = true;
                                         break;
+                                    } else if ch != b'\\' {
+                                        buf.push(ch);
                                     }
+                                    last_ch = ch;
                                 } else {
                                     match ch {
                                         b'n' => {
@@ -206,9 +207,8 @@ where
                                             buf.push(ch);
                                         }
                                     }
+                                    last_ch = 0;
                                 }
-
-                                last_ch = ch;
                             }
 
                             if found_end {
-- 
2.43.0


From 5fdb10bc2166cb61a4e5b9b385b3abb0f9c804b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:40 +0000
Subject: [PATCH 23/65] fix: a single equals sign in an expression must not
 drop the next character

---
 src/compiler/grammar/expr/tokenizer.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/compiler/grammar/expr/tokenizer.rs b/src/compiler/grammar/expr/tokenizer.rs
index c780275..db073ef 100644
--- a/src/compiler/grammar/expr/tokenizer.rs
+++ b/src/compiler/grammar/expr/tokenizer.rs
@@ -147,12 +147,18 @@ where
                                 Token::BinaryOperator(BinaryOperator::Subtract)
                             }
                         }
-                        b'=' => match self.iter.next() {
-                            Some((_, b'=')) => Token::BinaryOperator(BinaryOperator::Eq),
-                            Some((_, b'>')) => Token::BinaryOperator(BinaryOperator::Ge),
-                            Some((_, b'<')) => Token::BinaryOperator(BinaryOperator::Le),
-                            _ => Token::BinaryOperator(BinaryOperator::Eq),
-                        },
+                        b'=' => {
+                            let operator = match self.iter.peek() {
+                                Some((_, b'=')) => BinaryOperator::Eq.into(),
+                                Some((_, b'>')) => BinaryOperator::Ge.into(),
+                                Some((_, b'<')) => BinaryOperator::Le.into(),
+                                _ => None,
+                            };
+                            if operator.is_some() {
+                                self.iter.next();
+                            }
+                            Token::BinaryOperator(operator.unwrap_or(BinaryOperator::Eq))
+                        }
                         b'>' => match self.iter.peek() {
                             Some((_, b'=')) => {
                                 self.iter.next();
-- 
2.43.0


From 79e19aec23c3f8d31f506884c5e7cd31b6d05344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:30 +0000
Subject: [PATCH 24/65] fix: array literals with unary operators or
 parenthesized items

---
 src/compiler/grammar/expr/parser.rs    | 11 ++---------
 src/compiler/grammar/expr/tokenizer.rs |  5 ++++-
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/compiler/grammar/expr/parser.rs b/src/compiler/grammar/expr/parser.rs
index 7557c56..9e4710a 100644
--- a/src/compiler/grammar/expr/parser.rs
+++ b/src/compiler/grammar/expr/parser.rs
@@ -82,7 +82,7 @@ where
                         self.operator_stack.last()
                     {
                         let got_args = self.arg_count.pop().unwrap();
-                        if got_args != *num_args as i32 {
+                        if *id != ID_ARRAY_BUILD && got_args != *num_args as i32 {
                             return Err(if *id != u32::MAX {
                                 format!(
                                     "Expression function {:?} expected {} arguments, got {}",
@@ -95,7 +95,7 @@ where
 
                         let expr = match *id {
                             ID_ARRAY_ACCESS => Expression::ArrayAccess,
-                            ID_ARRAY_BUILD => Expression::ArrayBuild(*num_args),
+                            ID_ARRAY_BUILD => Expression::ArrayBuild(got_args.max(0) as u32),
                             id => Expression::Function {
                                 id,
                                 num_args: *num_args,
@@ -213,13 +213,6 @@ where
     fn inc_arg_count(&mut self) {
         if let Some(x) = self.arg_count.last_mut() {
             *x = x.saturating_add(1);
-            let op_pos = self.operator_stack.len().saturating_sub(2);
-            match self.operator_stack.get_mut(op_pos) {
-                Some((Token::Function { num_args, id, .. }, _)) if *id == ID_ARRAY_BUILD => {
-                    *num_args += 1;
-                }
-                _ => {}
-            }
         }
     }
 
diff --git a/src/compiler/grammar/expr/tokenizer.rs b/src/compiler/grammar/expr/tokenizer.rs
index db073ef..0bd4aa9 100644
--- a/src/compiler/grammar/expr/tokenizer.rs
+++ b/src/compiler/grammar/expr/tokenizer.rs
@@ -232,7 +232,10 @@ where
                     };
                     self.is_start = matches!(
                         token,
-                        Token::OpenParen | Token::Comma | Token::BinaryOperator(_)
+                        Token::OpenParen
+                            | Token::OpenBracket
+                            | Token::Comma
+                            | Token::BinaryOperator(_)
                     );
 
                     return if prev_token.is_some() {
-- 
2.43.0


From d602dcf69fba753e67ec97768d9783a43c199303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:08 +0000
Subject: [PATCH 25/65] fix: extracttext must honor the variable size limit

---
 src/runtime/actions/action_mime.rs | 23 ++---------------------
 1 file changed, 2 insertions(+), 21 deletions(-)

diff --git a/src/runtime/actions/action_mime.rs b/src/runtime/actions/action_mime.rs
index ee8647b..a483ea3 100644
--- a/src/runtime/actions/action_mime.rs
+++ b/src/runtime/actions/action_mime.rs
@@ -9,10 +9,7 @@ use mail_parser::{
 };
 
 use crate::{
-    compiler::{
-        grammar::actions::action_mime::{Enclose, ExtractText, Replace},
-        VariableType,
-    },
+    compiler::grammar::actions::action_mime::{Enclose, ExtractText, Replace},
     Context, Event,
 };
 
@@ -353,23 +350,7 @@ impl ExtractText {
             }
         }
 
-        match &self.name {
-            VariableType::Local(var_id) => {
-                if let Some(var) = ctx.vars_local.get_mut(*var_id) {
-                    *var = value.into();
-                } else {
-                    debug_assert!(false, "Non-existent local variable {var_id}");
-                }
-            }
-            VariableType::Global(var_name) => {
-                ctx.vars_global
-                    .insert(var_name.to_string().into(), value.into());
-            }
-            VariableType::Envelope(env) => {
-                ctx.add_set_envelope_event(*env, value);
-            }
-            _ => (),
-        }
+        ctx.set_variable(&self.name, value.into());
     }
 }
 
-- 
2.43.0


From cd116d8148d8c31b212a49c11caa597cb54344fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:15 +0000
Subject: [PATCH 26/65] fix: fileinto :mailboxid requires the mailboxid
 capability

---
 src/compiler/grammar/actions/action_fileinto.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/grammar/actions/action_fileinto.rs b/src/compiler/grammar/actions/action_fileinto.rs
index 551854a..88a6482 100644
--- a/src/compiler/grammar/actions/action_fileinto.rs
+++ b/src/compiler/grammar/actions/action_fileinto.rs
@@ -73,7 +73,7 @@ impl CompilerState<'_> {
                 Token::Tag(Word::MailboxId) => {
                     self.validate_argument(
                         4,
-                        Capability::Mailbox.into(),
+                        Capability::MailboxId.into(),
                         token_info.line_num,
                         token_info.line_pos,
                     )?;
-- 
2.43.0


From fe23a26de7d5cc2219bc0e805513759601fcfdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:22 +0000
Subject: [PATCH 27/65] fix: the vacation period in days must not overflow

---
 src/runtime/actions/action_vacation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/actions/action_vacation.rs b/src/runtime/actions/action_vacation.rs
index e49433a..0310767 100644
--- a/src/runtime/actions/action_vacation.rs
+++ b/src/runtime/actions/action_vacation.rs
@@ -145,7 +145,7 @@ impl TestVacation {
                         format!("_v{}{}", from, ctx.eval_value(&self.reason).to_string())
                     },
                     expiry: match &self.period {
-                        Period::Days(days) => days * 86400,
+                        Period::Days(days) => days.saturating_mul(86400),
                         Period::Seconds(seconds) => *seconds,
                         Period::Default => ctx.runtime.default_vacation_expiry,
                     },
-- 
2.43.0


From 7b77951f7c0727d9642b8f02502631a66e46b3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:01 +0000
Subject: [PATCH 28/65] fix: references to global variables are not case
 sensitive

---
 src/compiler/lexer/string.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/lexer/string.rs b/src/compiler/lexer/string.rs
index d51f9ed..1b78c4d 100644
--- a/src/compiler/lexer/string.rs
+++ b/src/compiler/lexer/string.rs
@@ -279,7 +279,7 @@ impl CompilerState<'_> {
     ) -> Result<Option<VariableType>, ErrorType> {
         if !maybe_namespace {
             if self.is_var_global(var_name) {
-                Ok(Some(VariableType::Global(var_name.to_string())))
+                Ok(Some(VariableType::Global(var_name.to_lowercase())))
             } else if let Some(var_id) = self.get_local_var(var_name) {
                 Ok(Some(VariableType::Local(var_id)))
             } else {
@@ -328,7 +328,7 @@ impl CompilerState<'_> {
                 },
                 None => {
                     if self.is_var_global(var_name) {
-                        VariableType::Global(var_name.to_string())
+                        VariableType::Global(var_name.to_lowercase())
                     } else if let Some(var_id) = self.get_local_var(var_name) {
                         VariableType::Local(var_id)
                     } else {
-- 
2.43.0


From 5250953e8494a81a60df2786ef2997274cea48d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:09 +0000
Subject: [PATCH 29/65] fix: a foreverypart can not reuse the label of the loop
 it is directly in

---
 src/compiler/grammar/instruction.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/compiler/grammar/instruction.rs b/src/compiler/grammar/instruction.rs
index 3aa0be8..919b261 100644
--- a/src/compiler/grammar/instruction.rs
+++ b/src/compiler/grammar/instruction.rs
@@ -248,7 +248,9 @@ impl Compiler {
                             {
                                 let tag = state.tokens.next().unwrap().unwrap();
                                 let label = state.tokens.expect_static_string()?;
-                                for block in &state.block_stack {
+                                for block in
+                                    [&state.block].into_iter().chain(&state.block_stack)
+                                {
                                     if block.label.as_ref().is_some_and(|n| n.eq(&label)) {
                                         return Err(
                                             tag.custom(ErrorType::LabelAlreadyDefined(label))
-- 
2.43.0


From 920275f50d91456b47ca7a4a6aeca502388fce85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:00 +0000
Subject: [PATCH 30/65] fix: enforce the limits on the number of local and
 match variables

---
 src/compiler/grammar/actions/action_set.rs | 12 ++++++++++--
 src/compiler/lexer/string.rs               |  6 +++++-
 src/compiler/mod.rs                        |  2 ++
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/compiler/grammar/actions/action_set.rs b/src/compiler/grammar/actions/action_set.rs
index c6d1f30..a36a56f 100644
--- a/src/compiler/grammar/actions/action_set.rs
+++ b/src/compiler/grammar/actions/action_set.rs
@@ -13,7 +13,7 @@ use crate::{
         lexer::{tokenizer::TokenInfo, word::Word, Token},
         CompileError, ErrorType, Value, VariableType,
     },
-    Envelope,
+    Envelope, MAX_LOCAL_VARIABLES,
 };
 
 #[derive(Debug, Clone, PartialEq, Eq)]
@@ -182,7 +182,15 @@ impl CompilerState<'_> {
             }
         } else {
             Ok(if !self.is_var_global(&name) {
-                VariableType::Local(self.register_local_var(name, register_as_local))
+                let var_id = self.register_local_var(name, register_as_local);
+                let max_vars = std::cmp::min(
+                    self.compiler.max_local_variables,
+                    MAX_LOCAL_VARIABLES as usize,
+                );
+                if std::cmp::max(self.vars_num_max, self.vars_num) + self.vars_local > max_vars {
+                    return Err(ErrorType::TooManyVariables);
+                }
+                VariableType::Local(var_id)
             } else {
                 VariableType::Global(name)
             })
diff --git a/src/compiler/lexer/string.rs b/src/compiler/lexer/string.rs
index 1b78c4d..fdbc4f5 100644
--- a/src/compiler/lexer/string.rs
+++ b/src/compiler/lexer/string.rs
@@ -257,7 +257,11 @@ impl CompilerState<'_> {
         let num = var_name
             .parse()
             .map_err(|_| ErrorType::InvalidNumber(var_name.to_string()))?;
-        if num < MAX_MATCH_VARIABLES as usize {
+        let max_vars = std::cmp::min(
+            self.compiler.max_match_variables,
+            MAX_MATCH_VARIABLES as usize,
+        );
+        if num < max_vars {
             if self.register_match_var(num) {
                 let total_vars = num + 1;
                 if total_vars > self.vars_match_max {
diff --git a/src/compiler/mod.rs b/src/compiler/mod.rs
index e62705f..2a5e857 100644
--- a/src/compiler/mod.rs
+++ b/src/compiler/mod.rs
@@ -47,6 +47,7 @@ pub enum ErrorType {
     StringTooLong,
     VariableTooLong,
     VariableIsLocal(String),
+    TooManyVariables,
     HeaderTooLong,
     ExpectedConstantString,
     UnexpectedToken {
@@ -531,6 +532,7 @@ impl Display for CompileError {
             ErrorType::UnterminatedBlock => write!(f, "Unterminated block"),
             ErrorType::ScriptTooLong => write!(f, "Sieve script is too large"),
             ErrorType::StringTooLong => write!(f, "String is too long"),
+            ErrorType::TooManyVariables => write!(f, "Too many local variables"),
             ErrorType::VariableTooLong => write!(f, "Variable name is too long"),
             ErrorType::VariableIsLocal(value) => {
                 write!(f, "Variable {value:?} was already defined as local")
-- 
2.43.0


From 08296648621cd65f5705876be4b131c578670cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:12 +0000
Subject: [PATCH 31/65] fix: unknown commands are reported at their own
 position, not at the position of the enclosing block

---
 src/compiler/grammar/instruction.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/compiler/grammar/instruction.rs b/src/compiler/grammar/instruction.rs
index 919b261..408621f 100644
--- a/src/compiler/grammar/instruction.rs
+++ b/src/compiler/grammar/instruction.rs
@@ -636,8 +636,8 @@ impl Compiler {
                                 continue;
                             } else {
                                 return Err(CompileError {
-                                    line_num: state.block.line_num,
-                                    line_pos: state.block.line_pos,
+                                    line_num: token_info.line_num,
+                                    line_pos: token_info.line_pos,
                                     error_type: ErrorType::UnexpectedToken {
                                         expected: "command".into(),
                                         found: instruction.to_string(),
@@ -813,8 +813,8 @@ impl Compiler {
                         }));
                     } else {
                         return Err(CompileError {
-                            line_num: state.block.line_num,
-                            line_pos: state.block.line_pos,
+                            line_num: token_info.line_num,
+                            line_pos: token_info.line_pos,
                             error_type: ErrorType::UnexpectedToken {
                                 expected: "command".into(),
                                 found: instruction,
-- 
2.43.0


From 77ef90651bb64933b49b61c50e27fc0f9bc69371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:35 +0000
Subject: [PATCH 32/65] fix: an excess of nested blocks is reported at the
 block that exceeds the limit

---
 src/compiler/grammar/instruction.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/grammar/instruction.rs b/src/compiler/grammar/instruction.rs
index 408621f..db9b63e 100644
--- a/src/compiler/grammar/instruction.rs
+++ b/src/compiler/grammar/instruction.rs
@@ -658,8 +658,8 @@ impl Compiler {
                             state.block = new_block;
                         } else {
                             return Err(CompileError {
-                                line_num: state.block.line_num,
-                                line_pos: state.block.line_pos,
+                                line_num: new_block.line_num,
+                                line_pos: new_block.line_pos,
                                 error_type: ErrorType::TooManyNestedBlocks,
                             });
                         }
-- 
2.43.0


From 7df6fcc97f18b41f090d9021b9b4ebd3ea40f68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:59 +0000
Subject: [PATCH 33/65] Revert "fix: unmatched regex groups must reset their
 match variables"

This reverts commit d7663a999ca93587e8eeb7124919fae157b8651a.
---
 src/runtime/tests/comparator.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/runtime/tests/comparator.rs b/src/runtime/tests/comparator.rs
index 89141e4..6aa2283 100644
--- a/src/runtime/tests/comparator.rs
+++ b/src/runtime/tests/comparator.rs
@@ -125,13 +125,9 @@ fn eval_regex(
         while capture_positions != 0 {
             let index = 63 - capture_positions.leading_zeros();
             capture_positions ^= 1 << index;
-            captured_values.push((
-                index as usize,
-                captures
-                    .get(index as usize)
-                    .map(|match_var| match_var.as_str().to_string())
-                    .unwrap_or_default(),
-            ));
+            if let Some(match_var) = captures.get(index as usize) {
+                captured_values.push((index as usize, match_var.as_str().to_string()));
+            }
         }
         true
     } else {
-- 
2.43.0


From a788748fd68189f246610fda0436891595c5e7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:59 +0000
Subject: [PATCH 34/65] Revert "fix: the string and environment tests must stop
 at the first matching key"

This reverts commit 0f5107daab3eb22ff234bf143a7bd9c28c9e0d67.
---
 src/runtime/tests/test_string.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/runtime/tests/test_string.rs b/src/runtime/tests/test_string.rs
index 48777da..3364acd 100644
--- a/src/runtime/tests/test_string.rs
+++ b/src/runtime/tests/test_string.rs
@@ -59,7 +59,7 @@ impl TestString {
                 let mut captured_values = Vec::new();
                 let sources = ctx.eval_values(&self.source);
 
-                'outer: for pattern in &self.key_list {
+                for pattern in &self.key_list {
                     let key = ctx.eval_value(pattern);
                     for source in &sources {
                         if !empty_is_null || !source.is_empty() {
@@ -89,7 +89,7 @@ impl TestString {
                             };
 
                             if result {
-                                break 'outer;
+                                break;
                             }
                         }
                     }
-- 
2.43.0


From 0d78e68a86dac572f1c31667f30c5dd269d45e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:59 +0000
Subject: [PATCH 35/65] Revert "fix: the date, currentdate and hasflag tests
 must honor :regex"

This reverts commit be5111dee30829e03e35a1b654e9d96982316bd2.
---
 src/runtime/tests/test_date.rs    | 16 +++++++--------
 src/runtime/tests/test_hasflag.rs | 34 +++++++------------------------
 2 files changed, 14 insertions(+), 36 deletions(-)

diff --git a/src/runtime/tests/test_date.rs b/src/runtime/tests/test_date.rs
index b125b16..dfc1ab7 100644
--- a/src/runtime/tests/test_date.rs
+++ b/src/runtime/tests/test_date.rs
@@ -94,7 +94,7 @@ impl TestDate {
                         if let Some(dt) = ctx.find_dates(header) {
                             let date_part =
                                 self.date_part.eval(self.zone.eval(dt.as_ref()).as_ref());
-                            for (key, pattern) in key_list.iter().zip(&self.key_list) {
+                            for key in &key_list {
                                 if match &self.match_type {
                                     MatchType::Is => self.comparator.is(&date_part.as_str(), key),
                                     MatchType::Contains => self
@@ -113,10 +113,9 @@ impl TestDate {
                                             &mut captured_values,
                                         )
                                     }
-                                    MatchType::Regex(capture_positions) => self.comparator.regex(
-                                        pattern,
-                                        key,
+                                    MatchType::Regex(capture_positions) => self.comparator.matches(
                                         &date_part,
+                                        key.to_string().as_ref(),
                                         *capture_positions,
                                         &mut captured_values,
                                     ),
@@ -183,8 +182,8 @@ impl TestCurrentDate {
                     }),
                 );
 
-                for pattern in &self.key_list {
-                    let key = ctx.eval_value(pattern);
+                for key in &self.key_list {
+                    let key = ctx.eval_value(key);
 
                     if match &self.match_type {
                         MatchType::Is => self.comparator.is(&date_part.as_str(), &key),
@@ -201,10 +200,9 @@ impl TestCurrentDate {
                             *capture_positions,
                             &mut captured_values,
                         ),
-                        MatchType::Regex(capture_positions) => self.comparator.regex(
-                            pattern,
-                            &key,
+                        MatchType::Regex(capture_positions) => self.comparator.matches(
                             &date_part,
+                            key.to_string().as_ref(),
                             *capture_positions,
                             &mut captured_values,
                         ),
diff --git a/src/runtime/tests/test_hasflag.rs b/src/runtime/tests/test_hasflag.rs
index 6a62488..de671b9 100644
--- a/src/runtime/tests/test_hasflag.rs
+++ b/src/runtime/tests/test_hasflag.rs
@@ -45,30 +45,6 @@ impl TestHasFlag {
                 }
             }
             result
-        } else if let MatchType::Regex(capture_positions) = &self.match_type {
-            let mut captured_values = Vec::new();
-            let patterns = ctx.eval_values(&self.flags);
-            let result = patterns.iter().zip(&self.flags).any(|(key, pattern)| {
-                variable_list
-                    .iter()
-                    .filter_map(|variable| ctx.get_variable(variable))
-                    .filter(|flags| !flags.is_empty())
-                    .any(|flags| {
-                        flags.to_string().split(' ').any(|flag| {
-                            self.comparator.regex(
-                                pattern,
-                                key,
-                                flag,
-                                *capture_positions,
-                                &mut captured_values,
-                            )
-                        })
-                    })
-            });
-            if !captured_values.is_empty() {
-                ctx.set_match_variables(captured_values);
-            }
-            result
         } else {
             let mut captured_values = Vec::new();
             let result = ctx.tokenize_flags(&self.flags, |check_flag| {
@@ -92,9 +68,13 @@ impl TestHasFlag {
                                             &mut captured_values,
                                         )
                                     }
-                                    MatchType::Regex(_)
-                                    | MatchType::Count(_)
-                                    | MatchType::List => false,
+                                    MatchType::Regex(capture_positions) => self.comparator.matches(
+                                        flag,
+                                        check_flag,
+                                        *capture_positions,
+                                        &mut captured_values,
+                                    ),
+                                    MatchType::Count(_) | MatchType::List => false,
                                 } {
                                     return true;
                                 }
-- 
2.43.0


From 4decbccda7a70e0232b8f28faab5d8636da4ed09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:59 +0000
Subject: [PATCH 36/65] Revert "fix: an invalid regular expression in a
 variable is not a compiler bug"

This reverts commit 2f220369bd6aa8603fd2f1a2439603a77b67f2f9.
---
 src/runtime/tests/comparator.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/runtime/tests/comparator.rs b/src/runtime/tests/comparator.rs
index 6aa2283..8779fe1 100644
--- a/src/runtime/tests/comparator.rs
+++ b/src/runtime/tests/comparator.rs
@@ -97,8 +97,10 @@ impl Comparator {
         } else {
             match fancy_regex::Regex::new(pattern_expr.to_string().as_ref()) {
                 Ok(regex) => eval_regex(&regex, value, capture_positions, captured_values),
-                // The pattern is only known at runtime and might not be valid
-                Err(_) => false,
+                Err(err) => {
+                    debug_assert!(false, "Failed to compile regex: {err:?}");
+                    false
+                }
             }
         }
     }
-- 
2.43.0


From c753de7e15a2549407a2f25f0217563b3a8c5341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:14 +0000
Subject: [PATCH 37/65] fix: string lists in unknown tests are skipped when
 ihave is required

---
 src/compiler/grammar/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/grammar/mod.rs b/src/compiler/grammar/mod.rs
index 392cb31..b2cb11d 100644
--- a/src/compiler/grammar/mod.rs
+++ b/src/compiler/grammar/mod.rs
@@ -234,10 +234,10 @@ impl CompilerState<'_> {
         let mut d_count = 0;
         while let Some(token_info) = self.tokens.peek() {
             match token_info?.token {
-                Token::ParenthesisOpen => {
+                Token::ParenthesisOpen | Token::BracketOpen => {
                     d_count += 1;
                 }
-                Token::ParenthesisClose => {
+                Token::ParenthesisClose | Token::BracketClose => {
                     if d_count == 0 {
                         break;
                     } else {
-- 
2.43.0


From 360b8e724697aba0187a87e1cc4a3b1c68da8355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:55 +0000
Subject: [PATCH 38/65] fix: unknown tests are only accepted when ihave is
 required

---
 src/compiler/grammar/test.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/grammar/test.rs b/src/compiler/grammar/test.rs
index 35df171..3650eac 100644
--- a/src/compiler/grammar/test.rs
+++ b/src/compiler/grammar/test.rs
@@ -503,7 +503,7 @@ impl CompilerState<'_> {
 
                         Instruction::Eval(self.parse_expr()?)
                     }
-                    Token::Identifier(word) => {
+                    Token::Identifier(word) if self.has_capability(&Capability::Ihave) => {
                         self.ignore_test()?;
                         Test::Invalid(Invalid {
                             name: word.to_string(),
@@ -548,7 +548,7 @@ impl CompilerState<'_> {
                         }
                         .into()
                     }
-                    Token::Unknown(name) => {
+                    Token::Unknown(name) if self.has_capability(&Capability::Ihave) => {
                         self.ignore_test()?;
                         Test::Invalid(Invalid {
                             name,
-- 
2.43.0


From f35899d23e30d0d7729964e13e8d33a4f69e2628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:36 +0000
Subject: [PATCH 39/65] fix: an array literal can end with an indexed header
 variable

---
 src/compiler/grammar/expr/tokenizer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/compiler/grammar/expr/tokenizer.rs b/src/compiler/grammar/expr/tokenizer.rs
index 0bd4aa9..1ee028e 100644
--- a/src/compiler/grammar/expr/tokenizer.rs
+++ b/src/compiler/grammar/expr/tokenizer.rs
@@ -91,7 +91,9 @@ where
                 b':' if self.buf.contains(&b'.') => {
                     self.buf.push(ch);
                 }
-                b']' if self.buf.contains(&b'[') => {
+                b']' if self.buf.iter().filter(|&&c| c == b'[').count()
+                    > self.buf.iter().filter(|&&c| c == b']').count() =>
+                {
                     self.buf.push(b']');
                 }
                 b'*' if self.buf.last().is_some_and( |&c| c == b'[' || c == b'.') => {
-- 
2.43.0


From 36e70417d9e9dfdb1c47d4bc2e7f53817244c655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:52 +0000
Subject: [PATCH 40/65] fix: :replace must not build values far beyond the
 variable size limit

---
 src/runtime/actions/action_set.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/runtime/actions/action_set.rs b/src/runtime/actions/action_set.rs
index 005da43..182098e 100644
--- a/src/runtime/actions/action_set.rs
+++ b/src/runtime/actions/action_set.rs
@@ -197,10 +197,24 @@ impl Modifier {
                 }
                 result
             }
-            Modifier::Replace { find, replace } => input.replace(
-                ctx.eval_value(find).to_string().as_ref(),
-                ctx.eval_value(replace).to_string().as_ref(),
-            ),
+            Modifier::Replace { find, replace } => {
+                let find = ctx.eval_value(find);
+                let replace = ctx.eval_value(replace);
+                let replace = replace.to_string();
+                let mut result = String::with_capacity(input.len());
+                let mut last_pos = 0;
+
+                for (pos, found) in input.match_indices(find.to_string().as_ref()) {
+                    result.push_str(&input[last_pos..pos]);
+                    result.push_str(replace.as_ref());
+                    last_pos = pos + found.len();
+                    if result.len() > max_len {
+                        return result;
+                    }
+                }
+                result.push_str(&input[last_pos..]);
+                result
+            }
         }
     }
 }
-- 
2.43.0


From 9b700ac3e10337919301056ebc069412750e6896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:28 +0000
Subject: [PATCH 41/65] fix: foreverypart nesting was not limited once the
 limit had been passed at the direct level

---
 src/compiler/grammar/instruction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/grammar/instruction.rs b/src/compiler/grammar/instruction.rs
index db9b63e..6d42384 100644
--- a/src/compiler/grammar/instruction.rs
+++ b/src/compiler/grammar/instruction.rs
@@ -236,7 +236,7 @@ impl Compiler {
                                 .iter()
                                 .filter(|b| matches!(&b.btype, Word::ForEveryPart))
                                 .count()
-                                == self.max_nested_foreverypart
+                                >= self.max_nested_foreverypart
                             {
                                 return Err(
                                     token_info.custom(ErrorType::TooManyNestedForEveryParts)
-- 
2.43.0


From 4c6c87487bcb268feff920b0069bd08aeebcc7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:10 +0000
Subject: [PATCH 42/65] fix: variables set with :local were always empty in the
 :content list of body tests

---
 src/compiler/grammar/instruction.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/compiler/grammar/instruction.rs b/src/compiler/grammar/instruction.rs
index 6d42384..82b1c0a 100644
--- a/src/compiler/grammar/instruction.rs
+++ b/src/compiler/grammar/instruction.rs
@@ -34,7 +34,7 @@ use super::{
     Capability, Clear, Invalid, While,
 };
 
-use super::tests::test_ihave::Error;
+use super::tests::{test_body::BodyTransform, test_ihave::Error};
 
 #[derive(Debug, Clone, Eq, PartialEq)]
 #[cfg_attr(
@@ -1079,6 +1079,9 @@ impl MapLocalVars for Test {
             }
             Test::Body(v) => {
                 v.key_list.map_local_vars(last_id);
+                if let BodyTransform::Content(content_types) = &mut v.body_transform {
+                    content_types.map_local_vars(last_id);
+                }
             }
             Test::Convert(v) => {
                 v.from_media_type.map_local_vars(last_id);
-- 
2.43.0


From 9696887bfc0190c2124c9d913ec5ce2046423289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:30 +0000
Subject: [PATCH 43/65] fix: a match replaces the match variables of earlier
 matches

---
 src/runtime/variables.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/runtime/variables.rs b/src/runtime/variables.rs
index b6fa185..9ead165 100644
--- a/src/runtime/variables.rs
+++ b/src/runtime/variables.rs
@@ -10,6 +10,12 @@ use super::Variable;
 
 impl Context<'_> {
     pub(crate) fn set_match_variables(&mut self, set_vars: Vec<(usize, String)>) {
+        // A match replaces the values of all previous ones
+        for var in self.vars_match.iter_mut() {
+            if !var.is_empty() {
+                *var = Variable::default();
+            }
+        }
         for (var_num, value) in set_vars {
             if let Some(var) = self.vars_match.get_mut(var_num) {
                 *var = value.into();
-- 
2.43.0


From 7bee719b5ee7c53cff673b726f27fea2ea1a1018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:30 +0000
Subject: [PATCH 44/65] fix: clear all match variables of a block at its end

---
 src/compiler/grammar/instruction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/grammar/instruction.rs b/src/compiler/grammar/instruction.rs
index 82b1c0a..5a8d44e 100644
--- a/src/compiler/grammar/instruction.rs
+++ b/src/compiler/grammar/instruction.rs
@@ -928,7 +928,7 @@ impl CompilerState<'_> {
                 if let Some(Instruction::Test(test)) = self.instructions.get_mut(*pos) {
                     if let Some(positions) = test.match_positions() {
                         *positions |= 1 << num;
-                        block.match_test_vars = *positions;
+                        block.match_test_vars |= *positions;
                     } else {
                         debug_assert!(false, "This should not have happened: {test:?}");
                         return false;
-- 
2.43.0


From 3e1e2b5395cba779a5dc3ffae34821aa340d0f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:25 +0000
Subject: [PATCH 45/65] fix: a minus sign after another unary operator was
 taken for a subtraction

---
 src/compiler/grammar/expr/tokenizer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/compiler/grammar/expr/tokenizer.rs b/src/compiler/grammar/expr/tokenizer.rs
index 1ee028e..1e858df 100644
--- a/src/compiler/grammar/expr/tokenizer.rs
+++ b/src/compiler/grammar/expr/tokenizer.rs
@@ -238,6 +238,7 @@ where
                             | Token::OpenBracket
                             | Token::Comma
                             | Token::BinaryOperator(_)
+                            | Token::UnaryOperator(_)
                     );
 
                     return if prev_token.is_some() {
-- 
2.43.0


From 73da6e53c32d427da210487ba7378ddf44a530ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:40 +0000
Subject: [PATCH 46/65] fix: every string of a flag list may hold several flags

---
 src/runtime/actions/action_flags.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/runtime/actions/action_flags.rs b/src/runtime/actions/action_flags.rs
index a1290f5..6f02f23 100644
--- a/src/runtime/actions/action_flags.rs
+++ b/src/runtime/actions/action_flags.rs
@@ -92,17 +92,10 @@ impl Context<'_> {
         strings: &[Value],
         mut cb: impl FnMut(&str) -> bool,
     ) -> bool {
-        for (pos, string) in strings.iter().enumerate() {
-            let flag_ = self.eval_value(string);
-            let flag = flag_.to_string();
-            if !flag.is_empty() {
-                if pos == 0 && strings.len() == 1 {
-                    for flag in flag.split_ascii_whitespace() {
-                        if !flag.is_empty() && cb(flag) {
-                            return true;
-                        }
-                    }
-                } else if cb(flag.trim()) {
+        for string in strings {
+            let flags = self.eval_value(string);
+            for flag in flags.to_string().split_ascii_whitespace() {
+                if cb(flag) {
                     return true;
                 }
             }
-- 
2.43.0


From ca7545665fcd7d4c301354cc7419a57fc92da0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:21 +0000
Subject: [PATCH 47/65] fix: removeflag left further copies of the flag in a
 variable

---
 src/runtime/actions/action_flags.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/runtime/actions/action_flags.rs b/src/runtime/actions/action_flags.rs
index 6f02f23..7368e79 100644
--- a/src/runtime/actions/action_flags.rs
+++ b/src/runtime/actions/action_flags.rs
@@ -61,23 +61,15 @@ impl EditFlags {
                 ctx.set_variable(var_name, new_flags.into());
             }
             Action::Remove => {
-                let mut current_flags = Vec::new();
-                let mut current_flags_lc = Vec::new();
                 let flags = ctx
                     .get_variable(var_name)
                     .map(|v| v.to_string().into_owned())
                     .unwrap_or_default();
+                let mut current_flags = flags.split_ascii_whitespace().collect::<Vec<_>>();
 
-                for flag in flags.split(' ') {
-                    current_flags.push(flag);
-                    current_flags_lc.push(flag.to_lowercase());
-                }
                 ctx.tokenize_flags(&self.flags, |flag| {
                     let flag = flag.to_lowercase();
-                    if let Some(pos) = current_flags_lc.iter().position(|lflag| lflag == &flag) {
-                        current_flags.swap_remove(pos);
-                        current_flags_lc.swap_remove(pos);
-                    }
+                    current_flags.retain(|lflag| lflag.to_lowercase() != flag);
                     false
                 });
                 ctx.set_variable(var_name, current_flags.join(" ").into());
-- 
2.43.0


From 4861ab61844ce0a2df0246ebf7ab1b218f7307bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:07 +0000
Subject: [PATCH 48/65] fix: a keep without flags took the flags of the end of
 the script

---
 src/runtime/context.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/runtime/context.rs b/src/runtime/context.rs
index 954228c..7f1cbd6 100644
--- a/src/runtime/context.rs
+++ b/src/runtime/context.rs
@@ -420,6 +420,7 @@ impl<'x> Context<'x> {
             }) => {
                 if !self.explicit_keep {
                     message_id = self.main_message_id;
+                    flags = self.get_global_flags();
                 }
                 let create_event = if self.has_changes {
                     self.build_message_id()
@@ -427,10 +428,6 @@ impl<'x> Context<'x> {
                     None
                 };
 
-                let global_flags = self.get_global_flags();
-                if flags.is_empty() && !global_flags.is_empty() {
-                    flags = global_flags;
-                }
                 if let Some(create_event) = create_event {
                     self.queued_events = vec![
                         create_event,
@@ -460,10 +457,7 @@ impl<'x> Context<'x> {
             {
                 if !self.explicit_keep {
                     message_id = self.main_message_id;
-                }
-                let global_flags = self.get_global_flags();
-                if flags.is_empty() && !global_flags.is_empty() {
-                    flags = global_flags;
+                    flags = self.get_global_flags();
                 }
 
                 if self.has_changes {
-- 
2.43.0


From 00c838c2086d327af164e2a36b97073d825c14e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:02 +0000
Subject: [PATCH 49/65] fix: an explicit keep stored edits made after it

The message kept by an explicit keep is the one at the time of the keep
(RFC 5293, section 6: actions store the message with the current set of
header fields), but later edits were included unless another action had
stored them first.
---
 src/runtime/context.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/runtime/context.rs b/src/runtime/context.rs
index 7f1cbd6..6defd7f 100644
--- a/src/runtime/context.rs
+++ b/src/runtime/context.rs
@@ -422,7 +422,7 @@ impl<'x> Context<'x> {
                     message_id = self.main_message_id;
                     flags = self.get_global_flags();
                 }
-                let create_event = if self.has_changes {
+                let create_event = if self.has_changes && !self.explicit_keep {
                     self.build_message_id()
                 } else {
                     None
@@ -460,7 +460,7 @@ impl<'x> Context<'x> {
                     flags = self.get_global_flags();
                 }
 
-                if self.has_changes {
+                if self.has_changes && !self.explicit_keep {
                     if let Some(event) = self.build_message_id() {
                         vec![
                             event,
-- 
2.43.0


From 46bf0c7ac7d95ccabeede4bc527a3d107cc886d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:58 +0000
Subject: [PATCH 50/65] fix: a field added after a header that ends the message
 was glued to it

---
 src/runtime/actions/action_mime.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/runtime/actions/action_mime.rs b/src/runtime/actions/action_mime.rs
index a483ea3..531bc2b 100644
--- a/src/runtime/actions/action_mime.rs
+++ b/src/runtime/actions/action_mime.rs
@@ -462,6 +462,10 @@ impl Context<'_> {
                                     [header.offset_start as usize..header.offset_end as usize],
                             );
                         }
+                        if !message.ends_with(b"\n") {
+                            // The message ended in this header
+                            message.extend_from_slice(b"\r\n");
+                        }
                     } else {
                         if header.name == HeaderName::ContentType {
                             ct_pos = header_pos;
-- 
2.43.0


From ebaeed23ef66f37d12fb82f98273b67f381b1e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:24 +0000
Subject: [PATCH 51/65] fix: convert from text/plain converted every text part
 and text only plain ones

---
 src/runtime/actions/action_convert.rs | 41 ++++++++++++++++-----------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/src/runtime/actions/action_convert.rs b/src/runtime/actions/action_convert.rs
index e2e9cb9..aca2219 100644
--- a/src/runtime/actions/action_convert.rs
+++ b/src/runtime/actions/action_convert.rs
@@ -14,9 +14,9 @@ use crate::{
 };
 
 #[derive(Clone, Copy)]
-enum Conversion {
+enum Conversion<'x> {
     TextToHtml,
-    TextPlainToHtml,
+    TextSubtypeToHtml(&'x str),
     HtmlToText,
 }
 
@@ -32,21 +32,27 @@ impl Convert {
             return TestResult::Bool(false ^ self.is_not);
         }
 
-        let conversion = if (from_media_type.eq_ignore_ascii_case("text")
-            || from_media_type.starts_with("text/"))
-            && to_media_type.eq_ignore_ascii_case("text/html")
-        {
-            if from_media_type.eq_ignore_ascii_case("text") {
-                Conversion::TextPlainToHtml
-            } else {
+        let conversion = match from_media_type.split_once('/') {
+            None if from_media_type.eq_ignore_ascii_case("text")
+                && to_media_type.eq_ignore_ascii_case("text/html") =>
+            {
                 Conversion::TextToHtml
             }
-        } else if from_media_type.eq_ignore_ascii_case("text/html")
-            && to_media_type.eq_ignore_ascii_case("text/plain")
-        {
-            Conversion::HtmlToText
-        } else {
-            return TestResult::Bool(false ^ self.is_not);
+            Some((type_, subtype))
+                if type_.eq_ignore_ascii_case("text")
+                    && to_media_type.eq_ignore_ascii_case("text/html") =>
+            {
+                Conversion::TextSubtypeToHtml(subtype)
+            }
+            Some(_)
+                if from_media_type.eq_ignore_ascii_case("text/html")
+                    && to_media_type.eq_ignore_ascii_case("text/plain") =>
+            {
+                Conversion::HtmlToText
+            }
+            _ => {
+                return TestResult::Bool(false ^ self.is_not);
+            }
         };
         let mut did_convert = false;
         for (part_id, part) in ctx.message.parts.iter_mut().enumerate() {
@@ -59,11 +65,12 @@ impl Convert {
                     PartType::Html(text_to_html(text.as_ref()).into()),
                     "text/html; charset=utf8",
                 ),
-                (PartType::Text(text), Conversion::TextPlainToHtml)
+                (PartType::Text(text), Conversion::TextSubtypeToHtml(subtype))
                     if part
                         .content_type()
                         .and_then(|ct| ct.c_subtype.as_ref())
-                        .is_some_and(|st| st.eq_ignore_ascii_case("plain")) =>
+                        .map_or("plain", |st| st.as_ref())
+                        .eq_ignore_ascii_case(subtype) =>
                 {
                     (
                         PartType::Html(text_to_html(text.as_ref()).into()),
-- 
2.43.0


From 9a85093a5d353f974f42aa5a2af8bb3c30ae4bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:43 +0000
Subject: [PATCH 52/65] fix: enclose put line breaks of a decoded subject into
 the header

---
 src/runtime/actions/action_mime.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/runtime/actions/action_mime.rs b/src/runtime/actions/action_mime.rs
index 531bc2b..bd5ca16 100644
--- a/src/runtime/actions/action_mime.rs
+++ b/src/runtime/actions/action_mime.rs
@@ -167,7 +167,11 @@ impl Enclose {
                     .as_ref()
                     .remove_crlf(ctx.runtime.max_header_size)
             })
-            .or_else(|| ctx.message.subject().map(|s| s.to_string()))
+            .or_else(|| {
+                ctx.message
+                    .subject()
+                    .map(|s| s.remove_crlf(ctx.runtime.max_header_size))
+            })
             .unwrap_or_default();
 
         let message = std::mem::take(&mut ctx.message);
-- 
2.43.0


From 39e553b879a4be209cd75cab533c7596dc296cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:04 +0000
Subject: [PATCH 53/65] fix: vacation doubled the angle brackets of an inserted
 Message-ID

---
 src/runtime/actions/action_vacation.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/runtime/actions/action_vacation.rs b/src/runtime/actions/action_vacation.rs
index 0310767..53f0f9b 100644
--- a/src/runtime/actions/action_vacation.rs
+++ b/src/runtime/actions/action_vacation.rs
@@ -208,7 +208,11 @@ impl Vacation {
                     }
                 }
                 HeaderName::MessageId => {
-                    message_id = header.value.as_text();
+                    // Inserted headers still have the angle brackets
+                    message_id = header
+                        .value
+                        .as_text()
+                        .map(|id| id.trim().trim_start_matches('<').trim_end_matches('>'));
                 }
                 HeaderName::References => {
                     if header.offset_start > 0 {
-- 
2.43.0


From c6bd437f37b07c48afa5ecc86f3b0780276e5f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:04 +0000
Subject: [PATCH 54/65] fix: invalid header names in a mailto URI made fields
 without a name

---
 src/runtime/actions/action_notify.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/runtime/actions/action_notify.rs b/src/runtime/actions/action_notify.rs
index 4992f07..57c076d 100644
--- a/src/runtime/actions/action_notify.rs
+++ b/src/runtime/actions/action_notify.rs
@@ -134,6 +134,10 @@ impl Notify {
                     HeaderName::From => {
                         continue;
                     }
+                    HeaderName::Other(name) if name.is_empty() => {
+                        // Not a valid header name
+                        continue;
+                    }
                     _ => (),
                 }
                 write_header_text(&mut message, header.as_str());
-- 
2.43.0


From 4788052408eb2ea426e3711fa909f01f1b9f0ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:04 +0000
Subject: [PATCH 55/65] fix: mailto URIs with addresses only in a to header
 before others were refused

---
 src/runtime/actions/action_notify.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/runtime/actions/action_notify.rs b/src/runtime/actions/action_notify.rs
index 57c076d..f2b5461 100644
--- a/src/runtime/actions/action_notify.rs
+++ b/src/runtime/actions/action_notify.rs
@@ -499,6 +499,7 @@ fn parse_mailto(uri: &str) -> Option<MailtoMessage> {
                             header,
                             String::from_utf8(std::mem::take(&mut buf)).ok()?,
                         );
+                        has_addresses = true;
                     }
                     state = State::ParamName;
                 }
-- 
2.43.0


From 9abdca6f918d7bd5814ef366343450eeec33b473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:04 +0000
Subject: [PATCH 56/65] fix: line breaks in the full name of the user injected
 headers

---
 src/runtime/context.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/runtime/context.rs b/src/runtime/context.rs
index 6defd7f..fbc5645 100644
--- a/src/runtime/context.rs
+++ b/src/runtime/context.rs
@@ -534,7 +534,9 @@ impl<'x> Context<'x> {
     pub fn set_user_full_name(&mut self, name: &str) {
         let mut name_ = String::with_capacity(name.len());
         for ch in name.chars() {
-            if ['\"', '\\'].contains(&ch) {
+            if ['\r', '\n'].contains(&ch) {
+                continue;
+            } else if ['\"', '\\'].contains(&ch) {
                 name_.push('\\');
             }
             name_.push(ch);
-- 
2.43.0


From 87815a62b6734a2c9a99f98d2af1ecdb6a3fdaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:47 +0000
Subject: [PATCH 57/65] fix: encode a replaced or converted text that contains
 a boundary of the parts it is in

---
 src/runtime/actions/action_mime.rs | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/runtime/actions/action_mime.rs b/src/runtime/actions/action_mime.rs
index bd5ca16..84416de 100644
--- a/src/runtime/actions/action_mime.rs
+++ b/src/runtime/actions/action_mime.rs
@@ -4,8 +4,9 @@
  * SPDX-License-Identifier: AGPL-3.0-only OR LicenseRef-SEL
  */
 
+use mail_builder::encoders::base64::base64_encode_mime;
 use mail_parser::{
-    decoders::html::html_to_text, Encoding, HeaderName, Message, MessagePart, PartType,
+    decoders::html::html_to_text, Encoding, HeaderName, Message, MessagePart, MimeHeaders, PartType,
 };
 
 use crate::{
@@ -426,7 +427,7 @@ impl Context<'_> {
         let mut current_boundary = "";
         let mut message = Vec::with_capacity(self.message_size);
         let mut iter = [0u32].iter();
-        let mut iter_stack = Vec::new();
+        let mut iter_stack: Vec<(StackItem<'_>, &MessagePart<'_>, _)> = Vec::new();
         let mut last_offset = 0;
 
         'outer: loop {
@@ -482,6 +483,21 @@ impl Context<'_> {
                     }
                 }
 
+                // A replaced text may not contain a boundary of the parts it is in
+                let encode = part.offset_body == 0
+                    && part.encoding != Encoding::None
+                    && matches!(&part.body, PartType::Text(_) | PartType::Html(_))
+                    && iter_stack
+                        .iter()
+                        .filter_map(|(_, part, _)| part.content_type()?.attribute("boundary"))
+                        .any(|boundary| {
+                            part.text_contents()
+                                .is_some_and(|text| text.contains(&format!("--{boundary}")))
+                        });
+                if encode {
+                    message.extend_from_slice(b"Content-Transfer-Encoding: base64\r\n");
+                }
+
                 if part.offset_body != 0 || part.encoding != Encoding::None {
                     // Add CRLF unless this is a :mime replaced part
                     message.extend_from_slice(b"\r\n");
@@ -544,7 +560,11 @@ impl Context<'_> {
                         }
                         _ => {
                             // Replaced part
-                            message.extend_from_slice(part.contents());
+                            if !encode {
+                                message.extend_from_slice(part.contents());
+                            } else {
+                                base64_encode_mime(part.contents(), &mut message, false).ok();
+                            }
                         }
                     }
                 }
-- 
2.43.0


From 6a5c43cf3876edea0581577a6a6c899e63b6a58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:11 +0000
Subject: [PATCH 58/65] fix: errors met while looking ahead for the next token
 were dropped

---
 src/compiler/lexer/tokenizer.rs | 10 +++++++++-
 src/compiler/mod.rs             |  4 ++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/compiler/lexer/tokenizer.rs b/src/compiler/lexer/tokenizer.rs
index a188399..c9ae203 100644
--- a/src/compiler/lexer/tokenizer.rs
+++ b/src/compiler/lexer/tokenizer.rs
@@ -19,6 +19,7 @@ pub(crate) struct Tokenizer<'x> {
     pub iter: Peekable<Iter<'x, u8>>,
     pub buf: Vec<u8>,
     pub next_token: Vec<TokenInfo>,
+    pub next_error: Option<CompileError>,
 
     pub pos: usize,
     pub line_num: usize,
@@ -74,6 +75,7 @@ impl<'x> Tokenizer<'x> {
             token_line_pos: 0,
             token_is_tag: false,
             next_token: Vec::with_capacity(2),
+            next_error: None,
             last_ch: 0,
             state: State::None,
         }
@@ -318,7 +320,11 @@ impl<'x> Tokenizer<'x> {
         if self.next_token.is_empty() {
             match self.next()? {
                 Ok(next_token) => self.next_token.push(next_token),
-                Err(err) => return Some(Err(err)),
+                Err(err) => {
+                    // The error is returned again when the token is consumed
+                    self.next_error = Some(err.clone());
+                    return Some(Err(err));
+                }
             }
         }
         self.next_token.last().map(Ok)
@@ -331,6 +337,8 @@ impl Iterator for Tokenizer<'_> {
     fn next(&mut self) -> Option<Self::Item> {
         if let Some(prev_token) = self.next_token.pop() {
             return Some(Ok(prev_token));
+        } else if let Some(err) = self.next_error.take() {
+            return Some(Err(err));
         }
 
         'outer: while let Some((ch, last_ch)) = self.next_byte() {
diff --git a/src/compiler/mod.rs b/src/compiler/mod.rs
index 2a5e857..8bf3f2c 100644
--- a/src/compiler/mod.rs
+++ b/src/compiler/mod.rs
@@ -17,14 +17,14 @@ use std::{borrow::Cow, fmt::Display, sync::Arc};
 pub mod grammar;
 pub mod lexer;
 
-#[derive(Debug)]
+#[derive(Debug, Clone)]
 pub struct CompileError {
     line_num: usize,
     line_pos: usize,
     error_type: ErrorType,
 }
 
-#[derive(Debug)]
+#[derive(Debug, Clone)]
 pub enum ErrorType {
     InvalidCharacter(u8),
     InvalidNumber(String),
-- 
2.43.0


From 9d3f22181527e7570abc30de2f8d084fb17a6772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:34 +0000
Subject: [PATCH 59/65] fix: else and elsif were accepted inside the block they
 follow

---
 src/compiler/grammar/instruction.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/compiler/grammar/instruction.rs b/src/compiler/grammar/instruction.rs
index 5a8d44e..269c5bd 100644
--- a/src/compiler/grammar/instruction.rs
+++ b/src/compiler/grammar/instruction.rs
@@ -656,6 +656,7 @@ impl Compiler {
                             state.block.last_block_start = state.instructions.len() - 1;
                             state.block_stack.push(state.block);
                             state.block = new_block;
+                            state.last_block_type = Word::Not;
                         } else {
                             return Err(CompileError {
                                 line_num: new_block.line_num,
-- 
2.43.0


From f1367b7b094cc64bb7a09bedbf656eba06d0f7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:02 +0000
Subject: [PATCH 60/65] fix: parentheses around anyof and allof were not
 balanced

---
 src/compiler/grammar/test.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/compiler/grammar/test.rs b/src/compiler/grammar/test.rs
index 3650eac..ae64fa8 100644
--- a/src/compiler/grammar/test.rs
+++ b/src/compiler/grammar/test.rs
@@ -194,6 +194,10 @@ impl CompilerState<'_> {
 
                             block = prev_block;
                             is_not = block.is_not;
+                            while block.p_count > 0 {
+                                self.tokens.expect_token(Token::ParenthesisClose)?;
+                                block.p_count -= 1;
+                            }
                             if block_stack.is_empty() {
                                 break;
                             } else {
-- 
2.43.0


From 6140bb35070a384207948e4802174c693097a100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:59 +0000
Subject: [PATCH 61/65] fix: the raw value of headers added by the script was
 missing from header.*

---
 src/runtime/eval.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/runtime/eval.rs b/src/runtime/eval.rs
index 1bd7529..dc26015 100644
--- a/src/runtime/eval.rs
+++ b/src/runtime/eval.rs
@@ -156,6 +156,12 @@ impl<'x> Context<'x> {
         } else {
             for h in &part.headers {
                 match &header.part {
+                    // Header added or renamed by the script
+                    HeaderPart::Raw if h.offset_end == 0 => {
+                        if let Some(text) = h.value.as_text() {
+                            result.push(Variable::from(format!("{}: {}", h.name.as_str(), text)));
+                        }
+                    }
                     HeaderPart::Raw => {
                         if let Some(var) = raw
                             .get(h.offset_field as usize..h.offset_end as usize)
-- 
2.43.0


From e3e75f9d55d8fee499b39de56599e236866d6984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:56 +0000
Subject: [PATCH 62/65] fix: continue clears the match variables used after it,
 too

---
 src/compiler/grammar/instruction.rs | 31 +++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/compiler/grammar/instruction.rs b/src/compiler/grammar/instruction.rs
index 269c5bd..88b6080 100644
--- a/src/compiler/grammar/instruction.rs
+++ b/src/compiler/grammar/instruction.rs
@@ -119,6 +119,7 @@ pub(crate) struct Block {
     pub(crate) last_block_start: usize,
     pub(crate) if_jmps: Vec<usize>,
     pub(crate) break_jmps: Vec<usize>,
+    pub(crate) continue_clears: Vec<usize>,
     pub(crate) match_test_pos: Vec<usize>,
     pub(crate) match_test_vars: u64,
     pub(crate) vars_local: AHashMap<String, usize>,
@@ -589,14 +590,16 @@ impl Compiler {
                             let mut num_pops = 0;
                             let mut match_vars = 0;
                             let mut num_vars = 0;
-                            for block in [&state.block]
+                            let clear_pos = state.instructions.len();
+                            for block in [&mut state.block]
                                 .into_iter()
-                                .chain(state.block_stack.iter().rev())
+                                .chain(state.block_stack.iter_mut().rev())
                             {
                                 if found_while {
                                     loop_start = Some(block.last_block_start);
                                     break;
                                 }
+                                block.continue_clears.push(clear_pos);
                                 match_vars |= block.match_test_vars;
                                 num_vars += block.vars_local.len();
                                 match &block.btype {
@@ -609,14 +612,13 @@ impl Compiler {
                                 token_info.custom(ErrorType::ContinueOutsideLoop)
                             })?;
 
-                            // The end of the blocks is skipped by the jump
-                            if match_vars != 0 || num_vars > 0 {
-                                state.instructions.push(Instruction::Clear(Clear {
-                                    match_vars,
-                                    local_vars_idx: (state.vars_num - num_vars) as u32,
-                                    local_vars_num: num_vars as u32,
-                                }));
-                            }
+                            // The end of the blocks is skipped by the jump. Match variables
+                            // used later in these blocks are added at their end.
+                            state.instructions.push(Instruction::Clear(Clear {
+                                match_vars,
+                                local_vars_idx: (state.vars_num - num_vars) as u32,
+                                local_vars_num: num_vars as u32,
+                            }));
                             if num_pops > 0 {
                                 state
                                     .instructions
@@ -946,6 +948,14 @@ impl CompilerState<'_> {
     }
 
     pub(crate) fn block_end(&mut self) {
+        for pos in self.block.continue_clears.drain(..) {
+            if let Instruction::Clear(clear) = &mut self.instructions[pos] {
+                clear.match_vars |= self.block.match_test_vars;
+            } else {
+                debug_assert!(false, "This should not have happened.");
+            }
+        }
+
         let vars_num_block = self.block.vars_local.len();
         if vars_num_block > 0 {
             if self.vars_num > self.vars_num_max {
@@ -1227,6 +1237,7 @@ impl Block {
             match_test_vars: 0,
             if_jmps: vec![],
             break_jmps: vec![],
+            continue_clears: vec![],
             vars_local: AHashMap::new(),
             capabilities: AHashSet::new(),
             require_pos: usize::MAX,
-- 
2.43.0


From a1e7845e6783732d98479330e9a787a55c4fa602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:19 +0000
Subject: [PATCH 63/65] fix: redirect :list accepts the name of a list, which
 is not an address

---
 src/runtime/actions/action_redirect.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/runtime/actions/action_redirect.rs b/src/runtime/actions/action_redirect.rs
index 997fe30..d2dbaab 100644
--- a/src/runtime/actions/action_redirect.rs
+++ b/src/runtime/actions/action_redirect.rs
@@ -13,8 +13,16 @@ use crate::{
 
 impl Redirect {
     pub(crate) fn exec(&self, ctx: &mut Context) {
-        if let Some(address) = sanitize_address(ctx.eval_value(&self.address).to_string().as_ref())
-        {
+        let address = ctx.eval_value(&self.address).to_string().into_owned();
+        let address = if !self.list {
+            sanitize_address(&address)
+        } else if !address.is_empty() {
+            // The name of an external list is not an e-mail address
+            Some(address)
+        } else {
+            None
+        };
+        if let Some(address) = address {
             if ctx.num_redirects < ctx.runtime.max_redirects
                 && ctx.num_out_messages < ctx.runtime.max_out_messages
                 && ctx.message.parts[0]
-- 
2.43.0


From 93aec9128ef085d41271b3492557d2a33716dde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:32 +0000
Subject: [PATCH 64/65] fix: errors of unknown commands give the line, then the
 column, and too many includes have a text

---
 src/compiler/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/compiler/mod.rs b/src/compiler/mod.rs
index 8bf3f2c..d27b374 100644
--- a/src/compiler/mod.rs
+++ b/src/compiler/mod.rs
@@ -575,13 +575,13 @@ impl Display for CompileError {
 impl Display for RuntimeError {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         match self {
-            RuntimeError::TooManyIncludes => write!(f, ""),
+            RuntimeError::TooManyIncludes => write!(f, "Too many nested includes."),
             RuntimeError::InvalidInstruction(value) => write!(
                 f,
                 "Script executed invalid instruction {:?} at line {}, column {}.",
                 value.name(),
-                value.line_pos(),
-                value.line_num()
+                value.line_num(),
+                value.line_pos()
             ),
             RuntimeError::ScriptErrorMessage(value) => {
                 write!(f, "Script reported error {value:?}.")
-- 
2.43.0


From 38b924e12c2b9ee2b9f4bbc8b58e0351900ef38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:32 +0000
Subject: [PATCH 65/65] fix: a string is less than an array, as numbers are

---
 src/runtime/expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/expression.rs b/src/runtime/expression.rs
index c0b7d86..9be7489 100644
--- a/src/runtime/expression.rs
+++ b/src/runtime/expression.rs
@@ -297,7 +297,7 @@ impl PartialOrd for Variable {
                 self.partial_cmp(&other.parse_number())
             }
             (Self::Array(a), Self::Array(b)) => a.partial_cmp(b),
-            (Self::Array(_) | Self::String(_), _) => Ordering::Greater.into(),
+            (Self::Array(_), _) => Ordering::Greater.into(),
             (_, Self::Array(_)) => Ordering::Less.into(),
         }
     }
-- 
2.43.0

