From 43b58b6ea387af2d6f6d0c2c27fd38e35873f354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:05 +0000
Subject: [PATCH 01/26] fix: wildcard matches the first and last symbol of the
 vocabulary

The bounds are inclusive: `.` in a lexer rule missed U+0000 and U+10FFFF, and
`.` in a parser rule missed the highest token type during prediction.
---
 src/transition.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transition.rs b/src/transition.rs
index 15f527c..e2be415 100644
--- a/src/transition.rs
+++ b/src/transition.rs
@@ -298,7 +298,7 @@ impl Transition for WildcardTransition {
     }
 
     fn matches(&self, _symbol: isize, _min_vocab_symbol: isize, _max_vocab_symbol: isize) -> bool {
-        _symbol < _max_vocab_symbol && _symbol > _min_vocab_symbol
+        _symbol <= _max_vocab_symbol && _symbol >= _min_vocab_symbol
     }
 }
 
-- 
2.43.0


From c6119f33be8d6470d10951d49bb88cb226146641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:05 +0000
Subject: [PATCH 02/26] fix: decode symbols U+FFFE and U+FFFF in serialized ATN
 edges

Values are serialized with a 16 bit wrapping offset of 2, so these two symbols
were read back as -2 and -1 and e.g. a range ending in U+FFFF matched nothing.
---
 src/atn_deserializer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/atn_deserializer.rs b/src/atn_deserializer.rs
index 593da83..7b5c3e0 100644
--- a/src/atn_deserializer.rs
+++ b/src/atn_deserializer.rs
@@ -478,9 +478,9 @@ impl ATNDeserializer {
                 start: if arg3 != 0 {
                     super::token::TOKEN_EOF
                 } else {
-                    arg1
+                    arg1 & 0xFFFF
                 },
-                stop: arg2,
+                stop: arg2 & 0xFFFF,
             }),
             TRANSITION_RULE => {
                 //                base.set_target(arg1 as usize);
@@ -499,7 +499,7 @@ impl ATNDeserializer {
             }),
             TRANSITION_ATOM => Box::new(AtomTransition {
                 target,
-                label: if arg3 != 0 { EOF } else { arg1 },
+                label: if arg3 != 0 { EOF } else { arg1 & 0xFFFF },
             }),
             TRANSITION_ACTION => Box::new(ActionTransition {
                 target,
-- 
2.43.0


From 03e39576aa84256dd805e85b8fd2bc9b12648257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:05 +0000
Subject: [PATCH 03/26] fix: keep the hash of lexer action lists in step with
 the actions

Lexer DFA states are shared by hash. The hash was only computed for the empty
list, so DFA states that differ only in their actions or action offsets were
merged and the actions of the state seen first were executed for both.
---
 src/lexer_action_executor.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/lexer_action_executor.rs b/src/lexer_action_executor.rs
index 4bfaaa7..799b651 100644
--- a/src/lexer_action_executor.rs
+++ b/src/lexer_action_executor.rs
@@ -39,11 +39,9 @@ impl LexerActionExecutor {
         old: Option<&Self>,
         lexer_action: LexerAction,
     ) -> LexerActionExecutor {
-        let mut new = old
-            .cloned()
-            .unwrap_or_else(|| LexerActionExecutor::new(Vec::new()));
-        new.lexer_actions.push(lexer_action);
-        new
+        let mut lexer_actions = old.map(|it| it.lexer_actions.clone()).unwrap_or_default();
+        lexer_actions.push(lexer_action);
+        LexerActionExecutor::new(lexer_actions)
     }
 
     pub fn fix_offset_before_match(mut self, offset: isize) -> LexerActionExecutor {
@@ -60,7 +58,8 @@ impl LexerActionExecutor {
                 }
             }
         }
-        self
+        // hash has to follow the actions
+        LexerActionExecutor::new(self.lexer_actions)
     }
 
     pub fn execute<'input>(&self, lexer: &mut impl Lexer<'input>, start_index: isize) {
-- 
2.43.0


From b647c0c094edb59a9922726fa27bf5959aa5b2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:05 +0000
Subject: [PATCH 04/26] fix: return the token supplied by a lexer action

When an action set `token`, next_token() started over, dropped that token and
returned the following one.
---
 src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 88fefcd..d0d3800 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -381,8 +381,8 @@ where
 
             if self.token.is_none() {
                 self.emit();
-                break;
             }
+            break;
         }
         self.input().release(_marker);
         self.token.take().unwrap()
-- 
2.43.0


From d0a0b9496ae23902c0521ac9fe56aa6755444b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:05 +0000
Subject: [PATCH 05/26] fix: LexerATNSimulator::set_line sets the line, not the
 column

---
 src/lexer_atn_simulator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer_atn_simulator.rs b/src/lexer_atn_simulator.rs
index 433324d..2144f87 100644
--- a/src/lexer_atn_simulator.rs
+++ b/src/lexer_atn_simulator.rs
@@ -117,7 +117,7 @@ impl ILexerATNSimulator for LexerATNSimulator {
     }
 
     fn set_line(&mut self, line: isize) {
-        self.current_pos.char_position_in_line.set(line)
+        self.current_pos.line.set(line)
     }
 
     fn consume<T: IntStream + ?Sized>(&self, _input: &mut T) {
-- 
2.43.0


From 781145c2b5136ad3dec83faf9c9bac145e6a7c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:07 +0000
Subject: [PATCH 06/26] fix: do not share lexer DFA edges that fix the offset
 of an action

The offset at which an action in the middle of a rule is executed depends on
the text matched so far, but was cached in the DFA edge: after "abc" the
action in ('a' | 'b' {action})+ 'c' was run at the wrong position for "aabc".
---
 src/lexer_atn_simulator.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lexer_atn_simulator.rs b/src/lexer_atn_simulator.rs
index 2144f87..fd728a8 100644
--- a/src/lexer_atn_simulator.rs
+++ b/src/lexer_atn_simulator.rs
@@ -285,7 +285,7 @@ impl LexerATNSimulator {
         lexer: &mut impl Lexer<'input>,
     ) -> DFAStateRef {
         let mut reach = ATNConfigSet::new_ordered();
-        self.get_reachable_config_set(
+        let offset_fixed = self.get_reachable_config_set(
             &dfa.as_ref().unwrap().states[s].configs,
             &mut reach,
             _t,
@@ -303,7 +303,8 @@ impl LexerATNSimulator {
             return ERROR_DFA_STATE_REF;
         }
 
-        let supress_edge = reach.has_semantic_context();
+        // offset of an action depends on how this state was reached, so such edge can't be shared
+        let supress_edge = reach.has_semantic_context() || offset_fixed;
         reach.set_has_semantic_context(false);
         let to = self.add_dfastate(&mut dfa_mut, Box::new(reach));
         if !supress_edge {
@@ -324,8 +325,9 @@ impl LexerATNSimulator {
         _reach: &mut ATNConfigSet,
         _t: isize,
         lexer: &mut impl Lexer<'input>,
-    ) {
+    ) -> bool {
         let mut skip_alt = 0;
+        let mut offset_fixed = false;
         //        println!(" --- source {:?}", _closure.configs.iter().map(|it|it.get_state()).collect::<Vec<_>>());
         for config in _closure.get_items() {
             let current_alt_reached_accept_state = config.get_alt() == skip_alt;
@@ -345,6 +347,7 @@ impl LexerATNSimulator {
                         x.clone()
                             .fix_offset_before_match(lexer.input().index() - self.start_index)
                     });
+                    offset_fixed |= exec.as_ref() != config.get_lexer_executor();
 
                     let new = config.cloned_with_new_exec(self.atn().states[target].as_ref(), exec);
                     if self.closure(
@@ -361,6 +364,7 @@ impl LexerATNSimulator {
                 }
             }
         }
+        offset_fixed
     }
 
     //    fn get_reachable_target<T>(&self, states: &T, _trans: &Transition, _t: isize) -> &ATNState
-- 
2.43.0


From 44c29f3874b3340c663ed561e398152790975e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:08 +0000
Subject: [PATCH 07/26] fix: merge every interval an added interval overlaps

---
 src/interval_set.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/interval_set.rs b/src/interval_set.rs
index 9707c1f..8594f35 100644
--- a/src/interval_set.rs
+++ b/src/interval_set.rs
@@ -130,23 +130,19 @@ impl IntervalSet {
 
             if added.adjacent(r) || !added.disjoint(r) {
                 // next to each other, make a single larger interval
-                let bigger = added.union(r);
+                let mut bigger = added.union(r);
                 *r = bigger;
                 // make sure we didn't just create an interval that
-                // should be merged with next interval in list
-                loop {
-                    i += 1;
-                    let next = match self.intervals.get(i) {
-                        Some(v) => v,
-                        None => break,
-                    };
+                // should be merged with next intervals in list
+                while let Some(next) = self.intervals.get(i + 1) {
                     if !bigger.adjacent(next) && bigger.disjoint(next) {
                         break;
                     }
 
                     // if we bump up against or overlap next, merge
-                    self.intervals[i - 1] = bigger.union(next); // set to 3 merged ones
-                    self.intervals.remove(i);
+                    bigger = bigger.union(next);
+                    self.intervals[i] = bigger;
+                    self.intervals.remove(i + 1);
                 }
                 return;
             }
-- 
2.43.0


From e78cd4cb54ed03b6d9509a86612a7e3070874df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:08 +0000
Subject: [PATCH 08/26] fix: start and reposition CommonTokenStream on a token
 of its channel

---
 src/common_token_stream.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/common_token_stream.rs b/src/common_token_stream.rs
index a56ddc7..64610c2 100644
--- a/src/common_token_stream.rs
+++ b/src/common_token_stream.rs
@@ -50,6 +50,7 @@ impl<'input, T: TokenSource<'input>> IntStream for CommonTokenStream<'input, T>
 
     #[inline(always)]
     fn seek(&mut self, index: isize) {
+        let index = self.next_token_on_channel(index, self.channel, 1);
         self.base.seek(index);
     }
 
@@ -106,7 +107,7 @@ impl<'input, T: TokenSource<'input>> CommonTokenStream<'input, T> {
             base: UnbufferedTokenStream::new_buffered(lexer),
             channel,
         };
-        r.sync(0);
+        r.seek(0);
         r
     }
 
@@ -127,8 +128,7 @@ impl<'input, T: TokenSource<'input>> CommonTokenStream<'input, T> {
 
     /// Restarts this token stream
     pub fn reset(&mut self) {
-        self.base.p = 0;
-        self.base.current_token_index = 0;
+        self.seek(0);
     }
 
     /// Creates iterator over this token stream
-- 
2.43.0


From d9e1f1e75c224924abda25332cfa83b650d8265e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:08 +0000
Subject: [PATCH 09/26] fix: CommonTokenStream lookbehind past the first token
 of the channel is None

---
 src/common_token_stream.rs | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/common_token_stream.rs b/src/common_token_stream.rs
index 64610c2..ebb517d 100644
--- a/src/common_token_stream.rs
+++ b/src/common_token_stream.rs
@@ -23,7 +23,7 @@ impl<'input, T: TokenSource<'input>> IntStream for CommonTokenStream<'input, T>
         self.base.consume();
         //        self.base.p = self.next_token_on_channel(self.base.p,self.channel);
         //        self.base.current_token_index = self.base.p;
-        let next = self.next_token_on_channel(self.base.p, self.channel, 1);
+        let next = self.next_token_on_channel(self.base.p, self.channel);
         self.base.seek(next);
         // Ok(())
     }
@@ -50,7 +50,7 @@ impl<'input, T: TokenSource<'input>> IntStream for CommonTokenStream<'input, T>
 
     #[inline(always)]
     fn seek(&mut self, index: isize) {
-        let index = self.next_token_on_channel(index, self.channel, 1);
+        let index = self.next_token_on_channel(index, self.channel);
         self.base.seek(index);
     }
 
@@ -118,7 +118,7 @@ impl<'input, T: TokenSource<'input>> CommonTokenStream<'input, T> {
         while n < k {
             // skip off-channel tokens, but make sure to not look past EOF
             if self.sync(i + 1) {
-                i = self.next_token_on_channel(i + 1, self.channel, 1);
+                i = self.next_token_on_channel(i + 1, self.channel);
             }
             n += 1;
         }
@@ -158,8 +158,18 @@ impl<'input, T: TokenSource<'input>> CommonTokenStream<'input, T> {
     //
     //    fn set_token_source(&self, tokenSource: TokenSource) { unimplemented!() }
 
-    //todo make this const generic over direction
-    fn next_token_on_channel(&mut self, mut i: isize, channel: isize, direction: isize) -> isize {
+    fn previous_token_on_channel(&self, mut i: isize, channel: isize) -> Option<isize> {
+        while i >= 0 && self.base.tokens[i as usize].borrow().get_channel() != channel {
+            i -= 1;
+        }
+        if i < 0 {
+            None
+        } else {
+            Some(i)
+        }
+    }
+
+    fn next_token_on_channel(&mut self, mut i: isize, channel: isize) -> isize {
         self.sync(i);
         if i >= self.size() {
             return self.size() - 1;
@@ -167,11 +177,11 @@ impl<'input, T: TokenSource<'input>> CommonTokenStream<'input, T> {
 
         let mut token = self.base.tokens[i as usize].borrow();
         while token.get_channel() != channel {
-            if token.get_token_type() == EOF || i < 0 {
+            if token.get_token_type() == EOF {
                 return i;
             }
 
-            i += direction;
+            i += 1;
             self.sync(i);
             token = self.base.tokens[i as usize].borrow();
         }
@@ -179,8 +189,6 @@ impl<'input, T: TokenSource<'input>> CommonTokenStream<'input, T> {
         return i;
     }
     //
-    //    fn previous_token_on_channel(&self, i: isize, channel: isize) -> int { unimplemented!() }
-    //
     //    fn get_hidden_tokens_to_right(&self, tokenIndex: isize, channel: isize) -> Vec<Token> { unimplemented!() }
     //
     //    fn get_hidden_tokens_to_left(&self, tokenIndex: isize, channel: isize) -> Vec<Token> { unimplemented!() }
@@ -210,15 +218,10 @@ impl<'input, T: TokenSource<'input>> CommonTokenStream<'input, T> {
         }
 
         let mut i = self.base.p;
-        let mut n = 1;
         // find k good tokens looking backwards
-        while n <= k && i > 0 {
+        for _ in 0..k {
             // skip off-channel tokens
-            i = self.next_token_on_channel(i - 1, self.channel, -1);
-            n += 1;
-        }
-        if i < 0 {
-            return None;
+            i = self.previous_token_on_channel(i - 1, self.channel)?;
         }
 
         return self.base.tokens.get(i as usize);
-- 
2.43.0


From e500386fde03c69f09fa3ecd0a5e99198ca413ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:08 +0000
Subject: [PATCH 10/26] fix: iterating over an IntStream ends at EOF instead of
 consuming it

---
 src/int_stream.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/int_stream.rs b/src/int_stream.rs
index 1ae40bc..c4451bd 100644
--- a/src/int_stream.rs
+++ b/src/int_stream.rs
@@ -75,11 +75,12 @@ impl<'a, T: IntStream> Iterator for IterWrapper<'a, T> {
     type Item = isize;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let result = self.0.la(1);
-        self.0.consume();
-        match result {
+        match self.0.la(1) {
             EOF => None,
-            x => Some(x),
+            x => {
+                self.0.consume();
+                Some(x)
+            }
         }
     }
 }
-- 
2.43.0


From 4fd0662ed37afda6e9c794269623ccb07dfc7c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:08 +0000
Subject: [PATCH 11/26] fix: UnbufferedTokenStream lookbehind at the window
 start and lookahead past EOF

---
 src/token_stream.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/token_stream.rs b/src/token_stream.rs
index 9623c72..ae9f80c 100644
--- a/src/token_stream.rs
+++ b/src/token_stream.rs
@@ -155,12 +155,14 @@ impl<'input, T: TokenSource<'input>> TokenStream<'input> for UnbufferedTokenStre
     #[inline]
     fn lt(&mut self, i: isize) -> Option<&<Self::TF as TokenFactory<'input>>::Tok> {
         if i == -1 {
-            return self.tokens.get(self.p as usize - 1);
+            return self.tokens.get((self.p - 1) as usize);
         }
 
         self.sync(i);
 
-        self.tokens.get((self.p + i - 1) as usize)
+        // the last token is EOF if there are not enough tokens left
+        let index = min(self.p + i - 1, self.tokens.len() as isize - 1);
+        self.tokens.get(index as usize)
     }
 
     #[inline]
@@ -239,8 +241,9 @@ impl<'input, T: TokenSource<'input>> IntStream for UnbufferedTokenStream<'input,
 
         self.markers_count -= 1;
         if self.markers_count == 0 {
-            if self.p > 0 {
-                self.tokens.drain(0..self.p as usize);
+            if self.p > 1 {
+                // previous token is kept for lt(-1)
+                self.tokens.drain(0..self.p as usize - 1);
                 //todo drain assembly is almost 2x longer than
                 // unsafe manual copy but need to bench before using unsafe
                 //let new_len = self.tokens.len() - self.p as usize;
@@ -258,7 +261,7 @@ impl<'input, T: TokenSource<'input>> IntStream for UnbufferedTokenStream<'input,
                 //     self.tokens.set_len(new_len);
                 // }
 
-                self.p = 0;
+                self.p = 1;
             }
         }
     }
-- 
2.43.0


From 8258a4ffea2f606da04524ee0dabe818bec6a3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:08 +0000
Subject: [PATCH 12/26] fix: UnbufferedTokenStream seeks forward to tokens not
 read yet

---
 src/token_stream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/token_stream.rs b/src/token_stream.rs
index ae9f80c..17d87e9 100644
--- a/src/token_stream.rs
+++ b/src/token_stream.rs
@@ -277,8 +277,8 @@ impl<'input, T: TokenSource<'input>> IntStream for UnbufferedTokenStream<'input,
             return;
         }
         if index > self.current_token_index {
-            self.sync(index - self.current_token_index);
-            index = min(index, self.get_buffer_start_index() + self.size() + 1);
+            self.sync(index - self.current_token_index + 1);
+            index = min(index, self.get_buffer_start_index() + self.size() - 1);
         }
         let i = index - self.get_buffer_start_index();
         if i < 0 || i >= self.tokens.len() as isize {
-- 
2.43.0


From 9c91ec3fd020dcf492654ecace5be7761fa9a307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:46 +0000
Subject: [PATCH 13/26] fix: decode the placeholders of states that were
 optimized away

---
 src/atn_deserializer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/atn_deserializer.rs b/src/atn_deserializer.rs
index 7b5c3e0..0e44077 100644
--- a/src/atn_deserializer.rs
+++ b/src/atn_deserializer.rs
@@ -143,9 +143,10 @@ impl ATNDeserializer {
         let states_count = data.next().unwrap() as usize;
         for i in 0..states_count {
             let state_type = data.next().unwrap();
-            if state_type == ATNSTATE_INVALID_STATE_NUMBER {
+            if state_type == ATNSTATE_INVALID_TYPE {
+                // state that was optimized away, nothing else is serialized for it
                 atn.add_state(self.state_factory(ATNSTATE_INVALID_TYPE, -1, i));
-                panic!("why invalid state serialized?");
+                continue;
             }
 
             let mut rule_index = data.next().unwrap();
-- 
2.43.0


From 407fe75e9bdebfb3203430bb4513133bf7079476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:16 +0000
Subject: [PATCH 14/26] fix: decode each supported ATN format revision by its
 own layout

---
 src/atn_deserializer.rs | 52 ++++++++++++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 13 deletions(-)

diff --git a/src/atn_deserializer.rs b/src/atn_deserializer.rs
index 0e44077..0222b68 100644
--- a/src/atn_deserializer.rs
+++ b/src/atn_deserializer.rs
@@ -63,25 +63,29 @@ impl ATNDeserializer {
 
         self.check_version(data.next().unwrap() + 2);
 
-        let _uuid = self.check_uuid(&mut data);
+        let uuid = self.check_uuid(&mut data);
 
         let mut atn = self.read_atn(&mut data);
 
-        self.read_states(&mut atn, &mut data);
-        self.read_rules(&mut atn, &mut data);
+        self.read_states(&mut atn, &mut data, &uuid);
+        self.read_rules(&mut atn, &mut data, &uuid);
         self.read_modes(&mut atn, &mut data);
 
         let mut sets = self.read_sets(&mut atn, &mut data, |data| {
             data.next().unwrap() as u16 as isize
         });
 
-        sets.extend(self.read_sets(&mut atn, &mut data, |data| {
-            (data.next().unwrap() & 0xFFFF) | data.next().unwrap() << 16
-        }));
+        if self.is_feature_supported(&ADDED_UNICODE_SMP, &uuid) {
+            sets.extend(self.read_sets(&mut atn, &mut data, |data| {
+                (data.next().unwrap() & 0xFFFF) | data.next().unwrap() << 16
+            }));
+        }
 
-        self.read_edges(&mut atn, &mut data, &sets);
+        self.read_edges(&mut atn, &mut data, &sets, &uuid);
         self.read_decisions(&mut atn, &mut data);
-        if atn.grammar_type == ATNType::LEXER {
+        if atn.grammar_type == ATNType::LEXER
+            && self.is_feature_supported(&ADDED_LEXER_ACTIONS, &uuid)
+        {
             self.read_lexer_actions(&mut atn, &mut data);
         }
         self.mark_precedence_decisions(&mut atn, &mut data);
@@ -124,6 +128,12 @@ impl ATNDeserializer {
         uuid
     }
 
+    /// `SUPPORTED_UUIDS` are ordered, each one adds a feature to all previous
+    fn is_feature_supported(&self, feature: &Uuid, actual: &Uuid) -> bool {
+        let position = |uuid| SUPPORTED_UUIDS.iter().position(|it| it == uuid);
+        position(actual) >= position(feature)
+    }
+
     fn read_atn(&self, data: &mut dyn Iterator<Item = isize>) -> ATN {
         let atn = ATN::new_atn(
             match data.next() {
@@ -137,7 +147,7 @@ impl ATNDeserializer {
         atn
     }
 
-    fn read_states(&self, atn: &mut ATN, data: &mut dyn Iterator<Item = isize>) {
+    fn read_states(&self, atn: &mut ATN, data: &mut dyn Iterator<Item = isize>, uuid: &Uuid) {
         //        let loop_back_states = Vec::<(BaseATNState,isize)>::new();
         //        let end_states = Vec::<(BaseATNState,isize)>::new();
         let states_count = data.next().unwrap() as usize;
@@ -179,8 +189,7 @@ impl ATNDeserializer {
             }
         }
 
-        //if (supportsPrecedencePredicates)
-        if true {
+        if self.is_feature_supported(&ADDED_PRECEDENCE_TRANSITIONS, uuid) {
             let num_precedence_states = data.next().unwrap();
             for _ in 0..num_precedence_states {
                 let st = data.next().unwrap() as usize;
@@ -195,7 +204,7 @@ impl ATNDeserializer {
         }
     }
 
-    fn read_rules(&self, atn: &mut ATN, data: &mut dyn Iterator<Item = isize>) {
+    fn read_rules(&self, atn: &mut ATN, data: &mut dyn Iterator<Item = isize>, uuid: &Uuid) {
         let nrules = data.next().unwrap() as usize;
         //        if atn.grammar_type == ATNType::LEXER {
         //            atn.rule_to_token_type.resize(nrules, 0)
@@ -209,6 +218,11 @@ impl ATNDeserializer {
                 let token_type = data.next().unwrap();
 
                 atn.rule_to_token_type.push(token_type);
+
+                if !self.is_feature_supported(&ADDED_LEXER_ACTIONS, uuid) {
+                    // action index, not used
+                    data.next().unwrap();
+                }
             }
         }
         //println!("rule_to_token_type {:?}", atn.rule_to_token_type);
@@ -273,7 +287,10 @@ impl ATNDeserializer {
         atn: &mut ATN,
         data: &mut dyn Iterator<Item = isize>,
         sets: &Vec<IntervalSet>,
+        uuid: &Uuid,
     ) {
+        let legacy_actions = atn.grammar_type == ATNType::LEXER
+            && !self.is_feature_supported(&ADDED_LEXER_ACTIONS, uuid);
         let nedges = data.next().unwrap();
 
         for _i in 0..nedges {
@@ -281,9 +298,18 @@ impl ATNDeserializer {
             let trg = data.next().unwrap() as usize;
             let ttype = data.next().unwrap();
             let arg1 = data.next().unwrap();
-            let arg2 = data.next().unwrap();
+            let mut arg2 = data.next().unwrap();
             let arg3 = data.next().unwrap();
 
+            if legacy_actions && ttype == TRANSITION_ACTION {
+                // old format refers to the action itself, not to the table of actions
+                atn.lexer_actions.push(LexerCustomAction {
+                    rule_index: arg1,
+                    action_index: arg2,
+                });
+                arg2 = atn.lexer_actions.len() as isize - 1;
+            }
+
             let transition = self.edge_factory(atn, ttype, src, trg, arg1, arg2, arg3, sets);
 
             atn.states.get_mut(src).unwrap().add_transition(transition);
-- 
2.43.0


From 853f6040165fcbba82a0db5816e109c7c4162bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:48 +0000
Subject: [PATCH 15/26] fix: report the token full-context prediction failed
 at, not the first one

---
 src/parser_atn_simulator.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser_atn_simulator.rs b/src/parser_atn_simulator.rs
index 9043c48..b08a875 100644
--- a/src/parser_atn_simulator.rs
+++ b/src/parser_atn_simulator.rs
@@ -475,6 +475,8 @@ impl ParserATNSimulator {
             let reach = self.compute_reach_set(&prev, t, full_ctx, local);
             prev = match reach {
                 None => {
+                    // the offending token is the one lookahead stopped at
+                    let err = self.no_viable_alt(local, &prev, self.start_index.get());
                     local.input().seek(self.start_index.get());
                     let alt = self
                         .get_syn_valid_or_sem_invalid_alt_that_finished_decision_entry_rule(
@@ -483,7 +485,7 @@ impl ParserATNSimulator {
                     if alt != INVALID_ALT {
                         return Ok(alt);
                     }
-                    return Err(self.no_viable_alt(local, &prev, self.start_index.get()));
+                    return Err(err);
                 }
                 Some(x) => x,
             };
-- 
2.43.0


From 54c184affd9d9b8078cbcf78bdec2bca4f1959cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:31 +0000
Subject: [PATCH 16/26] fix: contexts forward the alternative number to their
 extension

---
 src/parser_rule_context.rs | 8 ++++++++
 src/rule_context.rs        | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/parser_rule_context.rs b/src/parser_rule_context.rs
index 2cb6aff..2fa62d6 100644
--- a/src/parser_rule_context.rs
+++ b/src/parser_rule_context.rs
@@ -281,6 +281,14 @@ impl<'input, Ctx: CustomRuleContext<'input>> CustomRuleContext<'input>
     fn get_rule_index(&self) -> usize {
         self.base.ext.get_rule_index()
     }
+
+    fn get_alt_number(&self) -> isize {
+        self.base.ext.get_alt_number()
+    }
+
+    fn set_alt_number(&self, alt_number: isize) {
+        self.base.ext.set_alt_number(alt_number)
+    }
 }
 
 // unsafe impl<'input, Ctx: CustomRuleContext<'input>> Tid for BaseParserRuleContext<'input, Ctx> {
diff --git a/src/rule_context.rs b/src/rule_context.rs
index 57be242..8ec646c 100644
--- a/src/rule_context.rs
+++ b/src/rule_context.rs
@@ -192,6 +192,14 @@ impl<'input, ExtCtx: CustomRuleContext<'input>> CustomRuleContext<'input>
     fn get_rule_index(&self) -> usize {
         self.ext.get_rule_index()
     }
+
+    fn get_alt_number(&self) -> isize {
+        self.ext.get_alt_number()
+    }
+
+    fn set_alt_number(&self, alt_number: isize) {
+        self.ext.set_alt_number(alt_number)
+    }
 }
 
 // unsafe impl<'input, Ctx: CustomRuleContext<'input>> Tid for BaseRuleContext<'input, Ctx> {
-- 
2.43.0


From 03dac72394d9c05f0b82ab5c6a7cb84ae77d3ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:15 +0000
Subject: [PATCH 17/26] fix: full-context prediction does not reuse merges of
 the context-insensitive stage

---
 src/parser_atn_simulator.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser_atn_simulator.rs b/src/parser_atn_simulator.rs
index b08a875..bfd76f6 100644
--- a/src/parser_atn_simulator.rs
+++ b/src/parser_atn_simulator.rs
@@ -301,6 +301,8 @@ impl ParserATNSimulator {
                 );
                 local.dfa = Some(dfa);
 
+                // with full context the bottom of the stack is not a wildcard, contexts merge differently
+                local.merge_cache.clear();
                 let s0_closure = self.compute_start_state(
                     local.dfa().atn_start_state,
                     PredictionContext::from_rule_context::<T::Node>(
-- 
2.43.0


From 75ac73f5347eba3a7f7e86e7c08896daf061189c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:05 +0000
Subject: [PATCH 18/26] fix: DFA states are not shared by configurations that
 differ in having left the rule

---
 src/atn_config.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/atn_config.rs b/src/atn_config.rs
index c3b25f7..527d350 100644
--- a/src/atn_config.rs
+++ b/src/atn_config.rs
@@ -37,6 +37,9 @@ impl PartialEq for ATNConfig {
             && self.get_type() == other.get_type()
             && self.semantic_context == other.semantic_context
             && self.precedence_filter_suppressed == other.precedence_filter_suppressed
+            // decides which alternative is taken when prediction fails, so configurations
+            // that differ in it can not share a DFA state
+            && (self.reaches_into_outer_context > 0) == (other.reaches_into_outer_context > 0)
     }
 }
 
-- 
2.43.0


From 10c33d65a8574cd0eab566495fcf88cbe71109d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:02 +0000
Subject: [PATCH 19/26] fix: keep the precedence filter suppression of a
 configuration when its rule returns

---
 src/parser_atn_simulator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser_atn_simulator.rs b/src/parser_atn_simulator.rs
index bfd76f6..2f30125 100644
--- a/src/parser_atn_simulator.rs
+++ b/src/parser_atn_simulator.rs
@@ -1031,6 +1031,7 @@ impl ParserATNSimulator {
                         config.semantic_context.clone(),
                     );
                     c.set_reaches_into_outer_context(config.get_reaches_into_outer_context());
+                    c.set_precedence_filter_suppressed(config.is_precedence_filter_suppressed());
                     assert!(depth > isize::min_value());
                     self.closure_checking_stop_state(
                         c,
-- 
2.43.0


From 5083b6efa362a506ba79c47908b0076c0c39a690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:44 +0000
Subject: [PATCH 20/26] fix: error strategy forgets lookahead context at a
 match and keeps no contexts that may be gone

---
 src/error_strategy.rs | 26 +++++++++++++++++---------
 src/errors.rs         | 10 +++++++++-
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/error_strategy.rs b/src/error_strategy.rs
index 04025ad..5ecaeaa 100644
--- a/src/error_strategy.rs
+++ b/src/error_strategy.rs
@@ -3,6 +3,7 @@ use std::borrow::Borrow;
 use std::error::Error;
 use std::fmt;
 use std::fmt::{Display, Formatter};
+use std::marker::PhantomData;
 use std::ops::{Deref, DerefMut};
 use std::rc::Rc;
 
@@ -14,7 +15,7 @@ use crate::errors::{ANTLRError, FailedPredicateError, InputMisMatchError, NoViab
 use crate::interval_set::IntervalSet;
 use crate::parser::{Parser, ParserNodeType};
 use crate::parser_rule_context::ParserRuleContext;
-use crate::rule_context::{CustomRuleContext, RuleContext};
+use crate::rule_context::{states_stack, CustomRuleContext, RuleContext};
 use crate::token::{Token, TOKEN_DEFAULT_CHANNEL, TOKEN_EOF, TOKEN_EPSILON, TOKEN_INVALID_TYPE};
 use crate::token_factory::TokenFactory;
 use crate::transition::RuleTransition;
@@ -145,7 +146,9 @@ pub struct DefaultErrorStrategy<'input, Ctx: ParserNodeType<'input>> {
     last_error_index: isize,
     last_error_states: Option<IntervalSet>,
     next_tokens_state: isize,
-    next_tokens_ctx: Option<Rc<Ctx::Type>>,
+    // invoking states at `next_tokens_state`; the contexts themselves may be gone or re-parented when it is used
+    next_tokens_stack: Option<Vec<isize>>,
+    _node: PhantomData<Rc<Ctx::Type>>,
 }
 
 better_any::tid! { impl<'i,Ctx> TidAble<'i> for DefaultErrorStrategy<'i,Ctx> where Ctx: ParserNodeType<'i>}
@@ -164,7 +167,8 @@ impl<'input, Ctx: ParserNodeType<'input>> DefaultErrorStrategy<'input, Ctx> {
             last_error_index: -1,
             last_error_states: None,
             next_tokens_state: ATNSTATE_INVALID_STATE_NUMBER,
-            next_tokens_ctx: None,
+            next_tokens_stack: None,
+            _node: PhantomData,
         }
     }
 
@@ -182,6 +186,9 @@ impl<'input, Ctx: ParserNodeType<'input>> DefaultErrorStrategy<'input, Ctx> {
         self.error_recovery_mode = false;
         self.last_error_index = -1;
         self.last_error_states = None;
+        // lookahead seen before this match says nothing about what is expected after it
+        self.next_tokens_state = ATNSTATE_INVALID_STATE_NUMBER;
+        self.next_tokens_stack = None;
     }
 
     fn report_no_viable_alternative<T: Parser<'input, Node = Ctx, TF = Ctx::TF>>(
@@ -419,12 +426,12 @@ impl<'a, T: Parser<'a>> ErrorStrategy<'a, T> for DefaultErrorStrategy<'a, T::Nod
             return Ok(self.get_missing_symbol(recognizer));
         }
 
-        if let Some(next_tokens_ctx) = &self.next_tokens_ctx {
+        if let Some(next_tokens_stack) = &self.next_tokens_stack {
             Err(ANTLRError::InputMismatchError(
-                InputMisMatchError::with_state(
+                InputMisMatchError::with_states_stack(
                     recognizer,
                     self.next_tokens_state,
-                    next_tokens_ctx.clone(),
+                    next_tokens_stack.clone(),
                 ),
             ))
         } else {
@@ -469,14 +476,15 @@ impl<'a, T: Parser<'a>> ErrorStrategy<'a, T> for DefaultErrorStrategy<'a, T::Nod
 
         if next_tokens.contains(next) {
             self.next_tokens_state = ATNSTATE_INVALID_STATE_NUMBER;
-            self.next_tokens_ctx = None;
+            self.next_tokens_stack = None;
             return Ok(());
         }
 
         if next_tokens.contains(TOKEN_EPSILON) {
-            if self.next_tokens_ctx.is_none() {
+            if self.next_tokens_stack.is_none() {
                 self.next_tokens_state = recognizer.get_state();
-                self.next_tokens_ctx = Some(recognizer.get_parser_rule_context().clone());
+                self.next_tokens_stack =
+                    Some(states_stack(recognizer.get_parser_rule_context().clone()).collect());
             }
             return Ok(());
         }
diff --git a/src/errors.rs b/src/errors.rs
index 2f1d3ae..c527323 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -205,11 +205,19 @@ impl InputMisMatchError {
         recognizer: &mut T,
         offending_state: isize,
         ctx: Rc<<T::Node as ParserNodeType<'a>>::Type>,
+    ) -> InputMisMatchError {
+        Self::with_states_stack(recognizer, offending_state, states_stack(ctx).collect())
+    }
+
+    pub(crate) fn with_states_stack<'a, T: Parser<'a>>(
+        recognizer: &mut T,
+        offending_state: isize,
+        states_stack: Vec<isize>,
     ) -> InputMisMatchError {
         let mut a = Self::new(recognizer);
         // a.base.ctx = ctx;
         a.base.offending_state = offending_state;
-        a.base.states_stack = states_stack(ctx).collect();
+        a.base.states_stack = states_stack;
         a
     }
 }
-- 
2.43.0


From 96bcb4278c989af0d9c75ad29a8a09139881c658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:20 +0000
Subject: [PATCH 21/26] fix: lexer DFA states with the same hash are not taken
 for the same state

---
 src/lexer_atn_simulator.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/lexer_atn_simulator.rs b/src/lexer_atn_simulator.rs
index fd728a8..603554e 100644
--- a/src/lexer_atn_simulator.rs
+++ b/src/lexer_atn_simulator.rs
@@ -695,19 +695,21 @@ impl LexerATNSimulator {
 
         let states = &mut dfa.states;
         let key = dfastate.default_hash();
-        let dfastate_index = *dfa
-            .states_map
-            .entry(key)
-            .or_insert_with(|| {
-                dfastate.state_number = states.deref().len();
+        let same_hash = dfa.states_map.entry(key).or_insert_with(Vec::new);
+        // different states can have the same hash
+        let existing = same_hash.iter().find(|&&it| states[it] == dfastate);
+        let dfastate_index = match existing {
+            Some(&it) => it,
+            None => {
+                dfastate.state_number = states.len();
                 dfastate.configs.set_read_only(true);
                 let i = dfastate.state_number;
                 //println!("inserting new DFA state {} with size {}", i, dfastate.configs.length());
                 states.push(dfastate);
-                vec![i]
-            })
-            .first()
-            .unwrap();
+                same_hash.push(i);
+                i
+            }
+        };
 
         //println!("new DFA state {}", dfastate_index);
 
-- 
2.43.0


From 79641afdce45bf095e0d9e6f030d372365b40994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:28 +0000
Subject: [PATCH 22/26] fix: a missing token is not inserted at the same place
 over and over

---
 src/error_strategy.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/error_strategy.rs b/src/error_strategy.rs
index 5ecaeaa..b19c0b9 100644
--- a/src/error_strategy.rs
+++ b/src/error_strategy.rs
@@ -145,6 +145,9 @@ pub struct DefaultErrorStrategy<'input, Ctx: ParserNodeType<'input>> {
     error_recovery_mode: bool,
     last_error_index: isize,
     last_error_states: Option<IntervalSet>,
+    // where a missing token was last inserted, and the states it was inserted in without consuming anything since
+    insertion_index: isize,
+    insertion_states: IntervalSet,
     next_tokens_state: isize,
     // invoking states at `next_tokens_state`; the contexts themselves may be gone or re-parented when it is used
     next_tokens_stack: Option<Vec<isize>>,
@@ -166,6 +169,8 @@ impl<'input, Ctx: ParserNodeType<'input>> DefaultErrorStrategy<'input, Ctx> {
             error_recovery_mode: false,
             last_error_index: -1,
             last_error_states: None,
+            insertion_index: -1,
+            insertion_states: IntervalSet::new(),
             next_tokens_state: ATNSTATE_INVALID_STATE_NUMBER,
             next_tokens_stack: None,
             _node: PhantomData,
@@ -292,6 +297,16 @@ impl<'input, Ctx: ParserNodeType<'input>> DefaultErrorStrategy<'input, Ctx> {
             Some(recognizer.get_parser_rule_context().deref()),
         );
         if expect_at_ll2.contains(current_token) {
+            // inserting the same token at the same place again would go on for ever
+            let index = recognizer.get_input_stream_mut().index();
+            if self.insertion_index != index {
+                self.insertion_index = index;
+                self.insertion_states = IntervalSet::new();
+            }
+            if self.insertion_states.contains(recognizer.get_state()) {
+                return false;
+            }
+            self.insertion_states.add_one(recognizer.get_state());
             self.report_missing_token(recognizer);
             return true;
         }
@@ -407,6 +422,7 @@ impl<'input, Ctx: ParserNodeType<'input>> DefaultErrorStrategy<'input, Ctx> {
 
 impl<'a, T: Parser<'a>> ErrorStrategy<'a, T> for DefaultErrorStrategy<'a, T::Node> {
     fn reset(&mut self, recognizer: &mut T) {
+        self.insertion_index = -1;
         self.end_error_condition(recognizer)
     }
 
-- 
2.43.0


From 9aa221b7836b545be4ace95b398c3fe5046b6fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:13 +0000
Subject: [PATCH 23/26] fix: decisions cached in SLL mode are not used by other
 modes where predicates make them differ

---
 src/dfa_state.rs            |  3 +++
 src/parser_atn_simulator.rs | 25 ++++++++++++++++++++++++-
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/dfa_state.rs b/src/dfa_state.rs
index 21b1560..071d8ef 100644
--- a/src/dfa_state.rs
+++ b/src/dfa_state.rs
@@ -37,6 +37,8 @@ pub struct DFAState {
     pub(crate) lexer_action_executor: Option<Box<LexerActionExecutor>>,
     pub requires_full_context: bool,
     pub predicates: Vec<PredPrediction>,
+    /// whether this state is valid for SLL prediction mode only, or for the other modes only
+    pub(crate) sll_only: Option<bool>,
 }
 
 impl PartialEq for DFAState {
@@ -69,6 +71,7 @@ impl DFAState {
             lexer_action_executor: None,
             requires_full_context: false,
             predicates: Vec::new(),
+            sll_only: None,
         }
     }
 
diff --git a/src/parser_atn_simulator.rs b/src/parser_atn_simulator.rs
index 2f30125..2220f19 100644
--- a/src/parser_atn_simulator.rs
+++ b/src/parser_atn_simulator.rs
@@ -247,7 +247,8 @@ impl ParserATNSimulator {
 
         loop {
             //            println!("exec atn loop previous D {}",previousD as isize -1);
-            let D = Self::get_existing_target_state(local.dfa(), previousD, token)
+            let D = self
+                .get_existing_target_state(local.dfa(), previousD, token)
                 .unwrap_or_else(|| self.compute_target_state(previousD, token, local));
             debug_assert!(D > 0);
 
@@ -361,6 +362,7 @@ impl ParserATNSimulator {
 
     #[allow(non_snake_case)]
     fn get_existing_target_state(
+        &self,
         dfa: &DFA,
         previousD: DFAStateRef,
         t: isize,
@@ -372,6 +374,16 @@ impl ParserATNSimulator {
                 0 => None,
                 x => Some(x),
             })
+            .filter(|&x| {
+                x == ERROR_DFA_STATE_REF
+                    || dfa.states[x]
+                        .sll_only
+                        .map_or(true, |sll| sll == self.is_sll_mode())
+            })
+    }
+
+    fn is_sll_mode(&self) -> bool {
+        self.prediction_mode.get() == PredictionMode::SLL
     }
 
     #[allow(non_snake_case)]
@@ -405,6 +417,17 @@ impl ParserATNSimulator {
         let mut D = DFAState::new_dfastate(0, reach.into());
         let reach = D.configs.as_ref();
 
+        // SLL mode looks for conflicts regardless of predicates, so with predicates it may stop
+        // at other states than LL modes and such states can not be shared between them
+        if reach.has_semantic_context()
+            && predicted_alt == INVALID_ALT
+            && !self.all_configs_in_rule_stop_state(reach)
+            && has_sll_conflict_terminating_prediction(PredictionMode::SLL, reach)
+                != has_sll_conflict_terminating_prediction(PredictionMode::LL, reach)
+        {
+            D.sll_only = Some(self.is_sll_mode());
+        }
+
         if predicted_alt != INVALID_ALT {
             D.is_accept_state = true;
             D.configs.set_unique_alt(predicted_alt);
-- 
2.43.0


From 4bbf8c0e15a876b7f8f926db9eb9c92d8bb7ac46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:20 +0000
Subject: [PATCH 24/26] fix: a lexer predicate behind end of file is evaluated
 without consuming end of file

---
 src/lexer_atn_simulator.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lexer_atn_simulator.rs b/src/lexer_atn_simulator.rs
index 603554e..497796a 100644
--- a/src/lexer_atn_simulator.rs
+++ b/src/lexer_atn_simulator.rs
@@ -621,7 +621,9 @@ impl LexerATNSimulator {
         let saved_line = self.current_pos.line.get();
         let index = lexer.input().index();
         let marker = lexer.input().mark();
-        self.consume(lexer.input());
+        if lexer.input().la(1) != EOF {
+            self.consume(lexer.input());
+        }
 
         let result = lexer.sempred(None, rule_index, pred_index);
 
-- 
2.43.0


From efb27d136855c670b41e6b11bd805331f25078d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:30 +0000
Subject: [PATCH 25/26] fix: a failed prediction releases its mark on the input

---
 src/parser_atn_simulator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser_atn_simulator.rs b/src/parser_atn_simulator.rs
index 2220f19..3f14ac1 100644
--- a/src/parser_atn_simulator.rs
+++ b/src/parser_atn_simulator.rs
@@ -226,13 +226,13 @@ impl ParserATNSimulator {
                 s0
             });
 
-            self.exec_atn(&mut local, s0)?
+            self.exec_atn(&mut local, s0)
         };
 
         local.input().seek(self.start_index.get());
         local.input().release(m);
         //        println!("result = {}", result);
-        Ok(result)
+        result
     }
 
     #[allow(non_snake_case)]
-- 
2.43.0


From 28967a52870db4c7df40584c82679f4cf5e2d8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:48 +0000
Subject: [PATCH 26/26] fix: white space is escaped in messages about inputs
 without a viable alternative

---
 src/error_strategy.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/error_strategy.rs b/src/error_strategy.rs
index b19c0b9..8263267 100644
--- a/src/error_strategy.rs
+++ b/src/error_strategy.rs
@@ -210,7 +210,10 @@ impl<'input, Ctx: ParserNodeType<'input>> DefaultErrorStrategy<'input, Ctx> {
             )
         };
 
-        format!("no viable alternative at input '{}'", input)
+        format!(
+            "no viable alternative at input {}",
+            self.escape_ws_and_quote(&input)
+        )
     }
 
     fn report_input_mismatch<T: Parser<'input, Node = Ctx, TF = Ctx::TF>>(
-- 
2.43.0

