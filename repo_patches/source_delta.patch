From 424302828ede988d46bd11977e1bbbe2b4309caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:26 +0000
Subject: [PATCH 01/62] fix: the final keep refers to the current message

After addheader and a fileinto, the implicit keep still named message id 0,
so the edits were lost from the kept message.
---
 src/runtime/context.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/runtime/context.rs b/src/runtime/context.rs
index 76cf232..2fcfcc7 100644
--- a/src/runtime/context.rs
+++ b/src/runtime/context.rs
@@ -407,10 +407,7 @@ impl<'x> Context<'x> {
         }
 
         match self.final_event.take() {
-            Some(Event::Keep {
-                mut flags,
-                message_id,
-            }) => {
+            Some(Event::Keep { mut flags, .. }) => {
                 let create_event = if self.has_changes {
                     self.build_message_id()
                 } else {
@@ -432,7 +429,10 @@ impl<'x> Context<'x> {
                     .into_iter();
                     self.queued_events.next().map(Ok)
                 } else {
-                    Some(Ok(Event::Keep { flags, message_id }))
+                    Some(Ok(Event::Keep {
+                        flags,
+                        message_id: self.main_message_id,
+                    }))
                 }
             }
             Some(event) => Some(Ok(event)),
@@ -443,11 +443,7 @@ impl<'x> Context<'x> {
     pub(crate) fn finish_loop(&mut self) {
         self.script_stack.clear();
         if let Some(event) = self.final_event.take() {
-            self.queued_events = if let Event::Keep {
-                mut flags,
-                message_id,
-            } = event
-            {
+            self.queued_events = if let Event::Keep { mut flags, .. } = event {
                 let global_flags = self.get_global_flags();
                 if flags.is_empty() && !global_flags.is_empty() {
                     flags = global_flags;
@@ -463,10 +459,16 @@ impl<'x> Context<'x> {
                             },
                         ]
                     } else {
-                        vec![Event::Keep { flags, message_id }]
+                        vec![Event::Keep {
+                            flags,
+                            message_id: self.main_message_id,
+                        }]
                     }
                 } else {
-                    vec![Event::Keep { flags, message_id }]
+                    vec![Event::Keep {
+                        flags,
+                        message_id: self.main_message_id,
+                    }]
                 }
             } else {
                 vec![event]
-- 
2.43.0


From f83ac2eabef4a27d060e9711841d171cb85a42ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:58 +0000
Subject: [PATCH 02/62] fix: an explicit keep is not cancelled by a later
 discard, fileinto or redirect

These actions cancel the implicit keep only; a script that executed keep and
then filed or redirected the message lost the copy it asked to keep.
---
 src/lib.rs                             | 1 +
 src/runtime/actions/action_fileinto.rs | 4 +---
 src/runtime/actions/action_redirect.rs | 5 ++++-
 src/runtime/context.rs                 | 8 +++++++-
 4 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ab464b4..d92cb87 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -132,6 +132,7 @@ pub struct Context<'x> {
     pub(crate) main_message_id: usize,
 
     pub(crate) has_changes: bool,
+    pub(crate) explicit_keep: bool,
     pub(crate) num_redirects: usize,
     pub(crate) num_instructions: usize,
     pub(crate) num_out_messages: usize,
diff --git a/src/runtime/actions/action_fileinto.rs b/src/runtime/actions/action_fileinto.rs
index a8aa47d..443bdc3 100644
--- a/src/runtime/actions/action_fileinto.rs
+++ b/src/runtime/actions/action_fileinto.rs
@@ -14,9 +14,7 @@ impl FileInto {
             events.push(event);
         }
 
-        if !self.copy
-            && !matches!(&ctx.final_event, Some(Event::Keep { flags, .. }) if !flags.is_empty())
-        {
+        if !self.copy && !ctx.explicit_keep {
             ctx.final_event = None;
         }
 
diff --git a/src/runtime/actions/action_redirect.rs b/src/runtime/actions/action_redirect.rs
index f4ae341..1609ea0 100644
--- a/src/runtime/actions/action_redirect.rs
+++ b/src/runtime/actions/action_redirect.rs
@@ -29,7 +29,10 @@ impl Redirect {
                     return;
                 }
 
-                if !self.copy && matches!(&ctx.final_event, Some(Event::Keep { .. })) {
+                if !self.copy
+                    && !ctx.explicit_keep
+                    && matches!(&ctx.final_event, Some(Event::Keep { .. }))
+                {
                     ctx.final_event = None;
                 }
 
diff --git a/src/runtime/context.rs b/src/runtime/context.rs
index 2fcfcc7..188ed36 100644
--- a/src/runtime/context.rs
+++ b/src/runtime/context.rs
@@ -61,6 +61,7 @@ impl<'x> Context<'x> {
             .into(),
             queued_events: vec![].into_iter(),
             has_changes: false,
+            explicit_keep: false,
             user_address: "".into(),
             user_full_name: "".into(),
             current_time: SystemTime::now()
@@ -195,6 +196,7 @@ impl<'x> Context<'x> {
                     }
                     Instruction::Keep(keep) => {
                         let next_event = self.build_message_id();
+                        self.explicit_keep = true;
                         self.final_event = Event::Keep {
                             flags: self.get_local_or_global_flags(&keep.flags),
                             message_id: self.main_message_id,
@@ -217,13 +219,16 @@ impl<'x> Context<'x> {
                         }
                     }
                     Instruction::Discard => {
-                        self.final_event = Event::Discard.into();
+                        if !self.explicit_keep {
+                            self.final_event = Event::Discard.into();
+                        }
                     }
                     Instruction::Stop => {
                         self.script_stack.clear();
                         break 'outer;
                     }
                     Instruction::Reject(reject) => {
+                        self.explicit_keep = false;
                         self.final_event = None;
                         return Some(Ok(Event::Reject {
                             extended: reject.ereject,
@@ -673,6 +678,7 @@ impl<'x> Context<'x> {
             .into(),
             queued_events: vec![].into_iter(),
             has_changes: false,
+            explicit_keep: false,
             user_address: "".into(),
             user_full_name: "".into(),
             current_time: SystemTime::now()
-- 
2.43.0


From 972f3508a3806503f7f5b53130e0c6ff76c3fe1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:26 +0000
Subject: [PATCH 03/62] fix: an explicit keep delivers the flags in force when
 it was executed

keep without :flags followed by setflag, or keep :flags "", picked up the
flags of the end of the script.
---
 src/runtime/context.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/runtime/context.rs b/src/runtime/context.rs
index 188ed36..038ddc9 100644
--- a/src/runtime/context.rs
+++ b/src/runtime/context.rs
@@ -420,7 +420,7 @@ impl<'x> Context<'x> {
                 };
 
                 let global_flags = self.get_global_flags();
-                if flags.is_empty() && !global_flags.is_empty() {
+                if !self.explicit_keep && flags.is_empty() {
                     flags = global_flags;
                 }
                 if let Some(create_event) = create_event {
@@ -450,7 +450,7 @@ impl<'x> Context<'x> {
         if let Some(event) = self.final_event.take() {
             self.queued_events = if let Event::Keep { mut flags, .. } = event {
                 let global_flags = self.get_global_flags();
-                if flags.is_empty() && !global_flags.is_empty() {
+                if !self.explicit_keep && flags.is_empty() {
                     flags = global_flags;
                 }
 
-- 
2.43.0


From 7e6d53505cbed70af3baa9b39f7e320f7743c758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:45 +0000
Subject: [PATCH 04/62] fix: references to declared global variables ignore
 letter case

---
 src/compiler/lexer/string.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/lexer/string.rs b/src/compiler/lexer/string.rs
index d72e373..303c650 100644
--- a/src/compiler/lexer/string.rs
+++ b/src/compiler/lexer/string.rs
@@ -279,7 +279,7 @@ impl CompilerState<'_> {
     ) -> Result<Option<VariableType>, ErrorType> {
         if !maybe_namespace {
             if self.is_var_global(var_name) {
-                Ok(Some(VariableType::Global(var_name.to_string())))
+                Ok(Some(VariableType::Global(var_name.to_lowercase())))
             } else if let Some(var_id) = self.get_local_var(var_name) {
                 Ok(Some(VariableType::Local(var_id)))
             } else {
@@ -328,7 +328,7 @@ impl CompilerState<'_> {
                 },
                 None => {
                     if self.is_var_global(var_name) {
-                        VariableType::Global(var_name.to_string())
+                        VariableType::Global(var_name.to_lowercase())
                     } else if let Some(var_id) = self.get_local_var(var_name) {
                         VariableType::Local(var_id)
                     } else {
-- 
2.43.0


From a2f6f4d2801f16e59d56a0a09cff26769ec164f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:16 +0000
Subject: [PATCH 05/62] fix: continue restarts the innermost while loop,
 leaving any loops in between

---
 src/compiler/grammar/instruction.rs | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/compiler/grammar/instruction.rs b/src/compiler/grammar/instruction.rs
index 0baff56..6bc9d67 100644
--- a/src/compiler/grammar/instruction.rs
+++ b/src/compiler/grammar/instruction.rs
@@ -582,24 +582,33 @@ impl Compiler {
                                 token_info.line_num,
                                 token_info.line_pos,
                             )?;
-                            let mut found_while = 0;
+                            let mut num_pops = 0;
+                            let mut block_found = false;
+                            let mut jmp_pos = None;
                             for block in [&state.block]
                                 .into_iter()
                                 .chain(state.block_stack.iter().rev())
                             {
-                                if let Word::While = &block.btype {
-                                    found_while += 1;
-                                } else if found_while == 1 {
-                                    state
-                                        .instructions
-                                        .push(Instruction::Jmp(block.last_block_start));
-                                    found_while += 1;
+                                if block_found {
+                                    jmp_pos = Some(block.last_block_start);
                                     break;
                                 }
+                                match &block.btype {
+                                    Word::While => block_found = true,
+                                    Word::ForEveryPart => num_pops += 1,
+                                    _ => (),
+                                }
                             }
-                            if found_while != 2 {
-                                return Err(token_info.custom(ErrorType::ContinueOutsideLoop));
+                            let jmp_pos = jmp_pos.ok_or_else(|| {
+                                token_info.custom(ErrorType::ContinueOutsideLoop)
+                            })?;
+
+                            if num_pops > 0 {
+                                state
+                                    .instructions
+                                    .push(Instruction::ForEveryPartPop(num_pops));
                             }
+                            state.instructions.push(Instruction::Jmp(jmp_pos));
                         }
 
                         _ => {
-- 
2.43.0


From 6ffb8376ab9e407de18adf990aec2b2af7a26f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:03 +0000
Subject: [PATCH 06/62] fix: break and continue clear the variables of the
 blocks they leave

---
 src/compiler/grammar/instruction.rs | 111 +++++++++++++++++++++-------
 1 file changed, 86 insertions(+), 25 deletions(-)

diff --git a/src/compiler/grammar/instruction.rs b/src/compiler/grammar/instruction.rs
index 6bc9d67..a42ef3b 100644
--- a/src/compiler/grammar/instruction.rs
+++ b/src/compiler/grammar/instruction.rs
@@ -124,6 +124,7 @@ pub(crate) struct Block {
     pub(crate) vars_local: AHashMap<String, usize>,
     pub(crate) capabilities: AHashSet<Capability>,
     pub(crate) require_pos: usize,
+    pub(crate) vars_uncleared: usize,
 }
 
 pub(crate) struct CompilerState<'x> {
@@ -283,18 +284,16 @@ impl Compiler {
                                 let label = state.tokens.expect_static_string()?;
                                 let mut label_found = false;
                                 let mut num_pops = 0;
+                                let mut num_blocks = 0;
 
-                                for block in [&mut state.block]
+                                for block in [&state.block]
                                     .into_iter()
-                                    .chain(state.block_stack.iter_mut().rev())
+                                    .chain(state.block_stack.iter().rev())
                                 {
+                                    num_blocks += 1;
                                     if let Word::ForEveryPart = &block.btype {
                                         num_pops += 1;
                                         if block.label.as_ref().is_some_and(|n| n.eq(&label)) {
-                                            state
-                                                .instructions
-                                                .push(Instruction::ForEveryPartPop(num_pops));
-                                            block.break_jmps.push(state.instructions.len());
                                             label_found = true;
                                             break;
                                         }
@@ -304,28 +303,31 @@ impl Compiler {
                                 if !label_found {
                                     return Err(tag.custom(ErrorType::LabelUndefined(label)));
                                 }
-                            } else {
-                                let mut block_found = None;
-                                if matches!(&state.block.btype, Word::ForEveryPart | Word::While) {
-                                    block_found = Some(&mut state.block);
-                                } else {
-                                    for block in state.block_stack.iter_mut().rev() {
-                                        if matches!(&block.btype, Word::ForEveryPart | Word::While)
-                                        {
-                                            block_found = Some(block);
-                                            break;
-                                        }
-                                    }
-                                }
 
-                                let block = block_found.ok_or_else(|| {
-                                    token_info.custom(ErrorType::BreakOutsideLoop)
-                                })?;
-                                if matches!(block.btype, Word::ForEveryPart) {
+                                state.break_vars(num_blocks);
+                                state
+                                    .instructions
+                                    .push(Instruction::ForEveryPartPop(num_pops));
+                                state.add_break_jmp(num_blocks);
+                            } else {
+                                let (num_blocks, is_foreverypart) = [&state.block]
+                                    .into_iter()
+                                    .chain(state.block_stack.iter().rev())
+                                    .enumerate()
+                                    .find_map(|(pos, block)| match &block.btype {
+                                        Word::ForEveryPart => Some((pos + 1, true)),
+                                        Word::While => Some((pos + 1, false)),
+                                        _ => None,
+                                    })
+                                    .ok_or_else(|| {
+                                        token_info.custom(ErrorType::BreakOutsideLoop)
+                                    })?;
+
+                                state.break_vars(num_blocks);
+                                if is_foreverypart {
                                     state.instructions.push(Instruction::ForEveryPartPop(1));
                                 }
-
-                                block.break_jmps.push(state.instructions.len());
+                                state.add_break_jmp(num_blocks);
                             }
 
                             state.instructions.push(Instruction::Jmp(usize::MAX));
@@ -585,6 +587,7 @@ impl Compiler {
                             let mut num_pops = 0;
                             let mut block_found = false;
                             let mut jmp_pos = None;
+                            let mut num_blocks = 0;
                             for block in [&state.block]
                                 .into_iter()
                                 .chain(state.block_stack.iter().rev())
@@ -593,6 +596,7 @@ impl Compiler {
                                     jmp_pos = Some(block.last_block_start);
                                     break;
                                 }
+                                num_blocks += 1;
                                 match &block.btype {
                                     Word::While => block_found = true,
                                     Word::ForEveryPart => num_pops += 1,
@@ -603,6 +607,7 @@ impl Compiler {
                                 token_info.custom(ErrorType::ContinueOutsideLoop)
                             })?;
 
+                            state.clear_vars(num_blocks);
                             if num_pops > 0 {
                                 state
                                     .instructions
@@ -864,6 +869,14 @@ impl CompilerState<'_> {
             let var_id = self.vars_num;
             self.block.vars_local.insert(name, var_id);
             self.vars_num += 1;
+            if var_id < self.block_stack.first().unwrap_or(&self.block).vars_uncleared {
+                // A block using this position was left by a break
+                self.instructions.push(Instruction::Clear(Clear {
+                    match_vars: 0,
+                    local_vars_idx: var_id as u32,
+                    local_vars_num: 1,
+                }));
+            }
             var_id
         } else {
             let var_id = usize::MAX - self.vars_local;
@@ -970,6 +983,53 @@ impl CompilerState<'_> {
         }
     }
 
+    // Clears the variables of the innermost `num_blocks` blocks before they are left by a break.
+    // After the outermost loop this is only needed for those that are declared again.
+    fn break_vars(&mut self, num_blocks: usize) {
+        if self.block_stack[..self.block_stack.len() + 1 - num_blocks]
+            .iter()
+            .any(|block| matches!(&block.btype, Word::ForEveryPart | Word::While))
+        {
+            self.clear_vars(num_blocks);
+        } else {
+            let root = &mut self.block_stack[0];
+            root.vars_uncleared = std::cmp::max(root.vars_uncleared, self.vars_num);
+        }
+    }
+
+    // Clears the variables of the innermost `num_blocks` blocks before leaving them
+    fn clear_vars(&mut self, num_blocks: usize) {
+        let mut match_vars = 0;
+        let mut local_vars_num = 0;
+        for block in [&self.block]
+            .into_iter()
+            .chain(self.block_stack.iter().rev())
+            .take(num_blocks)
+        {
+            match_vars |= block.match_test_vars;
+            local_vars_num += block.vars_local.len();
+        }
+        if match_vars != 0 || local_vars_num != 0 {
+            self.instructions.push(Instruction::Clear(Clear {
+                match_vars,
+                local_vars_idx: (self.vars_num - local_vars_num) as u32,
+                local_vars_num: local_vars_num as u32,
+            }));
+        }
+    }
+
+    // Registers the next instruction as a jump to the end of the enclosing block
+    // `num_blocks` levels up (1 is the current block)
+    fn add_break_jmp(&mut self, num_blocks: usize) {
+        let pos = self.instructions.len();
+        if num_blocks == 1 {
+            self.block.break_jmps.push(pos);
+        } else {
+            let idx = self.block_stack.len() + 1 - num_blocks;
+            self.block_stack[idx].break_jmps.push(pos);
+        }
+    }
+
     fn map_local_vars(&mut self, last_id: usize) {
         for instruction in &mut self.instructions {
             match instruction {
@@ -1220,6 +1280,7 @@ impl Block {
             vars_local: AHashMap::new(),
             capabilities: AHashSet::new(),
             require_pos: usize::MAX,
+            vars_uncleared: 0,
         }
     }
 
-- 
2.43.0


From 230681291634b609e51be9258b912a1d43916be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:56 +0000
Subject: [PATCH 07/62] fix: elsif and else need an if in the same block

---
 src/compiler/grammar/instruction.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/compiler/grammar/instruction.rs b/src/compiler/grammar/instruction.rs
index a42ef3b..0ac73de 100644
--- a/src/compiler/grammar/instruction.rs
+++ b/src/compiler/grammar/instruction.rs
@@ -647,6 +647,7 @@ impl Compiler {
                             state.block.last_block_start = state.instructions.len() - 1;
                             state.block_stack.push(state.block);
                             state.block = new_block;
+                            state.last_block_type = Word::Not;
                         } else {
                             return Err(CompileError {
                                 line_num: state.block.line_num,
-- 
2.43.0


From 05be04948f41ab5bf1f16627c0cf67cc7c5649a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:57 +0000
Subject: [PATCH 08/62] fix: resolve script-level local variables in modifiers
 and body :content

---
 src/compiler/grammar/instruction.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/compiler/grammar/instruction.rs b/src/compiler/grammar/instruction.rs
index 0ac73de..714392f 100644
--- a/src/compiler/grammar/instruction.rs
+++ b/src/compiler/grammar/instruction.rs
@@ -27,14 +27,14 @@ use super::{
         action_notify::Notify,
         action_redirect::Redirect,
         action_reject::Reject,
-        action_set::{Let, Set},
+        action_set::{Let, Modifier, Set},
         action_vacation::Vacation,
     },
     expr::Expression,
     Capability, Clear, Invalid, While,
 };
 
-use super::tests::test_ihave::Error;
+use super::tests::{test_body::BodyTransform, test_ihave::Error};
 
 #[derive(Debug, Clone, Eq, PartialEq)]
 #[cfg_attr(
@@ -1058,6 +1058,7 @@ impl CompilerState<'_> {
                 }
                 Instruction::ExtractText(v) => {
                     v.name.map_local_vars(last_id);
+                    v.modifiers.map_local_vars(last_id);
                 }
                 Instruction::Convert(v) => {
                     v.from_media_type.map_local_vars(last_id);
@@ -1075,6 +1076,7 @@ impl CompilerState<'_> {
                 Instruction::Set(v) => {
                     v.name.map_local_vars(last_id);
                     v.value.map_local_vars(last_id);
+                    v.modifiers.map_local_vars(last_id);
                 }
                 Instruction::Let(v) => {
                     v.name.map_local_vars(last_id);
@@ -1143,6 +1145,9 @@ impl MapLocalVars for Test {
             }
             Test::Body(v) => {
                 v.key_list.map_local_vars(last_id);
+                if let BodyTransform::Content(values) = &mut v.body_transform {
+                    values.map_local_vars(last_id);
+                }
             }
             Test::Convert(v) => {
                 v.from_media_type.map_local_vars(last_id);
@@ -1221,6 +1226,15 @@ impl MapLocalVars for Test {
     }
 }
 
+impl MapLocalVars for Modifier {
+    fn map_local_vars(&mut self, last_id: usize) {
+        if let Modifier::Replace { find, replace } = self {
+            find.map_local_vars(last_id);
+            replace.map_local_vars(last_id);
+        }
+    }
+}
+
 impl MapLocalVars for VariableType {
     fn map_local_vars(&mut self, last_id: usize) {
         match self {
-- 
2.43.0


From 08e90469a9757665c37ea53eb8953b794073af90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:17 +0000
Subject: [PATCH 09/62] fix: enforce the limit on local variables at compile
 time instead of not running the script

---
 src/compiler/grammar/instruction.rs | 11 ++++++++++-
 src/compiler/mod.rs                 |  2 ++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/compiler/grammar/instruction.rs b/src/compiler/grammar/instruction.rs
index 714392f..8f7bc4d 100644
--- a/src/compiler/grammar/instruction.rs
+++ b/src/compiler/grammar/instruction.rs
@@ -12,7 +12,7 @@ use crate::{
         lexer::{tokenizer::Tokenizer, word::Word, Token},
         CompileError, ErrorType, Value, VariableType,
     },
-    Compiler, Sieve,
+    Compiler, Sieve, MAX_LOCAL_VARIABLES,
 };
 
 use super::{
@@ -835,6 +835,15 @@ impl Compiler {
             num_vars += state.vars_local;
         }
 
+        // Scripts exceeding the limit are not executed by the runtime
+        if num_vars > std::cmp::min(self.max_local_variables, MAX_LOCAL_VARIABLES as usize) {
+            return Err(CompileError {
+                line_num: state.tokens.line_num,
+                line_pos: state.tokens.pos - state.tokens.line_start,
+                error_type: ErrorType::TooManyVariables,
+            });
+        }
+
         Ok(Sieve {
             instructions: state.instructions,
             num_vars: num_vars as u32,
diff --git a/src/compiler/mod.rs b/src/compiler/mod.rs
index e62705f..0aa20f4 100644
--- a/src/compiler/mod.rs
+++ b/src/compiler/mod.rs
@@ -58,6 +58,7 @@ pub enum ErrorType {
     TooManyNestedTests,
     TooManyNestedForEveryParts,
     TooManyIncludes,
+    TooManyVariables,
     LabelAlreadyDefined(String),
     LabelUndefined(String),
     BreakOutsideLoop,
@@ -547,6 +548,7 @@ impl Display for CompileError {
                 write!(f, "Too many nested foreverypart blocks")
             }
             ErrorType::TooManyIncludes => write!(f, "Too many includes"),
+            ErrorType::TooManyVariables => write!(f, "Too many variables"),
             ErrorType::LabelAlreadyDefined(value) => write!(f, "Label {value:?} already defined"),
             ErrorType::LabelUndefined(value) => write!(f, "Label {value:?} does not exist"),
             ErrorType::BreakOutsideLoop => write!(f, "Break used outside of foreverypart loop"),
-- 
2.43.0


From b5f5ce09c55906c14f22940bf92c4bff0434a2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:39 +0000
Subject: [PATCH 10/62] fix: extracttext observes the maximum variable size

---
 src/runtime/actions/action_mime.rs | 23 ++---------------------
 1 file changed, 2 insertions(+), 21 deletions(-)

diff --git a/src/runtime/actions/action_mime.rs b/src/runtime/actions/action_mime.rs
index 4732512..c6ddfa6 100644
--- a/src/runtime/actions/action_mime.rs
+++ b/src/runtime/actions/action_mime.rs
@@ -11,10 +11,7 @@ use mail_parser::{
 };
 
 use crate::{
-    compiler::{
-        grammar::actions::action_mime::{Enclose, ExtractText, Replace},
-        VariableType,
-    },
+    compiler::grammar::actions::action_mime::{Enclose, ExtractText, Replace},
     Context, Event,
 };
 
@@ -353,23 +350,7 @@ impl ExtractText {
             }
         }
 
-        match &self.name {
-            VariableType::Local(var_id) => {
-                if let Some(var) = ctx.vars_local.get_mut(*var_id) {
-                    *var = value.into();
-                } else {
-                    debug_assert!(false, "Non-existent local variable {var_id}");
-                }
-            }
-            VariableType::Global(var_name) => {
-                ctx.vars_global
-                    .insert(var_name.to_string().into(), value.into());
-            }
-            VariableType::Envelope(env) => {
-                ctx.add_set_envelope_event(*env, value);
-            }
-            _ => (),
-        }
+        ctx.set_variable(&self.name, value.into());
     }
 }
 
-- 
2.43.0


From a08ac4daddf1488af0e8162af99fb97540787307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:49 +0000
Subject: [PATCH 11/62] fix: match variables used after a test, in its own
 arguments or after deleteheader keep the last successful match

---
 src/compiler/grammar/instruction.rs | 100 ++++++++++++++++------------
 src/compiler/grammar/test.rs        |  23 ++++++-
 2 files changed, 78 insertions(+), 45 deletions(-)

diff --git a/src/compiler/grammar/instruction.rs b/src/compiler/grammar/instruction.rs
index 8f7bc4d..cd78cfa 100644
--- a/src/compiler/grammar/instruction.rs
+++ b/src/compiler/grammar/instruction.rs
@@ -125,6 +125,7 @@ pub(crate) struct Block {
     pub(crate) capabilities: AHashSet<Capability>,
     pub(crate) require_pos: usize,
     pub(crate) vars_uncleared: usize,
+    pub(crate) is_match_guarded: bool,
 }
 
 pub(crate) struct CompilerState<'x> {
@@ -182,14 +183,20 @@ impl Compiler {
                             state.parse_require()?;
                         }
                         Word::If => {
+                            let start_pos = state.instructions.len();
                             state.parse_test()?;
                             state.block.if_jmps.clear();
-                            is_new_block = Block::new(Word::If).into();
+                            is_new_block = Block::new(Word::If)
+                                .with_match_guard(state.is_match_condition(start_pos))
+                                .into();
                         }
                         Word::ElsIf => {
                             if let Word::If | Word::ElsIf = &state.last_block_type {
+                                let start_pos = state.instructions.len();
                                 state.parse_test()?;
-                                is_new_block = Block::new(Word::ElsIf).into();
+                                is_new_block = Block::new(Word::ElsIf)
+                                    .with_match_guard(state.is_match_condition(start_pos))
+                                    .into();
                             } else {
                                 return Err(token_info.expected("'if' before 'elsif'"));
                             }
@@ -603,9 +610,8 @@ impl Compiler {
                                     _ => (),
                                 }
                             }
-                            let jmp_pos = jmp_pos.ok_or_else(|| {
-                                token_info.custom(ErrorType::ContinueOutsideLoop)
-                            })?;
+                            let jmp_pos = jmp_pos
+                                .ok_or_else(|| token_info.custom(ErrorType::ContinueOutsideLoop))?;
 
                             state.clear_vars(num_blocks);
                             if num_pops > 0 {
@@ -879,7 +885,13 @@ impl CompilerState<'_> {
             let var_id = self.vars_num;
             self.block.vars_local.insert(name, var_id);
             self.vars_num += 1;
-            if var_id < self.block_stack.first().unwrap_or(&self.block).vars_uncleared {
+            if var_id
+                < self
+                    .block_stack
+                    .first()
+                    .unwrap_or(&self.block)
+                    .vars_uncleared
+            {
                 // A block using this position was left by a break
                 self.instructions.push(Instruction::Clear(Clear {
                     match_vars: 0,
@@ -919,54 +931,48 @@ impl CompilerState<'_> {
     }
 
     pub(crate) fn register_match_var(&mut self, num: usize) -> bool {
-        let mut block = &mut self.block;
+        let mut was_registered = false;
+        let mut is_guarded = false;
 
-        if block.match_test_pos.is_empty() {
-            for block_ in self.block_stack.iter_mut().rev() {
-                if !block_.match_test_pos.is_empty() {
-                    block = block_;
-                    break;
-                }
-            }
-        }
-
-        if !block.match_test_pos.is_empty() {
-            debug_assert!(num < 63);
+        debug_assert!(num < 63);
 
+        for block in std::iter::once(&mut self.block).chain(self.block_stack.iter_mut().rev()) {
             for pos in &block.match_test_pos {
+                // Skip the test being parsed as well as actions, which do not set match variables
                 if let Some(Instruction::Test(test)) = self.instructions.get_mut(*pos) {
-                    let match_type = match test {
-                        Test::Address(t) => &mut t.match_type,
-                        Test::Body(t) => &mut t.match_type,
-                        Test::Date(t) => &mut t.match_type,
-                        Test::CurrentDate(t) => &mut t.match_type,
-                        Test::Envelope(t) => &mut t.match_type,
-                        Test::HasFlag(t) => &mut t.match_type,
-                        Test::Header(t) => &mut t.match_type,
-                        Test::Metadata(t) => &mut t.match_type,
-                        Test::NotifyMethodCapability(t) => &mut t.match_type,
-                        Test::SpamTest(t) => &mut t.match_type,
-                        Test::String(t) | Test::Environment(t) => &mut t.match_type,
-                        Test::VirusTest(t) => &mut t.match_type,
-                        _ => {
-                            debug_assert!(false, "This should not have happened: {test:?}");
-                            return false;
-                        }
-                    };
-                    if let MatchType::Matches(positions) | MatchType::Regex(positions) = match_type
+                    if let Some((MatchType::Matches(positions) | MatchType::Regex(positions), _)) =
+                        test.match_type_mut()
                     {
                         *positions |= 1 << num;
-                        block.match_test_vars = *positions;
+                        block.match_test_vars |= 1 << num;
+                        was_registered = true;
                     } else {
-                        debug_assert!(false, "This should not have happened");
-                        return false;
+                        debug_assert!(false, "This should not have happened: {test:?}");
                     }
-                } else {
-                    debug_assert!(false, "This should not have happened");
-                    return false;
                 }
             }
-            true
+
+            // Tests evaluated before one that succeeded are not visible
+            if is_guarded {
+                break;
+            }
+            is_guarded = block.is_match_guarded;
+        }
+
+        was_registered
+    }
+
+    // Returns true if the last condition is a single test that sets the match variables,
+    // which body does not do
+    fn is_match_condition(&mut self, start_pos: usize) -> bool {
+        if let Some([Instruction::Test(test), Instruction::Jz(_)]) =
+            self.instructions.get_mut(start_pos..)
+        {
+            !matches!(test, Test::Body(_))
+                && matches!(
+                    test.match_type_mut(),
+                    Some((MatchType::Matches(_) | MatchType::Regex(_), false))
+                )
         } else {
             false
         }
@@ -1305,9 +1311,15 @@ impl Block {
             capabilities: AHashSet::new(),
             require_pos: usize::MAX,
             vars_uncleared: 0,
+            is_match_guarded: false,
         }
     }
 
+    pub fn with_match_guard(mut self, is_match_guarded: bool) -> Self {
+        self.is_match_guarded = is_match_guarded;
+        self
+    }
+
     pub fn with_label(mut self, label: String) -> Self {
         self.label = label.into();
         self
diff --git a/src/compiler/grammar/test.rs b/src/compiler/grammar/test.rs
index cec2294..73fb776 100644
--- a/src/compiler/grammar/test.rs
+++ b/src/compiler/grammar/test.rs
@@ -32,7 +32,7 @@ use super::{
         test_specialuse::TestSpecialUseExists,
         test_string::TestString,
     },
-    Capability, Invalid,
+    Capability, Invalid, MatchType,
 };
 
 #[allow(clippy::enum_variant_names)]
@@ -597,6 +597,27 @@ impl From<Test> for Instruction {
     }
 }
 
+impl Test {
+    pub(crate) fn match_type_mut(&mut self) -> Option<(&mut MatchType, bool)> {
+        match self {
+            Test::Address(t) => (&mut t.match_type, t.is_not),
+            Test::Body(t) => (&mut t.match_type, t.is_not),
+            Test::Date(t) => (&mut t.match_type, t.is_not),
+            Test::CurrentDate(t) => (&mut t.match_type, t.is_not),
+            Test::Envelope(t) => (&mut t.match_type, t.is_not),
+            Test::HasFlag(t) => (&mut t.match_type, t.is_not),
+            Test::Header(t) => (&mut t.match_type, t.is_not),
+            Test::Metadata(t) => (&mut t.match_type, t.is_not),
+            Test::NotifyMethodCapability(t) => (&mut t.match_type, t.is_not),
+            Test::SpamTest(t) => (&mut t.match_type, t.is_not),
+            Test::String(t) | Test::Environment(t) => (&mut t.match_type, t.is_not),
+            Test::VirusTest(t) => (&mut t.match_type, t.is_not),
+            _ => return None,
+        }
+        .into()
+    }
+}
+
 impl Instruction {
     pub fn set_not(mut self) -> Self {
         match &mut self {
-- 
2.43.0


From 8be025e0c0b4dae3c2611aedf78849f4eede46bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:12 +0000
Subject: [PATCH 12/62] fix: match variables always reflect the last successful
 match

They are no longer cleared at the end of the block of the test that set them,
and those without a corresponding wildcard or group are empty.
---
 src/compiler/grammar/instruction.rs | 25 ++++++++++++++++++++
 src/compiler/grammar/test.rs        | 22 ++++++++++++++++++
 src/lib.rs                          |  1 +
 src/runtime/context.rs              | 36 +++++++++++++++++------------
 src/runtime/variables.rs            | 17 ++++++--------
 5 files changed, 76 insertions(+), 25 deletions(-)

diff --git a/src/compiler/grammar/instruction.rs b/src/compiler/grammar/instruction.rs
index cd78cfa..f4bce68 100644
--- a/src/compiler/grammar/instruction.rs
+++ b/src/compiler/grammar/instruction.rs
@@ -121,6 +121,7 @@ pub(crate) struct Block {
     pub(crate) break_jmps: Vec<usize>,
     pub(crate) match_test_pos: Vec<usize>,
     pub(crate) match_test_vars: u64,
+    pub(crate) match_loop_vars: u64,
     pub(crate) vars_local: AHashMap<String, usize>,
     pub(crate) capabilities: AHashSet<Capability>,
     pub(crate) require_pos: usize,
@@ -668,6 +669,10 @@ impl Compiler {
                 Token::CurlyClose if !state.block_stack.is_empty() => {
                     state.block_end();
                     let mut prev_block = state.block_stack.pop().unwrap();
+                    // The variables set by the tests of a block outlive it
+                    prev_block
+                        .match_test_pos
+                        .append(&mut state.block.match_test_pos);
                     match &state.block.btype {
                         Word::ForEveryPart => {
                             state
@@ -952,6 +957,11 @@ impl CompilerState<'_> {
                 }
             }
 
+            if let Word::ForEveryPart | Word::While = &block.btype {
+                block.match_loop_vars |= 1 << num;
+                was_registered = true;
+            }
+
             // Tests evaluated before one that succeeded are not visible
             if is_guarded {
                 break;
@@ -979,6 +989,20 @@ impl CompilerState<'_> {
     }
 
     pub(crate) fn block_end(&mut self) {
+        // References in a loop also see the tests that follow them
+        let match_loop_vars = self.block.match_loop_vars;
+        if match_loop_vars != 0 {
+            for pos in &self.block.match_test_pos {
+                if let Some(Instruction::Test(test)) = self.instructions.get_mut(*pos) {
+                    if let Some((MatchType::Matches(positions) | MatchType::Regex(positions), _)) =
+                        test.match_type_mut()
+                    {
+                        *positions |= match_loop_vars;
+                    }
+                }
+            }
+        }
+
         let vars_num_block = self.block.vars_local.len();
         if vars_num_block > 0 {
             if self.vars_num > self.vars_num_max {
@@ -1305,6 +1329,7 @@ impl Block {
             last_block_start: 0,
             match_test_pos: vec![],
             match_test_vars: 0,
+            match_loop_vars: 0,
             if_jmps: vec![],
             break_jmps: vec![],
             vars_local: AHashMap::new(),
diff --git a/src/compiler/grammar/test.rs b/src/compiler/grammar/test.rs
index 73fb776..7bc714b 100644
--- a/src/compiler/grammar/test.rs
+++ b/src/compiler/grammar/test.rs
@@ -618,6 +618,28 @@ impl Test {
     }
 }
 
+impl Test {
+    /// Returns true if, having evaluated to `result`, this test has matched
+    /// and its match variables are in use.
+    pub(crate) fn is_capture_if(&self, result: bool) -> bool {
+        let (match_type, is_not) = match self {
+            Test::Address(t) => (&t.match_type, t.is_not),
+            Test::Date(t) => (&t.match_type, t.is_not),
+            Test::CurrentDate(t) => (&t.match_type, t.is_not),
+            Test::Envelope(t) => (&t.match_type, t.is_not),
+            Test::HasFlag(t) => (&t.match_type, t.is_not),
+            Test::Header(t) => (&t.match_type, t.is_not),
+            Test::Metadata(t) => (&t.match_type, t.is_not),
+            Test::SpamTest(t) => (&t.match_type, t.is_not),
+            Test::String(t) | Test::Environment(t) => (&t.match_type, t.is_not),
+            Test::VirusTest(t) => (&t.match_type, t.is_not),
+            _ => return false,
+        };
+        result != is_not
+            && matches!(match_type, MatchType::Matches(vars) | MatchType::Regex(vars) if *vars != 0)
+    }
+}
+
 impl Instruction {
     pub fn set_not(mut self) -> Self {
         match &mut self {
diff --git a/src/lib.rs b/src/lib.rs
index d92cb87..99f21eb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -123,6 +123,7 @@ pub struct Context<'x> {
     pub(crate) vars_env: AHashMap<Cow<'static, str>, Variable>,
     pub(crate) vars_local: Vec<Variable>,
     pub(crate) vars_match: Vec<Variable>,
+    pub(crate) has_set_match_vars: bool,
     pub(crate) expr_stack: Vec<Variable>,
     pub(crate) expr_pos: usize,
 
diff --git a/src/runtime/context.rs b/src/runtime/context.rs
index 038ddc9..d12189b 100644
--- a/src/runtime/context.rs
+++ b/src/runtime/context.rs
@@ -49,6 +49,7 @@ impl<'x> Context<'x> {
             vars_env: AHashMap::new(),
             vars_local: Vec::with_capacity(0),
             vars_match: Vec::with_capacity(0),
+            has_set_match_vars: false,
             expr_stack: Vec::with_capacity(16),
             expr_pos: 0,
             envelope: Vec::new(),
@@ -154,19 +155,26 @@ impl<'x> Context<'x> {
                         iter = current_script.instructions.get(self.pos..)?.iter();
                         continue;
                     }
-                    Instruction::Test(test) => match test.exec(self) {
-                        TestResult::Bool(result) => {
-                            self.test_result = result;
-                        }
-                        TestResult::Event { event, is_not } => {
-                            self.test_result = is_not;
-                            return Some(Ok(event));
-                        }
-                        TestResult::Error(err) => {
-                            self.finish_loop();
-                            return Some(Err(err));
+                    Instruction::Test(test) => {
+                        self.has_set_match_vars = false;
+                        match test.exec(self) {
+                            TestResult::Bool(result) => {
+                                self.test_result = result;
+                                // A match without wildcards or groups leaves no match variables
+                                if !self.has_set_match_vars && test.is_capture_if(result) {
+                                    self.clear_match_variables();
+                                }
+                            }
+                            TestResult::Event { event, is_not } => {
+                                self.test_result = is_not;
+                                return Some(Ok(event));
+                            }
+                            TestResult::Error(err) => {
+                                self.finish_loop();
+                                return Some(Err(err));
+                            }
                         }
-                    },
+                    }
                     Instruction::Eval(expr) => match self.eval_expression(expr) {
                         Ok(result) => {
                             self.test_result = result.to_bool();
@@ -190,9 +198,6 @@ impl<'x> Context<'x> {
                                 debug_assert!(false, "Failed to clear local variables: {clear:?}");
                             }
                         }
-                        if clear.match_vars != 0 {
-                            self.clear_match_variables(clear.match_vars);
-                        }
                     }
                     Instruction::Keep(keep) => {
                         let next_event = self.build_message_id();
@@ -666,6 +671,7 @@ impl<'x> Context<'x> {
             vars_env: AHashMap::new(),
             vars_local: Vec::with_capacity(0),
             vars_match: Vec::with_capacity(0),
+            has_set_match_vars: false,
             expr_stack: Vec::with_capacity(16),
             expr_pos: 0,
             envelope: Vec::new(),
diff --git a/src/runtime/variables.rs b/src/runtime/variables.rs
index b6fa185..5e8f9eb 100644
--- a/src/runtime/variables.rs
+++ b/src/runtime/variables.rs
@@ -10,6 +10,9 @@ use super::Variable;
 
 impl Context<'_> {
     pub(crate) fn set_match_variables(&mut self, set_vars: Vec<(usize, String)>) {
+        // Variables without a corresponding wildcard or group are empty
+        self.clear_match_variables();
+        self.has_set_match_vars = true;
         for (var_num, value) in set_vars {
             if let Some(var) = self.vars_match.get_mut(var_num) {
                 *var = value.into();
@@ -19,16 +22,10 @@ impl Context<'_> {
         }
     }
 
-    pub(crate) fn clear_match_variables(&mut self, mut positions: u64) {
-        while positions != 0 {
-            let index = 63 - positions.leading_zeros();
-            positions ^= 1 << index;
-            if let Some(match_var) = self.vars_match.get_mut(index as usize) {
-                if !match_var.is_empty() {
-                    *match_var = Variable::default();
-                }
-            } else {
-                debug_assert!(false, "Failed to clear match variable at index {index}.");
+    pub(crate) fn clear_match_variables(&mut self) {
+        for var in self.vars_match.iter_mut() {
+            if !var.is_empty() {
+                *var = Variable::default();
             }
         }
     }
-- 
2.43.0


From 60cf561e12d9fd03b900d80634cf865d654a1649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:40 +0000
Subject: [PATCH 13/62] fix: flags given as several space-separated strings or
 separated by repeated blanks form a set

---
 src/runtime/actions/action_flags.rs | 60 ++++++++++++++---------------
 1 file changed, 28 insertions(+), 32 deletions(-)

diff --git a/src/runtime/actions/action_flags.rs b/src/runtime/actions/action_flags.rs
index a1290f5..6dd15b2 100644
--- a/src/runtime/actions/action_flags.rs
+++ b/src/runtime/actions/action_flags.rs
@@ -37,17 +37,13 @@ impl EditFlags {
                 ctx.set_variable(var_name, flags.into());
             }
             Action::Add => {
-                let mut new_flags = ctx
+                let flags = ctx
                     .get_variable(var_name)
-                    .map(|v| v.to_string())
-                    .unwrap_or_default()
-                    .into_owned();
-                let mut current_flags = new_flags
-                    .split(' ')
-                    .map(|f| f.to_lowercase())
-                    .collect::<Vec<_>>();
-
-                ctx.tokenize_flags(&self.flags, |flag| {
+                    .map(|v| v.to_string().into_owned())
+                    .unwrap_or_default();
+                let mut new_flags = String::with_capacity(flags.len());
+                let mut current_flags = Vec::new();
+                let mut add_flag = |flag: &str| {
                     let flag_lc = flag.to_lowercase();
                     if !current_flags.contains(&flag_lc) {
                         if !new_flags.is_empty() {
@@ -56,31 +52,39 @@ impl EditFlags {
                         new_flags.push_str(flag);
                         current_flags.push(flag_lc);
                     }
+                };
+
+                flags.split_ascii_whitespace().for_each(&mut add_flag);
+                ctx.tokenize_flags(&self.flags, |flag| {
+                    add_flag(flag);
                     false
                 });
                 ctx.set_variable(var_name, new_flags.into());
             }
             Action::Remove => {
-                let mut current_flags = Vec::new();
-                let mut current_flags_lc = Vec::new();
+                let mut current_flags: Vec<(&str, String)> = Vec::new();
                 let flags = ctx
                     .get_variable(var_name)
                     .map(|v| v.to_string().into_owned())
                     .unwrap_or_default();
 
-                for flag in flags.split(' ') {
-                    current_flags.push(flag);
-                    current_flags_lc.push(flag.to_lowercase());
+                for flag in flags.split_ascii_whitespace() {
+                    let flag_lc = flag.to_lowercase();
+                    if !current_flags.iter().any(|(_, lflag)| lflag == &flag_lc) {
+                        current_flags.push((flag, flag_lc));
+                    }
                 }
                 ctx.tokenize_flags(&self.flags, |flag| {
                     let flag = flag.to_lowercase();
-                    if let Some(pos) = current_flags_lc.iter().position(|lflag| lflag == &flag) {
-                        current_flags.swap_remove(pos);
-                        current_flags_lc.swap_remove(pos);
-                    }
+                    current_flags.retain(|(_, lflag)| lflag != &flag);
                     false
                 });
-                ctx.set_variable(var_name, current_flags.join(" ").into());
+                let flags = current_flags
+                    .into_iter()
+                    .map(|(flag, _)| flag)
+                    .collect::<Vec<_>>()
+                    .join(" ");
+                ctx.set_variable(var_name, flags.into());
             }
         }
     }
@@ -92,17 +96,9 @@ impl Context<'_> {
         strings: &[Value],
         mut cb: impl FnMut(&str) -> bool,
     ) -> bool {
-        for (pos, string) in strings.iter().enumerate() {
-            let flag_ = self.eval_value(string);
-            let flag = flag_.to_string();
-            if !flag.is_empty() {
-                if pos == 0 && strings.len() == 1 {
-                    for flag in flag.split_ascii_whitespace() {
-                        if !flag.is_empty() && cb(flag) {
-                            return true;
-                        }
-                    }
-                } else if cb(flag.trim()) {
+        for string in strings {
+            for flag in self.eval_value(string).to_string().split_ascii_whitespace() {
+                if cb(flag) {
                     return true;
                 }
             }
@@ -123,7 +119,7 @@ impl Context<'_> {
         match self.vars_global.get("__flags") {
             Some(flags) if !flags.is_empty() => flags
                 .to_string()
-                .split(' ')
+                .split_ascii_whitespace()
                 .map(|s| s.to_string())
                 .collect::<Vec<String>>(),
             _ => Vec::new(),
-- 
2.43.0


From 7e4bcf603fc6eb5cb974b50beebd44c18d61777b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:03 +0000
Subject: [PATCH 14/62] fix: :flags delivers every flag once

---
 src/runtime/actions/action_flags.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/runtime/actions/action_flags.rs b/src/runtime/actions/action_flags.rs
index 6dd15b2..df0554f 100644
--- a/src/runtime/actions/action_flags.rs
+++ b/src/runtime/actions/action_flags.rs
@@ -108,8 +108,13 @@ impl Context<'_> {
 
     pub(crate) fn get_local_flags(&self, strings: &[Value]) -> Vec<String> {
         let mut flags = Vec::new();
+        let mut flags_lc = Vec::new();
         self.tokenize_flags(strings, |flag| {
-            flags.push(flag.to_string());
+            let flag_lc = flag.to_lowercase();
+            if !flags_lc.contains(&flag_lc) {
+                flags.push(flag.to_string());
+                flags_lc.push(flag_lc);
+            }
             false
         });
         flags
-- 
2.43.0


From c8c9e9f514b27f3544630b10f8cb67c161d3707e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:17 +0000
Subject: [PATCH 15/62] fix: an escaped backslash does not escape what follows
 it

---
 src/compiler/lexer/tokenizer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/compiler/lexer/tokenizer.rs b/src/compiler/lexer/tokenizer.rs
index 5c8e591..4a3ee9f 100644
--- a/src/compiler/lexer/tokenizer.rs
+++ b/src/compiler/lexer/tokenizer.rs
@@ -460,6 +460,7 @@ impl Iterator for Tokenizer<'_> {
                     b'\\' => {
                         if last_ch == b'\\' {
                             self.push_byte(ch);
+                            self.last_ch = 0;
                         }
                     }
                     b'0'..=b'9' => {
-- 
2.43.0


From 852b6b3c606a9fb0aa0a348734771bf62b04c777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:25 +0000
Subject: [PATCH 16/62] fix: a last word that ends at the end of the script is
 not dropped

---
 src/compiler/lexer/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/lexer/tokenizer.rs b/src/compiler/lexer/tokenizer.rs
index 4a3ee9f..e3fd1ba 100644
--- a/src/compiler/lexer/tokenizer.rs
+++ b/src/compiler/lexer/tokenizer.rs
@@ -567,7 +567,7 @@ impl Iterator for Tokenizer<'_> {
                     error_type: (&self.state).into(),
                 }))
             }
-            _ => None,
+            _ => self.get_current_token().map(Ok),
         }
     }
 }
-- 
2.43.0


From 44adbaa3099c6bb7ee6085f735daa08f2fcb902f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:57 +0000
Subject: [PATCH 17/62] fix: i;ascii-numeric compares the leading digits of a
 text

---
 src/runtime/mod.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 30242cb..15a1661 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -70,9 +70,24 @@ impl Variable {
 
     pub fn to_number(&self) -> Number {
         self.to_number_checked()
+            .or_else(|| self.to_leading_number())
             .unwrap_or(Number::Float(f64::INFINITY))
     }
 
+    fn to_leading_number(&self) -> Option<Number> {
+        let s = match self {
+            Variable::String(s) => s.as_str(),
+            _ => return None,
+        };
+        let digits = &s[..s.bytes().take_while(|ch| ch.is_ascii_digit()).count()];
+
+        digits
+            .parse::<i64>()
+            .map(Number::Integer)
+            .or_else(|_| digits.parse::<f64>().map(Number::Float))
+            .ok()
+    }
+
     pub fn to_number_checked(&self) -> Option<Number> {
         let s = match self {
             Variable::Integer(n) => return Number::Integer(*n).into(),
-- 
2.43.0


From b97f888653499b19321cbc5ad2ae576014163bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:12 +0000
Subject: [PATCH 18/62] fix: an edited message keeps its own line ending before
 the body

---
 src/runtime/actions/action_mime.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/runtime/actions/action_mime.rs b/src/runtime/actions/action_mime.rs
index c6ddfa6..29cfb6a 100644
--- a/src/runtime/actions/action_mime.rs
+++ b/src/runtime/actions/action_mime.rs
@@ -433,7 +433,15 @@ impl Context<'_> {
                     }
                 }
 
-                if part.offset_body != 0 || part.encoding != Encoding::None {
+                if part.offset_body != 0
+                    && !current_message
+                        .raw_message
+                        .get(..part.offset_body as usize)
+                        .is_some_and(|bytes| bytes.ends_with(b"\r\n"))
+                {
+                    // The original part uses LF line endings
+                    message.extend_from_slice(b"\n");
+                } else if part.offset_body != 0 || part.encoding != Encoding::None {
                     // Add CRLF unless this is a :mime replaced part
                     message.extend_from_slice(b"\r\n");
                 }
-- 
2.43.0


From 7612e1d3d20d9f82d16f23a95683dad6daf81712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:13 +0000
Subject: [PATCH 19/62] fix: addheader keeps underscores in header names

---
 src/runtime/actions/action_editheader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/actions/action_editheader.rs b/src/runtime/actions/action_editheader.rs
index 8f14dbe..aa723c5 100644
--- a/src/runtime/actions/action_editheader.rs
+++ b/src/runtime/actions/action_editheader.rs
@@ -26,7 +26,7 @@ impl AddHeader {
         let mut header_name = String::with_capacity(header_name_.len());
 
         for ch in header_name_.chars() {
-            if ch.is_alphanumeric() || ch == '-' {
+            if ch.is_alphanumeric() || ['-', '_'].contains(&ch) {
                 header_name.push(ch);
             }
         }
-- 
2.43.0


From 2ecc488ba18a5c6e9e7d9e6cc6b0d77b89be289a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:15 +0000
Subject: [PATCH 20/62] fix: header variables see the parts of added headers,
 :raw names of added headers do not underflow

---
 src/runtime/eval.rs | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/src/runtime/eval.rs b/src/runtime/eval.rs
index 43da865..aaced48 100644
--- a/src/runtime/eval.rs
+++ b/src/runtime/eval.rs
@@ -9,7 +9,7 @@ use std::cmp::Ordering;
 use mail_parser::{
     decoders::html::{html_to_text, text_to_html},
     parsers::MessageStream,
-    Addr, Header, HeaderName, HeaderValue, Host, PartType, Received,
+    Addr, Header, HeaderName, HeaderValue, Host, MessageParser, PartType, Received,
 };
 
 use crate::{
@@ -156,6 +156,11 @@ impl<'x> Context<'x> {
         } else {
             for h in &part.headers {
                 match &header.part {
+                    HeaderPart::Raw if h.offset_end == 0 => {
+                        result.push(Variable::from(sanitize_raw_header(
+                            inserted_header(h).as_bytes(),
+                        )));
+                    }
                     HeaderPart::Raw => {
                         if let Some(var) = raw
                             .get(h.offset_field as usize..h.offset_end as usize)
@@ -206,6 +211,28 @@ impl<'x> Context<'x> {
 
 impl HeaderVariable {
     fn eval_part<'x>(&self, header: &'x Header<'x>, raw: &'x [u8], result: &mut Vec<Variable>) {
+        if header.offset_end != 0 {
+            return self.eval_parsed_part(header, raw, result);
+        }
+
+        // Headers added by the script are parsed as they will be written
+        let raw = inserted_header(header);
+        match MessageParser::new()
+            .parse_headers(raw.as_bytes())
+            .as_ref()
+            .and_then(|m| m.headers().first())
+        {
+            Some(header) => self.eval_parsed_part(header, raw.as_bytes(), result),
+            None => result.push(Variable::default()),
+        }
+    }
+
+    fn eval_parsed_part<'x>(
+        &self,
+        header: &'x Header<'x>,
+        raw: &'x [u8],
+        result: &mut Vec<Variable>,
+    ) {
         let var = match &self.part {
             HeaderPart::Text => match &header.value {
                 HeaderValue::Text(v) if self.include_single_part() => {
@@ -400,6 +427,14 @@ impl HeaderVariable {
     }
 }
 
+fn inserted_header(header: &Header<'_>) -> String {
+    format!(
+        "{}: {}\r\n\r\n",
+        header.name.as_str(),
+        header.value.as_text().unwrap_or_default()
+    )
+}
+
 impl ReceivedPart {
     pub fn eval<'x>(&self, rcvd: &'x Received<'x>) -> Option<Variable> {
         match self {
-- 
2.43.0


From fab795fbfb84d607683113682a344e5b7c1b7181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:20 +0000
Subject: [PATCH 21/62] fix: negating the smallest integer saturates

---
 src/runtime/expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/expression.rs b/src/runtime/expression.rs
index 017e196..c2dbfe2 100644
--- a/src/runtime/expression.rs
+++ b/src/runtime/expression.rs
@@ -225,7 +225,7 @@ impl Variable {
 
     pub fn op_minus(self) -> Variable {
         match self {
-            Variable::Integer(n) => Variable::Integer(-n),
+            Variable::Integer(n) => Variable::Integer(n.saturating_neg()),
             Variable::Float(n) => Variable::Float(-n),
             _ => self.parse_number().op_minus(),
         }
-- 
2.43.0


From 41de4fef8942fa4067eb6854e916ddff54429ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:22 +0000
Subject: [PATCH 22/62] fix: a single = in an expression does not swallow the
 next character

---
 src/compiler/grammar/expr/tokenizer.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/compiler/grammar/expr/tokenizer.rs b/src/compiler/grammar/expr/tokenizer.rs
index 9e8310a..416579c 100644
--- a/src/compiler/grammar/expr/tokenizer.rs
+++ b/src/compiler/grammar/expr/tokenizer.rs
@@ -147,12 +147,18 @@ where
                                 Token::BinaryOperator(BinaryOperator::Subtract)
                             }
                         }
-                        b'=' => match self.iter.next() {
-                            Some((_, b'=')) => Token::BinaryOperator(BinaryOperator::Eq),
-                            Some((_, b'>')) => Token::BinaryOperator(BinaryOperator::Ge),
-                            Some((_, b'<')) => Token::BinaryOperator(BinaryOperator::Le),
-                            _ => Token::BinaryOperator(BinaryOperator::Eq),
-                        },
+                        b'=' => {
+                            let op = match self.iter.peek() {
+                                Some((_, b'=')) => BinaryOperator::Eq.into(),
+                                Some((_, b'>')) => BinaryOperator::Ge.into(),
+                                Some((_, b'<')) => BinaryOperator::Le.into(),
+                                _ => None,
+                            };
+                            if op.is_some() {
+                                self.iter.next();
+                            }
+                            Token::BinaryOperator(op.unwrap_or(BinaryOperator::Eq))
+                        }
                         b'>' => match self.iter.peek() {
                             Some((_, b'=')) => {
                                 self.iter.next();
-- 
2.43.0


From cf74f9b0784c86826c5059df2ff74a1318289efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:24 +0000
Subject: [PATCH 23/62] fix: a minus after a unary operator or an opening
 bracket is a sign

---
 src/compiler/grammar/expr/tokenizer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/compiler/grammar/expr/tokenizer.rs b/src/compiler/grammar/expr/tokenizer.rs
index 416579c..28378e9 100644
--- a/src/compiler/grammar/expr/tokenizer.rs
+++ b/src/compiler/grammar/expr/tokenizer.rs
@@ -232,7 +232,11 @@ where
                     };
                     self.is_start = matches!(
                         token,
-                        Token::OpenParen | Token::Comma | Token::BinaryOperator(_)
+                        Token::OpenParen
+                            | Token::OpenBracket
+                            | Token::Comma
+                            | Token::BinaryOperator(_)
+                            | Token::UnaryOperator(_)
                     );
 
                     return if prev_token.is_some() {
-- 
2.43.0


From 245d87eeee33deedc4d7dd6c4eb8f69c308643c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:26 +0000
Subject: [PATCH 24/62] fix: array items may start with an operator or a
 parenthesis

---
 src/compiler/grammar/expr/parser.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/compiler/grammar/expr/parser.rs b/src/compiler/grammar/expr/parser.rs
index 7557c56..9a569a1 100644
--- a/src/compiler/grammar/expr/parser.rs
+++ b/src/compiler/grammar/expr/parser.rs
@@ -82,7 +82,7 @@ where
                         self.operator_stack.last()
                     {
                         let got_args = self.arg_count.pop().unwrap();
-                        if got_args != *num_args as i32 {
+                        if (*id != ID_ARRAY_BUILD && got_args != *num_args as i32) || got_args < 0 {
                             return Err(if *id != u32::MAX {
                                 format!(
                                     "Expression function {:?} expected {} arguments, got {}",
@@ -95,7 +95,7 @@ where
 
                         let expr = match *id {
                             ID_ARRAY_ACCESS => Expression::ArrayAccess,
-                            ID_ARRAY_BUILD => Expression::ArrayBuild(*num_args),
+                            ID_ARRAY_BUILD => Expression::ArrayBuild(got_args as u32),
                             id => Expression::Function {
                                 id,
                                 num_args: *num_args,
@@ -213,13 +213,6 @@ where
     fn inc_arg_count(&mut self) {
         if let Some(x) = self.arg_count.last_mut() {
             *x = x.saturating_add(1);
-            let op_pos = self.operator_stack.len().saturating_sub(2);
-            match self.operator_stack.get_mut(op_pos) {
-                Some((Token::Function { num_args, id, .. }, _)) if *id == ID_ARRAY_BUILD => {
-                    *num_args += 1;
-                }
-                _ => {}
-            }
         }
     }
 
-- 
2.43.0


From 37204911aa7a2f1debe4b16c64413f55dee46ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:45 +0000
Subject: [PATCH 25/62] fix: redirect :list takes the list as given, it is not
 an address

---
 src/runtime/actions/action_redirect.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/runtime/actions/action_redirect.rs b/src/runtime/actions/action_redirect.rs
index 1609ea0..e30d353 100644
--- a/src/runtime/actions/action_redirect.rs
+++ b/src/runtime/actions/action_redirect.rs
@@ -13,8 +13,15 @@ use crate::{
 
 impl Redirect {
     pub(crate) fn exec(&self, ctx: &mut Context) {
-        if let Some(address) = sanitize_address(ctx.eval_value(&self.address).to_string().as_ref())
-        {
+        let address = ctx.eval_value(&self.address);
+        let address = if !self.list {
+            sanitize_address(address.to_string().as_ref())
+        } else {
+            // Lists are identified by a URI
+            let list = address.to_string().trim().to_string();
+            (!list.is_empty() && !list.contains(char::is_control)).then_some(list)
+        };
+        if let Some(address) = address {
             if ctx.num_redirects < ctx.runtime.max_redirects
                 && ctx.num_out_messages < ctx.runtime.max_out_messages
                 && ctx.message.parts[0]
-- 
2.43.0


From 24f3107a2c7a09c4534014a8049413a2e11578f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:48 +0000
Subject: [PATCH 26/62] fix: redirect refuses malformed addresses instead of
 repairing them

---
 src/runtime/actions/action_redirect.rs | 42 ++++++++++++++++++--------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/src/runtime/actions/action_redirect.rs b/src/runtime/actions/action_redirect.rs
index e30d353..a5c20ae 100644
--- a/src/runtime/actions/action_redirect.rs
+++ b/src/runtime/actions/action_redirect.rs
@@ -100,38 +100,52 @@ pub(crate) fn sanitize_address(addr: &str) -> Option<String> {
     let mut result = String::with_capacity(addr.len());
     let mut in_quote = false;
     let mut last_ch = '\n';
-    let mut has_at = false;
-    let mut has_dot = false;
+    let mut domain_start = None;
+    let mut is_closed = false;
+    let mut is_invalid = false;
 
     for ch in addr.chars() {
         match ch {
+            _ if ch.is_control() && (in_quote || !ch.is_ascii_whitespace()) => {
+                return None;
+            }
+            _ if is_closed => {
+                // No text is expected after the address
+                if !ch.is_ascii_whitespace() {
+                    return None;
+                }
+            }
             '\"' => {
                 if !in_quote {
+                    // Domains cannot be quoted
+                    is_invalid |= domain_start.is_some();
                     in_quote = true;
                 } else if last_ch != '\\' {
                     in_quote = false;
                 }
             }
             '@' if !in_quote => {
-                if !has_at && !result.is_empty() {
-                    has_at = true;
+                if domain_start.is_none() && !result.is_empty() {
                     result.push(ch);
+                    domain_start = Some(result.len());
                 } else {
                     return None;
                 }
             }
-            '.' if !in_quote && has_at && !has_dot => {
-                has_dot = true;
-                result.push(ch);
-            }
-            '<' => {
+            '<' if !in_quote => {
                 result.clear();
-                has_at = false;
-                has_dot = false;
+                domain_start = None;
+                is_invalid = false;
+            }
+            '>' if !in_quote => {
+                is_closed = true;
             }
-            '>' => (),
             _ => {
                 if !ch.is_ascii_whitespace() || in_quote {
+                    // Separators cannot be part of an address
+                    is_invalid |= !in_quote
+                        && ([',', ';', '(', ')'].contains(&ch)
+                            || (ch == ':' && domain_start.is_none()));
                     result.push(ch);
                 }
             }
@@ -139,7 +153,9 @@ pub(crate) fn sanitize_address(addr: &str) -> Option<String> {
         last_ch = ch;
     }
 
-    if !result.is_empty() && has_at && has_dot {
+    // The domain must have at least two non-empty labels
+    let domain = result.get(domain_start?..)?;
+    if !is_invalid && domain.contains('.') && domain.split('.').all(|label| !label.is_empty()) {
         Some(result)
     } else {
         None
-- 
2.43.0


From daa78ec55cc27dc0c0c905e3f05f66fbd58ef240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:10 +0000
Subject: [PATCH 27/62] fix: confine header values of generated messages, the
 new reference goes last

---
 src/runtime/actions/action_notify.rs   | 28 ++++----------
 src/runtime/actions/action_vacation.rs | 52 ++++++++++++++++++--------
 2 files changed, 44 insertions(+), 36 deletions(-)

diff --git a/src/runtime/actions/action_notify.rs b/src/runtime/actions/action_notify.rs
index 88d5909..70a2578 100644
--- a/src/runtime/actions/action_notify.rs
+++ b/src/runtime/actions/action_notify.rs
@@ -15,7 +15,7 @@ use crate::{
     Context, Event, Importance, Recipient,
 };
 
-use super::action_vacation::MAX_SUBJECT_LEN;
+use super::action_vacation::{write_header, MAX_SUBJECT_LEN};
 
 impl Notify {
     pub(crate) fn exec(&self, ctx: &mut Context) {
@@ -93,9 +93,7 @@ impl Notify {
                 + 200;
 
             let mut message = Vec::with_capacity(message_len);
-            message.extend_from_slice(b"From: ");
-            message.extend_from_slice(from.as_bytes());
-            message.extend_from_slice(b"\r\n");
+            write_header(&mut message, "From: ", &from);
 
             for (header, addresses) in [("To: ", &params.to), ("Cc: ", &params.cc)] {
                 if !addresses.is_empty() {
@@ -137,9 +135,7 @@ impl Notify {
                     _ => (),
                 }
                 message.extend_from_slice(header.as_str().as_bytes());
-                message.extend_from_slice(b": ");
-                message.extend_from_slice(value.as_bytes());
-                message.extend_from_slice(b"\r\n");
+                write_header(&mut message, ": ", value);
             }
 
             if !has_date {
@@ -172,7 +168,6 @@ impl Notify {
             message.extend_from_slice(priority.as_bytes());
             message.extend_from_slice(b"\r\n");
 
-            message.extend_from_slice(b"Subject: ");
             let subject = if let Some(subject) = has_subject {
                 subject.as_str()
             } else if let Some(subject) = &notify_message {
@@ -180,20 +175,11 @@ impl Notify {
             } else {
                 ctx.message.subject().unwrap_or_default()
             };
-            let mut iter = subject.chars().enumerate();
-            let mut buf = [0; 4];
-            #[allow(clippy::while_let_on_iterator)]
-            while let Some((pos, char)) = iter.next() {
-                if pos < MAX_SUBJECT_LEN {
-                    message.extend_from_slice(char.encode_utf8(&mut buf).as_bytes());
-                } else {
-                    break;
-                }
-            }
-            if iter.next().is_some() {
-                message.extend_from_slice('…'.encode_utf8(&mut buf).as_bytes());
+            if let Some((pos, _)) = subject.char_indices().nth(MAX_SUBJECT_LEN) {
+                write_header(&mut message, "Subject: ", &format!("{}…", &subject[..pos]));
+            } else {
+                write_header(&mut message, "Subject: ", subject);
             }
-            message.extend_from_slice(b"\r\n");
 
             message.extend_from_slice(b"Auto-Submitted: auto-notified\r\n");
             message.extend_from_slice(b"X-Sieve: yes\r\n");
diff --git a/src/runtime/actions/action_vacation.rs b/src/runtime/actions/action_vacation.rs
index bee00dd..3519281 100644
--- a/src/runtime/actions/action_vacation.rs
+++ b/src/runtime/actions/action_vacation.rs
@@ -198,12 +198,10 @@ impl Vacation {
                             if pos < MAX_SUBJECT_LEN {
                                 vacation_subject_.push(char);
                             } else {
+                                vacation_subject_.push('…');
                                 break;
                             }
                         }
-                        if iter.next().is_some() {
-                            vacation_subject_.push('…');
-                        }
                         vacation_subject = vacation_subject_.into();
                     }
                 }
@@ -262,7 +260,7 @@ impl Vacation {
         write_header(&mut message, "From: ", vacation_from.to_string().as_ref());
         if let Some(vacation_to_full) = vacation_to_full {
             message.extend_from_slice(b"To:");
-            message.extend_from_slice(vacation_to_full);
+            write_raw_value(&mut message, vacation_to_full);
         } else {
             write_header(&mut message, "To: ", vacation_to.to_string().as_ref());
         }
@@ -272,18 +270,15 @@ impl Vacation {
             vacation_subject.to_string().as_ref(),
         );
         if let Some(message_id) = message_id {
-            message.extend_from_slice(b"In-Reply-To: <");
-            message.extend_from_slice(message_id.as_bytes());
-            message.extend_from_slice(b">\r\n");
+            write_header(&mut message, "In-Reply-To: ", &format!("<{message_id}>"));
 
-            message.extend_from_slice(b"References: <");
-            message.extend_from_slice(message_id.as_bytes());
+            // The new reference goes last
+            message.extend_from_slice(b"References:");
             if let Some(references) = references {
-                message.extend_from_slice(b"> ");
-                message.extend_from_slice(references);
-            } else {
-                message.extend_from_slice(b">\r\n");
+                write_raw_value(&mut message, references);
+                message.truncate(message.len() - 2);
             }
+            write_header(&mut message, " ", &format!("<{message_id}>"));
         }
         message.extend_from_slice(b"Date: ");
         message.extend_from_slice(Date::now().to_rfc822().as_bytes());
@@ -336,8 +331,35 @@ impl Vacation {
     }
 }
 
-fn write_header(buf: &mut Vec<u8>, name: &str, value: &str) {
+// Writes a header field, confining the value to a single line
+pub(crate) fn write_header(buf: &mut Vec<u8>, name: &str, value: &str) {
     buf.extend_from_slice(name.as_bytes());
-    buf.extend_from_slice(value.as_bytes());
+    let mut last_is_control = false;
+    let mut char_buf = [0; 4];
+    for ch in value.chars() {
+        let is_control = ch.is_control() && ch != '\t';
+        if !is_control {
+            buf.extend_from_slice(ch.encode_utf8(&mut char_buf).as_bytes());
+        } else if !last_is_control {
+            buf.push(b' ');
+        }
+        last_is_control = is_control;
+    }
+    buf.extend_from_slice(b"\r\n");
+}
+
+// Copies the value of an original header field, which may be folded
+fn write_raw_value(buf: &mut Vec<u8>, value: &[u8]) {
+    let mut iter = value.trim_ascii_end().iter().peekable();
+    while let Some(&ch) = iter.next() {
+        match ch {
+            b'\n' if matches!(iter.peek(), Some(b' ' | b'\t')) => {
+                buf.extend_from_slice(b"\r\n");
+            }
+            b'\n' => buf.push(b' '),
+            b'\r' => (),
+            _ => buf.push(ch),
+        }
+    }
     buf.extend_from_slice(b"\r\n");
 }
-- 
2.43.0


From 966808fa83f059d87f6fb5e8b82499fdf86e148a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:12 +0000
Subject: [PATCH 28/62] fix: notifications by mail count as outgoing messages

---
 src/runtime/actions/action_notify.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/runtime/actions/action_notify.rs b/src/runtime/actions/action_notify.rs
index 70a2578..29d9135 100644
--- a/src/runtime/actions/action_notify.rs
+++ b/src/runtime/actions/action_notify.rs
@@ -38,9 +38,12 @@ impl Notify {
             return;
         };
 
+        if ctx.num_out_messages >= ctx.runtime.max_out_messages {
+            return;
+        }
+
         let has_fcc = self.fcc.is_some();
-        let is_mailto = scheme.eq_ignore_ascii_case("mailto")
-            && ctx.num_out_messages < ctx.runtime.max_out_messages;
+        let is_mailto = scheme.eq_ignore_ascii_case("mailto");
         let mut events = Vec::with_capacity(3);
 
         if is_mailto || has_fcc {
@@ -248,8 +251,8 @@ impl Notify {
                     .or_else(|| ctx.message.subject().map(|s| s.to_string()))
                     .unwrap_or_default(),
             });
-            ctx.num_out_messages += 1;
         }
+        ctx.num_out_messages += 1;
 
         if let Some(fcc) = &self.fcc {
             // File carbon copy
-- 
2.43.0


From 85a9e81d1a94773f904f49194649c1bbf3dc3e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:15 +0000
Subject: [PATCH 29/62] fix: a mailto URI cannot repeat the fixed fields of a
 notification

---
 src/runtime/actions/action_notify.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/runtime/actions/action_notify.rs b/src/runtime/actions/action_notify.rs
index 29d9135..792ad23 100644
--- a/src/runtime/actions/action_notify.rs
+++ b/src/runtime/actions/action_notify.rs
@@ -127,12 +127,24 @@ impl Notify {
                         continue;
                     }
                     HeaderName::Date => {
-                        has_date = true;
+                        if std::mem::replace(&mut has_date, true) {
+                            continue;
+                        }
                     }
                     HeaderName::MessageId => {
-                        has_message_id = true;
+                        if std::mem::replace(&mut has_message_id, true) {
+                            continue;
+                        }
+                    }
+                    // These fields are always set below
+                    HeaderName::From | HeaderName::ContentType => {
+                        continue;
                     }
-                    HeaderName::From => {
+                    HeaderName::Other(name)
+                        if ["Importance", "X-Priority", "Auto-Submitted", "X-Sieve"]
+                            .iter()
+                            .any(|h| name.eq_ignore_ascii_case(h)) =>
+                    {
                         continue;
                     }
                     _ => (),
-- 
2.43.0


From fd756efc27baa80342758fbcf0db9a94bd63bb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:17 +0000
Subject: [PATCH 30/62] fix: validate addresses and parameter names of mailto
 URIs

---
 src/runtime/actions/action_notify.rs | 58 ++++++++++++++++------------
 1 file changed, 34 insertions(+), 24 deletions(-)

diff --git a/src/runtime/actions/action_notify.rs b/src/runtime/actions/action_notify.rs
index 792ad23..dbdc1db 100644
--- a/src/runtime/actions/action_notify.rs
+++ b/src/runtime/actions/action_notify.rs
@@ -221,16 +221,7 @@ impl Notify {
                             .into_iter()
                             .chain(params.cc)
                             .chain(params.bcc)
-                            .map(|addr| {
-                                if let Some((addr, _)) = addr
-                                    .rsplit_once('<')
-                                    .and_then(|(_, addr)| addr.rsplit_once('>'))
-                                {
-                                    addr.to_string()
-                                } else {
-                                    addr
-                                }
-                            })
+                            .map(|addr| mailbox_address(&addr).1.to_string())
                             .collect(),
                     ),
                     notify: crate::compiler::grammar::actions::action_redirect::Notify::Never,
@@ -403,7 +394,7 @@ fn parse_mailto(uri: &str) -> Option<MailtoMessage> {
                                         &mut params,
                                         header.clone(),
                                         String::from_utf8(std::mem::take(&mut buf)).ok()?,
-                                    );
+                                    )?;
                                     has_addresses = true;
                                     state = State::Address((header.clone(), false));
                                 } else {
@@ -422,6 +413,7 @@ fn parse_mailto(uri: &str) -> Option<MailtoMessage> {
                                 buf.push(ch);
                             }
                         },
+                        State::ParamName => return None,
                         _ => buf.push(ch),
                     }
                 } else {
@@ -434,7 +426,7 @@ fn parse_mailto(uri: &str) -> Option<MailtoMessage> {
                         &mut params,
                         header.clone(),
                         String::from_utf8(std::mem::take(&mut buf)).ok()?,
-                    );
+                    )?;
                     state = State::Address((header.clone(), false));
                     has_addresses = true;
                 }
@@ -448,7 +440,7 @@ fn parse_mailto(uri: &str) -> Option<MailtoMessage> {
                             &mut params,
                             header.clone(),
                             String::from_utf8(std::mem::take(&mut buf)).ok()?,
-                        );
+                        )?;
                         has_addresses = true;
                     }
                     state = State::ParamName;
@@ -461,7 +453,7 @@ fn parse_mailto(uri: &str) -> Option<MailtoMessage> {
                     buf.push(ch);
                     state = State::Address((header.clone(), true));
                 }
-                State::ParamName | State::ParamValue(_) => buf.push(ch),
+                State::ParamValue(_) => buf.push(ch),
                 _ => return None,
             },
             b'=' => match &state {
@@ -480,8 +472,7 @@ fn parse_mailto(uri: &str) -> Option<MailtoMessage> {
                                 }
                             }
                             _ => State::ParamValue(Mailto::Header(hdr)),
-                        })
-                        .unwrap_or_else(|| State::ParamValue(Mailto::Other(String::new())));
+                        })?;
                 }
                 State::ParamValue(_) => buf.push(ch),
                 _ => return None,
@@ -493,7 +484,8 @@ fn parse_mailto(uri: &str) -> Option<MailtoMessage> {
                             &mut params,
                             header,
                             String::from_utf8(std::mem::take(&mut buf)).ok()?,
-                        );
+                        )?;
+                        has_addresses = true;
                     }
                     state = State::ParamName;
                 }
@@ -531,14 +523,9 @@ fn parse_mailto(uri: &str) -> Option<MailtoMessage> {
         let value = String::from_utf8(std::mem::take(&mut buf)).ok()?;
         match state {
             State::Address((header, true)) => {
-                insert_address(&mut params, header, value);
+                insert_address(&mut params, header, value)?;
                 has_addresses = true;
             }
-            State::ParamName => {
-                params
-                    .headers
-                    .push((HeaderName::Other(value.into()), String::new()));
-            }
             State::ParamValue(param) => match param {
                 Mailto::Header(header) => params.headers.push((header, value)),
                 Mailto::Body => params.body = value.into(),
@@ -557,8 +544,29 @@ fn parse_mailto(uri: &str) -> Option<MailtoMessage> {
     }
 }
 
+// Splits a mailbox into its display name and its address
+fn mailbox_address(value: &str) -> (&str, &str) {
+    value
+        .trim_end()
+        .strip_suffix('>')
+        .and_then(|value| value.rsplit_once('<'))
+        .unwrap_or(("", value))
+}
+
 #[inline(always)]
-fn insert_address(params: &mut MailtoMessage, name: HeaderName, value: String) {
+fn insert_address(params: &mut MailtoMessage, name: HeaderName, value: String) -> Option<()> {
+    // Only accept valid addresses
+    let (display_name, address) = mailbox_address(&value);
+    let (local_part, domain) = address.rsplit_once('@')?;
+    if local_part.is_empty()
+        || domain.is_empty()
+        || value.contains(char::is_control)
+        || address.contains([' ', '<', '>'])
+        || display_name.contains(['<', '>'])
+    {
+        return None;
+    }
+
     if !params
         .to
         .iter()
@@ -579,4 +587,6 @@ fn insert_address(params: &mut MailtoMessage, name: HeaderName, value: String) {
             _ => (),
         }
     }
+
+    Some(())
 }
-- 
2.43.0


From de0504edd425dd55fb71e258bde0482c25529c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:19 +0000
Subject: [PATCH 31/62] fix: URI schemes of notification methods ignore case

---
 src/runtime/actions/action_notify.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/runtime/actions/action_notify.rs b/src/runtime/actions/action_notify.rs
index dbdc1db..b0a10f8 100644
--- a/src/runtime/actions/action_notify.rs
+++ b/src/runtime/actions/action_notify.rs
@@ -331,7 +331,10 @@ pub fn validate_uri(uri: &str) -> Option<&str> {
     if scheme.eq_ignore_ascii_case("mailto") {
         parse_mailto(uri)?;
         scheme.into()
-    } else if ["xmpp", "tel", "http", "https"].contains(&scheme) {
+    } else if ["xmpp", "tel", "http", "https"]
+        .iter()
+        .any(|s| scheme.eq_ignore_ascii_case(s))
+    {
         scheme.into()
     } else {
         None
-- 
2.43.0


From 0fe9de8745f2a530db10a4560e93105d4f099e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:21 +0000
Subject: [PATCH 32/62] fix: vacation does not reply to list and junk
 precedence

---
 src/runtime/actions/action_vacation.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/runtime/actions/action_vacation.rs b/src/runtime/actions/action_vacation.rs
index 3519281..b01cef0 100644
--- a/src/runtime/actions/action_vacation.rs
+++ b/src/runtime/actions/action_vacation.rs
@@ -126,7 +126,11 @@ impl TestVacation {
                         && header
                             .value
                             .as_text()
-                            .is_some_and(|v| v.eq_ignore_ascii_case("bulk"))
+                            .is_some_and(|v| {
+                                ["bulk", "list", "junk"]
+                                    .iter()
+                                    .any(|p| v.eq_ignore_ascii_case(p))
+                            })
                     {
                         return TestResult::Bool(false);
                     }
-- 
2.43.0


From 7791ca4a53a0bb4346c31be0d8f769afaf1f33db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:23 +0000
Subject: [PATCH 33/62] fix: very long vacation periods saturate

---
 src/runtime/actions/action_vacation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/actions/action_vacation.rs b/src/runtime/actions/action_vacation.rs
index b01cef0..c633555 100644
--- a/src/runtime/actions/action_vacation.rs
+++ b/src/runtime/actions/action_vacation.rs
@@ -149,7 +149,7 @@ impl TestVacation {
                         format!("_v{}{}", from, ctx.eval_value(&self.reason).to_string())
                     },
                     expiry: match &self.period {
-                        Period::Days(days) => days * 86400,
+                        Period::Days(days) => days.saturating_mul(86400),
                         Period::Seconds(seconds) => *seconds,
                         Period::Default => ctx.runtime.default_vacation_expiry,
                     },
-- 
2.43.0


From 408d52742f3d9c64c2dd1547a5d0968ccfcc29b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:26 +0000
Subject: [PATCH 34/62] fix: vacation copies an address field only if it names
 the sender alone

---
 src/runtime/actions/action_vacation.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/runtime/actions/action_vacation.rs b/src/runtime/actions/action_vacation.rs
index c633555..b29dba4 100644
--- a/src/runtime/actions/action_vacation.rs
+++ b/src/runtime/actions/action_vacation.rs
@@ -220,7 +220,9 @@ impl Vacation {
                     }
                 }
                 HeaderName::From | HeaderName::Sender => {
-                    if matches!(&header.value, HeaderValue::Address(address) if address.contains(vacation_to.as_ref()))
+                    if matches!(&header.value, HeaderValue::Address(address)
+                        if address.contains(vacation_to.as_ref())
+                            && address.iter().count() == 1)
                         && header.offset_start > 0
                     {
                         vacation_to_full = (&ctx.message.raw_message
-- 
2.43.0


From 483977e4d572dddc657fc159558d5cf1f6c14364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:41 +0000
Subject: [PATCH 35/62] fix: confine the fields of an enclosing message

---
 src/runtime/actions/action_mime.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/runtime/actions/action_mime.rs b/src/runtime/actions/action_mime.rs
index 29cfb6a..45d6dce 100644
--- a/src/runtime/actions/action_mime.rs
+++ b/src/runtime/actions/action_mime.rs
@@ -173,7 +173,11 @@ impl Enclose {
                     .as_ref()
                     .remove_crlf(ctx.runtime.max_header_size)
             })
-            .or_else(|| ctx.message.subject().map(|s| s.to_string()))
+            .or_else(|| {
+                ctx.message
+                    .subject()
+                    .map(|s| s.remove_crlf(ctx.runtime.max_header_size))
+            })
             .unwrap_or_default();
 
         let message = std::mem::take(&mut ctx.message);
@@ -252,7 +256,7 @@ impl Enclose {
             {
                 header_name = header_name.trim();
                 header_value = header_value.trim();
-                if !header_value.is_empty() {
+                if !header_value.is_empty() && header_name.bytes().all(|ch| ch.is_ascii_graphic()) {
                     if let Some(name) = HeaderName::parse(header_name) {
                         if !ctx.runtime.protected_headers.contains(&name) {
                             match &name {
-- 
2.43.0


From 0b1b4dbc5ef3a75dd0bd37592e6997a26c31ef75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:45 +0000
Subject: [PATCH 36/62] fix: spaces around the addresses of a mailto URI are
 not part of them

---
 src/runtime/actions/action_notify.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/actions/action_notify.rs b/src/runtime/actions/action_notify.rs
index b0a10f8..d4081b5 100644
--- a/src/runtime/actions/action_notify.rs
+++ b/src/runtime/actions/action_notify.rs
@@ -550,7 +550,6 @@ fn parse_mailto(uri: &str) -> Option<MailtoMessage> {
 // Splits a mailbox into its display name and its address
 fn mailbox_address(value: &str) -> (&str, &str) {
     value
-        .trim_end()
         .strip_suffix('>')
         .and_then(|value| value.rsplit_once('<'))
         .unwrap_or(("", value))
@@ -559,6 +558,7 @@ fn mailbox_address(value: &str) -> (&str, &str) {
 #[inline(always)]
 fn insert_address(params: &mut MailtoMessage, name: HeaderName, value: String) -> Option<()> {
     // Only accept valid addresses
+    let value = value.trim_matches(' ').to_string();
     let (display_name, address) = mailbox_address(&value);
     let (local_part, domain) = address.rsplit_once('@')?;
     if local_part.is_empty()
-- 
2.43.0


From df80e979dd7e380500ca8c30413e911aad32e678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:15 +0000
Subject: [PATCH 37/62] fix: decode encoded characters only where the extension
 is required

---
 src/compiler/grammar/mod.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/compiler/grammar/mod.rs b/src/compiler/grammar/mod.rs
index dba1559..d42cd2a 100644
--- a/src/compiler/grammar/mod.rs
+++ b/src/compiler/grammar/mod.rs
@@ -321,12 +321,18 @@ impl CompilerState<'_> {
         }
     }
 
+    fn parse_text(&mut self, text: &[u8]) -> Result<Value, ErrorType> {
+        // Without the extension encoded characters are plain text
+        let parse_encoded = self.has_capability(&Capability::EncodedCharacter);
+        self.tokenize_string(text, parse_encoded)
+    }
+
     pub fn parse_string(&mut self) -> Result<Value, CompileError> {
         let next_token = self.tokens.unwrap_next()?;
         match next_token.token {
             Token::StringConstant(s) => Ok(Value::from(s)),
             Token::StringVariable(s) => {
-                self.tokenize_string(&s, true)
+                self.parse_text(&s)
                     .map_err(|error_type| CompileError {
                         line_num: next_token.line_num,
                         line_pos: next_token.line_pos,
@@ -350,7 +356,7 @@ impl CompilerState<'_> {
             Token::BracketOpen => self.parse_string_list(allow_empty),
             Token::StringConstant(s) => Ok(vec![Value::from(s)]),
             Token::StringVariable(s) => {
-                self.tokenize_string(&s, true)
+                self.parse_text(&s)
                     .map(|s| vec![s])
                     .map_err(|error_type| CompileError {
                         line_num: token_info.line_num,
@@ -369,7 +375,7 @@ impl CompilerState<'_> {
         match token_info.token {
             Token::StringConstant(s) => Ok(Value::from(s)),
             Token::StringVariable(s) => {
-                self.tokenize_string(&s, true)
+                self.parse_text(&s)
                     .map_err(|error_type| CompileError {
                         line_num: token_info.line_num,
                         line_pos: token_info.line_pos,
@@ -387,7 +393,7 @@ impl CompilerState<'_> {
         match token_info.token {
             Token::StringConstant(s) => Ok(vec![Value::from(s)]),
             Token::StringVariable(s) => {
-                self.tokenize_string(&s, true)
+                self.parse_text(&s)
                     .map(|s| vec![s])
                     .map_err(|error_type| CompileError {
                         line_num: token_info.line_num,
@@ -412,7 +418,7 @@ impl CompilerState<'_> {
                     strings.push(Value::from(s));
                 }
                 Token::StringVariable(s) => {
-                    strings.push(self.tokenize_string(&s, true).map_err(|error_type| {
+                    strings.push(self.parse_text(&s).map_err(|error_type| {
                         CompileError {
                             line_num: token_info.line_num,
                             line_pos: token_info.line_pos,
-- 
2.43.0


From d1d7075e7b7020e73b601c9b1dfcc50f4a6bd72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:18 +0000
Subject: [PATCH 38/62] fix: fileinto :mailboxid belongs to the mailboxid
 extension

---
 src/compiler/grammar/actions/action_fileinto.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/grammar/actions/action_fileinto.rs b/src/compiler/grammar/actions/action_fileinto.rs
index 551854a..88a6482 100644
--- a/src/compiler/grammar/actions/action_fileinto.rs
+++ b/src/compiler/grammar/actions/action_fileinto.rs
@@ -73,7 +73,7 @@ impl CompilerState<'_> {
                 Token::Tag(Word::MailboxId) => {
                     self.validate_argument(
                         4,
-                        Capability::Mailbox.into(),
+                        Capability::MailboxId.into(),
                         token_info.line_num,
                         token_info.line_pos,
                     )?;
-- 
2.43.0


From 8742b0f8b2d1a9675ac47e457232032075b1e758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:20 +0000
Subject: [PATCH 39/62] fix: unknown tests are an error unless ihave is
 required

---
 src/compiler/grammar/test.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/compiler/grammar/test.rs b/src/compiler/grammar/test.rs
index 7bc714b..46a3301 100644
--- a/src/compiler/grammar/test.rs
+++ b/src/compiler/grammar/test.rs
@@ -490,6 +490,16 @@ impl CompilerState<'_> {
                         Instruction::Eval(self.parse_expr()?)
                     }
                     Token::Identifier(word) => {
+                        if !self.has_capability(&Capability::Ihave) {
+                            return Err(CompileError {
+                                line_num: token_info.line_num,
+                                line_pos: token_info.line_pos,
+                                error_type: ErrorType::UnexpectedToken {
+                                    expected: "test name".into(),
+                                    found: word.to_string(),
+                                },
+                            });
+                        }
                         self.ignore_test()?;
                         Test::Invalid(Invalid {
                             name: word.to_string(),
@@ -535,6 +545,16 @@ impl CompilerState<'_> {
                         .into()
                     }
                     Token::Unknown(name) => {
+                        if !self.has_capability(&Capability::Ihave) {
+                            return Err(CompileError {
+                                line_num: token_info.line_num,
+                                line_pos: token_info.line_pos,
+                                error_type: ErrorType::UnexpectedToken {
+                                    expected: "test name".into(),
+                                    found: name,
+                                },
+                            });
+                        }
                         self.ignore_test()?;
                         Test::Invalid(Invalid {
                             name,
-- 
2.43.0


From eee1af13b793310f8a343422c773afafda5c5bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:23 +0000
Subject: [PATCH 40/62] fix: unknown comparators are an error unless required

---
 src/compiler/grammar/mod.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/compiler/grammar/mod.rs b/src/compiler/grammar/mod.rs
index d42cd2a..7653f41 100644
--- a/src/compiler/grammar/mod.rs
+++ b/src/compiler/grammar/mod.rs
@@ -291,11 +291,19 @@ impl CompilerState<'_> {
 
     pub(crate) fn parse_comparator(&mut self) -> Result<Comparator, CompileError> {
         let comparator = self.tokens.expect_static_string()?;
-        Ok(if let Some(comparator) = lookup_comparator(&comparator) {
-            comparator
+        if let Some(comparator) = lookup_comparator(&comparator) {
+            Ok(comparator)
         } else {
-            Comparator::Other(comparator)
-        })
+            let capability = Capability::Comparator(Comparator::Other(comparator.clone()));
+            if self.has_capability(&capability) {
+                Ok(Comparator::Other(comparator))
+            } else {
+                Err(self
+                    .tokens
+                    .unwrap_next()?
+                    .custom(ErrorType::UndeclaredCapability(capability)))
+            }
+        }
     }
 
     pub(crate) fn parse_static_strings(&mut self) -> Result<Vec<String>, CompileError> {
-- 
2.43.0


From 003bac24a06849bb4ee1bbff3dd60487014f10ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:01 +0000
Subject: [PATCH 41/62] fix: code guarded by ihave may use the extensions it
 tests

---
 src/compiler/grammar/instruction.rs | 35 +++++++++++++++++++++++++++++
 src/compiler/grammar/test.rs        | 13 ++++++++++-
 2 files changed, 47 insertions(+), 1 deletion(-)

diff --git a/src/compiler/grammar/instruction.rs b/src/compiler/grammar/instruction.rs
index f4bce68..af763ac 100644
--- a/src/compiler/grammar/instruction.rs
+++ b/src/compiler/grammar/instruction.rs
@@ -124,6 +124,7 @@ pub(crate) struct Block {
     pub(crate) match_loop_vars: u64,
     pub(crate) vars_local: AHashMap<String, usize>,
     pub(crate) capabilities: AHashSet<Capability>,
+    pub(crate) capabilities_tested: AHashSet<Capability>,
     pub(crate) require_pos: usize,
     pub(crate) vars_uncleared: usize,
     pub(crate) is_match_guarded: bool,
@@ -189,6 +190,7 @@ impl Compiler {
                             state.block.if_jmps.clear();
                             is_new_block = Block::new(Word::If)
                                 .with_match_guard(state.is_match_condition(start_pos))
+                                .with_capabilities(state.take_tested_capabilities())
                                 .into();
                         }
                         Word::ElsIf => {
@@ -197,6 +199,7 @@ impl Compiler {
                                 state.parse_test()?;
                                 is_new_block = Block::new(Word::ElsIf)
                                     .with_match_guard(state.is_match_condition(start_pos))
+                                    .with_capabilities(state.take_tested_capabilities())
                                     .into();
                             } else {
                                 return Err(token_info.expected("'if' before 'elsif'"));
@@ -972,6 +975,32 @@ impl CompilerState<'_> {
         was_registered
     }
 
+    // Capabilities that a condition has found with ihave are available to its other tests
+    // and to the block it guards
+    pub(crate) fn add_tested_capability(&mut self, capability: Capability) {
+        if matches!(
+            capability,
+            Capability::Variables | Capability::EncodedCharacter
+        ) {
+            return;
+        }
+        if capability == Capability::SpamTestPlus {
+            self.add_tested_capability(Capability::SpamTest);
+        }
+        if !self.has_capability(&capability) {
+            self.block.capabilities_tested.insert(capability.clone());
+            self.block.capabilities.insert(capability);
+        }
+    }
+
+    fn take_tested_capabilities(&mut self) -> AHashSet<Capability> {
+        let capabilities = std::mem::take(&mut self.block.capabilities_tested);
+        for capability in &capabilities {
+            self.block.capabilities.remove(capability);
+        }
+        capabilities
+    }
+
     // Returns true if the last condition is a single test that sets the match variables,
     // which body does not do
     fn is_match_condition(&mut self, start_pos: usize) -> bool {
@@ -1334,6 +1363,7 @@ impl Block {
             break_jmps: vec![],
             vars_local: AHashMap::new(),
             capabilities: AHashSet::new(),
+            capabilities_tested: AHashSet::new(),
             require_pos: usize::MAX,
             vars_uncleared: 0,
             is_match_guarded: false,
@@ -1345,6 +1375,11 @@ impl Block {
         self
     }
 
+    pub fn with_capabilities(mut self, capabilities: AHashSet<Capability>) -> Self {
+        self.capabilities = capabilities;
+        self
+    }
+
     pub fn with_label(mut self, label: String) -> Self {
         self.label = label.into();
         self
diff --git a/src/compiler/grammar/test.rs b/src/compiler/grammar/test.rs
index 46a3301..08ec1cf 100644
--- a/src/compiler/grammar/test.rs
+++ b/src/compiler/grammar/test.rs
@@ -375,7 +375,18 @@ impl CompilerState<'_> {
                             token_info.line_num,
                             token_info.line_pos,
                         )?;
-                        self.parse_test_ihave()?.into()
+                        let test = self.parse_test_ihave()?;
+                        let is_required = block_stack
+                            .iter()
+                            .skip(1)
+                            .chain((!block_stack.is_empty()).then_some(&block))
+                            .all(|b| b.is_all);
+                        if let (Test::Ihave(test), false, true) = (&test, is_not, is_required) {
+                            for capability in &test.capabilities {
+                                self.add_tested_capability(capability.clone());
+                            }
+                        }
+                        test.into()
                     }
 
                     // RFC 5232
-- 
2.43.0


From 672b07f54200794399f7cae12e957c36d2095a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:40 +0000
Subject: [PATCH 42/62] fix: skip string lists in the arguments of unknown
 tests

---
 src/compiler/grammar/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/grammar/mod.rs b/src/compiler/grammar/mod.rs
index 7653f41..6d1ca34 100644
--- a/src/compiler/grammar/mod.rs
+++ b/src/compiler/grammar/mod.rs
@@ -234,10 +234,10 @@ impl CompilerState<'_> {
         let mut d_count = 0;
         while let Some(token_info) = self.tokens.peek() {
             match token_info?.token {
-                Token::ParenthesisOpen => {
+                Token::ParenthesisOpen | Token::BracketOpen => {
                     d_count += 1;
                 }
-                Token::ParenthesisClose => {
+                Token::ParenthesisClose | Token::BracketClose => {
                     if d_count == 0 {
                         break;
                     } else {
-- 
2.43.0


From 7412ecea226305ca71808e3fc171edda6afd9d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:20 +0000
Subject: [PATCH 43/62] fix: :encodeurl and :quoteregex belong to enotify and
 regex

---
 src/compiler/grammar/actions/action_mime.rs |  9 +++++++++
 src/compiler/grammar/actions/action_set.rs  | 11 +++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/compiler/grammar/actions/action_mime.rs b/src/compiler/grammar/actions/action_mime.rs
index 0e2dddd..05d4d24 100644
--- a/src/compiler/grammar/actions/action_mime.rs
+++ b/src/compiler/grammar/actions/action_mime.rs
@@ -6,6 +6,7 @@
 
 use crate::compiler::{
     grammar::instruction::{CompilerState, Instruction},
+            Capability,
     lexer::{word::Word, Token},
     CompileError, Value, VariableType,
 };
@@ -179,6 +180,14 @@ impl CompilerState<'_> {
                     | Word::QuoteRegex
                     | Word::Length),
                 ) => {
+                    if let Word::QuoteRegex = word {
+                        self.validate_argument(
+                            0,
+                            Capability::Regex.into(),
+                            token_info.line_num,
+                            token_info.line_pos,
+                        )?;
+                    }
                     let modifier = word.into();
                     if !modifiers.contains(&modifier) {
                         modifiers.push(modifier);
diff --git a/src/compiler/grammar/actions/action_set.rs b/src/compiler/grammar/actions/action_set.rs
index c6d1f30..5a716d5 100644
--- a/src/compiler/grammar/actions/action_set.rs
+++ b/src/compiler/grammar/actions/action_set.rs
@@ -9,6 +9,7 @@ use crate::{
         grammar::{
             expr::Expression,
             instruction::{CompilerState, Instruction},
+            Capability,
         },
         lexer::{tokenizer::TokenInfo, word::Word, Token},
         CompileError, ErrorType, Value, VariableType,
@@ -103,6 +104,16 @@ impl CompilerState<'_> {
                     | Word::Length
                     | Word::EncodeUrl),
                 ) => {
+                    self.validate_argument(
+                        0,
+                        match word {
+                            Word::QuoteRegex => Capability::Regex.into(),
+                            Word::EncodeUrl => Capability::Enotify.into(),
+                            _ => None,
+                        },
+                        token_info.line_num,
+                        token_info.line_pos,
+                    )?;
                     let modifier = word.into();
                     if !modifiers.contains(&modifier) {
                         modifiers.push(modifier);
-- 
2.43.0


From afd42f00e59f3cdeefbe79e6ae4f3bba17a4ae45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:08 +0000
Subject: [PATCH 44/62] fix: flag variables belong to the variables extension

---
 src/compiler/grammar/actions/action_flags.rs | 23 +++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/compiler/grammar/actions/action_flags.rs b/src/compiler/grammar/actions/action_flags.rs
index a4ecdfb..d864f89 100644
--- a/src/compiler/grammar/actions/action_flags.rs
+++ b/src/compiler/grammar/actions/action_flags.rs
@@ -7,7 +7,10 @@
 
 
 use crate::compiler::{
-    grammar::instruction::{CompilerState, Instruction},
+    grammar::{
+        instruction::{CompilerState, Instruction},
+        Capability,
+    },
     lexer::{word::Word, Token},
     CompileError, ErrorType, Value, VariableType,
 };
@@ -62,11 +65,19 @@ impl CompilerState<'_> {
                     Some(Ok(
                         Token::StringConstant(_) | Token::StringVariable(_) | Token::BracketOpen,
                     )),
-                ) => EditFlags {
-                    name: self.parse_variable_name(token_info, false)?.into(),
-                    flags: self.parse_strings(false)?,
-                    action,
-                },
+                ) => {
+                    self.validate_argument(
+                        0,
+                        Capability::Variables.into(),
+                        token_info.line_num,
+                        token_info.line_pos,
+                    )?;
+                    EditFlags {
+                        name: self.parse_variable_name(token_info, false)?.into(),
+                        flags: self.parse_strings(false)?,
+                        action,
+                    }
+                }
                 (Token::BracketOpen, _)
                 | (
                     Token::StringConstant(_) | Token::StringVariable(_),
-- 
2.43.0


From c4af7b05b70be33bc54139c3234c5b6d3047522f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:33 +0000
Subject: [PATCH 45/62] fix: no space is needed before a tag

---
 src/compiler/lexer/tokenizer.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/compiler/lexer/tokenizer.rs b/src/compiler/lexer/tokenizer.rs
index e3fd1ba..0c7de99 100644
--- a/src/compiler/lexer/tokenizer.rs
+++ b/src/compiler/lexer/tokenizer.rs
@@ -347,7 +347,9 @@ impl Iterator for Tokenizer<'_> {
                             && matches!(self.peek_byte(), Some(b) if b.is_ascii_alphabetic())
                         {
                             self.token_is_tag();
-                        } else if self.token_bytes().eq_ignore_ascii_case(b"text") {
+                        } else if !self.token_is_tag
+                            && self.token_bytes().eq_ignore_ascii_case(b"text")
+                        {
                             self.state = State::MultiLine(StringType::default());
                             self.text_start();
                             while let Some((ch, _)) = self.next_byte() {
@@ -357,6 +359,12 @@ impl Iterator for Tokenizer<'_> {
                                     continue 'outer;
                                 }
                             }
+                        } else if matches!(self.peek_byte(), Some(b) if b.is_ascii_alphabetic()) {
+                            // No space is needed between a word and a tag
+                            if let Some(token) = self.get_current_token() {
+                                self.token_is_tag();
+                                return Some(Ok(token));
+                            }
                         } else {
                             return Some(Ok(self.get_token(Token::Colon)));
                             //return Some(Err(self.invalid_character()));
-- 
2.43.0


From fbe63af7bef4d0ef8c7517e6e70c343ec613baa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:35 +0000
Subject: [PATCH 46/62] fix: only a comment may follow text: on its line

---
 src/compiler/lexer/tokenizer.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/compiler/lexer/tokenizer.rs b/src/compiler/lexer/tokenizer.rs
index 0c7de99..6a42691 100644
--- a/src/compiler/lexer/tokenizer.rs
+++ b/src/compiler/lexer/tokenizer.rs
@@ -352,11 +352,22 @@ impl Iterator for Tokenizer<'_> {
                         {
                             self.state = State::MultiLine(StringType::default());
                             self.text_start();
+                            let mut in_comment = false;
                             while let Some((ch, _)) = self.next_byte() {
-                                if ch == b'\n' {
-                                    self.new_line();
-                                    self.reset_current_token();
-                                    continue 'outer;
+                                match ch {
+                                    b'\n' => {
+                                        self.new_line();
+                                        self.reset_current_token();
+                                        continue 'outer;
+                                    }
+                                    b'#' => {
+                                        in_comment = true;
+                                    }
+                                    b' ' | b'\t' | b'\r' => (),
+                                    _ if in_comment => (),
+                                    _ => {
+                                        return Some(Err(self.invalid_character()));
+                                    }
                                 }
                             }
                         } else if matches!(self.peek_byte(), Some(b) if b.is_ascii_alphabetic()) {
-- 
2.43.0


From 4ededc684a2bb66aaf08f0afe039f4d4c2647bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:23 +0000
Subject: [PATCH 47/62] fix: encoded characters that are malformed or never
 closed are plain text

---
 src/compiler/lexer/string.rs | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/compiler/lexer/string.rs b/src/compiler/lexer/string.rs
index 303c650..c7bea80 100644
--- a/src/compiler/lexer/string.rs
+++ b/src/compiler/lexer/string.rs
@@ -49,6 +49,7 @@ impl CompilerState<'_> {
         let mut text_has_dots = false;
 
         let mut hex_start = usize::MAX;
+        let mut invalid_char = None;
         let mut decode_buf = Vec::with_capacity(bytes.len());
 
         for (pos, &ch) in bytes.iter().enumerate() {
@@ -173,25 +174,25 @@ impl CompilerState<'_> {
                             hex_start = usize::MAX;
 
                             if !is_unicode {
-                                if let Ok(ch) = u8::from_str_radix(code, 16) {
-                                    decode_buf.push(ch);
-                                } else {
-                                    is_var_error = true;
+                                match u8::from_str_radix(code, 16) {
+                                    Ok(ch) if code.len() <= 2 => decode_buf.push(ch),
+                                    _ => is_var_error = true,
                                 }
-                            } else if let Ok(ch) = u32::from_str_radix(code, 16) {
-                                let mut buf = [0; 4];
-                                decode_buf.extend_from_slice(
-                                    char::from_u32(ch)
-                                        .ok_or(ErrorType::InvalidUnicodeSequence(ch))?
-                                        .encode_utf8(&mut buf)
-                                        .as_bytes(),
-                                );
                             } else {
-                                is_var_error = true;
+                                let code = u32::from_str_radix(code, 16).unwrap_or(u32::MAX);
+                                if let Some(ch) = char::from_u32(code) {
+                                    let mut buf = [0; 4];
+                                    decode_buf
+                                        .extend_from_slice(ch.encode_utf8(&mut buf).as_bytes());
+                                } else {
+                                    invalid_char = Some(code);
+                                }
                             }
                         }
-                        if ch == b'}' {
-                            if decode_buf.len() != initial_buf_size {
+                        if ch == b'}' && !is_var_error {
+                            if let Some(code) = invalid_char {
+                                return Err(ErrorType::InvalidUnicodeSequence(code));
+                            } else if decode_buf.len() != initial_buf_size {
                                 state = State::None;
                             } else {
                                 is_var_error = true;
@@ -215,6 +216,7 @@ impl CompilerState<'_> {
                 }
                 decode_buf.extend_from_slice(&bytes[var_start_pos - 2..pos + 1]);
                 hex_start = usize::MAX;
+                invalid_char = None;
                 state = State::None;
             }
 
-- 
2.43.0


From 09f212f90d71d0696792c41f1891973f2103ca50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:52 +0000
Subject: [PATCH 48/62] fix: ask the host for envelope changes made by let and
 by flag actions

---
 src/runtime/context.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/runtime/context.rs b/src/runtime/context.rs
index d12189b..889bc06 100644
--- a/src/runtime/context.rs
+++ b/src/runtime/context.rs
@@ -296,6 +296,9 @@ impl<'x> Context<'x> {
                     Instruction::Let(let_) => match self.eval_expression(&let_.expr) {
                         Ok(result) => {
                             self.set_variable(&let_.name, result);
+                            if let Some(event) = self.queued_events.next() {
+                                return Some(Ok(event));
+                            }
                         }
                         Err(event) => {
                             return Some(Ok(event));
@@ -330,7 +333,12 @@ impl<'x> Context<'x> {
                             return Some(Ok(event));
                         }
                     }
-                    Instruction::EditFlags(flags) => flags.exec(self),
+                    Instruction::EditFlags(flags) => {
+                        flags.exec(self);
+                        if let Some(event) = self.queued_events.next() {
+                            return Some(Ok(event));
+                        }
+                    }
                     Instruction::Include(include) => match include.exec(self) {
                         IncludeResult::Cached(script) => {
                             self.script_stack.push(ScriptStack {
-- 
2.43.0


From 33fb8f76e64f69be5711dec4e4881a559e78f71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:54 +0000
Subject: [PATCH 49/62] fix: accept the same names of envelope variables when
 reading and setting them

---
 src/compiler/grammar/actions/action_set.rs | 21 +++++++---------
 src/compiler/lexer/string.rs               | 28 +++++++++++-----------
 2 files changed, 23 insertions(+), 26 deletions(-)

diff --git a/src/compiler/grammar/actions/action_set.rs b/src/compiler/grammar/actions/action_set.rs
index 5a716d5..f4e9c72 100644
--- a/src/compiler/grammar/actions/action_set.rs
+++ b/src/compiler/grammar/actions/action_set.rs
@@ -4,17 +4,14 @@
  * SPDX-License-Identifier: AGPL-3.0-only OR LicenseRef-SEL
  */
 
-use crate::{
-    compiler::{
-        grammar::{
-            expr::Expression,
-            instruction::{CompilerState, Instruction},
-            Capability,
-        },
-        lexer::{tokenizer::TokenInfo, word::Word, Token},
-        CompileError, ErrorType, Value, VariableType,
+use crate::compiler::{
+    grammar::{
+        expr::Expression,
+        instruction::{CompilerState, Instruction},
+        Capability,
     },
-    Envelope,
+    lexer::{string::parse_envelope_variable, tokenizer::TokenInfo, word::Word, Token},
+    CompileError, ErrorType, Value, VariableType,
 };
 
 #[derive(Debug, Clone, PartialEq, Eq)]
@@ -186,9 +183,9 @@ impl CompilerState<'_> {
         if let Some((namespace, part)) = name.split_once('.') {
             match namespace {
                 "global" | "t" => Ok(VariableType::Global(part.to_string())),
-                "envelope" => Envelope::try_from(part)
+                "envelope" => parse_envelope_variable(part)
                     .map(VariableType::Envelope)
-                    .map_err(|_| ErrorType::InvalidNamespace(namespace.to_string())),
+                    .ok_or_else(|| ErrorType::InvalidNamespace(namespace.to_string())),
                 _ => Err(ErrorType::InvalidNamespace(namespace.to_string())),
             }
         } else {
diff --git a/src/compiler/lexer/string.rs b/src/compiler/lexer/string.rs
index c7bea80..e9ca69d 100644
--- a/src/compiler/lexer/string.rs
+++ b/src/compiler/lexer/string.rs
@@ -296,20 +296,8 @@ impl CompilerState<'_> {
                     VariableType::Environment(var_name.to_string())
                 }
                 Some(("envelope", var_name)) if !var_name.is_empty() => {
-                    let envelope = match var_name {
-                        "from" => Envelope::From,
-                        "to" => Envelope::To,
-                        "by_time_absolute" => Envelope::ByTimeAbsolute,
-                        "by_time_relative" => Envelope::ByTimeRelative,
-                        "by_mode" => Envelope::ByMode,
-                        "by_trace" => Envelope::ByTrace,
-                        "notify" => Envelope::Notify,
-                        "orcpt" => Envelope::Orcpt,
-                        "ret" => Envelope::Ret,
-                        "envid" => Envelope::Envid,
-                        _ => {
-                            return Err(ErrorType::InvalidEnvelope(var_name.to_string()));
-                        }
+                    let Some(envelope) = parse_envelope_variable(var_name) else {
+                        return Err(ErrorType::InvalidEnvelope(var_name.to_string()));
                     };
                     VariableType::Envelope(envelope)
                 }
@@ -588,6 +576,18 @@ impl TryFrom<&str> for HeaderPart {
     }
 }
 
+/// Envelope variables can be referred to by the names used in the envelope test
+/// as well as with their words separated by underscores.
+pub(crate) fn parse_envelope_variable(name: &str) -> Option<Envelope> {
+    match name {
+        "by_time_absolute" => Envelope::ByTimeAbsolute.into(),
+        "by_time_relative" => Envelope::ByTimeRelative.into(),
+        "by_mode" => Envelope::ByMode.into(),
+        "by_trace" => Envelope::ByTrace.into(),
+        _ => Envelope::try_from(name).ok(),
+    }
+}
+
 impl TryFrom<&str> for ReceivedPart {
     type Error = ();
 
-- 
2.43.0


From 7609c75159846536d0da74fa95ab143e1348df2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:14 +0000
Subject: [PATCH 50/62] fix: point errors about unknown commands and nested
 blocks at the command

---
 src/compiler/grammar/instruction.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/compiler/grammar/instruction.rs b/src/compiler/grammar/instruction.rs
index af763ac..5e86881 100644
--- a/src/compiler/grammar/instruction.rs
+++ b/src/compiler/grammar/instruction.rs
@@ -637,8 +637,8 @@ impl Compiler {
                                 continue;
                             } else {
                                 return Err(CompileError {
-                                    line_num: state.block.line_num,
-                                    line_pos: state.block.line_pos,
+                                    line_num: token_info.line_num,
+                                    line_pos: token_info.line_pos,
                                     error_type: ErrorType::UnexpectedToken {
                                         expected: "command".into(),
                                         found: instruction.to_string(),
@@ -660,8 +660,8 @@ impl Compiler {
                             state.last_block_type = Word::Not;
                         } else {
                             return Err(CompileError {
-                                line_num: state.block.line_num,
-                                line_pos: state.block.line_pos,
+                                line_num: new_block.line_num,
+                                line_pos: new_block.line_pos,
                                 error_type: ErrorType::TooManyNestedBlocks,
                             });
                         }
@@ -819,8 +819,8 @@ impl Compiler {
                         }));
                     } else {
                         return Err(CompileError {
-                            line_num: state.block.line_num,
-                            line_pos: state.block.line_pos,
+                            line_num: token_info.line_num,
+                            line_pos: token_info.line_pos,
                             error_type: ErrorType::UnexpectedToken {
                                 expected: "command".into(),
                                 found: instruction,
-- 
2.43.0


From 81d662310481682989f08a9bbfe5e79b432a03c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:34 +0000
Subject: [PATCH 51/62] fix: update references to parts when replacing a part
 removes others

---
 src/runtime/actions/action_mime.rs | 53 ++++++++++++++++++++++++++----
 1 file changed, 47 insertions(+), 6 deletions(-)

diff --git a/src/runtime/actions/action_mime.rs b/src/runtime/actions/action_mime.rs
index 45d6dce..4436e5a 100644
--- a/src/runtime/actions/action_mime.rs
+++ b/src/runtime/actions/action_mime.rs
@@ -4,8 +4,6 @@
  * SPDX-License-Identifier: AGPL-3.0-only OR LicenseRef-SEL
  */
 
-use std::cmp::Reverse;
-
 use mail_parser::{
     decoders::html::html_to_text, Encoding, HeaderName, Message, MessagePart, PartType,
 };
@@ -24,10 +22,8 @@ impl Replace {
     pub(crate) fn exec(&self, ctx: &mut Context) {
         // Delete children parts
         let mut part_ids = ctx.find_nested_parts_ids(false);
-        part_ids.sort_unstable_by_key(|a| Reverse(*a));
-        for part_id in part_ids {
-            ctx.message.parts.remove(part_id as usize);
-        }
+        part_ids.sort_unstable();
+        ctx.remove_parts(&part_ids);
         ctx.has_changes = true;
 
         // Update part
@@ -365,6 +361,51 @@ enum StackItem<'x> {
 }
 
 impl Context<'_> {
+    /// Removes parts (sorted by id) from the message and updates all references
+    /// to the parts that follow them.
+    fn remove_parts(&mut self, removed: &[u32]) {
+        if removed.is_empty() {
+            return;
+        }
+
+        let new_id = |part_id: u32| match removed.binary_search(&part_id) {
+            Ok(_) => None,
+            Err(num_removed) => Some(part_id - num_removed as u32),
+        };
+        let new_ids = |part_ids: &mut Vec<u32>| {
+            *part_ids = part_ids.iter().filter_map(|id| new_id(*id)).collect();
+        };
+
+        let mut part_id = 0;
+        self.message.parts.retain(|_| {
+            part_id += 1;
+            new_id(part_id - 1).is_some()
+        });
+        for part in &mut self.message.parts {
+            if let PartType::Multipart(subparts) = &mut part.body {
+                new_ids(subparts);
+            }
+        }
+        new_ids(&mut self.message.text_body);
+        new_ids(&mut self.message.html_body);
+        new_ids(&mut self.message.attachments);
+
+        self.part = new_id(self.part).unwrap_or_default();
+        let new_iter = |part_iter: &std::vec::IntoIter<u32>| {
+            part_iter
+                .as_slice()
+                .iter()
+                .filter_map(|id| new_id(*id))
+                .collect::<Vec<_>>()
+                .into_iter()
+        };
+        self.part_iter = new_iter(&self.part_iter);
+        for (part, part_iter) in self.part_iter_stack.iter_mut() {
+            *part = new_id(*part).unwrap_or_default();
+            *part_iter = new_iter(part_iter);
+        }
+    }
+
     pub(crate) fn build_message_id(&mut self) -> Option<Event> {
         if self.has_changes {
             self.last_message_id += 1;
-- 
2.43.0


From 2fa901f0a2392806f3aa839fe0bd7c72f6e5ff79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:35 +0000
Subject: [PATCH 52/62] fix: end loops over the parts when the message is
 enclosed

---
 src/runtime/actions/action_mime.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/runtime/actions/action_mime.rs b/src/runtime/actions/action_mime.rs
index 4436e5a..be3825e 100644
--- a/src/runtime/actions/action_mime.rs
+++ b/src/runtime/actions/action_mime.rs
@@ -184,6 +184,12 @@ impl Enclose {
 
         ctx.message_size += ((boundary.len() + 6) * 3) + body.len() + 2;
         ctx.part = 0;
+        // The parts that are being iterated are now within the enclosed message
+        ctx.part_iter = Vec::new().into_iter();
+        for (part, part_iter) in ctx.part_iter_stack.iter_mut() {
+            *part = 0;
+            *part_iter = Vec::new().into_iter();
+        }
         ctx.has_changes = true;
         ctx.message = Message {
             html_body: Vec::with_capacity(0),
-- 
2.43.0


From 48d9f008695ae1a1787482ad9c957fdb20bb1754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:37 +0000
Subject: [PATCH 53/62] fix: do not underflow the size of edited messages

---
 src/runtime/actions/action_convert.rs    | 7 ++++---
 src/runtime/actions/action_editheader.rs | 2 +-
 src/runtime/actions/action_mime.rs       | 4 ++--
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/runtime/actions/action_convert.rs b/src/runtime/actions/action_convert.rs
index ff62b97..b3ab202 100644
--- a/src/runtime/actions/action_convert.rs
+++ b/src/runtime/actions/action_convert.rs
@@ -81,12 +81,13 @@ impl Convert {
                 offset_end: 0,
                 offset_field: 0,
             }];
-            ctx.message_size = ctx.message_size + ct.len() + new_body.len() + 16
-                - (if part.offset_body != 0 {
+            ctx.message_size = (ctx.message_size + ct.len() + new_body.len() + 16).saturating_sub(
+                if part.offset_body != 0 {
                     (part.offset_end - part.offset_header) as usize
                 } else {
                     part.body.len()
-                });
+                },
+            );
             part.offset_body = 0;
             part.body = new_body;
             part.encoding = Encoding::QuotedPrintable; //Used as non-mime flag
diff --git a/src/runtime/actions/action_editheader.rs b/src/runtime/actions/action_editheader.rs
index aa723c5..bfc7435 100644
--- a/src/runtime/actions/action_editheader.rs
+++ b/src/runtime/actions/action_editheader.rs
@@ -132,7 +132,7 @@ impl DeleteHeader {
             }
         }
 
-        ctx.message_size -= deleted_bytes;
+        ctx.message_size = ctx.message_size.saturating_sub(deleted_bytes);
     }
 }
 
diff --git a/src/runtime/actions/action_mime.rs b/src/runtime/actions/action_mime.rs
index be3825e..9fba57f 100644
--- a/src/runtime/actions/action_mime.rs
+++ b/src/runtime/actions/action_mime.rs
@@ -32,8 +32,8 @@ impl Replace {
 
         let part = &mut ctx.message.parts[ctx.part as usize];
 
-        ctx.message_size = ctx.message_size + body_len
-            - (if part.offset_body != 0 {
+        ctx.message_size =
+            (ctx.message_size + body_len).saturating_sub(if part.offset_body != 0 {
                 (part.offset_end - part.offset_header) as usize
             } else {
                 part.body.len()
-- 
2.43.0


From 79845e9649a48aba30a3f46c9ada680610fd96f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:07 +0000
Subject: [PATCH 54/62] fix: let tests and edits see the header fields made by
 replace and enclose

---
 src/runtime/actions/action_mime.rs | 35 +++++++++++++++++-------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/runtime/actions/action_mime.rs b/src/runtime/actions/action_mime.rs
index 9fba57f..212ff2f 100644
--- a/src/runtime/actions/action_mime.rs
+++ b/src/runtime/actions/action_mime.rs
@@ -83,7 +83,7 @@ impl Replace {
                 if !from.is_empty() {
                     ctx.insert_header(
                         0,
-                        HeaderName::Other("From".into()),
+                        HeaderName::From,
                         from.to_string()
                             .as_ref()
                             .remove_crlf(ctx.runtime.max_header_size),
@@ -95,7 +95,7 @@ impl Replace {
             if add_from {
                 ctx.insert_header(
                     0,
-                    HeaderName::Other("From".to_string().into()),
+                    HeaderName::From,
                     ctx.user_from_field(),
                     true,
                 );
@@ -106,7 +106,7 @@ impl Replace {
                 if !subject.is_empty() {
                     ctx.insert_header(
                         0,
-                        HeaderName::Other("Subject".into()),
+                        HeaderName::Subject,
                         subject
                             .to_string()
                             .as_ref()
@@ -125,7 +125,7 @@ impl Replace {
 
                 ctx.insert_header(
                     0,
-                    HeaderName::Other("Date".to_string().into()),
+                    HeaderName::Date,
                     header_value,
                     true,
                 );
@@ -140,7 +140,7 @@ impl Replace {
 
             ctx.insert_header(
                 0,
-                HeaderName::Other("Message-ID".to_string().into()),
+                HeaderName::MessageId,
                 String::from_utf8(header_value).unwrap(),
                 true,
             );
@@ -149,7 +149,7 @@ impl Replace {
         if !self.mime {
             ctx.insert_header(
                 ctx.part,
-                HeaderName::Other("Content-Type".into()),
+                HeaderName::ContentType,
                 "text/plain; charset=utf-8".to_string(),
                 true,
             );
@@ -229,20 +229,20 @@ impl Enclose {
 
         ctx.insert_header(
             0,
-            HeaderName::Other("Content-Type".into()),
+            HeaderName::ContentType,
             format!("multipart/mixed; boundary=\"{boundary}\""),
             true,
         );
-        ctx.insert_header(0, HeaderName::Other("Subject".into()), subject, true);
+        ctx.insert_header(0, HeaderName::Subject, subject, true);
         ctx.insert_header(
             1,
-            HeaderName::Other("Content-Type".into()),
+            HeaderName::ContentType,
             "text/plain; charset=utf-8",
             true,
         );
         ctx.insert_header(
             2,
-            HeaderName::Other("Content-Type".into()),
+            HeaderName::ContentType,
             "message/rfc822",
             true,
         );
@@ -276,7 +276,7 @@ impl Enclose {
 
                             ctx.insert_header(
                                 0,
-                                HeaderName::Other(header_name.to_string().into()),
+                                name.into_owned(),
                                 header_value.remove_crlf(ctx.runtime.max_header_size),
                                 true,
                             );
@@ -289,7 +289,7 @@ impl Enclose {
         if add_from {
             ctx.insert_header(
                 0,
-                HeaderName::Other("From".to_string().into()),
+                HeaderName::From,
                 ctx.user_from_field(),
                 true,
             );
@@ -303,7 +303,7 @@ impl Enclose {
 
             ctx.insert_header(
                 0,
-                HeaderName::Other("Date".to_string().into()),
+                HeaderName::Date,
                 header_value,
                 true,
             );
@@ -318,7 +318,7 @@ impl Enclose {
 
             ctx.insert_header(
                 0,
-                HeaderName::Other("Message-ID".to_string().into()),
+                HeaderName::MessageId,
                 String::from_utf8(header_value).unwrap(),
                 true,
             );
@@ -473,7 +473,12 @@ impl Context<'_> {
                             );
                         }
                     } else {
-                        if header.name == HeaderName::Other("Content-Type".into()) {
+                        if header.name == HeaderName::ContentType
+                            && header
+                                .value
+                                .as_text()
+                                .is_some_and(|value| value.contains("boundary=\""))
+                        {
                             ct_pos = header_pos;
                         }
 
-- 
2.43.0


From 89b817501dbeedc4ff5c96d27bd0ee93ee73f5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:09 +0000
Subject: [PATCH 55/62] fix: convert the parts that have the given media type

---
 src/runtime/actions/action_convert.rs | 60 ++++++++++++++++-----------
 1 file changed, 36 insertions(+), 24 deletions(-)

diff --git a/src/runtime/actions/action_convert.rs b/src/runtime/actions/action_convert.rs
index b3ab202..7a445cb 100644
--- a/src/runtime/actions/action_convert.rs
+++ b/src/runtime/actions/action_convert.rs
@@ -6,7 +6,7 @@
 
 use mail_parser::{
     decoders::html::{html_to_text, text_to_html},
-    Encoding, Header, HeaderName, HeaderValue, MimeHeaders, PartType,
+    Encoding, Header, HeaderName, HeaderValue, PartType,
 };
 
 use crate::{
@@ -16,10 +16,27 @@ use crate::{
 #[derive(Clone, Copy)]
 enum Conversion {
     TextToHtml,
-    TextPlainToHtml,
     HtmlToText,
 }
 
+/// Subtype of a part with text contents
+fn text_subtype<'x>(headers: &'x [Header<'x>]) -> &'x str {
+    headers
+        .iter()
+        .rev()
+        .find(|header| header.name == HeaderName::ContentType)
+        .and_then(|header| match &header.value {
+            HeaderValue::ContentType(ct) => ct.c_subtype.as_deref(),
+            HeaderValue::Text(text) => text
+                .split(';')
+                .next()
+                .and_then(|media_type| media_type.split_once('/'))
+                .map(|(_, subtype)| subtype.trim()),
+            _ => None,
+        })
+        .unwrap_or("plain")
+}
+
 impl Convert {
     pub(crate) fn exec(&self, ctx: &mut Context) -> TestResult {
         let _from_media_type = ctx.eval_value(&self.from_media_type);
@@ -32,19 +49,18 @@ impl Convert {
             return TestResult::Bool(false ^ self.is_not);
         }
 
-        let conversion = if (from_media_type.eq_ignore_ascii_case("text")
-            || from_media_type.starts_with("text/"))
-            && to_media_type.eq_ignore_ascii_case("text/html")
-        {
-            if from_media_type.eq_ignore_ascii_case("text") {
-                Conversion::TextPlainToHtml
-            } else {
-                Conversion::TextToHtml
-            }
-        } else if from_media_type.eq_ignore_ascii_case("text/html")
+        // A media type without subtype matches all of its subtypes
+        let (from_type, from_subtype) = from_media_type
+            .split_once('/')
+            .unwrap_or((from_media_type.as_ref(), ""));
+        let conversion = if from_media_type.eq_ignore_ascii_case("text/html")
             && to_media_type.eq_ignore_ascii_case("text/plain")
         {
             Conversion::HtmlToText
+        } else if from_type.eq_ignore_ascii_case("text")
+            && to_media_type.eq_ignore_ascii_case("text/html")
+        {
+            Conversion::TextToHtml
         } else {
             return TestResult::Bool(false ^ self.is_not);
         };
@@ -55,15 +71,10 @@ impl Convert {
                     PartType::Text(html_to_text(html.as_ref()).into()),
                     "text/plain; charset=utf8",
                 ),
-                (PartType::Text(text), Conversion::TextToHtml) => (
-                    PartType::Html(text_to_html(text.as_ref()).into()),
-                    "text/html; charset=utf8",
-                ),
-                (PartType::Text(text), Conversion::TextPlainToHtml)
-                    if part
-                        .content_type()
-                        .and_then(|ct| ct.c_subtype.as_ref())
-                        .is_some_and(|st| st.eq_ignore_ascii_case("plain")) =>
+                (PartType::Text(text), Conversion::TextToHtml)
+                    if from_subtype.is_empty()
+                        || text_subtype(&part.headers)
+                            .eq_ignore_ascii_case(from_subtype) =>
                 {
                     (
                         PartType::Html(text_to_html(text.as_ref()).into()),
@@ -74,13 +85,14 @@ impl Convert {
                     continue;
                 }
             };
-            part.headers = vec![Header {
-                name: HeaderName::Other("Content-Type".into()),
+            part.headers.clear();
+            part.headers.push(Header {
+                name: HeaderName::ContentType,
                 value: HeaderValue::Text(ct.to_string().into()),
                 offset_start: 0,
                 offset_end: 0,
                 offset_field: 0,
-            }];
+            });
             ctx.message_size = (ctx.message_size + ct.len() + new_body.len() + 16).saturating_sub(
                 if part.offset_body != 0 {
                     (part.offset_end - part.offset_header) as usize
-- 
2.43.0


From 87b22a5d7685bc07a739dccd0f8d6acb91758c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:12 +0000
Subject: [PATCH 56/62] fix: keep the header of the message when its only part
 is converted

---
 src/runtime/actions/action_convert.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/runtime/actions/action_convert.rs b/src/runtime/actions/action_convert.rs
index 7a445cb..d899606 100644
--- a/src/runtime/actions/action_convert.rs
+++ b/src/runtime/actions/action_convert.rs
@@ -65,7 +65,7 @@ impl Convert {
             return TestResult::Bool(false ^ self.is_not);
         };
         let mut did_convert = false;
-        for part in ctx.message.parts.iter_mut() {
+        for (part_id, part) in ctx.message.parts.iter_mut().enumerate() {
             let (new_body, ct) = match (&part.body, conversion) {
                 (PartType::Html(html), Conversion::HtmlToText) => (
                     PartType::Text(html_to_text(html.as_ref()).into()),
@@ -85,7 +85,24 @@ impl Convert {
                     continue;
                 }
             };
-            part.headers.clear();
+            let mut kept_size = 0;
+            if part_id == 0 {
+                // Keep the headers of the message itself
+                part.headers.retain(|header| {
+                    !header
+                        .name
+                        .as_str()
+                        .get(..8)
+                        .is_some_and(|name| name.eq_ignore_ascii_case("content-"))
+                });
+                kept_size = part
+                    .headers
+                    .iter()
+                    .map(|header| (header.offset_end - header.offset_field) as usize)
+                    .sum();
+            } else {
+                part.headers.clear();
+            }
             part.headers.push(Header {
                 name: HeaderName::ContentType,
                 value: HeaderValue::Text(ct.to_string().into()),
@@ -93,7 +110,7 @@ impl Convert {
                 offset_end: 0,
                 offset_field: 0,
             });
-            ctx.message_size = (ctx.message_size + ct.len() + new_body.len() + 16).saturating_sub(
+            ctx.message_size = (ctx.message_size + kept_size + ct.len() + new_body.len() + 16).saturating_sub(
                 if part.offset_body != 0 {
                     (part.offset_end - part.offset_header) as usize
                 } else {
-- 
2.43.0


From fd298ab298a5af5587abc96c831b3317ec464ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:35 +0000
Subject: [PATCH 57/62] fix: accept the parts of addresses in header variables

---
 src/compiler/lexer/string.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/compiler/lexer/string.rs b/src/compiler/lexer/string.rs
index e9ca69d..b4c3a1c 100644
--- a/src/compiler/lexer/string.rs
+++ b/src/compiler/lexer/string.rs
@@ -622,10 +622,10 @@ impl TryFrom<&str> for AddressPart {
         Ok(match value {
             "name" => AddressPart::Name,
             "addr" | "all" => AddressPart::All,
-            "addr.domain" => AddressPart::Domain,
-            "addr.local" => AddressPart::LocalPart,
-            "addr.user" => AddressPart::User,
-            "addr.detail" => AddressPart::Detail,
+            "domain" => AddressPart::Domain,
+            "local" => AddressPart::LocalPart,
+            "user" => AddressPart::User,
+            "detail" => AddressPart::Detail,
             _ => return Err(()),
         })
     }
-- 
2.43.0


From ee4867570f235ec874ff2d3ca2c74af37490bb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:37 +0000
Subject: [PATCH 58/62] fix: give the names of headers renamed by replace to
 header variables

---
 src/runtime/eval.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/runtime/eval.rs b/src/runtime/eval.rs
index aaced48..1ad6b04 100644
--- a/src/runtime/eval.rs
+++ b/src/runtime/eval.rs
@@ -166,7 +166,11 @@ impl<'x> Context<'x> {
                             .get(h.offset_field as usize..h.offset_end as usize)
                             .map(sanitize_raw_header)
                         {
-                            result.push(Variable::from(var));
+                            result.push(Variable::from(if is_renamed_header(h) {
+                                format!("{}:{}", h.name.as_str(), var)
+                            } else {
+                                var
+                            }));
                         }
                     }
                     HeaderPart::Text => {
@@ -392,6 +396,9 @@ impl HeaderVariable {
                 .get(header.offset_start as usize..header.offset_end as usize)
                 .map(sanitize_raw_header)
                 .map(Variable::from),
+            HeaderPart::RawName if is_renamed_header(header) => {
+                Variable::from(header.name.as_str()).into()
+            }
             HeaderPart::RawName => raw
                 .get(header.offset_field as usize..header.offset_start as usize - 1)
                 .map(|bytes| std::str::from_utf8(bytes).unwrap_or_default())
@@ -427,6 +434,11 @@ impl HeaderVariable {
     }
 }
 
+/// The names of headers renamed by the script are not part of the original message
+fn is_renamed_header(header: &Header<'_>) -> bool {
+    header.offset_field == header.offset_start
+}
+
 fn inserted_header(header: &Header<'_>) -> String {
     format!(
         "{}: {}\r\n\r\n",
-- 
2.43.0


From 13865f9028fe2d383e5af358b7c8b5f43d19b2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:41 +0000
Subject: [PATCH 59/62] fix: body variables of messages whose text was replaced
 or enclosed

---
 src/runtime/actions/action_mime.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/runtime/actions/action_mime.rs b/src/runtime/actions/action_mime.rs
index 212ff2f..4142526 100644
--- a/src/runtime/actions/action_mime.rs
+++ b/src/runtime/actions/action_mime.rs
@@ -153,6 +153,15 @@ impl Replace {
                 "text/plain; charset=utf-8".to_string(),
                 true,
             );
+
+            // The part is now text
+            let part_id = ctx.part;
+            ctx.message.attachments.retain(|id| *id != part_id);
+            for body in [&mut ctx.message.text_body, &mut ctx.message.html_body] {
+                if let Err(pos) = body.binary_search(&part_id) {
+                    body.insert(pos, part_id);
+                }
+            }
         }
     }
 }
@@ -192,9 +201,9 @@ impl Enclose {
         }
         ctx.has_changes = true;
         ctx.message = Message {
-            html_body: Vec::with_capacity(0),
-            text_body: Vec::with_capacity(0),
-            attachments: Vec::with_capacity(0),
+            html_body: vec![1],
+            text_body: vec![1],
+            attachments: vec![2],
             parts: vec![
                 MessagePart {
                     headers: vec![],
-- 
2.43.0


From fb7d854e4013c4c14a7a80f9f7c362c1caf7d45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:46 +0000
Subject: [PATCH 60/62] fix: require commas between the tests of anyof and
 allof and matching parentheses

---
 src/compiler/grammar/test.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/compiler/grammar/test.rs b/src/compiler/grammar/test.rs
index 08ec1cf..443d177 100644
--- a/src/compiler/grammar/test.rs
+++ b/src/compiler/grammar/test.rs
@@ -129,18 +129,19 @@ impl CompilerState<'_> {
             jmps: Vec::new(),
         };
         let mut is_not = false;
+        let mut after_test = false;
 
         loop {
             let token_info = self.tokens.unwrap_next()?;
+            if after_test && !matches!(token_info.token, Token::Comma | Token::ParenthesisClose) {
+                return Err(token_info.expected("',' or ')'"));
+            }
             self.reset_param_check();
             let test: Instruction =
                 match token_info.token {
                     Token::Comma
                         if !block_stack.is_empty()
-                            && matches!(
-                                self.instructions.last(),
-                                Some(Instruction::Test(_) | Instruction::Eval(_))
-                            )
+                            && after_test
                             && matches!(
                                 self.tokens.peek(),
                                 Some(Ok(TokenInfo {
@@ -156,17 +157,15 @@ impl CompilerState<'_> {
                         } else {
                             Instruction::Jnz(usize::MAX)
                         });
+                        after_test = false;
                         continue;
                     }
                     Token::ParenthesisOpen => {
                         block.p_count += 1;
                         continue;
                     }
-                    Token::ParenthesisClose => {
-                        if block.p_count > 0 {
-                            block.p_count -= 1;
-                            continue;
-                        } else if let Some(prev_block) = block_stack.pop() {
+                    Token::ParenthesisClose if after_test => {
+                        if let Some(prev_block) = block_stack.pop() {
                             let cur_pos = self.instructions.len();
                             for jmp_pos in block.jmps {
                                 if let Instruction::Jnz(jmp_pos) | Instruction::Jz(jmp_pos) =
@@ -180,6 +179,10 @@ impl CompilerState<'_> {
 
                             block = prev_block;
                             is_not = block.is_not;
+                            while block.p_count > 0 {
+                                self.tokens.expect_token(Token::ParenthesisClose)?;
+                                block.p_count -= 1;
+                            }
                             if block_stack.is_empty() {
                                 break;
                             } else {
@@ -588,6 +591,7 @@ impl CompilerState<'_> {
             if block_stack.is_empty() {
                 break;
             }
+            after_test = true;
         }
 
         self.instructions.push(Instruction::Jz(usize::MAX));
-- 
2.43.0


From 6044dcad7ed36eab961f4fc5b9c1ec0ffc629170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:48 +0000
Subject: [PATCH 61/62] fix: require commas between the strings of a list

---
 src/compiler/grammar/mod.rs     | 18 ++++++++++++++----
 src/compiler/lexer/tokenizer.rs |  2 +-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/compiler/grammar/mod.rs b/src/compiler/grammar/mod.rs
index 6d1ca34..589a3fe 100644
--- a/src/compiler/grammar/mod.rs
+++ b/src/compiler/grammar/mod.rs
@@ -317,10 +317,14 @@ impl CompilerState<'_> {
                         Token::StringConstant(string) => {
                             strings.push(string.into_string());
                         }
-                        Token::Comma => (),
-                        Token::BracketClose if !strings.is_empty() => break,
                         _ => return Err(token_info.expected("constant string")),
                     }
+                    let token_info = self.tokens.unwrap_next()?;
+                    match token_info.token {
+                        Token::Comma => (),
+                        Token::BracketClose => break,
+                        _ => return Err(token_info.expected("']' or ','")),
+                    }
                 }
                 Ok(strings)
             }
@@ -419,9 +423,16 @@ impl CompilerState<'_> {
         allow_empty: bool,
     ) -> Result<Vec<Value>, CompileError> {
         let mut strings = Vec::new();
+        let mut after_string = false;
         loop {
             let token_info = self.tokens.unwrap_next()?;
             match token_info.token {
+                Token::BracketClose if after_string || (strings.is_empty() && allow_empty) => break,
+                Token::Comma if after_string => {
+                    after_string = false;
+                    continue;
+                }
+                _ if after_string => return Err(token_info.expected("',' or ']'")),
                 Token::StringConstant(s) => {
                     strings.push(Value::from(s));
                 }
@@ -434,10 +445,9 @@ impl CompilerState<'_> {
                         }
                     })?);
                 }
-                Token::Comma => (),
-                Token::BracketClose if !strings.is_empty() || allow_empty => break,
                 _ => return Err(token_info.expected("string or string list")),
             }
+            after_string = true;
         }
         Ok(strings)
     }
diff --git a/src/compiler/lexer/tokenizer.rs b/src/compiler/lexer/tokenizer.rs
index 6a42691..16abbf8 100644
--- a/src/compiler/lexer/tokenizer.rs
+++ b/src/compiler/lexer/tokenizer.rs
@@ -280,7 +280,7 @@ impl<'x> Tokenizer<'x> {
                 loop {
                     let token_info = self.unwrap_next()?;
                     match token_info.token {
-                        Token::StringConstant(string_) => {
+                        Token::StringConstant(string_) if string.is_none() => {
                             string = string_.into();
                         }
                         Token::BracketClose if string.is_some() => break,
-- 
2.43.0


From 9290f7d3aa6f057a58738fbdef95e641e5952627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:11 +0000
Subject: [PATCH 62/62] fix: report invalid characters met while looking ahead

---
 src/compiler/lexer/tokenizer.rs | 11 ++++++++++-
 src/compiler/mod.rs             |  4 ++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/compiler/lexer/tokenizer.rs b/src/compiler/lexer/tokenizer.rs
index 16abbf8..7e9b8b3 100644
--- a/src/compiler/lexer/tokenizer.rs
+++ b/src/compiler/lexer/tokenizer.rs
@@ -19,6 +19,7 @@ pub(crate) struct Tokenizer<'x> {
     pub iter: Peekable<Iter<'x, u8>>,
     pub buf: Vec<u8>,
     pub next_token: Vec<TokenInfo>,
+    pub next_error: Option<CompileError>,
 
     pub pos: usize,
     pub line_num: usize,
@@ -74,6 +75,7 @@ impl<'x> Tokenizer<'x> {
             token_line_pos: 0,
             token_is_tag: false,
             next_token: Vec::with_capacity(2),
+            next_error: None,
             last_ch: 0,
             state: State::None,
         }
@@ -318,7 +320,11 @@ impl<'x> Tokenizer<'x> {
         if self.next_token.is_empty() {
             match self.next()? {
                 Ok(next_token) => self.next_token.push(next_token),
-                Err(err) => return Some(Err(err)),
+                Err(err) => {
+                    // Peeking does not consume the error
+                    self.next_error = Some(err.clone());
+                    return Some(Err(err));
+                }
             }
         }
         self.next_token.last().map(Ok)
@@ -332,6 +338,9 @@ impl Iterator for Tokenizer<'_> {
         if let Some(prev_token) = self.next_token.pop() {
             return Some(Ok(prev_token));
         }
+        if let Some(err) = self.next_error.take() {
+            return Some(Err(err));
+        }
 
         'outer: while let Some((ch, last_ch)) = self.next_byte() {
             match self.state {
diff --git a/src/compiler/mod.rs b/src/compiler/mod.rs
index 0aa20f4..3af23ef 100644
--- a/src/compiler/mod.rs
+++ b/src/compiler/mod.rs
@@ -17,14 +17,14 @@ use std::{borrow::Cow, fmt::Display, sync::Arc};
 pub mod grammar;
 pub mod lexer;
 
-#[derive(Debug)]
+#[derive(Debug, Clone)]
 pub struct CompileError {
     line_num: usize,
     line_pos: usize,
     error_type: ErrorType,
 }
 
-#[derive(Debug)]
+#[derive(Debug, Clone)]
 pub enum ErrorType {
     InvalidCharacter(u8),
     InvalidNumber(String),
-- 
2.43.0

