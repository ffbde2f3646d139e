From ec98803c5799293f14271034702cd2fce67fbf54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:45 +0000
Subject: [PATCH 1/6] fix: first set of a production includes the terminals of
 its nullable non-terminals

---
 src/first.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/first.rs b/src/first.rs
index 3694540..1fb018f 100644
--- a/src/first.rs
+++ b/src/first.rs
@@ -76,14 +76,15 @@ pub fn generate_first_table<A>(grammar: &Grammar<A>) -> FirstTable {
                     match &symbol.symbol {
                         Symbol::NonTerminal(nt) => {
                             let FirstSet { empty, terminals } = table.get_first(*nt);
-                            if *empty {
-                                // Continue to the next symbol in the production
-                                continue;
-                            }
+                            let empty = *empty;
                             // TODO: clone below to avoid borrowck issues
                             for terminal in terminals.clone() {
                                 updated |= table.add_first(non_terminal_idx, terminal);
                             }
+                            if empty {
+                                // Continue to the next symbol in the production
+                                continue;
+                            }
                             continue 'production_loop;
                         }
                         Symbol::Terminal(terminal) => {
-- 
2.43.0


From 5d1e7814efb4516247477926a9f72603cfb860e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:47 +0000
Subject: [PATCH 2/6] fix: iterate first set computation when a non-terminal
 becomes nullable

---
 src/first.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/first.rs b/src/first.rs
index 1fb018f..1a838dd 100644
--- a/src/first.rs
+++ b/src/first.rs
@@ -95,7 +95,7 @@ pub fn generate_first_table<A>(grammar: &Grammar<A>) -> FirstTable {
                 }
                 // If we reached here then all symbols in the production are empty, so the
                 // non-terminal can be empty
-                table.set_empty(non_terminal_idx);
+                updated |= table.set_empty(non_terminal_idx);
             }
         }
     }
-- 
2.43.0


From 3075a992d014a3de16c394c608321d24ca9eb908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:44 +0000
Subject: [PATCH 3/6] fix: a reduce/accept conflict on end of input makes
 expansion fail instead of dropping the reduction

---
 src/lr_common.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lr_common.rs b/src/lr_common.rs
index 2c9e923..9c1d3ec 100644
--- a/src/lr_common.rs
+++ b/src/lr_common.rs
@@ -148,13 +148,19 @@ impl<A: fmt::Debug + Eq> LRTableBuilder<A> {
     }
 
     pub fn add_accept(&mut self, state: StateIdx) {
-        let _old = self
+        let old_action = self
             .table
             .action
             .entry(state)
             .or_default()
             .insert(None, LRAction::Accept);
-        // assert_eq!(old, None);
+
+        if let Some(LRAction::Reduce(nt_, p_, _)) = old_action {
+            panic!(
+                "({}, None): Overriding Reduce({}, {}) action with Accept",
+                state.0, nt_.0, p_.0
+            );
+        }
     }
 
     pub fn add_goto(&mut self, state: StateIdx, non_terminal_idx: NonTerminalIdx, next: StateIdx) {
-- 
2.43.0


From 2deef3f08dd1c5b0f9a98f7c2fac3bea62522ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:47 +0000
Subject: [PATCH 4/6] fix: a non-terminal declared twice makes expansion fail
 instead of splitting its productions from its entry point

---
 src/lower.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lower.rs b/src/lower.rs
index c22a550..df8136d 100644
--- a/src/lower.rs
+++ b/src/lower.rs
@@ -40,7 +40,10 @@ pub fn lower(
             let nt1_name = nt.name.to_string() + "1";
             let nt1_idx = grammar.add_non_terminal(nt1_name, nt.type_decl.clone(), false);
             // Original name mapped to the new name with "1" suffix
-            nt_indices.insert(nt.name.to_string(), nt1_idx);
+            let old = nt_indices.insert(nt.name.to_string(), nt1_idx);
+            if old.is_some() {
+                panic!("Non-terminal {} defined multiple times", nt.name);
+            }
 
             // Create the entry point
             let nt_idx = grammar.add_non_terminal(nt.name.to_string(), nt.type_decl.clone(), true);
@@ -70,7 +73,10 @@ pub fn lower(
         } else {
             let nt_name = nt.name.to_string();
             let nt_idx = grammar.add_non_terminal(nt_name.clone(), nt.type_decl.clone(), false);
-            nt_indices.insert(nt_name, nt_idx);
+            let old = nt_indices.insert(nt_name, nt_idx);
+            if old.is_some() {
+                panic!("Non-terminal {} defined multiple times", nt.name);
+            }
         }
     }
 
-- 
2.43.0


From 1563ea31d0ea301b5e7187a5f13e3b1236cea83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 5/6] fix: keep the trailing comma of one-element tuple
 patterns when binding token values

---
 src/codegen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codegen.rs b/src/codegen.rs
index 1245dd8..8a4e2e0 100644
--- a/src/codegen.rs
+++ b/src/codegen.rs
@@ -436,7 +436,7 @@ fn generate_pattern_syn_with_idents_(pat: &Pattern, idents: &mut Vec<syn::Ident>
                 .map(|pat| generate_pattern_syn_with_idents_(pat, idents))
                 .collect();
 
-            quote!((#(#pats),*))
+            quote!((#(#pats,)*))
         }
 
         Pattern::Path(path) => quote!(#path),
-- 
2.43.0


From a016376a5db3ec5e93af1761a7e7b36b90799ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:55 +0000
Subject: [PATCH 6/6] fix: symbol0 dropped a literal that is not a string in a
 production

---
 src/ast.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 58e7768..a731ebd 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -397,9 +397,9 @@ impl Parse for Symbol {
 }
 
 fn symbol0(input: &ParseBuffer) -> syn::Result<Symbol> {
-    // TODO: No peek for LitStr?
-    if let Ok(str) = input.parse::<syn::LitStr>() {
-        return Ok(Symbol::Terminal(str));
+    // Peek first: when it fails, parsing a `LitStr` can still consume another kind of literal
+    if input.peek(syn::LitStr) {
+        return Ok(Symbol::Terminal(input.parse::<syn::LitStr>()?));
     }
 
     if let Ok(ident) = input.parse::<syn::Ident>() {
-- 
2.43.0

