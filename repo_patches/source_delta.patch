From 0efcc68a7faa8887856d035495b9458f0c3b181a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 01/12] fix: cut the lexer's keyword candidate at a byte
 offset, not a char count

A word containing a non-ASCII letter or digit (for instance after a damaged
byte) made the slice end inside a character and panicked.
---
 src/parser/lexer.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index e019b86..3b36512 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -385,8 +385,7 @@ impl<'input> Iterator for Lexer<'input> {
                         _ => {
                             let token_str: &str = &self.document[start..];
                             let mut index = 0;
-                            let token_str_chars = token_str.chars();
-                            for (i, c) in token_str_chars.enumerate() {
+                            for (i, c) in token_str.char_indices() {
                                 if !c.is_alphanumeric() && c != '_' {
                                     index = i;
                                     break;
-- 
2.43.0


From 200ef3e1582490437fe526275b8019744e0f0ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 02/12] fix: do not swallow input after a string literal
 holding multi-byte characters

---
 src/parser/lexer.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 3b36512..c7e617b 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -654,10 +654,9 @@ impl<'input> Iterator for Lexer<'input> {
                                         } else if let Some(mat) = string_literal.find(token_str) {
                                             let end = start + mat.end();
                                             let s = &self.document[start..end];
-                                            if mat.end() > 1 {
-                                                self.chars.nth(end - start - 2);
-                                                // -2, because we already consumed the first char
-                                            }
+                                            // A literal may hold multi-byte characters: count characters, not bytes
+                                            self.chars.nth(s.chars().count() - 2);
+                                            // -2, because we already consumed the first char
 
                                             (Token::StringLiteral(s), source_position.with_end(end))
                                         } else if let Some(mat) = regular_id.find(token_str) {
-- 
2.43.0


From 3bac3fa49ad824a25e87707ba76f9523fe83567f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 03/12] fix: report unsupported function types and type
 variables as errors instead of panicking

---
 src/simplified_representation/emitter.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/simplified_representation/emitter.rs b/src/simplified_representation/emitter.rs
index ef4310e..2db0b94 100644
--- a/src/simplified_representation/emitter.rs
+++ b/src/simplified_representation/emitter.rs
@@ -224,8 +224,8 @@ impl AstConverting for SrEmitter {
                 self.stack
                     .push(StackObject::TypeDefinition(identifier.into()));
             }
-            NodeTypeArgument::TemplateTypeArgument(_) => {
-                unimplemented!();
+            NodeTypeArgument::TemplateTypeArgument(name) => {
+                return Err(format!("Type variable {} is not supported.", name));
             }
             NodeTypeArgument::AddressTypeArgument(n) => {
                 n.visit(self)?;
@@ -279,11 +279,11 @@ impl AstConverting for SrEmitter {
                 self.stack.push(StackObject::TypeDefinition(map));
             }
             NodeScillaType::FunctionType(_a, _b) => {
-                unimplemented!()
+                return Err("Function types are not supported.".to_string());
             }
 
             NodeScillaType::PolyFunctionType(_name, _a) => {
-                unimplemented!()
+                return Err("Polymorphic function types are not supported.".to_string());
             }
             NodeScillaType::EnclosedType(a) => {
                 let _ = (*a).visit(self)?;
@@ -291,8 +291,8 @@ impl AstConverting for SrEmitter {
             NodeScillaType::ScillaAddresseType(a) => {
                 let _ = (*a).visit(self)?;
             }
-            NodeScillaType::TypeVarType(_name) => {
-                unimplemented!()
+            NodeScillaType::TypeVarType(name) => {
+                return Err(format!("Type variable {} is not supported.", name));
             }
         };
         Ok(TraversalResult::SkipChildren)
-- 
2.43.0


From dcb38c2d01530611a75f3a05eeef7c65f1d8a93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 04/12] fix: accept a map type as an unparenthesised type
 argument inside a map value

It panicked with todo!().
---
 src/simplified_representation/emitter.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/simplified_representation/emitter.rs b/src/simplified_representation/emitter.rs
index 2db0b94..a2f39a8 100644
--- a/src/simplified_representation/emitter.rs
+++ b/src/simplified_representation/emitter.rs
@@ -682,7 +682,18 @@ impl AstConverting for SrEmitter {
                         self.stack
                             .push(StackObject::TypeDefinition(identifier.into()));
                     }
-                    NodeTypeMapValueArguments::MapKeyValueType(_, _) => todo!(),
+                    NodeTypeMapValueArguments::MapKeyValueType(k, v) => {
+                        k.visit(self)?;
+                        v.visit(self)?;
+                        let value = self.pop_type_definition()?;
+                        let key = self.pop_type_definition()?;
+                        let map = SrType {
+                            main_type: "Map".to_string(),
+                            sub_types: vec![key, value],
+                            address_type: None,
+                        };
+                        self.stack.push(StackObject::TypeDefinition(map));
+                    }
                 };
             }
             TreeTraversalMode::Exit => (),
-- 
2.43.0


From c2dc45938feff92d7484f9fb0d11bd69c1dc0b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 05/12] fix: report a built-in type with too few type arguments
 as an error instead of panicking

---
 src/simplified_representation/emitter.rs    |  2 ++
 src/simplified_representation/primitives.rs | 18 ++++++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/simplified_representation/emitter.rs b/src/simplified_representation/emitter.rs
index a2f39a8..21994bc 100644
--- a/src/simplified_representation/emitter.rs
+++ b/src/simplified_representation/emitter.rs
@@ -315,6 +315,7 @@ impl AstConverting for SrEmitter {
                 if let NodeVariableIdentifier::VariableName(n) = &node.identifier.node {
                     node.type_name.visit(self)?;
                     let typename = self.pop_type_definition()?;
+                    typename.check_arguments()?;
                     let s = StackObject::VariableDeclaration(Field::new(&n.node, typename.into()));
                     self.stack.push(s);
                 }
@@ -526,6 +527,7 @@ impl AstConverting for SrEmitter {
         let _ = node.annotation.visit(self)?;
 
         let typename = self.pop_type_definition()?;
+        typename.check_arguments()?;
 
         let s = StackObject::VariableDeclaration(Field::new(&name.node, typename.into()));
         self.stack.push(s);
diff --git a/src/simplified_representation/primitives.rs b/src/simplified_representation/primitives.rs
index 0aa1620..0a4a5d4 100644
--- a/src/simplified_representation/primitives.rs
+++ b/src/simplified_representation/primitives.rs
@@ -55,6 +55,24 @@ impl SrType {
     pub fn push_sub_type(&mut self, sub_type: SrType) {
         self.sub_types.push(sub_type);
     }
+
+    /// Checks that this type and the types it contains have the type arguments they need.
+    pub fn check_arguments(&self) -> Result<(), String> {
+        let needed = match self.main_type.as_str() {
+            "Option" | "List" => 1,
+            "Pair" | "Map" => 2,
+            _ => 0,
+        };
+        if self.sub_types.len() < needed {
+            return Err(format!(
+                "Type {} needs {} type argument(s), but found {}.",
+                self.main_type,
+                needed,
+                self.sub_types.len()
+            ));
+        }
+        self.sub_types.iter().try_for_each(SrType::check_arguments)
+    }
 }
 
 impl From<SrIdentifier> for SrType {
-- 
2.43.0


From b4dc271721bafaaa3c968e68386fe40097c8511a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 06/12] fix: push exactly one symbol for the Event type and for
 a namespaced type

The emitter's stack got out of step: a parameter of such a type made the
contract fail with an assertion, or gave it a type it does not have.
---
 src/simplified_representation/emitter.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/simplified_representation/emitter.rs b/src/simplified_representation/emitter.rs
index 21994bc..7299093 100644
--- a/src/simplified_representation/emitter.rs
+++ b/src/simplified_representation/emitter.rs
@@ -103,7 +103,11 @@ impl AstConverting for SrEmitter {
 
                     self.stack.push(StackObject::IrIdentifier(symbol));
                 }
-                NodeTypeNameIdentifier::EventType => {}
+                NodeTypeNameIdentifier::EventType => {
+                    let symbol = SrIdentifier::new(node.to_string(), SrIdentifierKind::Unknown);
+
+                    self.stack.push(StackObject::IrIdentifier(symbol));
+                }
                 NodeTypeNameIdentifier::TypeOrEnumLikeIdentifier(name) => {
                     let symbol = SrIdentifier::new(name.to_string(), SrIdentifierKind::Unknown);
 
@@ -139,6 +143,11 @@ impl AstConverting for SrEmitter {
                 self.stack.push(StackObject::IrIdentifier(symbol));
                 Ok(TraversalResult::SkipChildren)
             }
+            NodeMetaIdentifier::MetaNameInNamespace(_, name) => {
+                // One symbol per identifier: the namespace must not be left on the stack
+                name.visit(self)?;
+                Ok(TraversalResult::SkipChildren)
+            }
             _ => Ok(TraversalResult::Continue),
         }
     }
-- 
2.43.0


From 9e143e7626ad069b44601aa0cd1e5cedaded7ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 07/12] fix: accept an address type as a map key

---
 src/simplified_representation/emitter.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/simplified_representation/emitter.rs b/src/simplified_representation/emitter.rs
index 7299093..6d3c642 100644
--- a/src/simplified_representation/emitter.rs
+++ b/src/simplified_representation/emitter.rs
@@ -173,8 +173,12 @@ impl AstConverting for SrEmitter {
         match node {
             NodeTypeMapKey::GenericMapKey(key) => key.visit(self)?,
             NodeTypeMapKey::EnclosedGenericId(key) => key.visit(self)?,
-            NodeTypeMapKey::EnclosedAddressMapKeyType(key) => key.visit(self)?,
-            NodeTypeMapKey::AddressMapKeyType(key) => key.visit(self)?,
+            NodeTypeMapKey::EnclosedAddressMapKeyType(key)
+            | NodeTypeMapKey::AddressMapKeyType(key) => {
+                // An address type leaves its type definition on the stack
+                key.visit(self)?;
+                return Ok(TraversalResult::SkipChildren);
+            }
         };
         let identifier = self.pop_ir_identifier()?;
         self.stack
-- 
2.43.0


From 27ae2e0c680f24d2b6b3d9e6feeb321da4dc79b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 08/12] fix: keep address type fields with special or
 namespaced names

Nothing was pushed for them, so an unrelated declaration left on the stack
took their place.
---
 src/simplified_representation/emitter.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/simplified_representation/emitter.rs b/src/simplified_representation/emitter.rs
index 6d3c642..52bf4b9 100644
--- a/src/simplified_representation/emitter.rs
+++ b/src/simplified_representation/emitter.rs
@@ -325,13 +325,12 @@ impl AstConverting for SrEmitter {
     ) -> Result<TraversalResult, String> {
         match mode {
             TreeTraversalMode::Enter => {
-                if let NodeVariableIdentifier::VariableName(n) = &node.identifier.node {
-                    node.type_name.visit(self)?;
-                    let typename = self.pop_type_definition()?;
-                    typename.check_arguments()?;
-                    let s = StackObject::VariableDeclaration(Field::new(&n.node, typename.into()));
-                    self.stack.push(s);
-                }
+                node.type_name.visit(self)?;
+                let typename = self.pop_type_definition()?;
+                typename.check_arguments()?;
+                let name = node.identifier.to_string();
+                let s = StackObject::VariableDeclaration(Field::new(&name, typename.into()));
+                self.stack.push(s);
             }
             TreeTraversalMode::Exit => (),
         }
-- 
2.43.0


From 078985c3e39ee909e882c34ba922a7f59e007319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 09/12] fix: propagate emitter errors from builtin and type
 argument lists

Only errors with one particular text were propagated; the traversal carried
on after any other.
---
 src/ast/visitor.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/ast/visitor.rs b/src/ast/visitor.rs
index 8482719..1a6c3ef 100644
--- a/src/ast/visitor.rs
+++ b/src/ast/visitor.rs
@@ -154,11 +154,10 @@ impl AstVisitor for NodeBuiltinArguments {
         // Call the visitor on all children of NodeBuiltinArguments if ret == Ok(TraversalResult::Continue)
         let children_ret = if ret == Ok(TraversalResult::Continue) {
             // Visit each of the arguments
-            self.arguments
-                .iter()
-                .map(|argument| argument.visit(emitter))
-                .find(|r| *r == Err(String::from("Failure")))
-                .unwrap_or(Ok(TraversalResult::Continue))
+            for argument in &self.arguments {
+                argument.visit(emitter)?;
+            }
+            Ok(TraversalResult::Continue)
         } else {
             ret
         }?;
@@ -494,11 +493,10 @@ impl AstVisitor for NodeContractTypeArguments {
     fn visit(&self, emitter: &mut dyn AstConverting) -> Result<TraversalResult, String> {
         let ret = emitter.emit_contract_type_arguments(TreeTraversalMode::Enter, self);
         let children_ret = if ret == Ok(TraversalResult::Continue) {
-            self.type_arguments
-                .iter()
-                .map(|child| child.visit(emitter))
-                .find(|result| *result == Err("".into()))
-                .unwrap_or(Ok(TraversalResult::Continue))
+            for child in &self.type_arguments {
+                child.visit(emitter)?;
+            }
+            Ok(TraversalResult::Continue)
         } else {
             ret
         }?;
-- 
2.43.0


From 1cd95cd250d26a23103323607edc85ddc2e61b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 10/12] fix: honour an error or a skip returned when entering
 an address type

---
 src/ast/visitor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast/visitor.rs b/src/ast/visitor.rs
index 1a6c3ef..a2eb33b 100644
--- a/src/ast/visitor.rs
+++ b/src/ast/visitor.rs
@@ -326,7 +326,7 @@ impl AstVisitor for NodeAddressType {
             }
             ret
         } else {
-            Ok(TraversalResult::Continue)
+            ret
         }?;
         match children_ret {
             TraversalResult::Continue => emitter.emit_address_type(TreeTraversalMode::Exit, self),
-- 
2.43.0


From e8bfe2500d6c7627b9bcb1efd75589a003ea3a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 11/12] fix: do not push source positions that are never popped

Visiting the child already pushes and pops its position.
---
 src/ast/visitor.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/ast/visitor.rs b/src/ast/visitor.rs
index a2eb33b..59c1abc 100644
--- a/src/ast/visitor.rs
+++ b/src/ast/visitor.rs
@@ -432,7 +432,6 @@ impl AstVisitor for NodeMessageEntry {
                 }
                 NodeMessageEntry::MessageVariable(var_identifier1, var_identifier2) => {
                     var_identifier1.visit(emitter)?;
-                    emitter.push_source_position(&var_identifier2.start, &var_identifier2.end);
                     var_identifier2.visit(emitter)
                 }
             }
@@ -517,7 +516,6 @@ impl AstVisitor for NodeValueLiteral {
                 NodeValueLiteral::LiteralInt(type_name, _) => type_name.visit(emitter),
                 NodeValueLiteral::LiteralEmptyMap(type_map_key, type_map_value) => {
                     type_map_key.visit(emitter)?;
-                    emitter.push_source_position(&type_map_value.start, &type_map_value.end);
                     type_map_value.visit(emitter)
                 }
                 _ => Ok(TraversalResult::Continue),
@@ -600,8 +598,6 @@ impl AstVisitor for NodePatternMatchClause {
     fn visit(&self, emitter: &mut dyn AstConverting) -> Result<TraversalResult, String> {
         let ret = emitter.emit_pattern_match_clause(TreeTraversalMode::Enter, self);
         let children_ret = if ret == Ok(TraversalResult::Continue) {
-            emitter
-                .push_source_position(&self.pattern_expression.start, &self.pattern_expression.end);
             match self.pattern_expression.visit(emitter) {
                 Err(msg) => Err(msg),
                 _ => match &self.statement_block {
-- 
2.43.0


From b579c95d2d476fd7806fad4783b0b35bf3af2380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 12/12] fix: finish the traversal of a library let definition
 instead of panicking

---
 src/ast/visitor.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/ast/visitor.rs b/src/ast/visitor.rs
index 59c1abc..9bf7922 100644
--- a/src/ast/visitor.rs
+++ b/src/ast/visitor.rs
@@ -986,9 +986,7 @@ impl AstVisitor for NodeLibrarySingleDefinition {
                     expression,
                 } => {
                     // TODO: Unused variables aboce
-                    let _ = expression.visit(emitter)?;
-
-                    unimplemented!()
+                    expression.visit(emitter)
                 }
                 NodeLibrarySingleDefinition::TypeDefinition(name, option_clause) => {
                     let result = name.visit(emitter);
-- 
2.43.0

