From 48e5ea307f271d8baf3780a8032d7531683cac8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:33 +0000
Subject: [PATCH 01/27] fix: report the line and column at which each token
 really starts

The column was that of the previous token, newlines counted as a column, and
newlines inside comments and strings were not counted as lines.
---
 src/parser/lexer.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index e019b86..062bb64 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -207,6 +207,13 @@ impl<'input> Lexer<'input> {
             last_position: 0,
         }
     }
+
+    /// Records that the line ends with the newline at the given byte position.
+    fn new_line(&mut self, position: usize) {
+        self.line += 1;
+        self.character = 0;
+        self.last_position = position + 1;
+    }
 }
 
 #[derive(Clone, Copy, Debug, PartialEq, PartialOrd, Eq, Default)]
@@ -249,6 +256,9 @@ impl<'input> Iterator for Lexer<'input> {
 
     fn next(&mut self) -> Option<Self::Item> {
         while let Some((start, ch)) = self.chars.next() {
+            self.character += start - self.last_position;
+            self.last_position = start;
+
             let source_position = SourcePosition {
                 position: start,
                 line: self.line,
@@ -257,8 +267,6 @@ impl<'input> Iterator for Lexer<'input> {
 
             let (token, end): (Token<&'input str>, SourcePosition) = {
                 let look_ahead = self.chars.peek().map(|(_, next_ch)| *next_ch);
-                self.character += start - self.last_position;
-                self.last_position = start;
 
                 let next_is_alpha_num_under = look_ahead
                     .map(|c| c.is_alphanumeric() || c == '_')
@@ -268,8 +276,7 @@ impl<'input> Iterator for Lexer<'input> {
                 // Handle more complex tokens, whitespace, and comments
                 if ch.is_whitespace() {
                     if ch == '\n' {
-                        self.character = 0;
-                        self.line += 1;
+                        self.new_line(start);
                     }
                     continue;
                 } else if ch == '=' && look_ahead == Some('>') {
@@ -312,7 +319,10 @@ impl<'input> Iterator for Lexer<'input> {
                     self.chars.next(); // Consume '*'
                     let mut comment = String::new();
 
-                    while let Some((_, ch)) = self.chars.next() {
+                    while let Some((position, ch)) = self.chars.next() {
+                        if ch == '\n' {
+                            self.new_line(position);
+                        }
                         if ch == '*' && self.chars.peek().map(|(_, next_ch)| *next_ch) == Some(')')
                         {
                             self.chars.next();
@@ -660,6 +670,10 @@ impl<'input> Iterator for Lexer<'input> {
                                                 // -2, because we already consumed the first char
                                             }
 
+                                            for (offset, _) in s.match_indices('\n') {
+                                                self.new_line(start + offset);
+                                            }
+
                                             (Token::StringLiteral(s), source_position.with_end(end))
                                         } else if let Some(mat) = regular_id.find(token_str) {
                                             let end = start + mat.end();
-- 
2.43.0


From a328d5bfa3da02c424457c9d197440e856ed5a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:49 +0000
Subject: [PATCH 02/27] fix: slice a word by byte offset, not by character
 count

A word with a multi-byte character made the lexer panic or cut the word short.
---
 src/parser/lexer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 062bb64..018b18e 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -395,8 +395,8 @@ impl<'input> Iterator for Lexer<'input> {
                         _ => {
                             let token_str: &str = &self.document[start..];
                             let mut index = 0;
-                            let token_str_chars = token_str.chars();
-                            for (i, c) in token_str_chars.enumerate() {
+                            let token_str_chars = token_str.char_indices();
+                            for (i, c) in token_str_chars {
                                 if !c.is_alphanumeric() && c != '_' {
                                     index = i;
                                     break;
-- 
2.43.0


From d42e8b1a9b2f4bc01d681263d5cbff74c7b085e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:49 +0000
Subject: [PATCH 03/27] fix: advance past a string literal by its characters,
 not its bytes

A string literal with multi-byte characters swallowed the source text after it.
---
 src/parser/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 018b18e..4fb8311 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -666,7 +666,7 @@ impl<'input> Iterator for Lexer<'input> {
                                             let end = start + mat.end();
                                             let s = &self.document[start..end];
                                             if mat.end() > 1 {
-                                                self.chars.nth(end - start - 2);
+                                                self.chars.nth(s.chars().count() - 2);
                                                 // -2, because we already consumed the first char
                                             }
 
-- 
2.43.0


From a7d261ad47f41a728b7ce4f673e63ae873f38323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:49 +0000
Subject: [PATCH 04/27] fix: give an unknown token the extent of its character

---
 src/parser/lexer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 4fb8311..ede17d5 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -719,7 +719,10 @@ impl<'input> Iterator for Lexer<'input> {
                                                 source_position.with_end(end),
                                             )
                                         } else {
-                                            (Token::Unknown, source_position.with_end(start))
+                                            (
+                                                Token::Unknown,
+                                                source_position.with_end(start + ch.len_utf8()),
+                                            )
                                         }
                                     }
                                 };
-- 
2.43.0


From 7f11ce79be3edd24a19e3975fc58aafa13a8d98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:49 +0000
Subject: [PATCH 05/27] fix: do not split names that start with ByStr

ByStrFoo and ByStr20Foo are single type names.
---
 src/parser/lexer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index ede17d5..6cca5b1 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -613,7 +613,7 @@ impl<'input> Iterator for Lexer<'input> {
                                     }
                                     _ => {
                                         // Handle other cases here
-                                        let bystr_with_size = Regex::new(r"^ByStr[0-9]+").unwrap();
+                                        let bystr_with_size = Regex::new(r"^ByStr[0-9]+$").unwrap();
 
                                         let signed_integer = Regex::new(r"^[+-]?[0-9]+").unwrap();
                                         let hex_number =
@@ -629,7 +629,7 @@ impl<'input> Iterator for Lexer<'input> {
                                             Regex::new(r"^[A-Z][a-zA-Z0-9_]*").unwrap();
                                         let special_id = Regex::new(r"^[_][a-zA-Z0-9_]*").unwrap();
 
-                                        if let Some(mat) = bystr_with_size.find(token_str) {
+                                        if let Some(mat) = bystr_with_size.find(keyword_token) {
                                             let end = start + mat.end();
                                             let s = &self.document[start..end];
                                             if mat.end() > 1 {
@@ -638,7 +638,7 @@ impl<'input> Iterator for Lexer<'input> {
                                             }
 
                                             (Token::ByStrWithSize(s), source_position.with_end(end))
-                                        } else if token_str.starts_with(KEYWORD_BYSTR) {
+                                        } else if keyword_token == KEYWORD_BYSTR {
                                             self.chars.nth(KEYWORD_BYSTR.len() - 2);
                                             (
                                                 Token::ByStr,
-- 
2.43.0


From 5e64c4f0ae4ca1cb06a36761697fb513be8fae52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:14 +0000
Subject: [PATCH 06/27] fix: treat '-' as part of a number only before an ASCII
 digit

Before any other numeric character no number can match, and the minus sign
was reported as unknown.
---
 src/parser/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 6cca5b1..4d9bfcc 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -271,7 +271,7 @@ impl<'input> Iterator for Lexer<'input> {
                 let next_is_alpha_num_under = look_ahead
                     .map(|c| c.is_alphanumeric() || c == '_')
                     .unwrap_or(false);
-                let next_is_numeric = look_ahead.map(|c| c.is_numeric()).unwrap_or(false);
+                let next_is_numeric = look_ahead.map(|c| c.is_ascii_digit()).unwrap_or(false);
 
                 // Handle more complex tokens, whitespace, and comments
                 if ch.is_whitespace() {
-- 
2.43.0


From 76a2269d69829d38d878d68c4dd98ce3a3e80109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:14 +0000
Subject: [PATCH 07/27] fix: reject a comma before the first parameter of a
 component

---
 src/parser/parser.lalrpop | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/parser/parser.lalrpop b/src/parser/parser.lalrpop
index 252dd22..626a41d 100644
--- a/src/parser/parser.lalrpop
+++ b/src/parser/parser.lalrpop
@@ -1542,17 +1542,14 @@ pub NextParameterPair: WithMetaData<NodeParameterPair> = {
 // @return Scilla component parameters with zero or more parameter pairs.
 pub ComponentParameters : WithMetaData<NodeComponentParameters> = {
    <start:@L> "(" 
-   <p:ParameterPair?> <next_params:NextParameterPair*>
+   <params:(ParameterPair NextParameterPair*)?>
    ")" <end:@R>
    => WithMetaData::<NodeComponentParameters> {
        node: {
            let mut parameters: Vec<WithMetaData<NodeParameterPair>> = Vec::new();
-           if let Some(pair) = p {
+           if let Some((pair, next_params)) = params {
     	        parameters.push(pair);
-           }
-
-           for p in next_params {
-               parameters.push(p);
+                parameters.extend(next_params);
            }
 
            NodeComponentParameters { parameters }
-- 
2.43.0


From 98886d9624553aaf2e125bd24b720a8398d37936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:14 +0000
Subject: [PATCH 08/27] fix: reject builtin arguments after an empty argument
 list

'builtin f () x' was accepted and the parentheses forgotten.
---
 src/parser/parser.lalrpop | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/src/parser/parser.lalrpop b/src/parser/parser.lalrpop
index 626a41d..e16403d 100644
--- a/src/parser/parser.lalrpop
+++ b/src/parser/parser.lalrpop
@@ -278,22 +278,9 @@ pub VariableIdentifier : WithMetaData<NodeVariableIdentifier> = {
 // @syntax builtinArguments
 // @return The arguments for a built-in function as either variable identifiers or an empty set of parentheses. 
 pub BuiltinArguments: WithMetaData<NodeBuiltinArguments> = {
-	<start:@L> <prev:BuiltinArguments>
-	<n:VariableIdentifier> <end:@R> => 
-    WithMetaData::<NodeBuiltinArguments> {
-        node: {
-    		let mut ret = NodeBuiltinArguments {
-    			arguments: prev.node.arguments.clone()
-    		};
-    		ret.arguments.push(n);
-    		ret
-    	},
-        start,
-        end
-    },
-	<start:@L> <n:VariableIdentifier> <end:@R> =>     WithMetaData::<NodeBuiltinArguments> {
+	<start:@L> <arguments:VariableIdentifier+> <end:@R> =>     WithMetaData::<NodeBuiltinArguments> {
         node: NodeBuiltinArguments {
-    		arguments: vec![n]
+    		arguments
 	    },
         start,
         end
-- 
2.43.0


From 57379f28b67341b7ffb177dbcb35daa5891f0b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:14 +0000
Subject: [PATCH 09/27] fix: accept several names in every import declaration

Only the first 'import' could list more than one name, and the start of the
declarations was that of the last 'import'.
---
 src/parser/parser.lalrpop | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/parser.lalrpop b/src/parser/parser.lalrpop
index e16403d..f821995 100644
--- a/src/parser/parser.lalrpop
+++ b/src/parser/parser.lalrpop
@@ -167,14 +167,14 @@ pub ImportedName: WithMetaData<NodeImportedName> = {
 // @return A list of one or more imported names.
 //
 pub ImportDeclarations: WithMetaData<NodeImportDeclarations> = {
-	<prev:ImportDeclarations>
-	<start:@L> "import" <n:ImportedName> <end:@R> => 
+	<start:@L> <prev:ImportDeclarations>
+	"import" <n:ImportedName+> <end:@R> => 
         WithMetaData::<NodeImportDeclarations> {
             node: {
     		let mut ret = NodeImportDeclarations {
     			import_list: prev.node.import_list.clone()
     		};
-    		ret.import_list.push(n);
+    		ret.import_list.extend(n);
     		ret
     	},
         start,
-- 
2.43.0


From db16c8b5a40e98e15984bece898b259c45c7b6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:14 +0000
Subject: [PATCH 10/27] fix: end an integer literal at its own last token

---
 src/parser/parser.lalrpop | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/parser.lalrpop b/src/parser/parser.lalrpop
index f821995..bcc3eff 100644
--- a/src/parser/parser.lalrpop
+++ b/src/parser/parser.lalrpop
@@ -1165,7 +1165,7 @@ pub AtomicExpression: WithMetaData<NodeAtomicExpression> = {
 // @syntax valueLiteral
 // @return A value literal as a signed or unsigned integer, a hexadecimal value, a string, or an empty map.
 pub ValueLiteral: WithMetaData<NodeValueLiteral> = {
-	<start:@L> <n: TypeNameIdentifier> <v: SignedInteger> <end:@L> => 
+	<start:@L> <n: TypeNameIdentifier> <v: SignedInteger> <end:@R> => 
     WithMetaData::<NodeValueLiteral> { 
         node: NodeValueLiteral::LiteralInt(n, v),
         start,
-- 
2.43.0


From 02c9652058d8b040612dfea9dfe0124282ebdd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:14 +0000
Subject: [PATCH 11/27] fix: position the kind of an address type at its
 keyword

---
 src/parser/parser.lalrpop | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/parser/parser.lalrpop b/src/parser/parser.lalrpop
index bcc3eff..0952d72 100644
--- a/src/parser/parser.lalrpop
+++ b/src/parser/parser.lalrpop
@@ -444,28 +444,28 @@ pub AddressType: WithMetaData<NodeAddressType> = {
         start,
         end
     },
-	<start:@L> <type_name: TypeNameIdentifier> "with"  "contract" <address_fields: AddressTypeFieldList?> "end" <end:@R> => 
+	<start:@L> <type_name: TypeNameIdentifier> "with" <kind_start:@L> "contract" <kind_end:@R> <address_fields: AddressTypeFieldList?> "end" <end:@R> => 
     WithMetaData::<NodeAddressType> { 
         node: NodeAddressType {
             identifier: type_name,
             type_name: WithMetaData::<String> {
                 node: "contract".to_string(),
-                start: start.clone(),
-                end: end.clone()
+                start: kind_start,
+                end: kind_end
             },
             address_fields: address_fields.unwrap_or([].to_vec())
         },
         start,
         end
     },
-	<start:@L> <type_name: TypeNameIdentifier> "with" "library" "end" <end:@R> => 
+	<start:@L> <type_name: TypeNameIdentifier> "with" <kind_start:@L> "library" <kind_end:@R> "end" <end:@R> => 
     WithMetaData::<NodeAddressType> { 
         node: NodeAddressType {
             identifier: type_name,
             type_name:  WithMetaData::<String> {
                 node: "library".to_string(),
-                start: start.clone(),
-                end: end.clone()
+                start: kind_start,
+                end: kind_end
             },
             address_fields: vec![]
         },
-- 
2.43.0


From 28d7d1a0c1991532496fe1b1537538aaf7435887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:14 +0000
Subject: [PATCH 12/27] fix: accept a match expression without clauses, as
 documented

---
 src/parser/parser.lalrpop | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/parser.lalrpop b/src/parser/parser.lalrpop
index 0952d72..d3a6dbc 100644
--- a/src/parser/parser.lalrpop
+++ b/src/parser/parser.lalrpop
@@ -963,7 +963,7 @@ pub FullExpression : WithMetaData<NodeFullExpression> = {
             start,
             end
         },
-    <start:@L> "match" <match_expression:VariableIdentifier> "with" <clauses:PatternMatchExpressionClause+> "end" <end:@R> => 
+    <start:@L> "match" <match_expression:VariableIdentifier> "with" <clauses:PatternMatchExpressionClause*> "end" <end:@R> => 
         WithMetaData::<NodeFullExpression> { 
             node: NodeFullExpression::Match{
         	   match_expression,
-- 
2.43.0


From 6f4ae01e2ab7c25f5ce488278d4eac38cbd4b95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 13/27] fix: emit the type name Event

Nothing was pushed for it, so its user failed or took an unrelated stack entry.
---
 src/simplified_representation/emitter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/simplified_representation/emitter.rs b/src/simplified_representation/emitter.rs
index ef4310e..a22c7cc 100644
--- a/src/simplified_representation/emitter.rs
+++ b/src/simplified_representation/emitter.rs
@@ -103,7 +103,11 @@ impl AstConverting for SrEmitter {
 
                     self.stack.push(StackObject::IrIdentifier(symbol));
                 }
-                NodeTypeNameIdentifier::EventType => {}
+                NodeTypeNameIdentifier::EventType => {
+                    let symbol = SrIdentifier::new(node.to_string(), SrIdentifierKind::Unknown);
+
+                    self.stack.push(StackObject::IrIdentifier(symbol));
+                }
                 NodeTypeNameIdentifier::TypeOrEnumLikeIdentifier(name) => {
                     let symbol = SrIdentifier::new(name.to_string(), SrIdentifierKind::Unknown);
 
-- 
2.43.0


From d1c71829e7934e6bd7751e11025c5b8e58b2fe26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 14/27] fix: emit a qualified type name as one name

The namespace was dropped and left on the stack, where a transition took it
for its own name and failed an assertion.
---
 src/simplified_representation/emitter.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/simplified_representation/emitter.rs b/src/simplified_representation/emitter.rs
index a22c7cc..734791e 100644
--- a/src/simplified_representation/emitter.rs
+++ b/src/simplified_representation/emitter.rs
@@ -143,6 +143,12 @@ impl AstConverting for SrEmitter {
                 self.stack.push(StackObject::IrIdentifier(symbol));
                 Ok(TraversalResult::SkipChildren)
             }
+            NodeMetaIdentifier::MetaNameInNamespace(..)
+            | NodeMetaIdentifier::MetaNameInHexspace(..) => {
+                let symbol = SrIdentifier::new(node.to_string(), SrIdentifierKind::Unknown);
+                self.stack.push(StackObject::IrIdentifier(symbol));
+                Ok(TraversalResult::SkipChildren)
+            }
             _ => Ok(TraversalResult::Continue),
         }
     }
-- 
2.43.0


From ddfbe656097af36e0bdbd680c95be2d6a4013179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 15/27] fix: report types the interface cannot express as
 errors instead of panicking

---
 src/simplified_representation/emitter.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/simplified_representation/emitter.rs b/src/simplified_representation/emitter.rs
index 734791e..2fe93e0 100644
--- a/src/simplified_representation/emitter.rs
+++ b/src/simplified_representation/emitter.rs
@@ -234,8 +234,8 @@ impl AstConverting for SrEmitter {
                 self.stack
                     .push(StackObject::TypeDefinition(identifier.into()));
             }
-            NodeTypeArgument::TemplateTypeArgument(_) => {
-                unimplemented!();
+            NodeTypeArgument::TemplateTypeArgument(name) => {
+                return Err(format!("Unsupported type argument: {}.", name));
             }
             NodeTypeArgument::AddressTypeArgument(n) => {
                 n.visit(self)?;
@@ -289,11 +289,11 @@ impl AstConverting for SrEmitter {
                 self.stack.push(StackObject::TypeDefinition(map));
             }
             NodeScillaType::FunctionType(_a, _b) => {
-                unimplemented!()
+                return Err("Function types are not supported.".to_string());
             }
 
             NodeScillaType::PolyFunctionType(_name, _a) => {
-                unimplemented!()
+                return Err("Polymorphic function types are not supported.".to_string());
             }
             NodeScillaType::EnclosedType(a) => {
                 let _ = (*a).visit(self)?;
@@ -301,8 +301,8 @@ impl AstConverting for SrEmitter {
             NodeScillaType::ScillaAddresseType(a) => {
                 let _ = (*a).visit(self)?;
             }
-            NodeScillaType::TypeVarType(_name) => {
-                unimplemented!()
+            NodeScillaType::TypeVarType(name) => {
+                return Err(format!("Unsupported type variable: {}.", name));
             }
         };
         Ok(TraversalResult::SkipChildren)
-- 
2.43.0


From 7e3ab66ea5c9f12b255fda5805a72b3d9855f96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 16/27] fix: emit maps that are type arguments inside a map
 value

---
 src/simplified_representation/emitter.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/simplified_representation/emitter.rs b/src/simplified_representation/emitter.rs
index 2fe93e0..f2be4df 100644
--- a/src/simplified_representation/emitter.rs
+++ b/src/simplified_representation/emitter.rs
@@ -692,7 +692,18 @@ impl AstConverting for SrEmitter {
                         self.stack
                             .push(StackObject::TypeDefinition(identifier.into()));
                     }
-                    NodeTypeMapValueArguments::MapKeyValueType(_, _) => todo!(),
+                    NodeTypeMapValueArguments::MapKeyValueType(key, value) => {
+                        key.visit(self)?;
+                        value.visit(self)?;
+                        let value = self.pop_type_definition()?;
+                        let key = self.pop_type_definition()?;
+                        let map = SrType {
+                            main_type: "Map".to_string(),
+                            sub_types: vec![key, value],
+                            address_type: None,
+                        };
+                        self.stack.push(StackObject::TypeDefinition(map));
+                    }
                 };
             }
             TreeTraversalMode::Exit => (),
-- 
2.43.0


From 0a743371270de0f0be848375bfe9936f33fc5a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 17/27] fix: emit address types as map keys

An address type pushes a type definition, not an identifier.
---
 src/simplified_representation/emitter.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/simplified_representation/emitter.rs b/src/simplified_representation/emitter.rs
index f2be4df..a057290 100644
--- a/src/simplified_representation/emitter.rs
+++ b/src/simplified_representation/emitter.rs
@@ -172,14 +172,17 @@ impl AstConverting for SrEmitter {
         node: &NodeTypeMapKey,
     ) -> Result<TraversalResult, String> {
         match node {
-            NodeTypeMapKey::GenericMapKey(key) => key.visit(self)?,
-            NodeTypeMapKey::EnclosedGenericId(key) => key.visit(self)?,
-            NodeTypeMapKey::EnclosedAddressMapKeyType(key) => key.visit(self)?,
-            NodeTypeMapKey::AddressMapKeyType(key) => key.visit(self)?,
+            NodeTypeMapKey::GenericMapKey(key) | NodeTypeMapKey::EnclosedGenericId(key) => {
+                key.visit(self)?;
+                let identifier = self.pop_ir_identifier()?;
+                self.stack
+                    .push(StackObject::TypeDefinition(identifier.into()));
+            }
+            NodeTypeMapKey::EnclosedAddressMapKeyType(key)
+            | NodeTypeMapKey::AddressMapKeyType(key) => {
+                key.visit(self)?;
+            }
         };
-        let identifier = self.pop_ir_identifier()?;
-        self.stack
-            .push(StackObject::TypeDefinition(identifier.into()));
         Ok(TraversalResult::SkipChildren)
     }
     fn emit_type_map_value(
-- 
2.43.0


From ff2ad25c24f01bc2dac2e55eed6e15fd4f678fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 18/27] fix: emit address type fields whatever kind of name
 they have

For a special or qualified name nothing was pushed, and the address type took
an unrelated declaration from the stack as its field.
---
 src/simplified_representation/emitter.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/simplified_representation/emitter.rs b/src/simplified_representation/emitter.rs
index a057290..533c423 100644
--- a/src/simplified_representation/emitter.rs
+++ b/src/simplified_representation/emitter.rs
@@ -325,12 +325,11 @@ impl AstConverting for SrEmitter {
     ) -> Result<TraversalResult, String> {
         match mode {
             TreeTraversalMode::Enter => {
-                if let NodeVariableIdentifier::VariableName(n) = &node.identifier.node {
-                    node.type_name.visit(self)?;
-                    let typename = self.pop_type_definition()?;
-                    let s = StackObject::VariableDeclaration(Field::new(&n.node, typename.into()));
-                    self.stack.push(s);
-                }
+                let name = node.identifier.to_string();
+                node.type_name.visit(self)?;
+                let typename = self.pop_type_definition()?;
+                let s = StackObject::VariableDeclaration(Field::new(&name, typename.into()));
+                self.stack.push(s);
             }
             TreeTraversalMode::Exit => (),
         }
-- 
2.43.0


From 87687b5303a7821b78366fe3663d70fb1190b01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 19/27] fix: visit component parameters once

The second visit left their declarations on the stack.
---
 src/simplified_representation/emitter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplified_representation/emitter.rs b/src/simplified_representation/emitter.rs
index 533c423..22bb58e 100644
--- a/src/simplified_representation/emitter.rs
+++ b/src/simplified_representation/emitter.rs
@@ -502,7 +502,7 @@ impl AstConverting for SrEmitter {
             }
             TreeTraversalMode::Exit => {}
         }
-        Ok(TraversalResult::Continue)
+        Ok(TraversalResult::SkipChildren)
     }
 
     fn emit_parameter_pair(
-- 
2.43.0


From 8c76502cab8d58f2e8cc84d341ce9e5d940d878f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 20/27] fix: report ill-formed types as errors

Too few arguments of Option, List and Pair panicked; surplus arguments of any
built-in type and an address type on another base were silently dropped.
---
 src/simplified_representation/emitter.rs    |  5 +--
 src/simplified_representation/primitives.rs | 36 ++++++++++++++++++++-
 2 files changed, 38 insertions(+), 3 deletions(-)

diff --git a/src/simplified_representation/emitter.rs b/src/simplified_representation/emitter.rs
index 22bb58e..3ab1238 100644
--- a/src/simplified_representation/emitter.rs
+++ b/src/simplified_representation/emitter.rs
@@ -328,7 +328,8 @@ impl AstConverting for SrEmitter {
                 let name = node.identifier.to_string();
                 node.type_name.visit(self)?;
                 let typename = self.pop_type_definition()?;
-                let s = StackObject::VariableDeclaration(Field::new(&name, typename.into()));
+                let s =
+                    StackObject::VariableDeclaration(Field::new(&name, typename.checked_into()?));
                 self.stack.push(s);
             }
             TreeTraversalMode::Exit => (),
@@ -539,7 +540,7 @@ impl AstConverting for SrEmitter {
 
         let typename = self.pop_type_definition()?;
 
-        let s = StackObject::VariableDeclaration(Field::new(&name.node, typename.into()));
+        let s = StackObject::VariableDeclaration(Field::new(&name.node, typename.checked_into()?));
         self.stack.push(s);
 
         Ok(TraversalResult::SkipChildren)
diff --git a/src/simplified_representation/primitives.rs b/src/simplified_representation/primitives.rs
index 0aa1620..ec68768 100644
--- a/src/simplified_representation/primitives.rs
+++ b/src/simplified_representation/primitives.rs
@@ -1,4 +1,4 @@
-use crate::FieldList;
+use crate::{FieldList, Type};
 
 /// Enum representing the different kinds of identifiers in the simplified representation.
 #[derive(Debug, Clone, PartialEq)]
@@ -55,6 +55,40 @@ impl SrType {
     pub fn push_sub_type(&mut self, sub_type: SrType) {
         self.sub_types.push(sub_type);
     }
+
+    /// Converts to the type of the interface, or reports why there is none.
+    pub fn checked_into(self) -> Result<Type, String> {
+        self.check()?;
+        Ok(self.into())
+    }
+
+    fn check(&self) -> Result<(), String> {
+        if self.address_type.is_some() && self.main_type != "ByStr20" {
+            return Err(format!("{} is not an address type.", self.main_type));
+        }
+        let expected = match self.main_type.as_str() {
+            "Int32" | "Int64" | "Int128" | "Int256" | "Uint32" | "Uint64" | "Uint128"
+            | "Uint256" | "String" | "BNum" | "Bool" | "ByStr" => 0,
+            "Option" | "List" => 1,
+            "Pair" | "Map" => 2,
+            _ => match Type::from(SrType {
+                sub_types: vec![],
+                ..self.clone()
+            }) {
+                Type::Other(_) => self.sub_types.len(),
+                _ => 0,
+            },
+        };
+        if self.sub_types.len() != expected {
+            return Err(format!(
+                "{} takes {} type arguments, but found {}.",
+                self.main_type,
+                expected,
+                self.sub_types.len()
+            ));
+        }
+        self.sub_types.iter().try_for_each(SrType::check)
+    }
 }
 
 impl From<SrIdentifier> for SrType {
-- 
2.43.0


From 54fa9ccb66176b74c19f06b3afd38004423c565a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:28 +0000
Subject: [PATCH 21/27] fix: announce source positions of visited nodes once

The position of three kinds of children was pushed a second time and never
popped.
---
 src/ast/visitor.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/ast/visitor.rs b/src/ast/visitor.rs
index 8482719..63a669f 100644
--- a/src/ast/visitor.rs
+++ b/src/ast/visitor.rs
@@ -433,7 +433,6 @@ impl AstVisitor for NodeMessageEntry {
                 }
                 NodeMessageEntry::MessageVariable(var_identifier1, var_identifier2) => {
                     var_identifier1.visit(emitter)?;
-                    emitter.push_source_position(&var_identifier2.start, &var_identifier2.end);
                     var_identifier2.visit(emitter)
                 }
             }
@@ -519,7 +518,6 @@ impl AstVisitor for NodeValueLiteral {
                 NodeValueLiteral::LiteralInt(type_name, _) => type_name.visit(emitter),
                 NodeValueLiteral::LiteralEmptyMap(type_map_key, type_map_value) => {
                     type_map_key.visit(emitter)?;
-                    emitter.push_source_position(&type_map_value.start, &type_map_value.end);
                     type_map_value.visit(emitter)
                 }
                 _ => Ok(TraversalResult::Continue),
@@ -602,8 +600,6 @@ impl AstVisitor for NodePatternMatchClause {
     fn visit(&self, emitter: &mut dyn AstConverting) -> Result<TraversalResult, String> {
         let ret = emitter.emit_pattern_match_clause(TreeTraversalMode::Enter, self);
         let children_ret = if ret == Ok(TraversalResult::Continue) {
-            emitter
-                .push_source_position(&self.pattern_expression.start, &self.pattern_expression.end);
             match self.pattern_expression.visit(emitter) {
                 Err(msg) => Err(msg),
                 _ => match &self.statement_block {
-- 
2.43.0


From b7af67a6dbff0cf2d08560df95fdf7aa0c83142e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:28 +0000
Subject: [PATCH 22/27] fix: stop the traversal at the first error in every
 node

Errors from builtin arguments, type arguments and address types were dropped.
An address type also got its exit callback when its children were skipped.
---
 src/ast/visitor.rs | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/ast/visitor.rs b/src/ast/visitor.rs
index 63a669f..5380595 100644
--- a/src/ast/visitor.rs
+++ b/src/ast/visitor.rs
@@ -154,11 +154,10 @@ impl AstVisitor for NodeBuiltinArguments {
         // Call the visitor on all children of NodeBuiltinArguments if ret == Ok(TraversalResult::Continue)
         let children_ret = if ret == Ok(TraversalResult::Continue) {
             // Visit each of the arguments
-            self.arguments
-                .iter()
-                .map(|argument| argument.visit(emitter))
-                .find(|r| *r == Err(String::from("Failure")))
-                .unwrap_or(Ok(TraversalResult::Continue))
+            for argument in &self.arguments {
+                argument.visit(emitter)?;
+            }
+            Ok(TraversalResult::Continue)
         } else {
             ret
         }?;
@@ -321,13 +320,11 @@ impl AstVisitor for NodeAddressType {
             self.identifier.visit(emitter)?;
 
             for field in &self.address_fields {
-                let ret = field.visit(emitter);
-
-                ret.as_ref()?;
+                field.visit(emitter)?;
             }
             ret
         } else {
-            Ok(TraversalResult::Continue)
+            ret
         }?;
         match children_ret {
             TraversalResult::Continue => emitter.emit_address_type(TreeTraversalMode::Exit, self),
@@ -493,11 +490,10 @@ impl AstVisitor for NodeContractTypeArguments {
     fn visit(&self, emitter: &mut dyn AstConverting) -> Result<TraversalResult, String> {
         let ret = emitter.emit_contract_type_arguments(TreeTraversalMode::Enter, self);
         let children_ret = if ret == Ok(TraversalResult::Continue) {
-            self.type_arguments
-                .iter()
-                .map(|child| child.visit(emitter))
-                .find(|result| *result == Err("".into()))
-                .unwrap_or(Ok(TraversalResult::Continue))
+            for child in &self.type_arguments {
+                child.visit(emitter)?;
+            }
+            Ok(TraversalResult::Continue)
         } else {
             ret
         }?;
-- 
2.43.0


From 7f22ba52d07804f189031348f1ef709c05f6b2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:28 +0000
Subject: [PATCH 23/27] fix: traverse let definitions of a library instead of
 panicking

---
 src/ast/visitor.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ast/visitor.rs b/src/ast/visitor.rs
index 5380595..e824152 100644
--- a/src/ast/visitor.rs
+++ b/src/ast/visitor.rs
@@ -980,13 +980,13 @@ impl AstVisitor for NodeLibrarySingleDefinition {
             match self {
                 NodeLibrarySingleDefinition::LetDefinition {
                     variable_name: _,
-                    type_annotation: _,
+                    type_annotation,
                     expression,
                 } => {
-                    // TODO: Unused variables aboce
-                    let _ = expression.visit(emitter)?;
-
-                    unimplemented!()
+                    if let Some(annotation) = type_annotation {
+                        annotation.visit(emitter)?;
+                    }
+                    expression.visit(emitter)
                 }
                 NodeLibrarySingleDefinition::TypeDefinition(name, option_clause) => {
                     let result = name.visit(emitter);
-- 
2.43.0


From 35a28d1508ecd9d29c707afddf142f38e22fe365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:28 +0000
Subject: [PATCH 24/27] fix: visit every child node

Type annotations, type arguments, the name of a library and of a contract, the
fetched blockchain name and the stored value of a map update were left out of
the traversal.
---
 src/ast/visitor.rs | 44 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 39 insertions(+), 5 deletions(-)

diff --git a/src/ast/visitor.rs b/src/ast/visitor.rs
index e824152..c097166 100644
--- a/src/ast/visitor.rs
+++ b/src/ast/visitor.rs
@@ -340,13 +340,22 @@ impl AstVisitor for NodeFullExpression {
             match self {
                 NodeFullExpression::LocalVariableDeclaration {
                     expression,
+                    type_annotation,
                     containing_expression,
                     ..
                 } => {
+                    if let Some(annotation) = type_annotation {
+                        annotation.visit(emitter)?;
+                    }
                     expression.visit(emitter)?;
                     containing_expression.visit(emitter)
                 }
-                NodeFullExpression::FunctionDeclaration { expression, .. } => {
+                NodeFullExpression::FunctionDeclaration {
+                    type_annotation,
+                    expression,
+                    ..
+                } => {
+                    type_annotation.visit(emitter)?;
                     expression.visit(emitter)
                 }
                 NodeFullExpression::FunctionCall {
@@ -361,7 +370,12 @@ impl AstVisitor for NodeFullExpression {
                     Ok(TraversalResult::Continue)
                 }
                 NodeFullExpression::ExpressionAtomic(atom_expr) => atom_expr.visit(emitter),
-                NodeFullExpression::ExpressionBuiltin { xs, .. } => xs.visit(emitter),
+                NodeFullExpression::ExpressionBuiltin { targs, xs, .. } => {
+                    if let Some(targs) = targs {
+                        targs.visit(emitter)?;
+                    }
+                    xs.visit(emitter)
+                }
                 NodeFullExpression::Message(message_entries) => {
                     for entry in message_entries {
                         entry.visit(emitter)?;
@@ -383,10 +397,13 @@ impl AstVisitor for NodeFullExpression {
                 }
                 NodeFullExpression::ConstructorCall {
                     identifier_name,
+                    contract_type_arguments,
                     argument_list,
-                    ..
                 } => {
                     identifier_name.visit(emitter)?;
+                    if let Some(targs) = contract_type_arguments {
+                        targs.visit(emitter)?;
+                    }
                     for arg in argument_list {
                         arg.visit(emitter)?;
                     }
@@ -648,15 +665,29 @@ impl AstVisitor for NodeStatement {
                 NodeStatement::Bind {
                     right_hand_side, ..
                 } => right_hand_side.visit(emitter),
-                NodeStatement::ReadFromBC { arguments, .. } => {
+                NodeStatement::ReadFromBC {
+                    type_name,
+                    arguments,
+                    ..
+                } => {
+                    type_name.visit(emitter)?;
                     if let Some(arg) = arguments {
                         arg.visit(emitter)
                     } else {
                         Ok(TraversalResult::Continue)
                     }
                 }
+                NodeStatement::MapUpdate {
+                    keys,
+                    right_hand_side,
+                    ..
+                } => {
+                    for key in keys {
+                        key.visit(emitter)?;
+                    }
+                    right_hand_side.visit(emitter)
+                }
                 NodeStatement::MapGet { keys, .. }
-                | NodeStatement::MapUpdate { keys, .. }
                 | NodeStatement::MapGetExists { keys, .. }
                 | NodeStatement::MapUpdateDelete { keys, .. } => {
                     for key in keys {
@@ -953,6 +984,8 @@ impl AstVisitor for NodeLibraryDefinition {
     fn visit(&self, emitter: &mut dyn AstConverting) -> Result<TraversalResult, String> {
         let ret = emitter.emit_library_definition(TreeTraversalMode::Enter, self);
         let children_ret = if ret == Ok(TraversalResult::Continue) {
+            self.name.visit(emitter)?;
+
             for definition in &self.definitions {
                 let result = definition.visit(emitter);
 
@@ -1020,6 +1053,7 @@ impl AstVisitor for NodeContractDefinition {
     fn visit(&self, emitter: &mut dyn AstConverting) -> Result<TraversalResult, String> {
         let ret = emitter.emit_contract_definition(TreeTraversalMode::Enter, self);
         let children_ret = if ret == Ok(TraversalResult::Continue) {
+            self.contract_name.visit(emitter)?;
             self.parameters.visit(emitter)?;
 
             if let Some(constraint) = &self.constraint {
-- 
2.43.0


From 7b785bddec7d223b099e75b73daa2a4557b9d8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:28 +0000
Subject: [PATCH 25/27] fix: print map types without a comma, as Scilla writes
 them

---
 src/type.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/type.rs b/src/type.rs
index 79d2f6d..24764e6 100644
--- a/src/type.rs
+++ b/src/type.rs
@@ -52,7 +52,7 @@ impl Display for Type {
             Type::String => write!(f, "String"),
             Type::BNum => write!(f, "BNum"),
             Type::Bool => write!(f, "Bool"),
-            Type::Map(ref k, ref v) => write!(f, "(Map {}, {})", k, v),
+            Type::Map(ref k, ref v) => write!(f, "(Map {} {})", k, v),
             Type::Option(ref k) => write!(f, "(Option {})", k),
             Type::List(ref k) => write!(f, "(List {})", k),
             Type::Pair(ref k, ref v) => write!(f, "(Pair {} {})", k, v),
-- 
2.43.0


From 3369ffcf171ac8d63445c03fea88ffbabd1c81ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:28 +0000
Subject: [PATCH 26/27] fix: print address types with spaces between the words
 and in parentheses

The kind and the first field ran together, and without parentheses an address
type can not be printed as the value of a map or an argument of another type.
---
 src/type.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/type.rs b/src/type.rs
index 24764e6..4c8ad63 100644
--- a/src/type.rs
+++ b/src/type.rs
@@ -60,12 +60,19 @@ impl Display for Type {
             Type::ByStrX(n) => write!(f, "ByStr{}", n),
             Type::ByStr20 => write!(f, "ByStr20"),
             Type::ByStr20With { type_name, fields } => {
+                write!(f, "(ByStr20 with ")?;
+                if !type_name.is_empty() {
+                    write!(f, "{type_name} ")?;
+                }
                 let fields = fields
                     .iter()
                     .map(|field| format!("field {}: {}", field.name, field.r#type))
                     .collect::<Vec<String>>()
                     .join(", ");
-                write!(f, "ByStr20 with {type_name}{fields} end")
+                if !fields.is_empty() {
+                    write!(f, "{fields} ")?;
+                }
+                write!(f, "end)")
             }
             Type::Other(ref s) => write!(f, "{}", s),
         }
-- 
2.43.0


From 124db0ce24feebea75bd29508bb9563b3f186ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:04 +0000
Subject: [PATCH 27/27] fix: report a 20-byte string as ByStr20 however its
 width is written

---
 src/type.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/type.rs b/src/type.rs
index 4c8ad63..4fac9f2 100644
--- a/src/type.rs
+++ b/src/type.rs
@@ -118,7 +118,10 @@ impl From<SrType> for Type {
                     .strip_prefix("ByStr")
                     .and_then(|s| s.parse::<usize>().ok())
                 {
-                    Type::ByStrX(number)
+                    match number {
+                        20 => Type::ByStr20,
+                        _ => Type::ByStrX(number),
+                    }
                 } else {
                     Type::Other(type_definition.main_type)
                 }
-- 
2.43.0

