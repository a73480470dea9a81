From 302bdc04b0020c941d4063453e069bec699ebee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:26 +0000
Subject: [PATCH 01/39] fix: do not underflow when two members share the first
 line

---
 src/enum_def.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/enum_def.rs b/src/enum_def.rs
index 97e1106..caef97b 100644
--- a/src/enum_def.rs
+++ b/src/enum_def.rs
@@ -819,7 +819,7 @@ impl<M> BodyMember<M> {
         }
 
         node.next_named_sibling()
-            .is_some_and(|n| node.end_position().row < n.start_position().row - 1)
+            .is_some_and(|n| node.end_position().row + 1 < n.start_position().row)
     }
 }
 
-- 
2.43.0


From 7b28d509e67898cb277fe95d74c1f67c1c35ab7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:43 +0000
Subject: [PATCH 02/39] fix: keep every update expression of a for statement

---
 src/accessor.rs   |  8 ++++++++
 src/data_model.rs | 19 +++++++++++++------
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/accessor.rs b/src/accessor.rs
index 67bfbe2..0637f07 100644
--- a/src/accessor.rs
+++ b/src/accessor.rs
@@ -18,6 +18,7 @@ pub trait Accessor<'t> {
     fn try_c_by_n(&self, kind: &str) -> Option<Node<'t>>;
     fn try_c_by_k(&self, kind: &str) -> Option<Node<'t>>;
     fn try_cs_by_k(&self, kind: &str) -> Vec<Node<'t>>;
+    fn try_cs_by_n(&self, name: &str) -> Vec<Node<'t>>;
 
     fn c_by_n(&self, name: &str) -> Node<'t>;
     fn c_by_k(&self, kind: &str) -> Node<'t>;
@@ -83,6 +84,13 @@ impl<'t> Accessor<'t> for Node<'t> {
             .collect()
     }
 
+    fn try_cs_by_n(&self, name: &str) -> Vec<Node<'t>> {
+        let mut cursor = self.walk();
+        self.children_by_field_name(name, &mut cursor)
+            .filter(|c| c.is_named())
+            .collect()
+    }
+
     fn try_c_by_n(&self, name: &str) -> Option<Node<'t>> {
         self.child_by_field_name(name)
     }
diff --git a/src/data_model.rs b/src/data_model.rs
index 67bb626..8de293e 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1462,7 +1462,7 @@ impl<'a> DocBuild<'a> for ForInitOption {
 pub struct ForStatement {
     pub init: Option<ForInitOption>,
     pub condition: Option<Expression>,
-    pub update: Option<Expression>,
+    pub updates: Vec<Expression>,
     pub body: Statement,
     pub semicolons: Vec<Punctuation>,
     pub node_context: NodeContext,
@@ -1478,7 +1478,11 @@ impl ForStatement {
 
         let init = node.try_c_by_n("init").map(|n| ForInitOption::new(n));
         let condition = node.try_c_by_n("condition").map(|n| Expression::new(n));
-        let update = node.try_c_by_n("update").map(|n| Expression::new(n));
+        let updates = node
+            .try_cs_by_n("update")
+            .into_iter()
+            .map(|n| Expression::new(n))
+            .collect();
 
         let semicolons = Self::build_semi_colons(&node);
 
@@ -1496,7 +1500,7 @@ impl ForStatement {
         Self {
             init,
             condition,
-            update,
+            updates,
             body: Statement::new(node.c_by_n("body")),
             semicolons,
             node_context: NodeContext::with_punctuation(&node),
@@ -1529,9 +1533,12 @@ impl<'a> DocBuild<'a> for ForStatement {
                 None => semicolons_iter.next().unwrap().build(b),
             };
 
-            let update = match &self.update {
-                Some(u) => b.concat(vec![b.txt(" "), u.build(b)]),
-                None => b.nil(),
+            let update = if self.updates.is_empty() {
+                b.nil()
+            } else {
+                let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
+                let update_docs = b.to_docs(&self.updates);
+                b.concat(vec![b.txt(" "), b.intersperse(&update_docs, sep)])
             };
 
             let docs = vec![init, condition, update];
-- 
2.43.0


From 85f52ff38596a7f46fd23272b0a5fe742417669a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:20 +0000
Subject: [PATCH 03/39] fix: print the semicolon after for-init expressions
 only once

---
 src/data_model.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/data_model.rs b/src/data_model.rs
index 8de293e..b9d4c2d 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1523,6 +1523,11 @@ impl<'a> DocBuild<'a> for ForStatement {
 
             let mut semicolons_iter = self.semicolons.iter();
 
+            // the first semicolon is printed by the init expressions themselves
+            if let Some(ForInitOption::Exps(_)) = &self.init {
+                semicolons_iter.next();
+            }
+
             let init = match &self.init {
                 Some(i) => i.build(b),
                 None => semicolons_iter.next().unwrap().build(b),
-- 
2.43.0


From 0c03bbca278467aad003618e9c50299418c77103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:23 +0000
Subject: [PATCH 04/39] fix: do not print an empty if/else body twice

---
 src/data_model.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index b9d4c2d..d8671cb 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1360,30 +1360,39 @@ impl<'a> DocBuild<'a> for IfStatement {
             if self.consequence.is_block() {
                 result.push(b.txt(" "));
                 result.push(self.consequence.build(b));
-            } else {
+            } else if !matches!(self.consequence, Statement::SemiColumn) {
+                // an empty consequence `;` is already printed as condition's punctuation
                 result.push(b.indent(b.nl()));
                 result.push(b.indent(self.consequence.build(b)));
             }
 
             // Handle the 'else' part
             if let Some(ref alt) = self.alternative {
+                // an empty alternative `;` is already printed as else's punctuation
+                let is_alt_empty = matches!(alt.statement, Statement::SemiColumn);
+
                 if self.consequence.is_block() {
                     result.push(b.txt(" "));
 
                     result.push(alt.else_node.build(b));
-                    result.push(b.txt(" "));
+                    if !is_alt_empty {
+                        result.push(b.txt(" "));
+                    }
                 } else {
                     result.push(b.nl());
 
                     result.push(alt.else_node.build(b));
 
-                    if !matches!(alt.statement, Statement::If(_) | Statement::Block(_)) {
+                    if is_alt_empty {
+                    } else if !matches!(alt.statement, Statement::If(_) | Statement::Block(_)) {
                         result.push(b.indent(b.nl()));
                     } else {
                         result.push(b.txt(" "));
                     }
                 }
-                result.push(alt.statement.build(b));
+                if !is_alt_empty {
+                    result.push(alt.statement.build(b));
+                }
             }
         });
     }
-- 
2.43.0


From c8687d0ef766b12fcde15b789b5bbf05d7b5fe2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:14 +0000
Subject: [PATCH 05/39] fix: keep a node's own tokens when it only contains
 comments

---
 src/utility.rs | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/utility.rs b/src/utility.rs
index 8ce88c1..81ea7e8 100644
--- a/src/utility.rs
+++ b/src/utility.rs
@@ -288,11 +288,10 @@ pub fn build_with_comments<'a, F>(
     let bucket = get_comment_bucket(&node_context.id);
     handle_pre_comments(b, bucket, result);
 
-    if bucket.dangling_comments.is_empty() {
-        handle_members(b, result);
-    } else {
+    handle_members(b, result);
+    if !bucket.dangling_comments.is_empty() {
+        result.push(b.txt(" "));
         result.push(b.concat(handle_dangling_comments(b, bucket)));
-        return;
     }
 
     handle_post_comments(b, bucket, result);
@@ -309,9 +308,9 @@ pub fn build_with_comments_core<'a, F>(
     let bucket = get_comment_bucket(&node_context.id);
     handle_pre_comments(b, bucket, result);
 
-    if bucket.dangling_comments.is_empty() {
-        handle_members(b, result);
-    } else {
+    handle_members(b, result);
+    if !bucket.dangling_comments.is_empty() {
+        result.push(b.txt(" "));
         result.push(b.concat(handle_dangling_comments(b, bucket)));
     }
 }
@@ -327,9 +326,7 @@ pub fn build_with_comments_and_punc<'a, F>(
     build_with_comments_core(b, node_context, result, handle_members);
 
     let bucket = get_comment_bucket(&node_context.id);
-    if bucket.dangling_comments.is_empty() {
-        handle_post_comments(b, bucket, result);
-    }
+    handle_post_comments(b, bucket, result);
 
     if let Some(ref n) = node_context.punc {
         result.push(n.build(b));
@@ -353,9 +350,7 @@ pub fn build_with_comments_and_punc_attached<'a, F>(
         result.push(n.build(b));
     }
 
-    if bucket.dangling_comments.is_empty() {
-        handle_post_comments(b, bucket, result);
-    }
+    handle_post_comments(b, bucket, result);
 }
 
 pub fn handle_dangling_comments_in_bracket_surround<'a>(
-- 
2.43.0


From ab165c087dab62f3d0d1c86310cc1fee027a17b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:27 +0000
Subject: [PATCH 06/39] fix: format a file that only contains comments

---
 src/data_model.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index d8671cb..3467782 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -49,12 +49,8 @@ impl<'a> DocBuild<'a> for Root {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         let bucket = get_comment_bucket(&self.node_context.id);
         if !bucket.dangling_comments.is_empty() {
-            let docs: Vec<_> = bucket
-                .dangling_comments
-                .iter()
-                .map(|n| n.build(b))
-                .collect();
-            return result.push(b.concat(docs));
+            result.push(b.concat(handle_dangling_comments(b, bucket)));
+            return result.push(b.nl());
         }
 
         let doc = b.intersperse_body_members(&self.members);
-- 
2.43.0


From 1270356b9d6c29e71d4c6d1947670a6043b7f001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:08 +0000
Subject: [PATCH 07/39] fix: print every pair of brackets of a
 multi-dimensional array

---
 src/data_model.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 3467782..3d46063 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -2703,6 +2703,7 @@ impl<'a> DocBuild<'a> for ArrayCreationVariant {
 
 #[derive(Debug)]
 pub struct Dimensions {
+    pub count: usize,
     pub node_context: NodeContext,
 }
 
@@ -2710,7 +2711,13 @@ impl Dimensions {
     pub fn new(node: Node) -> Self {
         assert_check(node, "dimensions");
 
+        let count = node
+            .children(&mut node.walk())
+            .filter(|n| n.kind() == "[")
+            .count();
+
         Self {
+            count,
             node_context: NodeContext::with_punctuation(&node),
         }
     }
@@ -2719,7 +2726,7 @@ impl Dimensions {
 impl<'a> DocBuild<'a> for Dimensions {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
-            result.push(b.txt("[]"));
+            result.push(b.txt("[]".repeat(self.count)));
         });
     }
 }
-- 
2.43.0


From 0650909e39a61e4e7fad7d8f231ba7528b512e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:11 +0000
Subject: [PATCH 08/39] fix: keep the modifiers and dimensions of an enhanced
 for variable

---
 src/data_model.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 3d46063..34adcbc 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1572,10 +1572,10 @@ impl<'a> DocBuild<'a> for ForStatement {
 
 #[derive(Debug)]
 pub struct EnhancedForStatement {
-    //pub modifiers: Option<Modifiers>,
+    pub modifiers: Option<Modifiers>,
     pub type_: UnannotatedType,
     pub name: ValueNode,
-    //pub dimension
+    pub dimensions: Option<Dimensions>,
     pub value: Expression,
     pub body: Statement,
     pub node_context: NodeContext,
@@ -1585,12 +1585,13 @@ impl EnhancedForStatement {
     pub fn new(node: Node) -> Self {
         assert_check(node, "enhanced_for_statement");
 
-        //let modifiers = node.try_c_by_k("modifiers").map(|n| Modifiers::new(n));
+        let modifiers = node.try_c_by_k("modifiers").map(|n| Modifiers::new(n));
 
         Self {
-            //modifiers,
+            modifiers,
             type_: UnannotatedType::new(node.c_by_n("type")),
             name: ValueNode::new(node.c_by_n("name")),
+            dimensions: node.try_c_by_n("dimensions").map(Dimensions::new),
             value: Expression::new(node.c_by_n("value")),
             body: Statement::new(node.c_by_n("body")),
             node_context: NodeContext::with_punctuation(&node),
@@ -1602,9 +1603,15 @@ impl<'a> DocBuild<'a> for EnhancedForStatement {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
             result.push(b.txt("for ("));
+            if let Some(ref n) = self.modifiers {
+                result.push(n.build(b));
+            }
             result.push(self.type_.build(b));
             result.push(b.txt(" "));
             result.push(self.name.build(b));
+            if let Some(ref n) = self.dimensions {
+                result.push(n.build(b));
+            }
             result.push(b._txt_(":"));
             result.push(self.value.build(b));
             result.push(b.txt(")"));
-- 
2.43.0


From 492c1dea09931533227991773d61b2529a1c8772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:15 +0000
Subject: [PATCH 09/39] fix: keep the dimensions of a variable declarator

---
 src/data_model.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 34adcbc..79bcc15 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1195,7 +1195,7 @@ impl<'a> DocBuild<'a> for LocalVariableDeclaration {
 #[derive(Debug)]
 pub struct VariableDeclarator {
     pub name: ValueNode,
-    //pub dimenssions
+    pub dimensions: Option<Dimensions>,
     pub op: Option<ValueNode>,
     pub value: Option<VariableInitializer>,
     pub is_value_child_a_query_node: bool,
@@ -1215,6 +1215,7 @@ impl VariableDeclarator {
 
         Self {
             name: ValueNode::new(node.c_by_n("name")),
+            dimensions: node.try_c_by_n("dimensions").map(Dimensions::new),
             op,
             value,
             is_value_child_a_query_node,
@@ -1228,6 +1229,9 @@ impl<'a> DocBuild<'a> for VariableDeclarator {
         // TODO: handle dotted expression use-case
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
             let mut docs = vec![self.name.build(b)];
+            if let Some(ref n) = self.dimensions {
+                docs.push(n.build(b));
+            }
 
             if self.value.is_none() {
                 result.push(b.concat(docs));
-- 
2.43.0


From 5b0beae00fd60a5691b6a83c63991f19cb900a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 10/39] fix: keep the type parameters and dimensions of a
 method

---
 src/data_model.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 79bcc15..7bd33e1 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -130,11 +130,13 @@ impl<'a> DocBuild<'a> for ClassDeclaration {
 #[derive(Debug)]
 pub struct MethodDeclaration {
     pub modifiers: Option<Modifiers>,
+    pub type_parameters: Option<TypeParameters>,
+    pub annotations: Vec<Annotation>,
     pub type_: UnannotatedType,
     pub name: ValueNode,
     pub formal_parameters: FormalParameters,
+    pub dimensions: Option<Dimensions>,
     pub body: Option<Block>,
-    //pub dimensions
     pub node_context: NodeContext,
 }
 
@@ -144,9 +146,18 @@ impl MethodDeclaration {
 
         Self {
             modifiers: node.try_c_by_k("modifiers").map(|n| Modifiers::new(n)),
+            type_parameters: node
+                .try_c_by_n("type_parameters")
+                .map(|n| TypeParameters::new(n)),
+            annotations: node
+                .try_cs_by_k("annotation")
+                .into_iter()
+                .map(|n| Annotation::new(n))
+                .collect(),
             type_: UnannotatedType::new(node.c_by_n("type")),
             name: ValueNode::new(node.c_by_n("name")),
             formal_parameters: FormalParameters::new(node.c_by_n("parameters")),
+            dimensions: node.try_c_by_n("dimensions").map(|n| Dimensions::new(n)),
             body: node.try_c_by_n("body").map(|n| Block::new(n)),
             node_context: NodeContext::with_punctuation(&node),
         }
@@ -159,11 +170,19 @@ impl<'a> DocBuild<'a> for MethodDeclaration {
             if let Some(ref n) = self.modifiers {
                 result.push(n.build(b));
             }
+            if let Some(ref n) = self.type_parameters {
+                result.push(n.build(b));
+                result.push(b.txt(" "));
+            }
+            result.extend(self.annotations.iter().map(|n| n.build(b)));
 
             result.push(self.type_.build(b));
             result.push(b.txt(" "));
             result.push(self.name.build(b));
             result.push(self.formal_parameters.build(b));
+            if let Some(ref n) = self.dimensions {
+                result.push(n.build(b));
+            }
 
             if let Some(ref n) = self.body {
                 result.push(b.txt(" "));
-- 
2.43.0


From 76e061c1cd9e957ddc767ea09db691e3bf6f1cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:23 +0000
Subject: [PATCH 11/39] fix: keep the dot between an object and its explicit
 constructor call

---
 src/data_model.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data_model.rs b/src/data_model.rs
index 7bd33e1..8b3bf6c 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1924,6 +1924,7 @@ impl<'a> DocBuild<'a> for ConstructInvocation {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
             if let Some(ref o) = self.object {
                 result.push(o.build(b));
+                result.push(b.txt("."));
             }
 
             if let Some(ref t) = self.type_arguments {
-- 
2.43.0


From 7d01b31d3a5f84c8ddffc9e613db5118a6f8c8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:27 +0000
Subject: [PATCH 12/39] fix: keep the bound of a type parameter

---
 src/data_model.rs | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/src/data_model.rs b/src/data_model.rs
index 8b3bf6c..89c40a6 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1996,6 +1996,7 @@ impl<'a> DocBuild<'a> for TypeParameters {
 pub struct TypeParameter {
     annotations: Vec<Annotation>,
     pub type_identifier: String,
+    pub type_bound: Option<TypeBound>,
     pub node_context: NodeContext,
 }
 
@@ -2010,6 +2011,7 @@ impl TypeParameter {
         Self {
             annotations,
             type_identifier: node.cvalue_by_k("type_identifier"),
+            type_bound: node.try_c_by_k("type_bound").map(|n| TypeBound::new(n)),
             node_context: NodeContext::with_punctuation(&node),
         }
     }
@@ -2025,6 +2027,42 @@ impl<'a> DocBuild<'a> for TypeParameter {
                 result.push(b.txt(" "));
             }
             result.push(b.txt(&self.type_identifier));
+            if let Some(ref n) = self.type_bound {
+                result.push(b.txt(" "));
+                result.push(n.build(b));
+            }
+        });
+    }
+}
+
+#[derive(Debug)]
+pub struct TypeBound {
+    pub types: Vec<Type>,
+    pub node_context: NodeContext,
+}
+
+impl TypeBound {
+    pub fn new(node: Node) -> Self {
+        assert_check(node, "type_bound");
+
+        Self {
+            types: node
+                .children_vec()
+                .into_iter()
+                .map(|n| Type::new(n))
+                .collect(),
+            node_context: NodeContext::with_punctuation(&node),
+        }
+    }
+}
+
+impl<'a> DocBuild<'a> for TypeBound {
+    fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
+        build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
+            result.push(b.txt_("extends"));
+            let docs = b.to_docs(&self.types);
+            let sep = Insertable::new(None, Some(" & "), None);
+            result.push(b.intersperse(&docs, sep));
         });
     }
 }
-- 
2.43.0


From 1c34646e1015fcbe41ab491cb1638beb3ec8a5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:25 +0000
Subject: [PATCH 13/39] fix: keep every object of a SOQL FROM clause

---
 src/data_model.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 89c40a6..3d44e53 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -4374,7 +4374,7 @@ impl<'a> DocBuild<'a> for SoqlQueryBody {
 
 #[derive(Debug)]
 pub struct FromClause {
-    pub content: StorageVariant,
+    pub contents: Vec<StorageVariant>,
     pub node_context: NodeContext,
 }
 
@@ -4383,7 +4383,11 @@ impl FromClause {
         assert_check(node, "from_clause");
 
         Self {
-            content: StorageVariant::new(node.first_c()),
+            contents: node
+                .children_vec()
+                .into_iter()
+                .map(|n| StorageVariant::new(n))
+                .collect(),
             node_context: NodeContext::with_punctuation(&node),
         }
     }
@@ -4393,7 +4397,9 @@ impl<'a> DocBuild<'a> for FromClause {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
             result.push(b.txt_("FROM"));
-            result.push(self.content.build(b));
+            let docs = b.to_docs(&self.contents);
+            let sep = Insertable::new(None, Some(" "), None);
+            result.push(b.intersperse(&docs, sep));
         });
     }
 }
-- 
2.43.0


From d65bfca3c787a42d68352f1e9122f55a4d33021a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 14/39] fix: keep every type of a SOQL FOR clause

---
 src/data_model.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 3d44e53..ffa0264 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -6071,7 +6071,7 @@ impl<'a> DocBuild<'a> for SoqlWithType {
 
 #[derive(Debug)]
 pub struct ForClause {
-    pub for_type: ValueNode,
+    pub for_types: Vec<ValueNode>,
     pub node_context: NodeContext,
 }
 
@@ -6080,7 +6080,11 @@ impl ForClause {
         assert_check(node, "for_clause");
 
         Self {
-            for_type: ValueNode::new(node.c_by_k("for_type")),
+            for_types: node
+                .cs_by_k("for_type")
+                .into_iter()
+                .map(|n| ValueNode::new(n))
+                .collect(),
             node_context: NodeContext::with_punctuation(&node),
         }
     }
@@ -6089,7 +6093,9 @@ impl ForClause {
 impl<'a> DocBuild<'a> for ForClause {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
-            result.push(self.for_type.build(b));
+            let docs = b.to_docs(&self.for_types);
+            let sep = Insertable::new(None, Some(" "), None);
+            result.push(b.intersperse(&docs, sep));
         });
     }
 }
-- 
2.43.0


From 18fa59c12822ec24f98b8bc2d334bbad4496c0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:52 +0000
Subject: [PATCH 15/39] fix: keep the USING and UPDATE clauses of a SOQL query

---
 src/data_model.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index ffa0264..fd12e21 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -4271,7 +4271,7 @@ impl<'a> DocBuild<'a> for SObjectReturnQuery {
 pub struct SoqlQueryBody {
     pub select_clause: SelectClause,
     pub from_clause: FromClause,
-    //using_clause;
+    pub using_clause: Option<UsingClause>,
     pub where_clause: Option<WhereClause>,
     pub with_clause: Option<SoqlWithClause>,
     pub group_by_clause: Option<GroupByClause>,
@@ -4279,7 +4279,7 @@ pub struct SoqlQueryBody {
     pub limit_clause: Option<LimitClause>,
     pub offset_clause: Option<OffsetClause>,
     pub for_clause: Vec<ForClause>,
-    //update_c;
+    pub update_clause: Option<UpdateClause>,
     pub all_rows_clause: Option<AllRowsClause>,
     pub node_context: NodeContext,
 }
@@ -4288,6 +4288,7 @@ impl SoqlQueryBody {
     pub fn new(node: Node) -> Self {
         assert_check(node, "soql_query_body");
 
+        let using_clause = node.try_c_by_n("using_clause").map(|n| UsingClause::new(n));
         let where_clause = node.try_c_by_n("where_clause").map(|n| WhereClause::new(n));
         let with_clause = node
             .try_c_by_n("with_clause")
@@ -4302,6 +4303,9 @@ impl SoqlQueryBody {
         let offset_clause = node
             .try_c_by_n("offset_clause")
             .map(|n| OffsetClause::new(n));
+        let update_clause = node
+            .try_c_by_n("update_clause")
+            .map(|n| UpdateClause::new(n));
         let all_rows_clause = node
             .try_c_by_n("all_rows_clause")
             .map(|n| AllRowsClause::new(n));
@@ -4314,6 +4318,7 @@ impl SoqlQueryBody {
         Self {
             select_clause: SelectClause::new(node.c_by_n("select_clause")),
             from_clause: FromClause::new(node.c_by_n("from_clause")),
+            using_clause,
             where_clause,
             with_clause,
             group_by_clause,
@@ -4321,6 +4326,7 @@ impl SoqlQueryBody {
             limit_clause,
             offset_clause,
             for_clause,
+            update_clause,
             all_rows_clause,
             node_context: NodeContext::with_punctuation(&node),
         }
@@ -4334,6 +4340,9 @@ impl<'a> DocBuild<'a> for SoqlQueryBody {
             docs.push(self.select_clause.build(b));
             docs.push(self.from_clause.build(b));
 
+            if let Some(ref n) = self.using_clause {
+                docs.push(n.build(b));
+            }
             if let Some(ref n) = self.where_clause {
                 docs.push(n.build(b));
             }
@@ -4364,6 +4373,9 @@ impl<'a> DocBuild<'a> for SoqlQueryBody {
                 let for_clause_doc = b.concat(vec![b.txt_("FOR"), for_types_doc]);
                 docs.push(for_clause_doc);
             }
+            if let Some(ref n) = self.update_clause {
+                docs.push(n.build(b));
+            }
 
             let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
             let doc = b.intersperse(&docs, sep);
-- 
2.43.0


From bf763db9cc12283d6c76c0dbadfa561287aa460e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:55 +0000
Subject: [PATCH 16/39] fix: print ALL ROWS after the FOR clause of a SOQL
 query

---
 src/data_model.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index fd12e21..43c418f 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -4361,9 +4361,6 @@ impl<'a> DocBuild<'a> for SoqlQueryBody {
             if let Some(ref n) = self.offset_clause {
                 docs.push(n.build(b));
             }
-            if let Some(ref n) = self.all_rows_clause {
-                docs.push(n.build(b));
-            }
             if !self.for_clause.is_empty() {
                 let for_types: Vec<DocRef<'_>> =
                     self.for_clause.iter().map(|n| n.build(b)).collect();
@@ -4376,6 +4373,9 @@ impl<'a> DocBuild<'a> for SoqlQueryBody {
             if let Some(ref n) = self.update_clause {
                 docs.push(n.build(b));
             }
+            if let Some(ref n) = self.all_rows_clause {
+                docs.push(n.build(b));
+            }
 
             let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
             let doc = b.intersperse(&docs, sep);
-- 
2.43.0


From 3d04ce54d18f9acc7d3d5eca99b5a2d29799e0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:59 +0000
Subject: [PATCH 17/39] fix: keep the OFFSET clause and every RETURNING clause
 of a SOSL query

---
 src/data_model.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 43c418f..3151d1e 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -3995,11 +3995,11 @@ impl<'a> DocBuild<'a> for QueryBody {
 pub struct SoslQueryBody {
     pub find_clause: FindClause,
     pub in_clause: Option<InClause>,
-    pub returning_clause: Option<ReturningClause>,
+    pub returning_clauses: Vec<ReturningClause>,
     pub with_clauses: Vec<SoslWithClause>,
     pub using_clause: Option<SoslUsingClause>,
     pub limit_clause: Option<LimitClause>,
-    //pub offset_clause: Option<OffsetClause>,
+    pub offset_clause: Option<OffsetClause>,
     pub update_clause: Option<UpdateClause>,
     pub node_context: NodeContext,
 }
@@ -4010,9 +4010,11 @@ impl SoslQueryBody {
 
         let find_clause = FindClause::new(node.c_by_k("find_clause"));
         let in_clause = node.try_c_by_k("in_clause").map(|n| InClause::new(n));
-        let returning_clause = node
-            .try_c_by_k("returning_clause")
-            .map(|n| ReturningClause::new(n));
+        let returning_clauses = node
+            .try_cs_by_k("returning_clause")
+            .into_iter()
+            .map(|n| ReturningClause::new(n))
+            .collect();
         let with_clauses = node
             .try_cs_by_k("with_clause")
             .into_iter()
@@ -4022,6 +4024,9 @@ impl SoslQueryBody {
             .try_c_by_k("sosl_using_clause")
             .map(|n| SoslUsingClause::new(n));
         let limit_clause = node.try_c_by_k("limit_clause").map(|n| LimitClause::new(n));
+        let offset_clause = node
+            .try_c_by_k("offset_clause")
+            .map(|n| OffsetClause::new(n));
         let update_clause = node
             .try_c_by_k("update_clause")
             .map(|n| UpdateClause::new(n));
@@ -4029,10 +4034,11 @@ impl SoslQueryBody {
         Self {
             find_clause,
             in_clause,
-            returning_clause,
+            returning_clauses,
             with_clauses,
             using_clause,
             limit_clause,
+            offset_clause,
             update_clause,
             node_context: NodeContext::with_punctuation(&node),
         }
@@ -4048,9 +4054,7 @@ impl<'a> DocBuild<'a> for SoslQueryBody {
             if let Some(ref n) = self.in_clause {
                 docs.push(n.build(b));
             }
-            if let Some(ref n) = self.returning_clause {
-                docs.push(n.build(b));
-            }
+            docs.extend(self.returning_clauses.iter().map(|n| n.build(b)));
             if !self.with_clauses.is_empty() {
                 let with_clauses_docs = b.to_docs(&self.with_clauses);
                 let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
@@ -4063,6 +4067,9 @@ impl<'a> DocBuild<'a> for SoslQueryBody {
             if let Some(ref n) = self.limit_clause {
                 docs.push(n.build(b));
             }
+            if let Some(ref n) = self.offset_clause {
+                docs.push(n.build(b));
+            }
             if let Some(ref n) = self.update_clause {
                 docs.push(n.build(b));
             }
-- 
2.43.0


From 7065b49b4b624f8d1b5a1ed0ccd4b6c311390472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:59 +0000
Subject: [PATCH 18/39] fix: keep the parentheses of a negated NOT condition

---
 src/enum_def.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/enum_def.rs b/src/enum_def.rs
index caef97b..4982056 100644
--- a/src/enum_def.rs
+++ b/src/enum_def.rs
@@ -1237,7 +1237,8 @@ impl ConditionExpression {
     fn should_parenthesize(parent_op: Option<&str>, child_op: Option<&str>) -> bool {
         // Parentheses are NOT needed if both parent and child operators are the same.
         // Otherwise, parentheses are needed to maintain correct logical grouping.
-        !matches!((parent_op, child_op), (Some(parent), Some(child)) if parent == child)
+        // NOT is no chaining operator: `NOT NOT a` isn't valid SOQL.
+        !matches!((parent_op, child_op), (Some(parent), Some(child)) if parent == child && parent != "NOT")
     }
 }
 
-- 
2.43.0


From f3dc8c529e42c57656d83d65d9b1635f3c019fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 19/39] fix: do not print a comment inside a verbatim value
 twice

---
 src/data_model.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/data_model.rs b/src/data_model.rs
index 3151d1e..8a7e795 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -5711,6 +5711,21 @@ impl ValueNode {
 
 impl<'a> DocBuild<'a> for ValueNode {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
+        let bucket = get_comment_bucket(&self.node_context.id);
+        if !bucket.dangling_comments.is_empty() {
+            // comments inside the node are already part of its verbatim value
+            handle_pre_comments(b, bucket, result);
+            result.push(b.txt(&self.value));
+            for comment in &bucket.dangling_comments {
+                comment.mark_as_printed();
+            }
+            handle_post_comments(b, bucket, result);
+            if let Some(ref n) = self.node_context.punc {
+                result.push(n.build(b));
+            }
+            return;
+        }
+
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
             result.push(b.txt(&self.value));
         });
-- 
2.43.0


From 1f53953c387503e4b4c86ec415c966d72b5e457a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 20/39] fix: do not add or drop stars in the content of a
 JavaDoc comment

---
 src/context.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/context.rs b/src/context.rs
index 4737a6c..356b56d 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -148,6 +148,7 @@ impl<'a> DocBuild<'a> for Comment {
                 // JavaDoc formatting
                 if self.value.starts_with("/**") {
                     // Handle the first line that might contain both /** and content
+                    let mut has_first_line_content = false;
                     if !lines.is_empty() {
                         let first_line = lines[0].trim();
                         if first_line.len() > 3 {
@@ -156,6 +157,7 @@ impl<'a> DocBuild<'a> for Comment {
                             let content = first_line[3..].trim();
                             if !content.is_empty() {
                                 // Replace first line with just /**
+                                has_first_line_content = true;
                                 lines[0] = "/**";
                                 // Insert the content as a new second line
                                 lines.insert(1, content);
@@ -165,6 +167,8 @@ impl<'a> DocBuild<'a> for Comment {
 
                     for (i, line) in lines.iter().enumerate() {
                         let trimmed = line.trim();
+                        // a star right after /** belongs to the content
+                        let is_first_line_content = has_first_line_content && i == 1;
 
                         if i == 0 {
                             // First line (/**) remains unchanged
@@ -172,6 +176,10 @@ impl<'a> DocBuild<'a> for Comment {
                         } else if i == lines.len() - 1 {
                             if let Some(before_end) = trimmed.strip_suffix("*/") {
                                 let content = before_end.trim();
+                                let content = match content.strip_prefix('*') {
+                                    Some(after_star) if !is_first_line_content => after_star.trim(),
+                                    _ => content,
+                                };
                                 if content.is_empty() {
                                     result.push(b.txt(" */"));
                                 } else {
@@ -187,7 +195,9 @@ impl<'a> DocBuild<'a> for Comment {
                             result.push(b.txt(" *"));
                         } else {
                             // Handle content lines
-                            if let Some(after_star) = trimmed.strip_prefix('*') {
+                            if is_first_line_content {
+                                result.push(b.txt(format!(" * {}", trimmed)));
+                            } else if let Some(after_star) = trimmed.strip_prefix('*') {
                                 // Line has a star - normalize to exactly one space
                                 let content = after_star.trim_start(); // Remove all leading spaces
                                 if content.is_empty() {
-- 
2.43.0


From 84ab78f1f3e90e99b3a47dc313a07fad7282ad59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:42 +0000
Subject: [PATCH 21/39] fix: do not print comments of a SOQL WITH type twice

---
 src/data_model.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 8a7e795..df9568b 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -5296,7 +5296,7 @@ impl<'a> DocBuild<'a> for SoqlWithClause {
 
 #[derive(Debug)]
 pub enum SoqlWithTypeVariant {
-    SimpleType(ValueNode), // Security_Enforced, User_Mode, and System_Mode
+    SimpleType(String), // Security_Enforced, User_Mode, and System_Mode
     //RecordVisibility(WithRecordVisibilityExpression),
     //DataCategory(WithDataCatExpression),
     UserId(ValueNode),
@@ -5305,7 +5305,7 @@ pub enum SoqlWithTypeVariant {
 impl SoqlWithTypeVariant {
     pub fn new(node: Node) -> Self {
         let with_type = if node.named_child_count() == 0 {
-            return Self::SimpleType(ValueNode::new(node));
+            return Self::SimpleType(node.value());
         } else {
             let child = node.first_c();
             match child.kind() {
@@ -5321,7 +5321,7 @@ impl<'a> DocBuild<'a> for SoqlWithTypeVariant {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         match self {
             Self::SimpleType(n) => {
-                result.push(n.build(b));
+                result.push(b.txt(n));
             }
             Self::UserId(n) => {
                 result.push(b.txt_("UserId ="));
-- 
2.43.0


From 8ecace304fcf02afc38eb5e59a195cb3dd0768dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 22/39] fix: measure the width of a text in characters, not in
 bytes

---
 src/doc_builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/doc_builder.rs b/src/doc_builder.rs
index 78f1f5e..f19b594 100644
--- a/src/doc_builder.rs
+++ b/src/doc_builder.rs
@@ -191,7 +191,7 @@ impl<'a> DocBuilder<'a> {
 
     pub fn txt(&'a self, text: impl ToString) -> DocRef<'a> {
         let s = text.to_string();
-        let width = s.len() as u32;
+        let width = s.chars().count() as u32;
         self.arena.alloc(Doc::Text(s, width))
     }
 
-- 
2.43.0


From 95e612cd0234dc8a1de08377cfa7dacba484ce2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:17 +0000
Subject: [PATCH 23/39] fix: return the results of several files in the order
 of the files

---
 src/formatter.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index d2392f1..bb70cfb 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -103,7 +103,7 @@ impl Formatter {
         let (tx, rx) = mpsc::channel();
         let config = self.config.clone();
 
-        for file in &self.source_files {
+        for (index, file) in self.source_files.iter().enumerate() {
             let tx = tx.clone();
             let config = config.clone();
             let file = file.clone();
@@ -124,10 +124,11 @@ impl Formatter {
                 });
                 match result {
                     Ok(result) => {
-                        tx.send(Ok(result)).expect("failed to send result in tx");
+                        tx.send((index, Ok(result)))
+                            .expect("failed to send result in tx");
                     }
                     Err(_) => tx
-                        .send(Err("Thread panicked".to_string()))
+                        .send((index, Err("Thread panicked".to_string())))
                         .expect("failed to send error in tx"),
                 }
             });
@@ -135,7 +136,10 @@ impl Formatter {
 
         drop(tx);
 
-        rx.into_iter().collect()
+        // threads finish in any order, results are returned in the order of the files
+        let mut results: Vec<(usize, Result<String, String>)> = rx.into_iter().collect();
+        results.sort_by_key(|(index, _)| *index);
+        results.into_iter().map(|(_, result)| result).collect()
     }
 
     pub fn format_one(source_code: &str, config: Config) -> String {
-- 
2.43.0


From 3988783598d299b3c401e84b15ec9ee54291fcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:59 +0000
Subject: [PATCH 24/39] fix: indent the statement after a blank line after a
 constructor call

---
 src/data_model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index df9568b..94ed8a2 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1866,7 +1866,7 @@ impl<'a> DocBuild<'a> for ConstructorBody {
 
                 if !self.statements.is_empty() {
                     if c.has_trailing_newline {
-                        result.push(b.empty_new_line());
+                        result.push(b.indent(b.empty_new_line()));
                     } else {
                         result.push(b.indent(b.nl()));
                     }
-- 
2.43.0


From a506762f726ee921601b5ec5bb4d627e1ec7f54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:15 +0000
Subject: [PATCH 25/39] fix: keep the comments of SOSL returned fields in front
 of the following clauses

---
 src/data_model.rs | 51 +++++++++++++++++++++++++----------------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 94ed8a2..26c9e06 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -4241,36 +4241,39 @@ pub struct SObjectReturnQuery {
 
 impl<'a> DocBuild<'a> for SObjectReturnQuery {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
-        build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
-            let mut docs = vec![];
+        let mut docs = vec![];
 
+        // the node context belongs to the selected fields only
+        let mut fields_docs = vec![];
+        build_with_comments(b, &self.node_context, &mut fields_docs, |b, result| {
             let selected_fields_docs = b.to_docs(&self.selected_fields);
             let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
             let doc = b.intersperse(&selected_fields_docs, sep);
-            docs.push(doc);
-
-            if let Some(ref n) = self.using_clause {
-                docs.push(n.build(b));
-            }
-            if let Some(ref n) = self.where_clause {
-                docs.push(n.build(b));
-            }
-            if let Some(ref n) = self.order_by_clause {
-                docs.push(n.build(b));
-            }
-            if let Some(ref n) = self.limit_clause {
-                docs.push(n.build(b));
-            }
-            if let Some(ref n) = self.offset_clause {
-                docs.push(n.build(b));
-            }
-
-            let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
-            let open = Insertable::new(None, Some("("), Some(b.maybeline()));
-            let close = Insertable::new(None, Some(")"), None);
-            let doc = b.group_surround(&docs, sep, open, close);
             result.push(doc);
         });
+        docs.push(b.concat(fields_docs));
+
+        if let Some(ref n) = self.using_clause {
+            docs.push(n.build(b));
+        }
+        if let Some(ref n) = self.where_clause {
+            docs.push(n.build(b));
+        }
+        if let Some(ref n) = self.order_by_clause {
+            docs.push(n.build(b));
+        }
+        if let Some(ref n) = self.limit_clause {
+            docs.push(n.build(b));
+        }
+        if let Some(ref n) = self.offset_clause {
+            docs.push(n.build(b));
+        }
+
+        let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
+        let open = Insertable::new(None, Some("("), Some(b.maybeline()));
+        let close = Insertable::new(None, Some(")"), None);
+        let doc = b.group_surround(&docs, sep, open, close);
+        result.push(doc);
     }
 }
 
-- 
2.43.0


From 96f0409303d6ff8d97858bc7825c149d8a9b7a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:41 +0000
Subject: [PATCH 26/39] fix: print the comments behind an accessor behind its
 semicolon

---
 src/data_model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 26c9e06..1100917 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -3340,7 +3340,7 @@ impl AccessorDeclaration {
 
 impl<'a> DocBuild<'a> for AccessorDeclaration {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
-        build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
+        build_with_comments_and_punc_attached(b, &self.node_context, result, |b, result| {
             if let Some(ref n) = self.modifiers {
                 result.push(n.build(b));
             }
-- 
2.43.0


From db659da6bf59ef19b007a9664373c6d320bb476b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:37 +0000
Subject: [PATCH 27/39] fix: keep the order of comments that belong to the same
 punctuation

---
 src/utility.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/utility.rs b/src/utility.rs
index 81ea7e8..10a2130 100644
--- a/src/utility.rs
+++ b/src/utility.rs
@@ -187,12 +187,9 @@ pub fn collect_comments(cursor: &mut TreeCursor, comment_map: &mut CommentMap) {
                 // Continue until we either assign the comment or run out of siblings
                 while let Some(c) = comment_opt.take() {
                     // If no next sibling, assign this comment to the last node's post_comments and stop
+                    // (behind the comments still pending, to keep their order)
                     if !peek_cursor.goto_next_sibling() {
-                        comment_map
-                            .entry(last_id)
-                            .or_insert_with(CommentBucket::new)
-                            .post_comments
-                            .push(c);
+                        pending_pre_comments.push(c);
                         break;
                     }
 
@@ -205,13 +202,9 @@ pub fn collect_comments(cursor: &mut TreeCursor, comment_map: &mut CommentMap) {
                     }
 
                     // If the sibling is punctuation, assign as pre_comment of punctuation and stop
+                    // (behind the comments still pending, to keep their order)
                     if is_punctuation_node(&sibling) {
-                        let punc_id = sibling.id();
-                        comment_map
-                            .entry(punc_id)
-                            .or_insert_with(CommentBucket::new)
-                            .pre_comments
-                            .push(c);
+                        pending_pre_comments.push(c);
                         break;
                     } else {
                         // Otherwise, the sibling is a named node, no special treatment needed
-- 
2.43.0


From 62444d45e875f97942bef7ec16b25bdca2b5452c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:52 +0000
Subject: [PATCH 28/39] fix: keep the parentheses around a single data category

---
 src/data_model.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 1100917..b674ab0 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -5440,6 +5440,7 @@ pub struct WithDataCatFilter {
     pub identifier: ValueNode,
     pub filter_type: ValueNodeUpperCase,
     pub identifiers: Vec<ValueNode>,
+    pub is_parenthesized: bool,
     pub node_context: NodeContext,
 }
 
@@ -5463,6 +5464,7 @@ impl WithDataCatFilter {
             identifier,
             filter_type: ValueNodeUpperCase::new(node.c_by_k("with_data_cat_filter_type")),
             identifiers,
+            is_parenthesized: node.children(&mut node.walk()).any(|n| n.kind() == "("),
             node_context: NodeContext::with_punctuation(&node),
         }
     }
@@ -5476,7 +5478,7 @@ impl<'a> DocBuild<'a> for WithDataCatFilter {
             result.push(self.filter_type.build(b));
             result.push(b.txt(" "));
 
-            if self.identifiers.len() == 1 {
+            if !self.is_parenthesized {
                 result.push(self.identifiers[0].build(b));
             } else {
                 let docs: Vec<DocRef<'a>> = b.to_docs(&self.identifiers);
-- 
2.43.0


From 58bf57e6fcf26798c5461c1cfb3133b00ef69633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:56 +0000
Subject: [PATCH 29/39] fix: indent the whole else branch that stands on its
 own line

---
 src/data_model.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index b674ab0..a33365d 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1389,6 +1389,8 @@ impl<'a> DocBuild<'a> for IfStatement {
             if let Some(ref alt) = self.alternative {
                 // an empty alternative `;` is already printed as else's punctuation
                 let is_alt_empty = matches!(alt.statement, Statement::SemiColumn);
+                let is_alt_on_own_line = !self.consequence.is_block()
+                    && !matches!(alt.statement, Statement::If(_) | Statement::Block(_));
 
                 if self.consequence.is_block() {
                     result.push(b.txt(" "));
@@ -1403,13 +1405,16 @@ impl<'a> DocBuild<'a> for IfStatement {
                     result.push(alt.else_node.build(b));
 
                     if is_alt_empty {
-                    } else if !matches!(alt.statement, Statement::If(_) | Statement::Block(_)) {
+                    } else if is_alt_on_own_line {
                         result.push(b.indent(b.nl()));
                     } else {
                         result.push(b.txt(" "));
                     }
                 }
-                if !is_alt_empty {
+                if is_alt_empty {
+                } else if is_alt_on_own_line {
+                    result.push(b.indent(alt.statement.build(b)));
+                } else {
                     result.push(alt.statement.build(b));
                 }
             }
-- 
2.43.0


From 3a0955f8af9b7d03b1e9506333ee903df151d9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:05 +0000
Subject: [PATCH 30/39] fix: keep an integer literal apart from the dot behind
 it

---
 src/data_model.rs |  4 ++--
 src/enum_def.rs   | 15 +++++++++++++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index a33365d..54abe80 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -895,7 +895,7 @@ impl MethodInvocation {
             let property_navigation = if next_named.kind() == "safe_navigation_operator" {
                 PropertyNavigation::Safe(SafeNavigationOperator::new(next_named))
             } else {
-                PropertyNavigation::Dot
+                PropertyNavigation::dot_after(&obj)
             };
 
             let type_arguments = node
@@ -2279,7 +2279,7 @@ impl FieldAccess {
             if let Some(n) = parent_node.try_c_by_k("safe_navigation_operator") {
                 PropertyNavigation::Safe(SafeNavigationOperator::new(n))
             } else {
-                PropertyNavigation::Dot
+                PropertyNavigation::dot_after(&parent_node.c_by_n("object"))
             };
         property_navigation
     }
diff --git a/src/enum_def.rs b/src/enum_def.rs
index 4982056..e3a24db 100644
--- a/src/enum_def.rs
+++ b/src/enum_def.rs
@@ -727,6 +727,18 @@ impl<'a> DocBuild<'a> for Type {
 pub enum PropertyNavigation {
     Safe(SafeNavigationOperator),
     Dot,
+    // `42.foo` would be read as the decimal `42.` followed by `foo`
+    DotAfterInt,
+}
+
+impl PropertyNavigation {
+    pub fn dot_after(object: &Node) -> Self {
+        if object.kind() == "int" {
+            Self::DotAfterInt
+        } else {
+            Self::Dot
+        }
+    }
 }
 
 impl<'a> DocBuild<'a> for PropertyNavigation {
@@ -738,6 +750,9 @@ impl<'a> DocBuild<'a> for PropertyNavigation {
             Self::Dot => {
                 result.push(b.txt("."));
             }
+            Self::DotAfterInt => {
+                result.push(b.txt(" ."));
+            }
         }
     }
 }
-- 
2.43.0


From e61e91817239413df399d299c5766df01c2d2ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:22 +0000
Subject: [PATCH 31/39] fix: keep an integer literal apart from the dot of a
 constructor call

---
 src/data_model.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 54abe80..d4b8a8a 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1892,6 +1892,7 @@ impl<'a> DocBuild<'a> for ConstructorBody {
 #[derive(Debug)]
 pub struct ConstructInvocation {
     pub object: Option<Box<PrimaryExpression>>,
+    pub navigation: Option<PropertyNavigation>,
     pub type_arguments: Option<TypeArguments>,
     pub constructor: Option<Constructor>,
     pub arguments: ArgumentList,
@@ -1900,9 +1901,9 @@ pub struct ConstructInvocation {
 
 impl ConstructInvocation {
     pub fn new(node: Node) -> Self {
-        let object = node
-            .try_c_by_n("object")
-            .map(|n| Box::new(PrimaryExpression::new(n)));
+        let object_node = node.try_c_by_n("object");
+        let navigation = object_node.as_ref().map(PropertyNavigation::dot_after);
+        let object = object_node.map(|n| Box::new(PrimaryExpression::new(n)));
 
         let type_arguments = node
             .try_c_by_k("type_arguments")
@@ -1916,6 +1917,7 @@ impl ConstructInvocation {
 
         Self {
             object,
+            navigation,
             type_arguments,
             constructor,
             arguments: ArgumentList::new(node.c_by_n("arguments")),
@@ -1929,7 +1931,10 @@ impl<'a> DocBuild<'a> for ConstructInvocation {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
             if let Some(ref o) = self.object {
                 result.push(o.build(b));
-                result.push(b.txt("."));
+            }
+
+            if let Some(ref n) = self.navigation {
+                result.push(n.build(b));
             }
 
             if let Some(ref t) = self.type_arguments {
-- 
2.43.0


From 51bcaeb21e385d84f290ded7a82d707152540fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:03 +0000
Subject: [PATCH 32/39] fix: keep a call chain in front of or in an index on
 one line if it fits

---
 src/data_model.rs | 25 ++++++++++++++++++++-----
 src/utility.rs    |  2 +-
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index d4b8a8a..3812ffa 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -2656,6 +2656,7 @@ impl<'a> DocBuild<'a> for DmlTypeVariant {
 pub struct ArrayAccess {
     pub array: PrimaryExpression,
     pub index: Expression,
+    pub is_top_most_in_a_chain: bool,
     pub node_context: NodeContext,
 }
 
@@ -2663,9 +2664,14 @@ impl ArrayAccess {
     pub fn new(node: Node) -> Self {
         assert_check(node, "array_access");
 
+        let array_node = node.c_by_n("array");
+        let is_top_most_in_a_chain = is_a_chaining_node(&array_node)
+            && !node.parent().is_some_and(|n| is_a_chaining_node(&n));
+
         Self {
-            array: PrimaryExpression::new(node.c_by_n("array")),
+            array: PrimaryExpression::new(array_node),
             index: Expression::new(node.c_by_n("index")),
+            is_top_most_in_a_chain,
             node_context: NodeContext::with_punctuation(&node),
         }
     }
@@ -2674,10 +2680,19 @@ impl ArrayAccess {
 impl<'a> DocBuild<'a> for ArrayAccess {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
-            result.push(self.array.build(b));
-            result.push(b.txt("["));
-            result.push(self.index.build(b));
-            result.push(b.txt("]"));
+            let docs = vec![
+                self.array.build(b),
+                b.txt("["),
+                // a chain in the index is not a part of the chain around it
+                b.group(self.index.build(b)),
+                b.txt("]"),
+            ];
+
+            if self.is_top_most_in_a_chain {
+                result.push(b.group_indent_concat(docs));
+            } else {
+                result.push(b.concat(docs));
+            }
         });
     }
 }
diff --git a/src/utility.rs b/src/utility.rs
index 10a2130..8d7f951 100644
--- a/src/utility.rs
+++ b/src/utility.rs
@@ -558,7 +558,7 @@ pub fn build_chaining_context(node: &Node) -> Option<ChainingContext> {
     })
 }
 
-fn is_a_chaining_node(node: &Node) -> bool {
+pub fn is_a_chaining_node(node: &Node) -> bool {
     [
         "method_invocation",
         "array_access",
-- 
2.43.0


From 451220ec4588eb87018e96ce83566f578e7d4b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:28 +0000
Subject: [PATCH 33/39] fix: date-time and currency literals in SOQL conditions
 were rejected

---
 src/enum_def.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/enum_def.rs b/src/enum_def.rs
index e3a24db..1725465 100644
--- a/src/enum_def.rs
+++ b/src/enum_def.rs
@@ -1404,8 +1404,8 @@ pub enum SoqlLiteral {
     DWithParam(DateLiteralWithParam),
     NullLiteral(ValueNode),
     Date(ValueNode),
-    //CurrentLiteral(ValueNode),
-    //DateTime(ValueNode),
+    DateTime(ValueNode),
+    CurrencyLiteral(ValueNode),
 }
 
 impl SoqlLiteral {
@@ -1416,6 +1416,8 @@ impl SoqlLiteral {
             "string_literal" => Self::StringLiteral(ValueNode::new(node)),
             "boolean" => Self::Boolean(ValueNode::new(node)),
             "date" => Self::Date(ValueNode::new(node)),
+            "date_time" => Self::DateTime(ValueNode::new(node)),
+            "currency_literal" => Self::CurrencyLiteral(ValueNode::new(node)),
             "date_literal" => Self::DateLiteral(ValueNode::new(node)),
             "date_literal_with_param" => Self::DWithParam(DateLiteralWithParam::new(node)),
             "null_literal" => Self::NullLiteral(ValueNode::new(node)),
@@ -1439,6 +1441,12 @@ impl<'a> DocBuild<'a> for SoqlLiteral {
             Self::Date(n) => {
                 result.push(n.build(b));
             }
+            Self::DateTime(n) => {
+                result.push(n.build(b));
+            }
+            Self::CurrencyLiteral(n) => {
+                result.push(n.build(b));
+            }
             Self::Boolean(n) => {
                 result.push(n.build(b));
             }
-- 
2.43.0


From 2d87a7c3b13691bc821caff68c8eab194d745b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:31 +0000
Subject: [PATCH 34/39] fix: USING LOOKUP of a SOQL query was always rejected

---
 src/data_model.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 3812ffa..cf5dbca 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -4718,7 +4718,7 @@ impl UsingLookupClause {
     pub fn new(node: Node) -> Self {
         assert_check(node, "using_lookup_clause");
 
-        let lookup_field = DottedIdentifier::new(node.c_by_n("using_lookup_clause"));
+        let lookup_field = DottedIdentifier::new(node.c_by_n("lookup_field"));
         let bind_clause = node
             .try_c_by_k("using_lookup_bind_clause")
             .map(|n| UsingLookupBindClause::new(n));
@@ -4736,8 +4736,8 @@ impl<'a> DocBuild<'a> for UsingLookupClause {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
             result.push(b.txt_("LOOKUP"));
             result.push(self.lookup_field.build(b));
-            result.push(b.txt(" "));
             if let Some(ref n) = self.bind_clause {
+                result.push(b.txt(" "));
                 result.push(n.build(b));
             }
         });
@@ -4819,7 +4819,7 @@ impl UsingLookupBindExpression {
         assert_check(node, "using_lookup_bind_expression");
 
         Self {
-            field: ValueNode::new(node.c_by_k("field")),
+            field: ValueNode::new(node.c_by_n("field")),
             bound_value: SoqlLiteral::new(node.c_by_n("bound_value")),
             node_context: NodeContext::with_punctuation(&node),
         }
-- 
2.43.0


From 8ead8859eefe4fc1b0c709d0745fb63185d4092f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:25 +0000
Subject: [PATCH 35/39] fix: WITH DATA CATEGORY of a SOQL query was rejected

---
 src/data_model.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index cf5dbca..97f4e84 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -5326,7 +5326,7 @@ impl<'a> DocBuild<'a> for SoqlWithClause {
 pub enum SoqlWithTypeVariant {
     SimpleType(String), // Security_Enforced, User_Mode, and System_Mode
     //RecordVisibility(WithRecordVisibilityExpression),
-    //DataCategory(WithDataCatExpression),
+    DataCategory(WithDataCatExpression),
     UserId(ValueNode),
 }
 
@@ -5338,6 +5338,9 @@ impl SoqlWithTypeVariant {
             let child = node.first_c();
             match child.kind() {
                 "with_user_id_type" => Self::UserId(ValueNode::new(child.c_by_k("string_literal"))),
+                "with_data_cat_expression" => {
+                    Self::DataCategory(WithDataCatExpression::new(child))
+                }
                 _ => panic_unknown_node(node, "WithType"),
             }
         };
@@ -5351,6 +5354,9 @@ impl<'a> DocBuild<'a> for SoqlWithTypeVariant {
             Self::SimpleType(n) => {
                 result.push(b.txt(n));
             }
+            Self::DataCategory(n) => {
+                result.push(n.build(b));
+            }
             Self::UserId(n) => {
                 result.push(b.txt_("UserId ="));
                 result.push(n.build(b));
-- 
2.43.0


From 34b92f6bd3169bd1b57963bd99dcb8212169fc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:42 +0000
Subject: [PATCH 36/39] fix: bind expressions in GEOLOCATION were rejected

---
 src/enum_def.rs | 57 ++++++++++++++++++++++++++++++++++---------------
 1 file changed, 40 insertions(+), 17 deletions(-)

diff --git a/src/enum_def.rs b/src/enum_def.rs
index 1725465..4d1f444 100644
--- a/src/enum_def.rs
+++ b/src/enum_def.rs
@@ -1299,8 +1299,7 @@ pub enum GeoLocationTypeVariant {
     Bound(BoundApexExpression),
     Func {
         function_name: ValueNode,
-        decimal1: ValueNode,
-        decimal2: ValueNode,
+        params: Vec<GeoLocationParam>,
     },
 }
 
@@ -1311,18 +1310,14 @@ impl GeoLocationTypeVariant {
             "field_identifier" => Self::Field(FieldIdentifier::new(child)),
             "bound_apex_expression" => Self::Bound(BoundApexExpression::new(child)),
             "identifier" => {
-                let decimals = node.cs_by_k("decimal");
-                if decimals.len() != 2 {
-                    panic!(
-                        "expect 2 decimal nodes, found {} in GeoLocationType",
-                        decimals.len()
-                    );
-                }
-
                 Self::Func {
                     function_name: ValueNode::new(child),
-                    decimal1: ValueNode::new(decimals[0]),
-                    decimal2: ValueNode::new(decimals[1]),
+                    params: node
+                        .children_vec()
+                        .into_iter()
+                        .skip(1)
+                        .map(|n| GeoLocationParam::new(n))
+                        .collect(),
                 }
             }
 
@@ -1342,20 +1337,48 @@ impl<'a> DocBuild<'a> for GeoLocationTypeVariant {
             }
             Self::Func {
                 function_name,
-                decimal1,
-                decimal2,
+                params,
             } => {
                 result.push(function_name.build(b));
                 result.push(b.txt("("));
-                result.push(decimal1.build(b));
-                result.push(b.txt(" "));
-                result.push(decimal2.build(b));
+                let docs = b.to_docs(params);
+                let sep = Insertable::new::<&str>(None, Some(" "), None);
+                result.push(b.intersperse(&docs, sep));
                 result.push(b.txt(")"));
             }
         }
     }
 }
 
+#[derive(Debug)]
+pub enum GeoLocationParam {
+    Decimal(ValueNode),
+    Bound(BoundApexExpression),
+}
+
+impl GeoLocationParam {
+    pub fn new(node: Node) -> Self {
+        match node.kind() {
+            "decimal" => Self::Decimal(ValueNode::new(node)),
+            "bound_apex_expression" => Self::Bound(BoundApexExpression::new(node)),
+            _ => panic_unknown_node(node, "GeoLocationParam"),
+        }
+    }
+}
+
+impl<'a> DocBuild<'a> for GeoLocationParam {
+    fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
+        match self {
+            Self::Decimal(n) => {
+                result.push(n.build(b));
+            }
+            Self::Bound(n) => {
+                result.push(n.build(b));
+            }
+        }
+    }
+}
+
 #[derive(Debug)]
 pub enum Comparison {
     Value(ValueComparison),
-- 
2.43.0


From ddf1f4b1f6750ec67309242f7a41a56d9f92f76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:01 +0000
Subject: [PATCH 37/39] fix: keep a sign apart from the same sign or an
 increment behind it

---
 src/data_model.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 97f4e84..be4bf13 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -2225,6 +2225,7 @@ impl<'a> DocBuild<'a> for WhileStatement {
 pub struct UnaryExpression {
     pub operator: String,
     pub operand: Box<Expression>,
+    pub is_apart: bool,
     pub node_context: NodeContext,
 }
 
@@ -2233,9 +2234,16 @@ impl UnaryExpression {
         assert_check(node, "unary_expression");
 
         let operator = node.cvalue_by_n("operator");
+        let operand_node = node.c_by_n("operand");
+
+        // `- -a` must not become the decrement `--a`
+        let is_apart =
+            matches!(operator.as_str(), "+" | "-") && operand_node.value().starts_with(&operator);
+
         Self {
             operator,
-            operand: Box::new(Expression::new(node.c_by_n("operand"))),
+            operand: Box::new(Expression::new(operand_node)),
+            is_apart,
             node_context: NodeContext::with_punctuation(&node),
         }
     }
@@ -2245,6 +2253,9 @@ impl<'a> DocBuild<'a> for UnaryExpression {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
             result.push(b.txt(&self.operator));
+            if self.is_apart {
+                result.push(b.txt(" "));
+            }
             result.push(self.operand.build(b));
         });
     }
-- 
2.43.0


From e82df195f20433550aa1e512be6bddf426f2f125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:05 +0000
Subject: [PATCH 38/39] fix: keep the brackets of an empty type argument list
 apart

---
 src/data_model.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index be4bf13..519dfe0 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -975,7 +975,9 @@ impl<'a> DocBuild<'a> for TypeArguments {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
             let docs = b.to_docs(&self.types);
             let sep = Insertable::new(None, Some(" "), None);
-            let open = Insertable::new(None, Some("<"), None);
+            // an empty list must not become the operator `<>`
+            let open_str = if self.types.is_empty() { "< " } else { "<" };
+            let open = Insertable::new(None, Some(open_str), None);
             let close = Insertable::new(None, Some(">"), None);
             let doc = b.surround(&docs, sep, open, close);
             result.push(doc);
-- 
2.43.0


From c997308a0368bd1a4ea8e0e5e4503c93d9ee6a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:00 +0000
Subject: [PATCH 39/39] fix: no blank line is invented where a stray semicolon
 stands on its own line

---
 src/enum_def.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/enum_def.rs b/src/enum_def.rs
index 4d1f444..93c6fe0 100644
--- a/src/enum_def.rs
+++ b/src/enum_def.rs
@@ -833,8 +833,24 @@ impl<M> BodyMember<M> {
             return last_post_comment.has_newline_below();
         }
 
-        node.next_named_sibling()
-            .is_some_and(|n| node.end_position().row + 1 < n.start_position().row)
+        let Some(next_member) = node.next_named_sibling() else {
+            return false;
+        };
+
+        // stray semicolons can stand between two members
+        let mut end_row = node.end_position().row;
+        let mut next = node.next_sibling();
+        while let Some(n) = next {
+            if end_row + 1 < n.start_position().row {
+                return true;
+            }
+            if n.id() == next_member.id() {
+                break;
+            }
+            end_row = n.end_position().row;
+            next = n.next_sibling();
+        }
+        false
     }
 }
 
-- 
2.43.0

