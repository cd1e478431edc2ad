From 690af81b93e00d9d2a7848321f01af33130db4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:51 +0000
Subject: [PATCH 01/32] fix: vm-js: remove duplicate Realm::id definitions and
 wrap thrown errors so the crate compiles

---
 vm-js/src/exec.rs  | 6 +++---
 vm-js/src/realm.rs | 8 --------
 2 files changed, 3 insertions(+), 11 deletions(-)

diff --git a/vm-js/src/exec.rs b/vm-js/src/exec.rs
index 4e5dda8..c4135d0 100644
--- a/vm-js/src/exec.rs
+++ b/vm-js/src/exec.rs
@@ -1805,7 +1805,7 @@ impl<'a> Evaluator<'a> {
           "TypeError",
           "prototype cycle",
         )?;
-        Ok(Completion::Throw(err))
+        Ok(Completion::Throw(thrown_at_stmt(err)))
       }
       Err(VmError::PrototypeChainTooDeep) => {
         let intr = self
@@ -1818,7 +1818,7 @@ impl<'a> Evaluator<'a> {
           "TypeError",
           "prototype chain too deep",
         )?;
-        Ok(Completion::Throw(err))
+        Ok(Completion::Throw(thrown_at_stmt(err)))
       }
       Err(VmError::InvalidPropertyDescriptorPatch) => {
         let intr = self
@@ -1831,7 +1831,7 @@ impl<'a> Evaluator<'a> {
           "TypeError",
           "invalid property descriptor patch: cannot mix data and accessor fields",
         )?;
-        Ok(Completion::Throw(err))
+        Ok(Completion::Throw(thrown_at_stmt(err)))
       }
       Err(VmError::NotCallable) => {
         let intr = self
diff --git a/vm-js/src/realm.rs b/vm-js/src/realm.rs
index e464557..a4d9c3f 100644
--- a/vm-js/src/realm.rs
+++ b/vm-js/src/realm.rs
@@ -279,19 +279,11 @@ impl Realm {
     })
   }
 
-  pub fn id(&self) -> RealmId {
-    self.id
-  }
-
   /// The realm's global object.
   pub fn global_object(&self) -> GcObject {
     self.global_object
   }
 
-  pub fn id(&self) -> RealmId {
-    RealmId::from_raw(self.global_object.id().0)
-  }
-
   /// The realm's intrinsic objects.
   pub fn intrinsics(&self) -> &Intrinsics {
     &self.intrinsics
-- 
2.43.0


From 75ad966ef3b3b194409f29f1941c23e809248ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:23 +0000
Subject: [PATCH 02/32] fix: parse-js: restore statement ASI inside functions
 in for heads, modifier-named members, shorthand in converted patterns

---
 parse-js/src/parse/class_or_object.rs | 58 +++++++++++++++++++++------
 parse-js/src/parse/expr/util.rs       | 12 +++++-
 parse-js/src/parse/func.rs            |  2 +-
 parse-js/src/parse/mod.rs             |  7 ++++
 4 files changed, 65 insertions(+), 14 deletions(-)

diff --git a/parse-js/src/parse/class_or_object.rs b/parse-js/src/parse/class_or_object.rs
index 06ff355..0d4630b 100644
--- a/parse-js/src/parse/class_or_object.rs
+++ b/parse-js/src/parse/class_or_object.rs
@@ -90,11 +90,35 @@ impl<'a> Parser<'a> {
     self.class_body_with_context(ctx, false)
   }
 
+  /// Whether a token of this type directly after a contextual keyword shows that the
+  /// keyword is a member's name and not a modifier of the member that follows.
+  fn ends_member_name(tt: TT) -> bool {
+    matches!(
+      tt,
+      TT::ParenthesisOpen
+        | TT::Equals
+        | TT::Semicolon
+        | TT::BraceClose
+        | TT::Colon
+        | TT::Question
+        | TT::Exclamation
+        | TT::Comma
+        | TT::ChevronLeft
+        | TT::EOF
+    )
+  }
+
+  fn at_member_modifier(&mut self, keyword: TT) -> bool {
+    let [current, next] = self.peek_n::<2>();
+    current.typ == keyword && !Self::ends_member_name(next.typ)
+  }
+
   pub fn class_body_with_context(
     &mut self,
     ctx: ParseCtx,
     ambient: bool,
   ) -> SyntaxResult<Vec<Node<ClassMember>>> {
+    let ctx = ctx.statement_list();
     self.require(TT::BraceOpen)?;
     let mut members = Vec::new();
     let mut seen_constructor = false;
@@ -193,9 +217,9 @@ impl<'a> Parser<'a> {
         // TypeScript: accessibility modifiers (public, private, protected)
         // Error recovery: allow duplicate modifiers
         let mut accessibility = None;
-        while p.peek().typ == TT::KeywordPublic
-          || p.peek().typ == TT::KeywordPrivate
-          || p.peek().typ == TT::KeywordProtected
+        while p.at_member_modifier(TT::KeywordPublic)
+          || p.at_member_modifier(TT::KeywordPrivate)
+          || p.at_member_modifier(TT::KeywordProtected)
         {
           if p.consume_if(TT::KeywordPublic).is_match() {
             accessibility = Some(crate::ast::stmt::decl::Accessibility::Public);
@@ -209,14 +233,16 @@ impl<'a> Parser<'a> {
         // TypeScript: abstract modifier
         // Error recovery: allow duplicate abstract modifiers
         let mut abstract_ = ambient;
-        while p.consume_if(TT::KeywordAbstract).is_match() {
+        while p.at_member_modifier(TT::KeywordAbstract) {
+          p.consume();
           abstract_ = true;
         }
 
         // TypeScript: override modifier
         // Error recovery: allow duplicate override modifiers
         let mut override_ = false;
-        while p.consume_if(TT::KeywordOverride).is_match() {
+        while p.at_member_modifier(TT::KeywordOverride) {
+          p.consume();
           override_ = true;
         }
 
@@ -268,8 +294,8 @@ impl<'a> Parser<'a> {
               type_annotation: None,
               val: ClassOrObjVal::StaticBlock(block),
             });
-          } else if next.typ == TT::ParenthesisOpen {
-            // `static()` - it's a method name, not a modifier
+          } else if Self::ends_member_name(next.typ) {
+            // `static()`, `static;`, `static = 1` - it's a member name, not a modifier
             false
           } else {
             p.consume_if(TT::KeywordStatic).is_match()
@@ -281,14 +307,16 @@ impl<'a> Parser<'a> {
         // TypeScript: readonly modifier
         // Error recovery: allow duplicate readonly modifiers
         let mut readonly = false;
-        while p.consume_if(TT::KeywordReadonly).is_match() {
+        while p.at_member_modifier(TT::KeywordReadonly) {
+          p.consume();
           readonly = true;
         }
 
         // TypeScript/JavaScript: accessor modifier for auto-accessors
         // Error recovery: allow duplicate accessor modifiers
         let mut accessor = false;
-        while p.consume_if(TT::KeywordAccessor).is_match() {
+        while p.at_member_modifier(TT::KeywordAccessor) {
+          p.consume();
           accessor = true;
         }
 
@@ -394,15 +422,19 @@ impl<'a> Parser<'a> {
               };
 
             // Detect async methods, generators, and accessors.
+            let async_is_name = t0.typ == TT::KeywordAsync && Self::ends_member_name(t1.typ);
             let needs_special_handling = matches!(
               (t0.typ, t1.typ, t2.typ),
               (TT::KeywordAsync, TT::Asterisk, _)
                 | (TT::KeywordAsync, TT::BracketOpen, _)
-                | (TT::KeywordAsync, _, TT::ParenthesisOpen)
-                | (TT::KeywordAsync, _, TT::ChevronLeft)
                 | (TT::Asterisk, _, TT::ParenthesisOpen)
                 | (TT::Asterisk, _, TT::ChevronLeft)
                 | (TT::Asterisk, TT::BracketOpen, _)
+            ) || matches!(
+              (t0.typ, t1.typ, t2.typ),
+              (TT::KeywordAsync, _, TT::ParenthesisOpen)
+                | (TT::KeywordAsync, _, TT::ChevronLeft)
+                if !async_is_name
             ) || (is_get_or_set
               && accessor_name_start
               && (p.is_strict_ecmascript() || looks_like_accessor));
@@ -1603,7 +1635,9 @@ impl<'a> Parser<'a> {
         let (k, v) = self.class_or_obj_method(ctx, abstract_)?;
         (k, v.into())
       }
-      (TT::KeywordAsync, _, TT::ParenthesisOpen, _) if !b.preceded_by_line_terminator => {
+      (TT::KeywordAsync, _, TT::ParenthesisOpen, _)
+        if !b.preceded_by_line_terminator && !Self::ends_member_name(b.typ) =>
+      {
         let (k, v) = self.class_or_obj_method(ctx, abstract_)?;
         (k, v.into())
       }
diff --git a/parse-js/src/parse/expr/util.rs b/parse-js/src/parse/expr/util.rs
index bc81fb3..b26f484 100644
--- a/parse-js/src/parse/expr/util.rs
+++ b/parse-js/src/parse/expr/util.rs
@@ -141,6 +141,16 @@ pub(crate) fn lit_to_pat_with_recover(node: Node<Expr>, recover: bool) -> Syntax
         match *member.stx {
           ObjMember { typ } => match typ {
             ObjMemberType::Valued { key, val: value } => {
+              // `{ a = 1 }` is kept as a member whose key and assignment target are the
+              // same token; `{ a: b }` and `{ a: b = 1 }` are not shorthands.
+              let shorthand = matches!(
+                (&key, &value),
+                (ClassOrObjKey::Direct(key), ClassOrObjVal::Prop(Some(init)))
+                  if matches!(
+                    init.stx.as_ref(),
+                    Expr::Binary(bin) if bin.stx.left.loc == key.loc
+                  )
+              );
               let (target, default_value) = match value {
                 ClassOrObjVal::Prop(Some(initializer)) => match *initializer.stx {
                   Expr::Binary(n) => {
@@ -164,7 +174,7 @@ pub(crate) fn lit_to_pat_with_recover(node: Node<Expr>, recover: bool) -> Syntax
                   key,
                   target,
                   default_value,
-                  shorthand: true,
+                  shorthand,
                 },
               ));
             }
diff --git a/parse-js/src/parse/func.rs b/parse-js/src/parse/func.rs
index ba7ff1d..1c4c97f 100644
--- a/parse-js/src/parse/func.rs
+++ b/parse-js/src/parse/func.rs
@@ -147,7 +147,7 @@ impl<'a> Parser<'a> {
     self.in_switch = 0;
     let res = (|| {
       self.require(TT::BraceOpen)?;
-      let body = self.stmts(ctx.non_top_level(), TT::BraceClose)?;
+      let body = self.stmts(ctx.non_top_level().statement_list(), TT::BraceClose)?;
       self.require(TT::BraceClose)?;
       Ok(body)
     })();
diff --git a/parse-js/src/parse/mod.rs b/parse-js/src/parse/mod.rs
index e4b3b2d..daf83a9 100644
--- a/parse-js/src/parse/mod.rs
+++ b/parse-js/src/parse/mod.rs
@@ -79,6 +79,13 @@ impl ParseCtx {
     ParseCtx { asi, ..*self }
   }
 
+  /// Context for the statements of a function, class or static block body, where
+  /// automatic semicolon insertion applies again even when the body is nested in a
+  /// statement header.
+  pub fn statement_list(&self) -> ParseCtx {
+    self.with_asi(AsiContext::Statements)
+  }
+
   pub fn for_statement_header(&self) -> ParseCtx {
     self.with_asi(AsiContext::StatementHeader)
   }
-- 
2.43.0


From 76c36d930292e2fa4fc76761fbfeab22904ccc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:23 +0000
Subject: [PATCH 03/32] fix: semantic-js: parameter and pattern expressions do
 not declare bindings; braced loop bodies

---
 semantic-js/src/js/declare.rs | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/semantic-js/src/js/declare.rs b/semantic-js/src/js/declare.rs
index 1f759ae..c30518a 100644
--- a/semantic-js/src/js/declare.rs
+++ b/semantic-js/src/js/declare.rs
@@ -83,6 +83,7 @@ type FuncNode = Node<Func>;
 type ForBodyNode = Node<ForBody>;
 type ForInStmtNode = Node<ForInStmt>;
 type IfStmtNode = Node<IfStmt>;
+type ExprNode = Node<parse_js::ast::expr::Expr>;
 type IdExprNode = Node<IdExpr>;
 type IdPatNode = Node<IdPat>;
 type ImportStmtNode = Node<ImportStmt>;
@@ -632,6 +633,7 @@ enum ClassMemberPhase {
   ClassOrObjMemberDirectKeyNode(enter),
   ClassDeclNode,
   ClassExprNode,
+  ExprNode,
   ClassStaticBlockNode(enter, exit),
   ContinueStmtNode(enter),
   DoWhileStmtNode(enter, exit),
@@ -978,14 +980,27 @@ impl DeclareVisitor {
     }
 
     #[derive(Default, VisitorMut)]
-    #[visitor(IdPatNode(enter))]
+    #[visitor(IdPatNode(enter), ExprNode)]
     struct ParamNameCollector {
+      // Assignment targets inside default values and computed keys are not parameters.
+      expr_depth: usize,
       seen: BTreeMap<String, TextRange>,
       duplicates: Vec<(String, TextRange, TextRange)>,
     }
 
     impl ParamNameCollector {
+      fn enter_expr_node(&mut self, _node: &mut ExprNode) {
+        self.expr_depth += 1;
+      }
+
+      fn exit_expr_node(&mut self, _node: &mut ExprNode) {
+        self.expr_depth -= 1;
+      }
+
       fn enter_id_pat_node(&mut self, node: &mut IdPatNode) {
+        if self.expr_depth > 0 {
+          return;
+        }
         let span = ident_range(node.loc, &node.stx.name);
         if let Some(prev) = self.seen.get(&node.stx.name).copied() {
           self.duplicates.push((node.stx.name.clone(), span, prev));
@@ -1385,6 +1400,15 @@ impl DeclareVisitor {
     }
   }
 
+  fn enter_expr_node(&mut self, _node: &mut ExprNode) {
+    // Patterns inside an initializer or computed key are assignment targets, not bindings.
+    self.in_pattern_decl.push(false);
+  }
+
+  fn exit_expr_node(&mut self, _node: &mut ExprNode) {
+    self.in_pattern_decl.pop();
+  }
+
   fn enter_id_expr_node(&mut self, node: &mut IdExprNode) {
     if !self.is_strict() {
       return;
@@ -1660,11 +1684,10 @@ impl DeclareVisitor {
     self.for_body_loop_scope_stack.push(loop_scope_pushed);
 
     let span = range_of(node);
-    let is_braced = if node.stx.body.is_empty() {
-      true
-    } else {
-      let first = &node.stx.body[0];
-      span.start < range_of(first).start
+    // The body of an unbraced loop is exactly its only statement.
+    let is_braced = match node.stx.body.as_slice() {
+      [only] => range_of(only) != span,
+      _ => true,
     };
     if is_braced {
       self.push_stmt_context(StmtContext::StatementList);
-- 
2.43.0


From 849216eb3a8931601f3f7f69ff27165ca96aafb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:23 +0000
Subject: [PATCH 04/32] fix: emit-js, hir-js: emit HIR expressions with the
 precedence, chain and literal forms they were written with

---
 emit-js/src/escape.rs              |  41 ++++
 emit-js/src/hir.rs                 | 305 ++++++++++++++++++++++++-----
 hir-js/src/hir.rs                  |   9 +
 hir-js/src/lower.rs                | 271 +++++++++++++++++++++++--
 typecheck-ts/src/check/hir_body.rs |   1 +
 5 files changed, 558 insertions(+), 69 deletions(-)

diff --git a/emit-js/src/escape.rs b/emit-js/src/escape.rs
index b3a7044..a646cf2 100644
--- a/emit-js/src/escape.rs
+++ b/emit-js/src/escape.rs
@@ -33,6 +33,47 @@ pub fn emit_string_literal(out: &mut Vec<u8>, value: &str, quote_style: QuoteSty
   out.push(quote);
 }
 
+/// Emit a JavaScript string literal from UTF-16 code units, spelling unpaired
+/// surrogates as `\uXXXX` escapes.
+pub fn emit_string_literal_code_units(
+  out: &mut Vec<u8>,
+  units: &[u16],
+  quote_style: QuoteStyle,
+  minify: bool,
+) {
+  let quote = match quote_style {
+    QuoteStyle::Double => b'"',
+    QuoteStyle::Single => b'\'',
+    QuoteStyle::Auto => {
+      let count = |q: u8| units.iter().filter(|unit| **unit == u16::from(q)).count();
+      if minify && count(b'\'') < count(b'"') {
+        b'\''
+      } else {
+        b'"'
+      }
+    }
+  };
+  out.push(quote);
+  let mut run = String::new();
+  let mut escaped = Vec::new();
+  let mut flush = |run: &mut String, out: &mut Vec<u8>| {
+    escape_string_into(&mut escaped, run, quote);
+    out.extend_from_slice(&escaped);
+    run.clear();
+  };
+  for unit in char::decode_utf16(units.iter().copied()) {
+    match unit {
+      Ok(ch) => run.push(ch),
+      Err(err) => {
+        flush(&mut run, out);
+        out.extend_from_slice(format!("\\u{:04X}", err.unpaired_surrogate()).as_bytes());
+      }
+    }
+  }
+  flush(&mut run, out);
+  out.push(quote);
+}
+
 /// Emit a JavaScript regex literal, escaping line terminators for stability.
 pub fn emit_regex_literal(out: &mut Vec<u8>, value: &str) {
   out.clear();
diff --git a/emit-js/src/hir.rs b/emit-js/src/hir.rs
index 16afeb9..9405b53 100644
--- a/emit-js/src/hir.rs
+++ b/emit-js/src/hir.rs
@@ -1,4 +1,7 @@
-use crate::escape::{emit_regex_literal, emit_string_literal, emit_template_literal_segment};
+use crate::escape::{
+  emit_regex_literal, emit_string_literal, emit_string_literal_code_units,
+  emit_template_literal_segment,
+};
 use crate::module_names::{
   emit_identifier_name_or_string_literal, emit_module_binding_identifier_or_string_literal,
   is_module_binding_identifier_token,
@@ -469,7 +472,8 @@ fn emit_export_default(
       let body = ctx
         .body(*body)
         .ok_or_else(|| EmitError::unsupported("export default body missing"))?;
-      let needs_parens = expr_stmt_needs_parens(ctx, body, *expr);
+      let needs_parens =
+        expr_stmt_needs_parens(ctx, body, *expr) || expr_is_comma(ctx, body, *expr);
       if needs_parens {
         em.write_punct("(");
       }
@@ -517,7 +521,7 @@ fn emit_var_def(em: &mut Emitter, ctx: &HirContext<'_>, def: &DefData) -> EmitRe
       _ => None,
     })
     .ok_or_else(|| EmitError::unsupported("variable body did not contain a declaration"))?;
-  emit_var_decl(em, ctx, body, decl, true)
+  emit_var_decl(em, ctx, body, decl, true, false)
 }
 
 fn emit_function_decl(em: &mut Emitter, ctx: &HirContext<'_>, def: &DefData) -> EmitResult {
@@ -566,7 +570,7 @@ fn emit_class_like(
 
   if let Some(extends) = class.extends {
     em.write_keyword("extends");
-    emit_expr_with_min_prec(em, ctx, body, extends, Prec::LOWEST)?;
+    emit_expr_with_min_prec(em, ctx, body, extends, CALL_MEMBER_PRECEDENCE)?;
   }
 
   em.write_punct("{");
@@ -700,10 +704,10 @@ fn emit_class_member_key(
     ClassMemberKey::Ident(name) => em.write_identifier(ctx.name(*name)),
     ClassMemberKey::Private(name) => em.write_str(ctx.name(*name)),
     ClassMemberKey::String(value) => emit_string(em, value),
-    ClassMemberKey::Number(value) => em.write_number(value),
+    ClassMemberKey::Number(value) => emit_number_key(em, value),
     ClassMemberKey::Computed(expr) => {
       em.write_punct("[");
-      emit_expr_with_min_prec(em, ctx, body, *expr, Prec::LOWEST)?;
+      emit_expr_with_min_prec(em, ctx, body, *expr, assignment_min_prec())?;
       em.write_punct("]");
     }
   }
@@ -915,7 +919,7 @@ fn emit_arrow_function(
   em.write_punct("=>");
   match &func.body {
     FunctionBody::Expr(expr) => {
-      let needs_parens = arrow_concise_body_needs_parens(ctx.expr(body, *expr));
+      let needs_parens = arrow_concise_body_needs_parens(ctx, body, *expr);
       if needs_parens {
         em.write_punct("(");
       }
@@ -1177,7 +1181,8 @@ fn emit_stmt(em: &mut Emitter, ctx: &HirContext<'_>, body: &Body, stmt_id: StmtI
       if let Some(init) = init {
         match init {
           hir_js::ForInit::Expr(expr) => {
-            let needs_parens = for_init_expr_needs_parens(ctx, body, *expr);
+            let needs_parens = for_init_expr_needs_parens(ctx, body, *expr)
+              || expr_exposes_in_operator(ctx, body, *expr);
             if needs_parens {
               em.write_punct("(");
             }
@@ -1186,7 +1191,7 @@ fn emit_stmt(em: &mut Emitter, ctx: &HirContext<'_>, body: &Body, stmt_id: StmtI
               em.write_punct(")");
             }
           }
-          hir_js::ForInit::Var(decl) => emit_var_decl(em, ctx, body, decl, false)?,
+          hir_js::ForInit::Var(decl) => emit_var_decl(em, ctx, body, decl, false, true)?,
         }
       }
       em.write_punct(";");
@@ -1223,14 +1228,19 @@ fn emit_stmt(em: &mut Emitter, ctx: &HirContext<'_>, body: &Body, stmt_id: StmtI
             em.write_punct(")");
           }
         }
-        hir_js::ForHead::Var(decl) => emit_var_decl(em, ctx, body, decl, false)?,
+        hir_js::ForHead::Var(decl) => emit_var_decl(em, ctx, body, decl, false, true)?,
       }
       if *is_for_of {
         em.write_keyword("of");
       } else {
         em.write_keyword("in");
       }
-      emit_expr_with_min_prec(em, ctx, body, *right, Prec::LOWEST)?;
+      let right_min_prec = if *is_for_of {
+        assignment_min_prec()
+      } else {
+        Prec::LOWEST
+      };
+      emit_expr_with_min_prec(em, ctx, body, *right, right_min_prec)?;
       em.write_punct(")");
       emit_stmt_as_body(em, ctx, body, *inner)?;
     }
@@ -1303,7 +1313,7 @@ fn emit_stmt(em: &mut Emitter, ctx: &HirContext<'_>, body: &Body, stmt_id: StmtI
       if var_decl_is_exported(ctx, body, decl) {
         em.write_keyword("export");
       }
-      emit_var_decl(em, ctx, body, decl, true)?;
+      emit_var_decl(em, ctx, body, decl, true, false)?;
     }
     StmtKind::Labeled { label, body: inner } => {
       em.write_identifier(ctx.name(*label));
@@ -1355,6 +1365,7 @@ fn emit_var_decl(
   body: &Body,
   decl: &VarDecl,
   trailing_semicolon: bool,
+  in_for_head: bool,
 ) -> EmitResult {
   // Initializers are followed by `,` or `;`, so comma expressions must be
   // parenthesized to avoid being parsed as additional declarators.
@@ -1376,7 +1387,13 @@ fn emit_var_decl(
     emit_pat(em, ctx, body, declarator.pat, false)?;
     if let Some(init) = declarator.init {
       em.write_punct("=");
-      emit_expr_with_min_prec(em, ctx, body, init, assignment_expr_min_prec)?;
+      if in_for_head && expr_exposes_in_operator(ctx, body, init) {
+        em.write_punct("(");
+        emit_expr_with_min_prec(em, ctx, body, init, Prec::LOWEST)?;
+        em.write_punct(")");
+      } else {
+        emit_expr_with_min_prec(em, ctx, body, init, assignment_expr_min_prec)?;
+      }
     }
   }
   if trailing_semicolon {
@@ -1417,6 +1434,9 @@ fn emit_pat(
           }
         }
       }
+      if array.rest.is_none() && matches!(array.elements.last(), Some(None)) {
+        em.write_punct(",");
+      }
       if let Some(rest) = array.rest {
         if !array.elements.is_empty() {
           em.write_punct(",");
@@ -1431,9 +1451,6 @@ fn emit_pat(
       // comma operator as needing parentheses.
       let assignment_expr_min_prec =
         Prec::new(OPERATORS[&OperatorName::Comma].precedence).tighter();
-      if in_assignment {
-        em.write_punct("(");
-      }
       em.write_punct("{");
       for (idx, prop) in obj.props.iter().enumerate() {
         if idx > 0 {
@@ -1457,9 +1474,6 @@ fn emit_pat(
         emit_pat(em, ctx, body, rest, in_assignment)?;
       }
       em.write_punct("}");
-      if in_assignment {
-        em.write_punct(")");
-      }
     }
     PatKind::Assign {
       target,
@@ -1484,6 +1498,13 @@ fn emit_pat(
   Ok(())
 }
 
+/// Minimum precedence of an `AssignmentExpression` position (call arguments,
+/// array elements, property values, ...), where a bare comma operator would be
+/// parsed as a separator.
+fn assignment_min_prec() -> Prec {
+  Prec::new(OPERATORS[&OperatorName::Comma].precedence).tighter()
+}
+
 fn emit_expr_with_min_prec(
   em: &mut Emitter,
   ctx: &HirContext<'_>,
@@ -1537,6 +1558,9 @@ fn expr_prec(ctx: &HirContext<'_>, body: &Body, expr_id: ExprId) -> Result<Prec,
     }
     ExprKind::ClassExpr { .. } => PRIMARY_PRECEDENCE,
     ExprKind::Literal(Literal::Undefined) => Prec::new(OPERATORS[&OperatorName::Void].precedence),
+    ExprKind::Literal(Literal::Number(num)) if num.starts_with('-') => {
+      Prec::new(OPERATORS[&OperatorName::UnaryNegation].precedence)
+    }
     ExprKind::Literal(_) => PRIMARY_PRECEDENCE,
     ExprKind::ImportCall { .. } => CALL_MEMBER_PRECEDENCE,
     ExprKind::This
@@ -1590,9 +1614,9 @@ fn emit_expr_no_parens(
       let cond_prec = Prec::new(OPERATORS[&OperatorName::Conditional].precedence);
       emit_expr_with_min_prec(em, ctx, body, *test, cond_prec.tighter())?;
       em.write_punct("?");
-      emit_expr_with_min_prec(em, ctx, body, *consequent, cond_prec)?;
+      emit_expr_with_min_prec(em, ctx, body, *consequent, assignment_min_prec())?;
       em.write_punct(":");
-      emit_expr_with_min_prec(em, ctx, body, *alternate, cond_prec)?;
+      emit_expr_with_min_prec(em, ctx, body, *alternate, assignment_min_prec())?;
     }
     ExprKind::Array(array) => emit_array_literal(em, ctx, body, array)?,
     ExprKind::Object(obj) => emit_object_literal(em, ctx, body, obj)?,
@@ -1635,7 +1659,14 @@ fn emit_expr_no_parens(
     }
     ExprKind::Template(tmpl) => emit_template_literal(em, ctx, body, tmpl)?,
     ExprKind::TaggedTemplate { tag, template } => {
-      emit_expr_with_min_prec(em, ctx, body, *tag, CALL_MEMBER_PRECEDENCE)?;
+      if starts_with_optional_chaining(ctx, body, *tag) {
+        // A template may not be part of an optional chain.
+        em.write_punct("(");
+        emit_expr_no_parens(em, ctx, body, *tag)?;
+        em.write_punct(")");
+      } else {
+        emit_expr_with_min_prec(em, ctx, body, *tag, CALL_MEMBER_PRECEDENCE)?;
+      }
       emit_template_literal(em, ctx, body, template)?;
     }
     ExprKind::Await { expr } => {
@@ -1675,10 +1706,10 @@ fn emit_expr_no_parens(
     } => {
       em.write_keyword("import");
       em.write_punct("(");
-      emit_expr_with_min_prec(em, ctx, body, *argument, Prec::LOWEST)?;
+      emit_expr_with_min_prec(em, ctx, body, *argument, assignment_min_prec())?;
       if let Some(attrs) = attributes {
         em.write_punct(",");
-        emit_expr_with_min_prec(em, ctx, body, *attrs, Prec::LOWEST)?;
+        emit_expr_with_min_prec(em, ctx, body, *attrs, assignment_min_prec())?;
       }
       em.write_punct(")");
     }
@@ -1695,7 +1726,8 @@ fn emit_call(
   body: &Body,
   call: &hir_js::CallExpr,
 ) -> EmitResult {
-  let callee_needs_parens = call.is_new && starts_with_optional_chaining(ctx, body, call.callee);
+  let callee_needs_parens =
+    call.chain_ended || (call.is_new && new_callee_needs_parens(ctx, body, call.callee));
   if call.is_new {
     em.write_keyword("new");
   }
@@ -1718,7 +1750,7 @@ fn emit_call(
     if arg.spread {
       em.write_punct("...");
     }
-    emit_expr_with_min_prec(em, ctx, body, arg.expr, Prec::LOWEST)?;
+    emit_expr_with_min_prec(em, ctx, body, arg.expr, assignment_min_prec())?;
   }
   em.write_punct(")");
   Ok(())
@@ -1730,7 +1762,21 @@ fn emit_member(
   body: &Body,
   member: &MemberExpr,
 ) -> EmitResult {
-  emit_expr_with_min_prec(em, ctx, body, member.object, CALL_MEMBER_PRECEDENCE)?;
+  if member.chain_ended {
+    em.write_punct("(");
+    emit_expr_no_parens(em, ctx, body, member.object)?;
+    em.write_punct(")");
+  } else if is_integer_literal(ctx, body, member.object)
+    && !member.optional
+    && matches!(member.property, ObjectKey::Ident(_))
+  {
+    // `0.x` would be lexed as a numeric literal followed by an identifier.
+    em.write_punct("(");
+    emit_expr_no_parens(em, ctx, body, member.object)?;
+    em.write_punct(")");
+  } else {
+    emit_expr_with_min_prec(em, ctx, body, member.object, CALL_MEMBER_PRECEDENCE)?;
+  }
   let use_brackets = !matches!(member.property, ObjectKey::Ident(_));
   if member.optional {
     if use_brackets {
@@ -1780,15 +1826,19 @@ fn emit_array_literal(
     }
     match element {
       hir_js::ArrayElement::Expr(expr) => {
-        emit_expr_with_min_prec(em, ctx, body, *expr, Prec::LOWEST)?;
+        emit_expr_with_min_prec(em, ctx, body, *expr, assignment_min_prec())?;
       }
       hir_js::ArrayElement::Spread(expr) => {
         em.write_punct("...");
-        emit_expr_with_min_prec(em, ctx, body, *expr, Prec::LOWEST)?;
+        emit_expr_with_min_prec(em, ctx, body, *expr, assignment_min_prec())?;
       }
       hir_js::ArrayElement::Empty => {}
     }
   }
+  // A trailing comma does not create an element, so a final hole needs its own.
+  if matches!(array.elements.last(), Some(hir_js::ArrayElement::Empty)) {
+    em.write_punct(",");
+  }
   em.write_punct("]");
   Ok(())
 }
@@ -1835,13 +1885,13 @@ fn emit_object_literal(
           } else {
             emit_object_key(em, ctx, body, key)?;
             em.write_punct(":");
-            emit_expr_with_min_prec(em, ctx, body, *value, Prec::LOWEST)?;
+            emit_expr_with_min_prec(em, ctx, body, *value, assignment_min_prec())?;
           }
         } else {
           emit_object_key(em, ctx, body, key)?;
           if !*shorthand {
             em.write_punct(":");
-            emit_expr_with_min_prec(em, ctx, body, *value, Prec::LOWEST)?;
+            emit_expr_with_min_prec(em, ctx, body, *value, assignment_min_prec())?;
           }
         }
       }
@@ -1873,7 +1923,7 @@ fn emit_object_literal(
       }
       ObjectProperty::Spread(expr) => {
         em.write_punct("...");
-        emit_expr_with_min_prec(em, ctx, body, *expr, Prec::LOWEST)?;
+        emit_expr_with_min_prec(em, ctx, body, *expr, assignment_min_prec())?;
       }
     }
   }
@@ -1890,22 +1940,51 @@ fn emit_object_key(
   match key {
     ObjectKey::Ident(name) => em.write_identifier(ctx.name(*name)),
     ObjectKey::String(str) => emit_string(em, str),
-    ObjectKey::Number(num) => em.write_number(num),
+    ObjectKey::Number(num) => emit_number_key(em, num),
     ObjectKey::Computed(expr) => {
       em.write_punct("[");
-      emit_expr_with_min_prec(em, ctx, body, *expr, Prec::LOWEST)?;
+      emit_expr_with_min_prec(em, ctx, body, *expr, assignment_min_prec())?;
       em.write_punct("]");
     }
   }
   Ok(())
 }
 
+fn emit_number_key(em: &mut Emitter, num: &str) {
+  match num.strip_prefix('-') {
+    // A negative number is not a property name by itself.
+    Some(magnitude) => {
+      em.write_punct("[");
+      em.write_punct("-");
+      em.write_number(magnitude);
+      em.write_punct("]");
+    }
+    None => em.write_number(num),
+  }
+}
+
 fn emit_template_literal(
   em: &mut Emitter,
   ctx: &HirContext<'_>,
   body: &Body,
   template: &TemplateLiteral,
 ) -> EmitResult {
+  if let Some(raw) = template
+    .raw
+    .as_ref()
+    .filter(|raw| raw.len() == template.spans.len() + 1)
+  {
+    em.write_punct("`");
+    em.write_str(&raw[0]);
+    for (span, text) in template.spans.iter().zip(&raw[1..]) {
+      em.write_punct("${");
+      emit_expr_with_min_prec(em, ctx, body, span.expr, Prec::LOWEST)?;
+      em.write_punct("}");
+      em.write_str(text);
+    }
+    em.write_punct("`");
+    return Ok(());
+  }
   em.write_punct("`");
   let mut buf = Vec::new();
   emit_template_literal_segment(&mut buf, &template.head);
@@ -1924,8 +2003,19 @@ fn emit_template_literal(
 
 fn emit_literal(em: &mut Emitter, lit: &Literal) -> EmitResult {
   match lit {
-    Literal::Number(num) => em.write_number(num),
-    Literal::String(str) => emit_string(em, &str.lossy),
+    Literal::Number(num) => match num.strip_prefix('-') {
+      // Constant folding produces negative numbers.
+      Some(magnitude) => {
+        em.write_punct("-");
+        em.write_number(magnitude);
+      }
+      None => em.write_number(num),
+    },
+    Literal::String(str) => match &str.code_units {
+      // Unpaired surrogates cannot be represented in UTF-8 output.
+      Some(units) if String::from_utf16(units).is_err() => emit_string_code_units(em, units),
+      _ => emit_string(em, &str.lossy),
+    },
     Literal::Boolean(true) => em.write_keyword("true"),
     Literal::Boolean(false) => em.write_keyword("false"),
     Literal::Null => em.write_keyword("null"),
@@ -1946,6 +2036,12 @@ fn emit_string(em: &mut Emitter, value: &str) {
   em.write_str(std::str::from_utf8(&buf).expect("string literal is UTF-8"));
 }
 
+fn emit_string_code_units(em: &mut Emitter, units: &[u16]) {
+  let mut out = Vec::new();
+  emit_string_literal_code_units(&mut out, units, em.opts().quote_style, em.minify());
+  em.write_str(std::str::from_utf8(&out).expect("string literal is UTF-8"));
+}
+
 fn emit_void_0(em: &mut Emitter) {
   em.write_keyword("void");
   em.write_number("0");
@@ -2008,11 +2104,9 @@ fn emit_binary(
   right: ExprId,
 ) -> EmitResult {
   let op_name = binary_operator(op);
-  let left_needs_paren = op_name == OperatorName::Exponentiation
-    && matches!(
-      ctx.expr(body, left).kind,
-      ExprKind::Unary { .. } | ExprKind::Update { .. }
-    );
+  let left_needs_paren = mixes_nullish_and_logical(ctx, body, op, left)
+    || (op_name == OperatorName::Exponentiation
+      && expr_prec(ctx, body, left)? < Prec::new(OPERATORS[&OperatorName::PostfixIncrement].precedence));
   if left_needs_paren {
     em.write_punct("(");
     emit_expr_no_parens(em, ctx, body, left)?;
@@ -2029,11 +2123,37 @@ fn emit_binary(
 
   emit_binary_operator(em, op_name)?;
 
+  if mixes_nullish_and_logical(ctx, body, op, right) {
+    em.write_punct("(");
+    emit_expr_no_parens(em, ctx, body, right)?;
+    em.write_punct(")");
+    return Ok(());
+  }
   let right_prec = child_min_prec_for_binary(op_name, crate::precedence::Side::Right);
   emit_expr_with_min_prec(em, ctx, body, right, right_prec)?;
   Ok(())
 }
 
+/// `??` may not be mixed with `&&`/`||` without parentheses.
+fn mixes_nullish_and_logical(
+  ctx: &HirContext<'_>,
+  body: &Body,
+  op: BinaryOp,
+  operand: ExprId,
+) -> bool {
+  let is_logical = |op: BinaryOp| matches!(op, BinaryOp::LogicalAnd | BinaryOp::LogicalOr);
+  match &ctx.expr(body, operand).kind {
+    ExprKind::Binary { op: inner, .. } => {
+      (op == BinaryOp::NullishCoalescing && is_logical(*inner))
+        || (is_logical(op) && *inner == BinaryOp::NullishCoalescing)
+    }
+    ExprKind::TypeAssertion { expr, .. }
+    | ExprKind::NonNull { expr }
+    | ExprKind::Satisfies { expr, .. } => mixes_nullish_and_logical(ctx, body, op, *expr),
+    _ => false,
+  }
+}
+
 fn emit_unary_operator(em: &mut Emitter, op: OperatorName) -> EmitResult {
   match op {
     OperatorName::LogicalNot => em.write_punct("!"),
@@ -2378,24 +2498,105 @@ fn token_from_identifier(name: &str) -> StmtStartToken {
   }
 }
 
-fn arrow_concise_body_needs_parens(expr: &Expr) -> bool {
-  matches!(
-    expr.kind,
-    ExprKind::Object(_)
-      | ExprKind::Binary {
-        op: BinaryOp::Comma,
-        ..
-      }
-  )
+fn arrow_concise_body_needs_parens(ctx: &HirContext<'_>, body: &Body, expr_id: ExprId) -> bool {
+  expr_is_comma(ctx, body, expr_id)
+    || expr_stmt_tokens(ctx, body, expr_id).first == StmtStartToken::BraceOpen
+}
+
+fn expr_is_comma(ctx: &HirContext<'_>, body: &Body, expr_id: ExprId) -> bool {
+  match &ctx.expr(body, expr_id).kind {
+    ExprKind::Binary {
+      op: BinaryOp::Comma,
+      ..
+    } => true,
+    ExprKind::TypeAssertion { expr, .. }
+    | ExprKind::NonNull { expr }
+    | ExprKind::Satisfies { expr, .. } => expr_is_comma(ctx, body, *expr),
+    _ => false,
+  }
+}
+
+/// Whether emitting `expr_id` can produce an `in` operator outside any brackets,
+/// which the head of a `for` statement would take for a `for-in` loop.
+fn expr_exposes_in_operator(ctx: &HirContext<'_>, body: &Body, expr_id: ExprId) -> bool {
+  match &ctx.expr(body, expr_id).kind {
+    ExprKind::Binary { op, left, right } => {
+      *op == BinaryOp::In
+        || expr_exposes_in_operator(ctx, body, *left)
+        || expr_exposes_in_operator(ctx, body, *right)
+    }
+    ExprKind::Assignment { value, .. } => expr_exposes_in_operator(ctx, body, *value),
+    ExprKind::Conditional {
+      test,
+      consequent,
+      alternate,
+    } => [test, consequent, alternate]
+      .into_iter()
+      .any(|expr| expr_exposes_in_operator(ctx, body, *expr)),
+    ExprKind::FunctionExpr {
+      body: body_id,
+      is_arrow: true,
+      ..
+    } => ctx.body(*body_id).is_some_and(|arrow| {
+      matches!(
+        arrow.function.as_ref().map(|func| &func.body),
+        Some(FunctionBody::Expr(expr)) if expr_exposes_in_operator(ctx, arrow, *expr)
+      )
+    }),
+    ExprKind::Unary { expr, .. }
+    | ExprKind::Await { expr }
+    | ExprKind::Yield {
+      expr: Some(expr), ..
+    }
+    | ExprKind::TypeAssertion { expr, .. }
+    | ExprKind::NonNull { expr }
+    | ExprKind::Satisfies { expr, .. } => expr_exposes_in_operator(ctx, body, *expr),
+    _ => false,
+  }
+}
+
+fn is_integer_literal(ctx: &HirContext<'_>, body: &Body, expr_id: ExprId) -> bool {
+  match &ctx.expr(body, expr_id).kind {
+    ExprKind::Literal(Literal::Number(num)) => num.bytes().all(|b| b.is_ascii_digit() || b == b'_'),
+    ExprKind::TypeAssertion { expr, .. }
+    | ExprKind::NonNull { expr }
+    | ExprKind::Satisfies { expr, .. } => is_integer_literal(ctx, body, *expr),
+    _ => false,
+  }
+}
+
+/// `new` takes the first argument list it finds, so a callee that contains a call
+/// (outside any brackets) has to be parenthesized.
+fn new_callee_needs_parens(ctx: &HirContext<'_>, body: &Body, expr_id: ExprId) -> bool {
+  starts_with_optional_chaining(ctx, body, expr_id) || member_chain_has_call(ctx, body, expr_id)
+}
+
+fn member_chain_has_call(ctx: &HirContext<'_>, body: &Body, expr_id: ExprId) -> bool {
+  match &ctx.expr(body, expr_id).kind {
+    ExprKind::Call(call) => !call.is_new,
+    ExprKind::ImportCall { .. } => true,
+    ExprKind::Member(member) => {
+      !member.chain_ended && member_chain_has_call(ctx, body, member.object)
+    }
+    ExprKind::TaggedTemplate { tag, .. } => member_chain_has_call(ctx, body, *tag),
+    ExprKind::TypeAssertion { expr, .. }
+    | ExprKind::NonNull { expr }
+    | ExprKind::Satisfies { expr, .. } => member_chain_has_call(ctx, body, *expr),
+    _ => false,
+  }
 }
 
 fn starts_with_optional_chaining(ctx: &HirContext<'_>, body: &Body, expr_id: ExprId) -> bool {
   let expr = ctx.expr(body, expr_id);
   match &expr.kind {
     ExprKind::Member(member) => {
-      member.optional || starts_with_optional_chaining(ctx, body, member.object)
+      member.optional
+        || (!member.chain_ended && starts_with_optional_chaining(ctx, body, member.object))
+    }
+    ExprKind::Call(call) => {
+      call.optional
+        || (!call.chain_ended && starts_with_optional_chaining(ctx, body, call.callee))
     }
-    ExprKind::Call(call) => call.optional || starts_with_optional_chaining(ctx, body, call.callee),
     ExprKind::TypeAssertion { expr, .. }
     | ExprKind::NonNull { expr }
     | ExprKind::Satisfies { expr, .. } => starts_with_optional_chaining(ctx, body, *expr),
diff --git a/hir-js/src/hir.rs b/hir-js/src/hir.rs
index 95b739a..37dc722 100644
--- a/hir-js/src/hir.rs
+++ b/hir-js/src/hir.rs
@@ -908,6 +908,9 @@ pub struct CallExpr {
   pub callee: ExprId,
   pub args: Vec<CallArg>,
   pub optional: bool,
+  /// The callee is a parenthesized optional chain (`(a?.b)()`), which ends the
+  /// chain: this call is not skipped when the chain short-circuits.
+  pub chain_ended: bool,
   pub is_new: bool,
 }
 
@@ -924,6 +927,9 @@ pub struct MemberExpr {
   pub object: ExprId,
   pub property: ObjectKey,
   pub optional: bool,
+  /// The object is a parenthesized optional chain (`(a?.b).c`), which ends the
+  /// chain: this access is not skipped when the chain short-circuits.
+  pub chain_ended: bool,
 }
 
 #[derive(Debug, Clone, PartialEq)]
@@ -966,6 +972,9 @@ pub enum ObjectProperty {
 pub struct TemplateLiteral {
   pub head: String,
   pub spans: Vec<TemplateLiteralSpan>,
+  /// Raw source text of each string segment, when known. Tagged templates expose
+  /// it at run time, so it cannot be derived from the cooked strings.
+  pub raw: Option<Vec<String>>,
 }
 
 #[derive(Debug, Clone, PartialEq)]
diff --git a/hir-js/src/lower.rs b/hir-js/src/lower.rs
index 3e08153..11a344e 100644
--- a/hir-js/src/lower.rs
+++ b/hir-js/src/lower.rs
@@ -41,7 +41,10 @@ use parse_js::ast::expr::FuncExpr;
 use parse_js::ast::func::Func;
 use parse_js::ast::func::FuncBody;
 use parse_js::ast::import_export::*;
+use parse_js::ast::node::literal_string_code_units;
+use parse_js::ast::node::template_string_parts;
 use parse_js::ast::node::Node;
+use parse_js::ast::node::NodeAssocData;
 use parse_js::ast::stmt::decl::ClassDecl;
 use parse_js::ast::stmt::decl::FuncDecl;
 use parse_js::ast::stmt::decl::VarDeclarator as AstVarDeclarator;
@@ -1480,6 +1483,24 @@ fn lower_class_body<'a>(
   builder.finish_with_id(body_id)
 }
 
+/// String keys with unpaired surrogates cannot be represented as a `String`; they
+/// are lowered to the equivalent computed key.
+fn lower_lossy_string_key(
+  direct: &Node<parse_js::ast::class_or_object::ClassOrObjMemberDirectKey>,
+  builder: &mut BodyBuilder<'_>,
+) -> Option<ExprId> {
+  let units = literal_string_code_units(&direct.assoc)?;
+  if String::from_utf16(units).is_ok() {
+    return None;
+  }
+  let literal = Literal::String(StringLiteral {
+    lossy: direct.stx.key.clone(),
+    code_units: Some(units.into()),
+  });
+  let span = TextRange::new(direct.loc.start_u32(), direct.loc.end_u32());
+  Some(builder.alloc_expr(span, ExprKind::Literal(literal)))
+}
+
 fn lower_class_member_key(
   key: &parse_js::ast::class_or_object::ClassOrObjKey,
   builder: &mut BodyBuilder<'_>,
@@ -1489,7 +1510,10 @@ fn lower_class_member_key(
   match key {
     parse_js::ast::class_or_object::ClassOrObjKey::Direct(direct) => match direct.stx.tt {
       TT::LiteralString | TT::LiteralTemplatePartString | TT::LiteralTemplatePartStringEnd => {
-        ClassMemberKey::String(direct.stx.key.clone())
+        match lower_lossy_string_key(direct, builder) {
+          Some(expr_id) => ClassMemberKey::Computed(expr_id),
+          None => ClassMemberKey::String(direct.stx.key.clone()),
+        }
       }
       TT::LiteralNumber | TT::LiteralNumberBin | TT::LiteralNumberHex | TT::LiteralNumberOct => {
         ClassMemberKey::Number(direct.stx.key.clone())
@@ -1874,6 +1898,7 @@ fn lower_expr(
         object,
         property,
         optional: mem.stx.optional_chaining,
+        chain_ended: ends_optional_chain(&mem.stx.left),
       })
     }
     AstExpr::ComputedMember(mem) => {
@@ -1883,6 +1908,7 @@ fn lower_expr(
         object,
         property: ObjectKey::Computed(property_expr),
         optional: mem.stx.optional_chaining,
+        chain_ended: ends_optional_chain(&mem.stx.object),
       })
     }
     AstExpr::Cond(cond) => {
@@ -1979,6 +2005,7 @@ fn lower_expr(
             callee,
             args: Vec::new(),
             optional: false,
+            chain_ended: ends_optional_chain(&unary.stx.argument),
             is_new: true,
           })
         }
@@ -2006,7 +2033,7 @@ fn lower_expr(
     }
     AstExpr::TaggedTemplate(tag) => {
       let function = lower_expr(&tag.stx.function, builder, ctx);
-      let tmpl = lower_template_literal(&tag.stx.parts, builder, ctx);
+      let tmpl = lower_template_literal(&tag.stx.parts, &tag.assoc, builder, ctx);
       ExprKind::TaggedTemplate {
         tag: function,
         template: tmpl,
@@ -2029,7 +2056,13 @@ fn lower_expr(
     }
     AstExpr::LitObj(obj) => ExprKind::Object(lower_object_literal(obj, builder, ctx)),
     AstExpr::LitTemplate(tmpl) => {
-      ExprKind::Template(lower_template_literal(&tmpl.stx.parts, builder, ctx))
+      let mut template = lower_template_literal(&tmpl.stx.parts, &tmpl.assoc, builder, ctx);
+      // An untagged template is described by its cooked strings, except for
+      // unpaired surrogates, which only the raw text can spell.
+      if !cooked_has_unpaired_surrogate(&tmpl.stx.parts, &tmpl.assoc) {
+        template.raw = None;
+      }
+      ExprKind::Template(template)
     }
     AstExpr::TypeAssertion(assert) => {
       let expr = lower_expr(&assert.stx.expression, builder, ctx);
@@ -2111,10 +2144,35 @@ fn lower_call_expr(
     callee,
     args,
     optional: call.stx.optional_chaining,
+    chain_ended: ends_optional_chain(&call.stx.callee),
     is_new,
   })
 }
 
+/// Whether `expr` is a parenthesized optional chain, whose short-circuiting does
+/// not extend to an enclosing member access or call.
+fn ends_optional_chain(expr: &Node<AstExpr>) -> bool {
+  use parse_js::ast::node::ParenthesizedExpr;
+
+  fn is_optional_chain(expr: &AstExpr) -> bool {
+    let (optional, inner) = match expr {
+      AstExpr::Member(mem) => (mem.stx.optional_chaining, &mem.stx.left),
+      AstExpr::ComputedMember(mem) => (mem.stx.optional_chaining, &mem.stx.object),
+      AstExpr::Call(call) => (call.stx.optional_chaining, &call.stx.callee),
+      AstExpr::NonNullAssertion(assertion) => return is_optional_chain(&assertion.stx.expression.stx),
+      _ => return false,
+    };
+    optional
+      || (inner.assoc.get::<ParenthesizedExpr>().is_none() && is_optional_chain(&inner.stx))
+  }
+
+  match expr.stx.as_ref() {
+    AstExpr::TypeAssertion(assertion) => is_optional_chain(&assertion.stx.expression.stx),
+    AstExpr::SatisfiesExpr(satisfies) => is_optional_chain(&satisfies.stx.expression.stx),
+    _ => expr.assoc.get::<ParenthesizedExpr>().is_some() && is_optional_chain(&expr.stx),
+  }
+}
+
 fn map_binary_op(op: parse_js::operator::OperatorName) -> Option<BinaryOp> {
   use parse_js::operator::OperatorName::*;
   Some(match op {
@@ -2281,6 +2339,8 @@ fn lower_object_key(
       TT::LiteralString => {
         if is_valid_identifier_name(&direct.stx.key) {
           ObjectKey::Ident(builder.intern_name(&direct.stx.key))
+        } else if let Some(expr_id) = lower_lossy_string_key(direct, builder) {
+          ObjectKey::Computed(expr_id)
         } else {
           ObjectKey::String(direct.stx.key.clone())
         }
@@ -2409,8 +2469,39 @@ fn lower_object_literal(
   ObjectLiteral { properties }
 }
 
+/// Whether the cooked strings recorded at parse time still describe `parts` and
+/// contain an unpaired surrogate (which `parts` can only hold lossily).
+fn cooked_has_unpaired_surrogate(
+  parts: &[parse_js::ast::expr::lit::LitTemplatePart],
+  assoc: &NodeAssocData,
+) -> bool {
+  let Some(recorded) = template_string_parts(assoc) else {
+    return false;
+  };
+  let texts: Vec<&str> = parts
+    .iter()
+    .filter_map(|part| match part {
+      parse_js::ast::expr::lit::LitTemplatePart::String(text) => Some(text.as_str()),
+      parse_js::ast::expr::lit::LitTemplatePart::Substitution(_) => None,
+    })
+    .collect();
+  let same = texts.len() == recorded.cooked.len()
+    && texts.iter().zip(recorded.cooked.iter()).all(|(text, units)| {
+      units
+        .as_ref()
+        .is_some_and(|units| String::from_utf16_lossy(units) == *text)
+    });
+  same
+    && recorded
+      .cooked
+      .iter()
+      .flatten()
+      .any(|units| String::from_utf16(units).is_err())
+}
+
 fn lower_template_literal(
   parts: &[parse_js::ast::expr::lit::LitTemplatePart],
+  assoc: &NodeAssocData,
   builder: &mut BodyBuilder<'_>,
   ctx: &mut LoweringContext,
 ) -> TemplateLiteral {
@@ -2436,7 +2527,15 @@ fn lower_template_literal(
       }
     }
   }
-  TemplateLiteral { head, spans }
+  // Raw strings are source text, so they are always well-formed UTF-16.
+  let raw = template_string_parts(assoc).and_then(|parts| {
+    parts
+      .raw
+      .iter()
+      .map(|units| String::from_utf16(units).ok())
+      .collect::<Option<Vec<_>>>()
+  });
+  TemplateLiteral { head, spans, raw }
 }
 
 fn lower_jsx_elem(
@@ -3898,21 +3997,26 @@ fn collect_var_decl<'a>(
 
 fn collect_for_lhs<'a>(
   lhs: &'a ForInOfLhs,
-  _descriptors: &mut Vec<DefDescriptor<'a>>,
-  _module_items: &mut Vec<ModuleItem<'a>>,
+  descriptors: &mut Vec<DefDescriptor<'a>>,
+  module_items: &mut Vec<ModuleItem<'a>>,
   names: &mut NameInterner,
-  _ambient: bool,
-  _in_global: bool,
+  ambient: bool,
+  in_global: bool,
   ctx: &mut LoweringContext,
 ) {
-  match lhs {
-    ForInOfLhs::Assign(pat) => {
-      let _ = collect_pat_names(pat, names, ctx);
-    }
-    ForInOfLhs::Decl((_, pat_decl)) => {
-      let _ = collect_pat_names(&pat_decl.stx.pat, names, ctx);
-    }
-  }
+  let pat = match lhs {
+    ForInOfLhs::Assign(pat) => pat,
+    ForInOfLhs::Decl((_, pat_decl)) => &pat_decl.stx.pat,
+  };
+  collect_exprs_from_pat(
+    pat,
+    descriptors,
+    module_items,
+    names,
+    ambient,
+    in_global,
+    ctx,
+  );
 }
 
 fn walk_stmt_children<'a>(
@@ -3940,6 +4044,30 @@ fn walk_stmt_children<'a>(
         collect_expr(v, descriptors, module_items, names, ambient, in_global, ctx);
       }
     }
+    AstStmt::Throw(throw) => {
+      collect_expr(
+        &throw.stx.value,
+        descriptors,
+        module_items,
+        names,
+        ambient,
+        in_global,
+        ctx,
+      );
+    }
+    AstStmt::Label(label) => {
+      collect_stmt(
+        &label.stx.statement,
+        descriptors,
+        module_items,
+        names,
+        false,
+        false,
+        ambient,
+        in_global,
+        ctx,
+      );
+    }
     AstStmt::If(if_stmt) => {
       collect_expr(
         &if_stmt.stx.test,
@@ -4195,7 +4323,15 @@ fn walk_stmt_children<'a>(
       );
       if let Some(catch) = &tr.stx.catch {
         if let Some(param) = &catch.stx.parameter {
-          let _ = collect_pat_names(&param.stx.pat, names, ctx);
+          collect_exprs_from_pat(
+            &param.stx.pat,
+            descriptors,
+            module_items,
+            names,
+            ambient,
+            in_global,
+            ctx,
+          );
         }
         for stmt in catch.stx.body.iter() {
           collect_stmt(
@@ -4582,6 +4718,21 @@ fn collect_expr<'a>(
       use parse_js::ast::class_or_object::ClassOrObjVal;
       use parse_js::ast::class_or_object::ObjMemberType;
       for member in obj.stx.members.iter() {
+        if let ObjMemberType::Valued {
+          key: ClassOrObjKey::Computed(key),
+          ..
+        } = &member.stx.typ
+        {
+          collect_expr(
+            key,
+            descriptors,
+            module_items,
+            names,
+            ambient,
+            in_global,
+            ctx,
+          );
+        }
         match &member.stx.typ {
           ObjMemberType::Valued { key, val } => match val {
             ClassOrObjVal::Prop(Some(expr)) => collect_expr(
@@ -4768,6 +4919,17 @@ fn collect_expr<'a>(
     }
     AstExpr::ObjPat(obj) => {
       for prop in obj.stx.properties.iter() {
+        if let ClassOrObjKey::Computed(key) = &prop.stx.key {
+          collect_expr(
+            key,
+            descriptors,
+            module_items,
+            names,
+            ambient,
+            in_global,
+            ctx,
+          );
+        }
         collect_exprs_from_pat(
           &prop.stx.target,
           descriptors,
@@ -4834,6 +4996,61 @@ fn collect_expr<'a>(
         ctx,
       );
     }
+    AstExpr::Unary(unary) => {
+      collect_expr(
+        &unary.stx.argument,
+        descriptors,
+        module_items,
+        names,
+        ambient,
+        in_global,
+        ctx,
+      );
+    }
+    AstExpr::UnaryPostfix(unary) => {
+      collect_expr(
+        &unary.stx.argument,
+        descriptors,
+        module_items,
+        names,
+        ambient,
+        in_global,
+        ctx,
+      );
+    }
+    AstExpr::Import(import) => {
+      collect_expr(
+        &import.stx.module,
+        descriptors,
+        module_items,
+        names,
+        ambient,
+        in_global,
+        ctx,
+      );
+      if let Some(attributes) = &import.stx.attributes {
+        collect_expr(
+          attributes,
+          descriptors,
+          module_items,
+          names,
+          ambient,
+          in_global,
+          ctx,
+        );
+      }
+    }
+    AstExpr::Instantiation(inst) => {
+      collect_expr(
+        &inst.stx.expression,
+        descriptors,
+        module_items,
+        names,
+        ambient,
+        in_global,
+        ctx,
+      );
+    }
     AstExpr::JsxElem(elem) => {
       collect_jsx_elem(
         elem,
@@ -5003,6 +5220,17 @@ fn collect_exprs_from_pat<'a>(
     }
     AstPat::Obj(obj) => {
       for prop in obj.stx.properties.iter() {
+        if let ClassOrObjKey::Computed(key) = &prop.stx.key {
+          collect_expr(
+            key,
+            descriptors,
+            module_items,
+            names,
+            ambient,
+            in_global,
+            ctx,
+          );
+        }
         collect_exprs_from_pat(
           &prop.stx.target,
           descriptors,
@@ -5095,6 +5323,15 @@ fn collect_func_params<'a>(
       in_global,
       ctx,
     );
+    collect_exprs_from_pat(
+      &param.stx.pattern.stx.pat,
+      descriptors,
+      module_items,
+      names,
+      ambient,
+      in_global,
+      ctx,
+    );
     if let Some(default) = &param.stx.default_value {
       collect_expr(
         default,
diff --git a/typecheck-ts/src/check/hir_body.rs b/typecheck-ts/src/check/hir_body.rs
index e7dab2e..db93390 100644
--- a/typecheck-ts/src/check/hir_body.rs
+++ b/typecheck-ts/src/check/hir_body.rs
@@ -10127,6 +10127,7 @@ impl<'a> FlowBodyChecker<'a> {
       object,
       property,
       optional,
+      ..
     }) = &self.body.exprs[expr_id.0 as usize].kind
     else {
       return None;
-- 
2.43.0


From ac7e14f720be8368cce05b4d9e660791036954c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:23 +0000
Subject: [PATCH 05/32] fix: minify-js: keep receivers, dead zones,
 import/export order and lone surrogates when optimizing

---
 minify-js/src/lib.rs              | 15 ++++-
 minify-js/src/opt/cf_rewrite.rs   | 13 ++++
 minify-js/src/opt/const_fold.rs   | 70 ++++++++++++++++++++--
 minify-js/src/opt/prop_rewrite.rs | 10 ++++
 minify-js/src/rename/mod.rs       | 98 +++++++++++++++++++++++++++++--
 5 files changed, 195 insertions(+), 11 deletions(-)

diff --git a/minify-js/src/lib.rs b/minify-js/src/lib.rs
index a74dfc0..c0aaff2 100644
--- a/minify-js/src/lib.rs
+++ b/minify-js/src/lib.rs
@@ -18,6 +18,8 @@ use hir_js::{lower_file, FileKind};
 use parse_js::ast::node::Node;
 #[cfg(feature = "emit-minify")]
 use parse_js::ast::stx::TopLevel;
+#[cfg(feature = "emit-minify")]
+use parse_js::loc::Loc;
 use parse_js::{parse_with_options, ParseOptions, SourceType};
 #[cfg(not(feature = "emit-minify"))]
 use rename::rewrite_source;
@@ -79,7 +81,7 @@ pub(crate) fn force_hir_emit_failure_for_tests() {
 fn emit_minified(
   file: FileId,
   file_kind: FileKind,
-  top_level_node: &Node<TopLevel>,
+  top_level_node: &mut Node<TopLevel>,
   emit_opts: &EmitOptions,
 ) -> Result<(String, EmitBackend), Vec<Diagnostic>> {
   #[cfg(all(test, feature = "emit-minify"))]
@@ -99,6 +101,15 @@ fn emit_minified(
       .map_err(|diag| vec![diag])?;
     (ast_output, EmitBackend::Ast)
   } else {
+    // The HIR emitter orders imports, exports and statements by source position,
+    // so statements synthesized by the optimizer must not keep a dummy position.
+    let mut start = 0;
+    for stmt in top_level_node.stx.body.iter_mut() {
+      if stmt.loc.0 < start {
+        stmt.loc = Loc(start, stmt.loc.1.max(start));
+      }
+      start = stmt.loc.0;
+    }
     let lowered = lower_file(file, file_kind, top_level_node);
     match emit_hir_file_diagnostic(&lowered, emit_opts.clone()) {
       Ok(code) => (code, EmitBackend::Hir),
@@ -281,7 +292,7 @@ pub fn minify_with_options(
       Dialect::Ecma => FileKind::Js,
     };
     let emit_opts = EmitOptions::minified();
-    let (emitted, _) = emit_minified(file, file_kind, &top_level_node, &emit_opts)?;
+    let (emitted, _) = emit_minified(file, file_kind, &mut top_level_node, &emit_opts)?;
     output.clear();
     output.extend_from_slice(emitted.as_bytes());
     return Ok(());
diff --git a/minify-js/src/opt/cf_rewrite.rs b/minify-js/src/opt/cf_rewrite.rs
index 74c8793..78ef443 100644
--- a/minify-js/src/opt/cf_rewrite.rs
+++ b/minify-js/src/opt/cf_rewrite.rs
@@ -134,6 +134,19 @@ fn analyze_unreachable_stmt(
   list_scope: ScopeId,
   var_scope: ScopeId,
 ) -> UnreachableAction {
+  // Imports are linked and exports are visible to importers whether or not the
+  // statement is ever reached.
+  let is_module_item = match stmt.stx.as_ref() {
+    Stmt::Import(_) | Stmt::ExportList(_) | Stmt::ExportDefaultExpr(_) => true,
+    Stmt::VarDecl(decl) => decl.stx.export,
+    Stmt::FunctionDecl(decl) => decl.stx.export || decl.stx.export_default,
+    Stmt::ClassDecl(decl) => decl.stx.export || decl.stx.export_default,
+    _ => false,
+  };
+  if is_module_item {
+    return UnreachableAction::Keep;
+  }
+
   let sem = cx.sem();
 
   let DeclSymbols {
diff --git a/minify-js/src/opt/const_fold.rs b/minify-js/src/opt/const_fold.rs
index 50b10fa..fb9e936 100644
--- a/minify-js/src/opt/const_fold.rs
+++ b/minify-js/src/opt/const_fold.rs
@@ -408,6 +408,58 @@ fn fold_param(param: &mut Node<ParamDecl>, changed: &mut bool) {
   }
 }
 
+fn is_optional_chain(expr: &Node<Expr>) -> bool {
+  match expr.stx.as_ref() {
+    Expr::Member(member) => member.stx.optional_chaining || is_optional_chain(&member.stx.left),
+    Expr::ComputedMember(member) => {
+      member.stx.optional_chaining || is_optional_chain(&member.stx.object)
+    }
+    Expr::Call(call) => call.stx.optional_chaining || is_optional_chain(&call.stx.callee),
+    _ => false,
+  }
+}
+
+fn is_reference(expr: &Node<Expr>) -> bool {
+  matches!(
+    expr.stx.as_ref(),
+    Expr::Id(_) | Expr::Member(_) | Expr::ComputedMember(_)
+  ) || is_optional_chain(expr)
+}
+
+/// Folds an operand that means something else once it satisfies `special`.
+///
+/// For example `(1 && o.f)()` calls without a receiver, so when folding turns
+/// the callee into a reference it is kept apart as `(0, o.f)`.
+fn fold_value_operand(
+  expr: Node<Expr>,
+  special: fn(&Node<Expr>) -> bool,
+  changed: &mut bool,
+) -> Node<Expr> {
+  let was_special = special(&expr);
+  let folded = fold_expr(expr, ExprCtx::Value, changed);
+  if was_special || !special(&folded) {
+    return folded;
+  }
+  let loc = folded.loc;
+  let zero = Expr::LitNum(Node::new(
+    loc,
+    LitNumExpr {
+      value: JsNumber(0.0),
+    },
+  ));
+  Node::new(
+    loc,
+    Expr::Binary(Node::new(
+      loc,
+      BinaryExpr {
+        operator: OperatorName::Comma,
+        left: Node::new(loc, zero),
+        right: folded,
+      },
+    )),
+  )
+}
+
 fn fold_expr(expr: Node<Expr>, ctx: ExprCtx, changed: &mut bool) -> Node<Expr> {
   let Node { loc, assoc, stx } = expr;
   match *stx {
@@ -429,7 +481,12 @@ fn fold_expr(expr: Node<Expr>, ctx: ExprCtx, changed: &mut bool) -> Node<Expr> {
       new_node(loc, assoc, Expr::Binary(bin))
     }
     Expr::Unary(mut unary) => {
-      unary.stx.argument = fold_expr(unary.stx.argument, ExprCtx::Value, changed);
+      unary.stx.argument = match unary.stx.operator {
+        OperatorName::Typeof | OperatorName::Delete => {
+          fold_value_operand(unary.stx.argument, is_reference, changed)
+        }
+        _ => fold_expr(unary.stx.argument, ExprCtx::Value, changed),
+      };
       if unary.stx.operator == OperatorName::LogicalNot {
         if let Some(value) = const_truthiness(&unary.stx.argument) {
           *changed = true;
@@ -472,7 +529,7 @@ fn fold_expr(expr: Node<Expr>, ctx: ExprCtx, changed: &mut bool) -> Node<Expr> {
       new_node(loc, assoc, Expr::Cond(cond))
     }
     Expr::Call(mut call) => {
-      call.stx.callee = fold_expr(call.stx.callee, ExprCtx::Value, changed);
+      call.stx.callee = fold_value_operand(call.stx.callee, is_reference, changed);
       let args = std::mem::take(&mut call.stx.arguments);
       call.stx.arguments = args
         .into_iter()
@@ -505,16 +562,16 @@ fn fold_expr(expr: Node<Expr>, ctx: ExprCtx, changed: &mut bool) -> Node<Expr> {
       new_node(loc, assoc, Expr::Class(class))
     }
     Expr::ComputedMember(mut member) => {
-      member.stx.object = fold_expr(member.stx.object, ExprCtx::Value, changed);
+      member.stx.object = fold_value_operand(member.stx.object, is_optional_chain, changed);
       member.stx.member = fold_expr(member.stx.member, ExprCtx::Value, changed);
       new_node(loc, assoc, Expr::ComputedMember(member))
     }
     Expr::Member(mut member) => {
-      member.stx.left = fold_expr(member.stx.left, ExprCtx::Value, changed);
+      member.stx.left = fold_value_operand(member.stx.left, is_optional_chain, changed);
       new_node(loc, assoc, Expr::Member(member))
     }
     Expr::TaggedTemplate(mut tagged) => {
-      tagged.stx.function = fold_expr(tagged.stx.function, ExprCtx::Value, changed);
+      tagged.stx.function = fold_value_operand(tagged.stx.function, is_reference, changed);
       for part in tagged.stx.parts.iter_mut() {
         if let LitTemplatePart::Substitution(expr) = part {
           let owned = std::mem::replace(expr, dummy_expr());
@@ -894,6 +951,9 @@ fn const_val(expr: &Node<Expr>) -> Option<ConstVal<'_>> {
     Expr::LitNull(_) => Some(ConstVal::Null),
     Expr::LitBool(b) => Some(ConstVal::Bool(b.stx.value)),
     Expr::LitNum(n) => Some(ConstVal::Num(n.stx.value.0)),
+    // The literal may stand for a string with unpaired surrogates, which cannot be
+    // represented here.
+    Expr::LitStr(s) if s.stx.value.contains('\u{FFFD}') => None,
     Expr::LitStr(s) => Some(ConstVal::Str(s.stx.value.as_str())),
     Expr::LitBigInt(b) => Some(ConstVal::BigInt(b.stx.value.as_str())),
     Expr::Unary(unary)
diff --git a/minify-js/src/opt/prop_rewrite.rs b/minify-js/src/opt/prop_rewrite.rs
index 40875ec..2876b40 100644
--- a/minify-js/src/opt/prop_rewrite.rs
+++ b/minify-js/src/opt/prop_rewrite.rs
@@ -98,6 +98,10 @@ fn simplify_computed_member(member: Node<ComputedMemberExpr>, loc: Loc) -> (Expr
   }
 
   let key = match member.stx.member.stx.as_ref() {
+    // May stand for a string with unpaired surrogates.
+    Expr::LitStr(lit) if lit.stx.value.contains('\u{FFFD}') => {
+      return (Expr::ComputedMember(member), false);
+    }
     Expr::LitStr(lit) => StaticKey::Borrowed(lit.stx.value.as_str()),
     Expr::LitBool(lit) => StaticKey::Borrowed(if lit.stx.value { "true" } else { "false" }),
     Expr::LitBigInt(lit) => StaticKey::Borrowed(lit.stx.value.as_str()),
@@ -193,6 +197,10 @@ fn simplify_object_key(key: ClassOrObjKey, proto: ProtoSemantics) -> (ClassOrObj
       _ => (ClassOrObjKey::Direct(direct), false),
     },
     ClassOrObjKey::Computed(expr) => match expr.stx.as_ref() {
+      // May stand for a string with unpaired surrogates.
+      Expr::LitStr(lit) if lit.stx.value.contains('\u{FFFD}') => {
+        (ClassOrObjKey::Computed(expr), false)
+      }
       Expr::LitStr(lit) => {
         let key = lit.stx.value.as_str();
         if proto == ProtoSemantics::Preserve && key == "__proto__" {
@@ -431,9 +439,11 @@ fn parse_canonical_u64_index(value: &str) -> Option<u64> {
 }
 
 fn template_to_string(parts: &[LitTemplatePart]) -> Option<String> {
+  // U+FFFD may stand for an unpaired surrogate.
   let mut out = String::new();
   for part in parts {
     match part {
+      LitTemplatePart::String(s) if s.contains('\u{FFFD}') => return None,
       LitTemplatePart::String(s) => out.push_str(s),
       LitTemplatePart::Substitution(_) => return None,
     }
diff --git a/minify-js/src/rename/mod.rs b/minify-js/src/rename/mod.rs
index 53ceeda..9622de4 100644
--- a/minify-js/src/rename/mod.rs
+++ b/minify-js/src/rename/mod.rs
@@ -5,12 +5,12 @@ use parse_js::ast::class_or_object::{
 };
 use parse_js::ast::expr::lit::{LitNullExpr, LitStrExpr};
 use parse_js::ast::expr::pat::{ClassOrFuncName, IdPat, ObjPatProp, Pat};
-use parse_js::ast::expr::Expr;
 use parse_js::ast::expr::IdExpr;
+use parse_js::ast::expr::{CallExpr, Expr};
 use parse_js::ast::import_export::{ExportName, ModuleExportImportName};
 use parse_js::ast::node::Node;
-use parse_js::ast::stmt::decl::{ClassDecl, FuncDecl, VarDecl};
-use parse_js::ast::stmt::ExportListStmt;
+use parse_js::ast::stmt::decl::{ClassDecl, FuncDecl, VarDecl, VarDeclMode};
+use parse_js::ast::stmt::{ExportListStmt, ForInOfLhs, ForInStmt, ForOfStmt, WithStmt};
 use parse_js::ast::stx::TopLevel;
 use parse_js::lex::KEYWORDS_MAPPING;
 use parse_js::lex::{lex_next, LexMode, Lexer};
@@ -61,12 +61,17 @@ struct SymbolCollector<'a> {
   export_list_from_stack: Vec<bool>,
   ignore_id_pats: usize,
   scope_usages: HashMap<ScopeId, ScopeUsages>,
+  loop_hazards: HashMap<ScopeId, ScopeHazards>,
 }
 
+type CallExprNode = Node<CallExpr>;
+type WithStmtNode = Node<WithStmt>;
 type ClassDeclNode = Node<ClassDecl>;
 type ClassOrFuncNameNode = Node<ClassOrFuncName>;
 type ExportNameNode = Node<ExportName>;
 type ExportListStmtNode = Node<ExportListStmt>;
+type ForInStmtNode = Node<ForInStmt>;
+type ForOfStmtNode = Node<ForOfStmt>;
 type FuncDeclNode = Node<FuncDecl>;
 type IdExprNode = Node<IdExpr>;
 type IdPatNode = Node<IdPat>;
@@ -81,6 +86,8 @@ type VarDeclNode = Node<VarDecl>;
   ClassOrFuncNameNode(enter),
   ExportListStmtNode(enter, exit),
   ExportNameNode(enter, exit),
+  ForInStmtNode(enter),
+  ForOfStmtNode(enter),
   FuncDeclNode(enter, exit),
   IdExprNode(enter),
   IdPatNode(enter),
@@ -90,6 +97,47 @@ struct SymbolCollectorVisitor<'a> {
   inner: SymbolCollector<'a>,
 }
 
+/// Collects the references made while evaluating the iterated expression of a
+/// `for-in`/`for-of` loop.
+#[derive(Default, VisitorMut)]
+#[visitor(
+  CallExprNode(enter),
+  IdExprNode(enter),
+  IdPatNode(enter),
+  WithStmtNode(enter)
+)]
+struct LoopHeadReferences {
+  symbols: Vec<SymbolId>,
+  unknown: Vec<String>,
+  hazards: ScopeHazards,
+}
+
+impl LoopHeadReferences {
+  fn enter_call_expr_node(&mut self, node: &mut CallExprNode) {
+    if matches!(node.stx.callee.stx.as_ref(), Expr::Id(id) if id.stx.name == "eval") {
+      self.hazards.has_direct_eval = true;
+    }
+  }
+
+  fn enter_with_stmt_node(&mut self, _node: &mut WithStmtNode) {
+    self.hazards.has_with = true;
+  }
+
+  fn enter_id_expr_node(&mut self, node: &mut IdExprNode) {
+    match resolved_symbol(&node.assoc) {
+      Some(sym) => self.symbols.push(sym),
+      None => self.unknown.push(node.stx.name.clone()),
+    }
+  }
+
+  fn enter_id_pat_node(&mut self, node: &mut IdPatNode) {
+    match resolved_symbol(&node.assoc) {
+      Some(sym) => self.symbols.push(sym),
+      None => self.unknown.push(node.stx.name.clone()),
+    }
+  }
+}
+
 impl<'a> SymbolCollector<'a> {
   fn new(sem: &'a JsSemantics, top_level_mode: TopLevelMode) -> Self {
     Self {
@@ -100,6 +148,7 @@ impl<'a> SymbolCollector<'a> {
       export_list_from_stack: Vec::new(),
       ignore_id_pats: 0,
       scope_usages: HashMap::default(),
+      loop_hazards: HashMap::default(),
     }
   }
 
@@ -133,6 +182,28 @@ impl<'a> SymbolCollector<'a> {
     }
   }
 
+  /// The iterated expression is evaluated while the loop's lexical bindings are
+  /// in their TDZ, so those bindings must not be renamed to anything it refers to.
+  fn record_loop_head_usage(&mut self, lhs: &mut ForInOfLhs, rhs: &mut Node<Expr>) {
+    let ForInOfLhs::Decl((mode, pat)) = lhs else {
+      return;
+    };
+    if *mode == VarDeclMode::Var {
+      return;
+    }
+    let Some(scope) = scope_id(&pat.assoc) else {
+      return;
+    };
+    let mut references = LoopHeadReferences::default();
+    rhs.drive_mut(&mut references);
+    let usages = self.scope_usages.entry(scope).or_default();
+    usages.foreign.extend(references.symbols);
+    usages.unknown.extend(references.unknown);
+    if references.hazards.has_direct_eval || references.hazards.has_with {
+      self.loop_hazards.insert(scope, references.hazards);
+    }
+  }
+
   fn maybe_mark_export(&mut self, scope: ScopeId, sym: SymbolId, mark_export: bool) {
     if mark_export && self.sem.scope(scope).kind == ScopeKind::Module {
       self.exported.insert(sym);
@@ -165,6 +236,20 @@ impl SymbolCollectorVisitor<'_> {
     self.inner.export_list_from_stack.pop();
   }
 
+  fn enter_for_in_stmt_node(&mut self, node: &mut ForInStmtNode) {
+    let stmt = node.stx.as_mut();
+    self
+      .inner
+      .record_loop_head_usage(&mut stmt.lhs, &mut stmt.rhs);
+  }
+
+  fn enter_for_of_stmt_node(&mut self, node: &mut ForOfStmtNode) {
+    let stmt = node.stx.as_mut();
+    self
+      .inner
+      .record_loop_head_usage(&mut stmt.lhs, &mut stmt.rhs);
+  }
+
   fn enter_class_decl_node(&mut self, node: &mut ClassDeclNode) {
     let export = self.inner.top_level_mode == TopLevelMode::Module && node.stx.export;
     self.inner.export_decl_stack.push(export);
@@ -273,6 +358,7 @@ pub fn collect_usages(
   let SymbolCollector {
     exported,
     scope_usages,
+    loop_hazards,
     ..
   } = visitor.inner;
 
@@ -282,10 +368,14 @@ pub fn collect_usages(
   let mut queue = vec![sem.top_scope()];
   while let Some(scope_id) = queue.pop() {
     let scope_data = sem.scope(scope_id);
-    let hazards = ScopeHazards {
+    let mut hazards = ScopeHazards {
       has_direct_eval: scope_data.has_direct_eval,
       has_with: scope_data.is_dynamic && !scope_data.has_direct_eval,
     };
+    if let Some(head) = loop_hazards.get(&scope_id) {
+      hazards.has_direct_eval |= head.has_direct_eval;
+      hazards.has_with |= head.has_with;
+    }
     if hazards.has_direct_eval || hazards.has_with {
       scope_hazards.insert(scope_id, hazards);
     }
-- 
2.43.0


From 3d46d4cbb14e7c317057f16438fa66a15553b80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:34 +0000
Subject: [PATCH 06/32] fix: parse-js: statement-ending semicolons, escaped
 names, octal escapes, split ?. tokens, concise arrow bodies, import
 attributes

---
 parse-js/src/num.rs                   | 30 ++++++++++
 parse-js/src/parse/class_or_object.rs |  8 ++-
 parse-js/src/parse/expr/jsx.rs        | 12 ++--
 parse-js/src/parse/expr/lit.rs        | 31 ++++++++--
 parse-js/src/parse/expr/mod.rs        | 83 ++++++++++++++++++++++-----
 parse-js/src/parse/expr/pat.rs        |  4 +-
 parse-js/src/parse/import_export.rs   | 26 ++++++---
 parse-js/src/parse/mod.rs             | 28 +++++++--
 parse-js/src/parse/operator.rs        |  1 -
 parse-js/src/parse/stmt/mod.rs        | 71 ++++++++++++++++++-----
 parse-js/src/parse/ts_decl.rs         |  4 +-
 parse-js/src/parse/type_expr.rs       |  4 +-
 12 files changed, 242 insertions(+), 60 deletions(-)

diff --git a/parse-js/src/num.rs b/parse-js/src/num.rs
index 0517723..f88bd44 100644
--- a/parse-js/src/num.rs
+++ b/parse-js/src/num.rs
@@ -15,6 +15,36 @@ impl JsNumber {
     parse_number_literal(raw).map(Self)
   }
 
+  /// The property name this number spells as a key, as ECMAScript `Number::toString` gives it.
+  pub fn to_property_name(self) -> String {
+    let text = self.to_string();
+    if self.0.is_infinite() {
+      return if self.0 > 0.0 { "Infinity" } else { "-Infinity" }.to_string();
+    }
+    let Some((mantissa, exponent)) = text.split_once('e') else {
+      return text;
+    };
+    let Ok(exponent) = exponent.parse::<i32>() else {
+      return text;
+    };
+    let (sign, mantissa) = match mantissa.strip_prefix('-') {
+      Some(mantissa) => ("-", mantissa),
+      None => ("", mantissa),
+    };
+    let (whole, fraction) = mantissa.split_once('.').unwrap_or((mantissa, ""));
+    let digits = format!("{whole}{fraction}");
+    let point = whole.len() as i32 + exponent;
+    if (-5..=0).contains(&point) {
+      format!("{sign}0.{}{digits}", "0".repeat(-point as usize))
+    } else if point >= digits.len() as i32 && point <= 21 {
+      format!("{sign}{digits}{}", "0".repeat(point as usize - digits.len()))
+    } else if exponent > 0 {
+      format!("{sign}{mantissa}e+{exponent}")
+    } else {
+      text
+    }
+  }
+
   fn is_negative_zero(self) -> bool {
     self.0 == 0.0 && self.0.is_sign_negative()
   }
diff --git a/parse-js/src/parse/class_or_object.rs b/parse-js/src/parse/class_or_object.rs
index 0d4630b..af9d6ff 100644
--- a/parse-js/src/parse/class_or_object.rs
+++ b/parse-js/src/parse/class_or_object.rs
@@ -110,7 +110,11 @@ impl<'a> Parser<'a> {
 
   fn at_member_modifier(&mut self, keyword: TT) -> bool {
     let [current, next] = self.peek_n::<2>();
-    current.typ == keyword && !Self::ends_member_name(next.typ)
+    // The modifiers are TypeScript's, and end their line nowhere: `override\nx` is two fields.
+    !self.is_strict_ecmascript()
+      && current.typ == keyword
+      && !next.preceded_by_line_terminator
+      && !Self::ends_member_name(next.typ)
   }
 
   pub fn class_body_with_context(
@@ -655,7 +659,7 @@ impl<'a> Parser<'a> {
           literal_code_units = Some(code_units);
           key
         }
-        TT::LiteralNumber => self.lit_num_val()?.to_string(),
+        TT::LiteralNumber => self.lit_num_val()?.to_property_name(),
         // There's no trailing `n`.
         TT::LiteralBigInt => self.lit_bigint_val()?.to_string(),
         TT::PrivateMember => self.consume_as_string(),
diff --git a/parse-js/src/parse/expr/jsx.rs b/parse-js/src/parse/expr/jsx.rs
index 06d74d0..1b5985d 100644
--- a/parse-js/src/parse/expr/jsx.rs
+++ b/parse-js/src/parse/expr/jsx.rs
@@ -60,13 +60,13 @@ impl<'a> Parser<'a> {
       Ok(if p.consume_if(TT::Colon).is_match() {
         let name = p.jsx_name_token()?;
         JsxName {
-          namespace: Some(p.string(start.loc)),
-          name: p.string(name.loc),
+          namespace: Some(p.ident_string(start.loc)),
+          name: p.ident_string(name.loc),
         }
       } else {
         JsxName {
           namespace: None,
-          name: p.string(start.loc),
+          name: p.ident_string(start.loc),
         }
       })
     })
@@ -79,7 +79,7 @@ impl<'a> Parser<'a> {
       return Ok(None);
     }
     let start_tok = self.jsx_name_token()?;
-    let mut base_name = self.string(start_tok.loc);
+    let mut base_name = self.ident_string(start_tok.loc);
     let mut base_loc = start_tok.loc;
     let mut path = Vec::<String>::new();
     let mut has_namespace = false;
@@ -90,7 +90,7 @@ impl<'a> Parser<'a> {
     {
       has_namespace = true;
       let name = self.jsx_name_token()?;
-      base_name = format!("{}:{}", base_name, self.string(name.loc));
+      base_name = format!("{}:{}", base_name, self.ident_string(name.loc));
       base_loc += name.loc;
 
       // TypeScript disallows JSX member expressions on namespaced names (e.g.
@@ -114,7 +114,7 @@ impl<'a> Parser<'a> {
           return Err(part.error(SyntaxErrorType::ExpectedSyntax("identifier")));
         }
         base_loc += part.loc;
-        path.push(self.string(part.loc));
+        path.push(self.ident_string(part.loc));
       }
     }
 
diff --git a/parse-js/src/parse/expr/lit.rs b/parse-js/src/parse/expr/lit.rs
index d25dd19..4eab63f 100644
--- a/parse-js/src/parse/expr/lit.rs
+++ b/parse-js/src/parse/expr/lit.rs
@@ -137,7 +137,9 @@ fn decode_escape_sequence(
     '0'..='7' => {
       let mut consumed = first.len_utf8();
       let mut value = first.to_digit(8).unwrap();
-      for ch in raw[consumed..].chars().take(2) {
+      // Octal escapes go up to `\377`: a third digit needs a first one of 0 to 3.
+      let more = if first <= '3' { 2 } else { 1 };
+      for ch in raw[consumed..].chars().take(more) {
         if ('0'..='7').contains(&ch) {
           consumed += ch.len_utf8();
           value = (value << 3) + ch.to_digit(8).unwrap();
@@ -313,7 +315,9 @@ fn decode_escape_sequence_utf16(
     '0'..='7' => {
       let mut consumed = first.len_utf8();
       let mut value = first.to_digit(8).unwrap() as u16;
-      for ch in raw[consumed..].chars().take(2) {
+      // Octal escapes go up to `\377`: a third digit needs a first one of 0 to 3.
+      let more = if first <= '3' { 2 } else { 1 };
+      for ch in raw[consumed..].chars().take(more) {
         if ('0'..='7').contains(&ch) {
           consumed += ch.len_utf8();
           value = (value << 3) + ch.to_digit(8).unwrap() as u16;
@@ -503,6 +507,16 @@ fn decode_literal_utf16(raw: &str, allow_line_terminators: bool) -> Result<Vec<u
   Ok(norm)
 }
 
+/// Template literal contents have `\r\n` and `\r` normalised to `\n`, in both their raw and
+/// their cooked values.
+fn normalise_template_newlines(content: &str) -> std::borrow::Cow<'_, str> {
+  if content.contains('\r') {
+    content.replace("\r\n", "\n").replace('\r', "\n").into()
+  } else {
+    content.into()
+  }
+}
+
 fn find_legacy_escape_sequence(raw: &str) -> Option<(usize, usize)> {
   let bytes = raw.as_bytes();
   let mut i = 0;
@@ -1193,7 +1207,8 @@ impl<'a> Parser<'a> {
     let raw = self.bytes(t.loc);
     let (content_offset, first_content) =
       template_content(raw, is_end).ok_or_else(|| t.error(SyntaxErrorType::UnexpectedEnd))?;
-    let first_raw = first_content.encode_utf16().collect::<Vec<_>>().into_boxed_slice();
+    let first_norm = normalise_template_newlines(first_content);
+    let first_raw = first_norm.encode_utf16().collect::<Vec<_>>().into_boxed_slice();
     raw_parts.push(first_raw);
     let first_legacy_escape = find_legacy_escape_sequence(first_content);
     if !tagged && invalid_escape.is_none() {
@@ -1204,7 +1219,9 @@ impl<'a> Parser<'a> {
         ));
       }
     }
-    let decoded_first = decode_literal_utf16(first_content, true);
+    // Decode errors carry offsets, so find them in the text as it was written.
+    let decoded_first = decode_literal_utf16(first_content, true)
+      .and_then(|_| decode_literal_utf16(&first_norm, true));
     let (first_str, first_cooked) = match decoded_first {
       Ok(code_units) => {
         let str_val = String::from_utf16_lossy(&code_units);
@@ -1249,7 +1266,8 @@ impl<'a> Parser<'a> {
         let raw = self.bytes(string.loc);
         let (offset, content) = template_content(raw, string_is_end)
           .ok_or_else(|| string.error(SyntaxErrorType::UnexpectedEnd))?;
-        let raw_part = content.encode_utf16().collect::<Vec<_>>().into_boxed_slice();
+        let norm = normalise_template_newlines(content);
+        let raw_part = norm.encode_utf16().collect::<Vec<_>>().into_boxed_slice();
         raw_parts.push(raw_part);
         let legacy_escape = find_legacy_escape_sequence(content);
         if !tagged && invalid_escape.is_none() {
@@ -1261,7 +1279,8 @@ impl<'a> Parser<'a> {
           }
         }
 
-        let decoded_part = decode_literal_utf16(content, true);
+        let decoded_part =
+          decode_literal_utf16(content, true).and_then(|_| decode_literal_utf16(&norm, true));
         let (part_str, part_cooked) = match decoded_part {
           Ok(code_units) => {
             let str_val = String::from_utf16_lossy(&code_units);
diff --git a/parse-js/src/parse/expr/mod.rs b/parse-js/src/parse/expr/mod.rs
index 54d37bc..a1de355 100644
--- a/parse-js/src/parse/expr/mod.rs
+++ b/parse-js/src/parse/expr/mod.rs
@@ -282,7 +282,7 @@ impl<'a> Parser<'a> {
             pat: Node::new(
               param_name,
               IdPat {
-                name: p.string(param_name),
+                name: p.ident_string(param_name),
               },
             )
             .into_wrapped(),
@@ -365,8 +365,15 @@ impl<'a> Parser<'a> {
           }
           _ => {
             p.validate_formal_parameters(None, &parameters, simple_params, true)?;
+            // A concise body is an AssignmentExpression: it ends before a comma. TypeScript
+            // dialects still take in a whole expression.
+            let min_prec = if p.is_typescript() {
+              1
+            } else {
+              OPERATORS[&OperatorName::Assignment].precedence
+            };
             Ok(
-              p.expr_with_asi(fn_body_ctx, terminators, &mut Asi::can())?
+              p.expr_with_min_prec(fn_body_ctx, min_prec, terminators, &mut Asi::can())?
                 .into(),
             )
           }
@@ -623,7 +630,7 @@ impl<'a> Parser<'a> {
     if !is_valid_pattern_identifier(t.typ, ctx.rules) {
       return Err(t.error(SyntaxErrorType::ExpectedSyntax("identifier")));
     };
-    let name = self.string(t.loc);
+    let name = self.ident_string(t.loc);
     if self.is_strict_ecmascript()
       && self.is_strict_mode()
       && Parser::is_strict_mode_reserved_word(&name)
@@ -945,10 +952,10 @@ impl<'a> Parser<'a> {
                       let mut right = right_tok.loc;
                       match right_tok.typ {
                         TT::Identifier | TT::PrivateMember => {
-                          prop = p.string(right);
+                          prop = p.ident_string(right);
                         }
                         t if KEYWORDS_MAPPING.contains_key(&t) => {
-                          prop = p.string(right);
+                          prop = p.ident_string(right);
                         }
                         _ => {
                           if !p.should_recover() {
@@ -1267,6 +1274,10 @@ impl<'a> Parser<'a> {
     asi: &mut Asi,
   ) -> SyntaxResult<Node<Expr>> {
     let left = self.expr_operand(ctx, terminators, asi)?;
+    if asi.did_end_with_asi && matches!(left.stx.as_ref(), Expr::Unary(_)) {
+      // A semicolon was inserted after the operand, so nothing can follow the operator either.
+      return Ok(left);
+    }
     self.expr_with_min_prec_after_left(ctx, left, min_prec, terminators, asi)
   }
 
@@ -1313,7 +1324,22 @@ impl<'a> Parser<'a> {
 
     loop {
       let cp = self.checkpoint();
-      let t = self.consume();
+      let mut t = self.consume();
+
+      // `?.` and the `[` or `(` after it are separate tokens.
+      if t.typ == TT::QuestionDot {
+        match self.peek().typ {
+          TT::BracketOpen => {
+            self.consume();
+            t.typ = TT::QuestionDotBracketOpen;
+          }
+          TT::ParenthesisOpen => {
+            self.consume();
+            t.typ = TT::QuestionDotParenthesisOpen;
+          }
+          _ => {}
+        }
+      }
 
       if terminators.contains(&t.typ) {
         self.restore_checkpoint(cp);
@@ -1372,9 +1398,15 @@ impl<'a> Parser<'a> {
           // However, `yield` expressions are restricted productions: an unparenthesized
           // `yield`/`yield*` cannot be used as a tag expression. If we encounter a template
           // literal after `yield` across a LineTerminator, treat it as an ASI boundary.
-          if matches!(left.stx.as_ref(), Expr::Unary(unary) if matches!(unary.stx.operator, OperatorName::Yield | OperatorName::YieldDelegated))
-            && left.assoc.get::<ParenthesizedExpr>().is_none()
-          {
+          let untaggable = match left.stx.as_ref() {
+            Expr::Unary(unary) => matches!(
+              unary.stx.operator,
+              OperatorName::Yield | OperatorName::YieldDelegated
+            ),
+            Expr::ArrowFunc(_) | Expr::UnaryPostfix(_) => true,
+            _ => false,
+          };
+          if untaggable && left.assoc.get::<ParenthesizedExpr>().is_none() {
             if asi_allowed && t.preceded_by_line_terminator {
               self.restore_checkpoint(cp);
               asi.did_end_with_asi = true;
@@ -1606,9 +1638,24 @@ impl<'a> Parser<'a> {
           // `yield\n(1)`, `yield\n[0]`). In those cases we either insert an
           // automatic semicolon at a LineTerminator boundary (if allowed) or
           // report a syntax error requiring parentheses.
-          if matches!(left.stx.as_ref(), Expr::Unary(unary) if matches!(unary.stx.operator, OperatorName::Yield | OperatorName::YieldDelegated))
+          //
+          // The same goes for arrow functions with a block body, and for `++` and `--` after
+          // their operand, which cannot be called or accessed (`a++\n(b)`).
+          let tightest = match left.stx.as_ref() {
+            Expr::Unary(unary)
+              if matches!(
+                unary.stx.operator,
+                OperatorName::Yield | OperatorName::YieldDelegated
+              ) =>
+            {
+              Some(OperatorName::Yield)
+            }
+            Expr::ArrowFunc(_) => Some(OperatorName::Yield),
+            Expr::UnaryPostfix(_) => Some(OperatorName::PostfixIncrement),
+            _ => None,
+          };
+          if tightest.is_some_and(|name| operator.precedence > OPERATORS[&name].precedence)
             && left.assoc.get::<ParenthesizedExpr>().is_none()
-            && operator.precedence > OPERATORS[&OperatorName::Yield].precedence
           {
             if asi_allowed && t.preceded_by_line_terminator {
               self.restore_checkpoint(cp);
@@ -1667,7 +1714,12 @@ impl<'a> Parser<'a> {
               .into_wrapped()
             }
             OperatorName::Conditional => {
-              let consequent = self.expr(ctx, [TT::Colon])?;
+              let consequent = self.expr_with_min_prec(
+                ctx,
+                OPERATORS[&OperatorName::Assignment].precedence,
+                [TT::Colon],
+                &mut Asi::no(),
+              )?;
               self.require(TT::Colon)?;
               let alternate = self.expr_with_min_prec(
                 ctx,
@@ -1692,10 +1744,10 @@ impl<'a> Parser<'a> {
               let mut right = right_tok.loc;
               match right_tok.typ {
                 TT::Identifier | TT::PrivateMember => {
-                  prop = self.string(right);
+                  prop = self.ident_string(right);
                 }
                 t if KEYWORDS_MAPPING.contains_key(&t) => {
-                  prop = self.string(right);
+                  prop = self.ident_string(right);
                 }
                 _ => {
                   if !self.should_recover() {
@@ -1771,6 +1823,9 @@ impl<'a> Parser<'a> {
               .into_wrapped()
             }
           };
+          if asi.did_end_with_asi {
+            break;
+          }
         }
       };
     }
diff --git a/parse-js/src/parse/expr/pat.rs b/parse-js/src/parse/expr/pat.rs
index 1f5fe44..d83ea1f 100644
--- a/parse-js/src/parse/expr/pat.rs
+++ b/parse-js/src/parse/expr/pat.rs
@@ -83,7 +83,7 @@ impl<'a> Parser<'a> {
         Node::new(
           t.loc,
           ClassOrFuncName {
-            name: self.string(t.loc),
+            name: self.ident_string(t.loc),
           },
         )
       })
@@ -96,7 +96,7 @@ impl<'a> Parser<'a> {
       if !is_valid_pattern_identifier(t.typ, ctx.rules) {
         return Err(t.error(SyntaxErrorType::ExpectedSyntax("identifier")));
       }
-      let name = p.string(t.loc);
+      let name = p.ident_string(t.loc);
       if p.is_strict_ecmascript()
         && p.is_strict_mode()
         && (Parser::is_strict_mode_reserved_word(&name)
diff --git a/parse-js/src/parse/import_export.rs b/parse-js/src/parse/import_export.rs
index 06f8e5e..fc58350 100644
--- a/parse-js/src/parse/import_export.rs
+++ b/parse-js/src/parse/import_export.rs
@@ -93,11 +93,16 @@ impl<'a> Parser<'a> {
         Node::new(
           t_alias.loc,
           IdPat {
-            name: self.string(t_alias.loc),
+            name: self.ident_string(t_alias.loc),
           },
         )
       } else {
-        self.id_pat(ctx)?
+        let mut alias = self.id_pat(ctx)?;
+        if is_export {
+          // Exported names are kept as they are spelled.
+          alias.stx.name = self.string(t_alias.loc);
+        }
+        alias
       }
     } else if alias_is_required {
       // TypeScript reports `Identifier expected` for shorthand specifiers that
@@ -283,8 +288,8 @@ impl<'a> Parser<'a> {
       let has_attributes = has_attributes_keyword && self.peek_n::<2>()[1].typ == TT::BraceOpen;
       if has_attributes {
         self.consume();
-        let mut asi = Asi::can();
-        Some(self.expr_with_asi(ctx, [TT::Semicolon], &mut asi)?)
+        // The attributes are just the braces: what follows them is another statement.
+        Some(self.lit_obj(ctx)?.into_wrapped())
       } else {
         None
       }
@@ -470,7 +475,7 @@ impl<'a> Parser<'a> {
               Ok(Node::new(
                 t.loc,
                 IdPat {
-                  name: p.string(t.loc),
+                  name: p.ident_string(t.loc),
                 },
               ))
             } else {
@@ -496,8 +501,7 @@ impl<'a> Parser<'a> {
         let has_attributes = has_attributes_keyword && p.peek_n::<2>()[1].typ == TT::BraceOpen;
         if has_attributes {
           p.consume();
-          let mut asi = Asi::can();
-          Some(p.expr_with_asi(ctx, [TT::Semicolon], &mut asi)?)
+          Some(p.lit_obj(ctx)?.into_wrapped())
         } else {
           None
         }
@@ -703,7 +707,13 @@ impl<'a> Parser<'a> {
     };
     // Export declarations may be terminated by an explicit semicolon; consume it so it doesn't
     // become a standalone empty statement at the top level.
-    let _ = self.consume_if(TT::Semicolon);
+    // Declarations have already consumed the semicolon that ends them, if they have one.
+    if !matches!(
+      stmt.stx.as_ref(),
+      Stmt::FunctionDecl(_) | Stmt::ClassDecl(_) | Stmt::VarDecl(_)
+    ) {
+      let _ = self.consume_if(TT::Semicolon);
+    }
     Ok(stmt)
   }
 }
diff --git a/parse-js/src/parse/mod.rs b/parse-js/src/parse/mod.rs
index daf83a9..eeaf76b 100644
--- a/parse-js/src/parse/mod.rs
+++ b/parse-js/src/parse/mod.rs
@@ -449,6 +449,26 @@ impl<'a> Parser<'a> {
     self.str(loc).to_string()
   }
 
+  /// The name a token spells: its text with any Unicode escapes decoded.
+  pub fn ident_string(&self, loc: Loc) -> String {
+    let raw = self.str(loc);
+    let mut parts = raw.split("\\u");
+    let mut name = parts.next().unwrap_or_default().to_string();
+    for part in parts {
+      let (hex, rest) = match part.strip_prefix('{').and_then(|p| p.split_once('}')) {
+        Some(braced) => braced,
+        None if part.is_char_boundary(4.min(part.len())) => part.split_at(4.min(part.len())),
+        None => return raw.to_string(),
+      };
+      match u32::from_str_radix(hex, 16).ok().and_then(char::from_u32) {
+        Some(c) => name.push(c),
+        None => return raw.to_string(),
+      }
+      name.push_str(rest);
+    }
+    name
+  }
+
   pub fn checkpoint(&self) -> ParserCheckpoint {
     ParserCheckpoint {
       next_tok_i: self.next_tok_i,
@@ -540,7 +560,7 @@ impl<'a> Parser<'a> {
   /// Consumes the next token regardless of type, and returns its raw source code as a string.
   pub fn consume_as_string(&mut self) -> String {
     let loc = self.consume().loc;
-    self.string(loc)
+    self.ident_string(loc)
   }
 
   pub fn peek_with_mode(&mut self, mode: LexMode) -> Token {
@@ -775,7 +795,7 @@ impl<'a> Parser<'a> {
     if t.typ != TT::Identifier {
       return Err(t.error(SyntaxErrorType::ExpectedSyntax("identifier")));
     }
-    Ok(self.string(t.loc))
+    Ok(self.ident_string(t.loc))
   }
 
   /// Require an identifier, but allow TypeScript type keywords as identifiers
@@ -790,7 +810,7 @@ impl<'a> Parser<'a> {
       // NOTE: `yield` is treated as an identifier outside generator contexts for parse recovery.
       || t.typ == TT::KeywordYield
     {
-      return Ok(self.string(t.loc));
+      return Ok(self.ident_string(t.loc));
     }
     // Allow TypeScript type keywords as identifiers
     match t.typ {
@@ -804,7 +824,7 @@ impl<'a> Parser<'a> {
       | TT::KeywordUndefinedType
       | TT::KeywordUnknown
       | TT::KeywordObjectType
-      | TT::KeywordBigIntType => Ok(self.string(t.loc)),
+      | TT::KeywordBigIntType => Ok(self.ident_string(t.loc)),
       _ => Err(t.error(SyntaxErrorType::ExpectedSyntax("identifier"))),
     }
   }
diff --git a/parse-js/src/parse/operator.rs b/parse-js/src/parse/operator.rs
index a28f239..2a23835 100644
--- a/parse-js/src/parse/operator.rs
+++ b/parse-js/src/parse/operator.rs
@@ -58,7 +58,6 @@ pub static MULTARY_OPERATOR_MAPPING: Lazy<HashMap<TT, &'static Operator>> = Lazy
   map.insert(TT::EqualsEqualsEquals, &OPERATORS[&OperatorName::StrictEquality]);
   map.insert(TT::ExclamationEqualsEquals, &OPERATORS[&OperatorName::StrictInequality]);
   map.insert(TT::Hyphen, &OPERATORS[&OperatorName::Subtraction]);
-  map.insert(TT::KeywordTypeof, &OPERATORS[&OperatorName::Typeof]);
   map
 });
 
diff --git a/parse-js/src/parse/stmt/mod.rs b/parse-js/src/parse/stmt/mod.rs
index 5c05bfc..84f7bba 100644
--- a/parse-js/src/parse/stmt/mod.rs
+++ b/parse-js/src/parse/stmt/mod.rs
@@ -32,6 +32,7 @@ use crate::ast::stmt::WhileStmt;
 use crate::ast::stmt::WithStmt;
 use crate::error::SyntaxErrorType;
 use crate::error::SyntaxResult;
+use crate::token::Token;
 use crate::token::TT;
 use decl::VarDeclParseMode;
 
@@ -64,6 +65,13 @@ impl<'a> Parser<'a> {
     is_alias
   }
 
+  /// `using` only declares when the name follows it on the same line; `using\nx` and
+  /// `using[x]` are expressions.
+  fn starts_using_declaration(&self, ctx: ParseCtx, next: &Token) -> bool {
+    is_valid_pattern_identifier(next.typ, ctx.rules) && !next.preceded_by_line_terminator
+      || self.should_recover() && next.typ == TT::BraceOpen && !next.preceded_by_line_terminator
+  }
+
   pub fn stmts(&mut self, ctx: ParseCtx, end: TT) -> SyntaxResult<Vec<Node<Stmt>>> {
     self.repeat_until_tt(end, |p| p.stmt(ctx))
   }
@@ -85,7 +93,7 @@ impl<'a> Parser<'a> {
       // TypeScript: `let identifier :` is a variable declaration with type annotation, not a labeled statement
       TT::KeywordLet if t1.typ == TT::BraceOpen || t1.typ == TT::BracketOpen || is_valid_pattern_identifier(t1.typ, ctx.rules) => self.var_decl(ctx, VarDeclParseMode::Asi)?.into_wrapped(),
       // `using` is a contextual keyword for resource management
-      TT::KeywordUsing if t1.typ == TT::BraceOpen || t1.typ == TT::BracketOpen || is_valid_pattern_identifier(t1.typ, ctx.rules) => self.var_decl(ctx, VarDeclParseMode::Asi)?.into_wrapped(),
+      TT::KeywordUsing if self.starts_using_declaration(ctx, &t1) => self.var_decl(ctx, VarDeclParseMode::Asi)?.into_wrapped(),
       // `await using` for async resource management
       TT::KeywordAwait if t1.typ == TT::KeywordUsing => self.var_decl(ctx, VarDeclParseMode::Asi)?.into_wrapped(),
       TT::KeywordContinue => self.continue_stmt(ctx)?.into_wrapped(),
@@ -190,7 +198,7 @@ impl<'a> Parser<'a> {
 
     // Check for "declare global { }" - global is an identifier, not a keyword
     let peek_tok = self.peek();
-    if peek_tok.typ == TT::Identifier && self.string(peek_tok.loc) == "global" {
+    if peek_tok.typ == TT::Identifier && self.ident_string(peek_tok.loc) == "global" {
       return Ok(self.global_decl(ctx)?.wrap(Stmt::GlobalDecl));
     }
 
@@ -390,11 +398,13 @@ impl<'a> Parser<'a> {
     let t = self.peek();
     let label = if is_valid_pattern_identifier(t.typ, ctx.rules) && !t.preceded_by_line_terminator {
       // Label.
-      Some(self.id_name(ctx)?)
+      let label = self.id_name(ctx)?;
+      self.end_of_simple_statement()?;
+      Some(label)
     } else if t.typ == TT::Semicolon {
       self.consume();
       None
-    } else if t.preceded_by_line_terminator || t.typ == TT::BraceClose {
+    } else if t.preceded_by_line_terminator || matches!(t.typ, TT::BraceClose | TT::EOF) {
       // ASI.
       None
     } else {
@@ -462,7 +472,25 @@ impl<'a> Parser<'a> {
   }
 
   pub fn debugger_stmt(&mut self) -> SyntaxResult<Node<DebuggerStmt>> {
-    self.with_loc(|p| p.require(TT::KeywordDebugger).map(|_| DebuggerStmt {}))
+    self.with_loc(|p| {
+      p.require(TT::KeywordDebugger)?;
+      p.end_of_simple_statement()?;
+      Ok(DebuggerStmt {})
+    })
+  }
+
+  /// Consumes the semicolon ending a statement, or accepts its automatic insertion.
+  fn end_of_simple_statement(&mut self) -> SyntaxResult<()> {
+    let next = self.peek();
+    if next.typ == TT::Semicolon {
+      self.consume();
+    } else if !self.should_recover()
+      && !next.preceded_by_line_terminator
+      && !matches!(next.typ, TT::BraceClose | TT::EOF)
+    {
+      self.require(TT::Semicolon)?;
+    }
+    Ok(())
   }
 
   // WARNING: Do not reuse this functions for other statements, as this will output a statement node, not an expression, which can lead to double semicolons that cause invalid code when outputting.
@@ -527,7 +555,10 @@ impl<'a> Parser<'a> {
       let init = {
         let [t0, t1] = p.peek_n();
         match t0.typ {
-          TT::KeywordVar | TT::KeywordConst | TT::KeywordUsing => {
+          TT::KeywordVar | TT::KeywordConst => {
+            ForTripleStmtInit::Decl(p.var_decl(header_ctx, VarDeclParseMode::Leftmost)?)
+          }
+          TT::KeywordUsing if p.starts_using_declaration(header_ctx, &t1) => {
             ForTripleStmtInit::Decl(p.var_decl(header_ctx, VarDeclParseMode::Leftmost)?)
           }
           // `let` is contextual - only a declaration if followed by a pattern
@@ -575,7 +606,7 @@ impl<'a> Parser<'a> {
     use crate::ast::expr::pat::Pat;
     self.with_loc(|p| {
       let t = p.consume();
-      let name = p.string(t.loc);
+      let name = p.ident_string(t.loc);
       let id_pat = Node::new(t.loc, IdPat { name });
       let pat = Node::new(t.loc, Pat::Id(id_pat));
       Ok(PatDecl { pat })
@@ -594,9 +625,19 @@ impl<'a> Parser<'a> {
   }
 
   pub fn for_in_of_lhs(&mut self, ctx: ParseCtx) -> SyntaxResult<ForInOfLhs> {
-    let [t0, t1] = self.peek_n();
+    let [t0, t1, t2] = self.peek_n();
+    // `for (using in x)` and `for (using of x)` loop over a variable named `using`.
+    let declares = match t0.typ {
+      TT::KeywordVar | TT::KeywordConst => true,
+      TT::KeywordUsing => match t1.typ {
+        TT::KeywordIn => false,
+        TT::KeywordOf => t2.typ == TT::KeywordOf,
+        _ => true,
+      },
+      _ => false,
+    };
     Ok(match t0.typ {
-      TT::KeywordVar | TT::KeywordConst | TT::KeywordUsing => ForInOfLhs::Decl({
+      TT::KeywordVar | TT::KeywordConst | TT::KeywordUsing if declares => ForInOfLhs::Decl({
         let mode = self.var_decl_mode()?;
         // Special case: allow 'in' and 'of' as identifiers in for-in/for-of loops
         // e.g., `for (var in of x)` or `for (var of of x)`
@@ -640,7 +681,7 @@ impl<'a> Parser<'a> {
         if t1.typ == TT::BraceOpen
           || t1.typ == TT::BracketOpen
           || is_valid_pattern_identifier(t1.typ, ctx.rules)
-          || t1.typ == TT::KeywordIn
+          || (t1.typ == TT::KeywordIn && t2.typ == TT::KeywordIn)
           || t1.typ == TT::KeywordOf =>
       {
         ForInOfLhs::Decl({
@@ -940,10 +981,12 @@ impl<'a> Parser<'a> {
           "return statement not allowed outside functions",
         )));
       }
-      let value = if p.peek().preceded_by_line_terminator || p.peek().typ == TT::BraceClose {
-        // Automatic Semicolon Insertion.
+      let value = if p.consume_if(TT::Semicolon).is_match() {
         None
-      } else if p.consume_if(TT::Semicolon).is_match() {
+      } else if p.peek().preceded_by_line_terminator
+        || matches!(p.peek().typ, TT::BraceClose | TT::EOF)
+      {
+        // Automatic Semicolon Insertion.
         None
       } else {
         let mut asi = Asi::can();
@@ -1065,6 +1108,8 @@ impl<'a> Parser<'a> {
       p.require(TT::ParenthesisOpen)?;
       let condition = p.expr(ctx, [TT::ParenthesisClose])?;
       p.require(TT::ParenthesisClose)?;
+      // A semicolon is always inserted after `do ... while (...)` when it is missing.
+      let _ = p.consume_if(TT::Semicolon);
       Ok(DoWhileStmt { condition, body })
     })
   }
diff --git a/parse-js/src/parse/ts_decl.rs b/parse-js/src/parse/ts_decl.rs
index 6529b09..a8ff3dc 100644
--- a/parse-js/src/parse/ts_decl.rs
+++ b/parse-js/src/parse/ts_decl.rs
@@ -168,10 +168,10 @@ impl<'a> Parser<'a> {
       // Also allow keywords as namespace names for error recovery (e.g., `namespace debugger {}`)
       let t = p.consume();
       let name = if t.typ == TT::Identifier {
-        p.string(t.loc)
+        p.ident_string(t.loc)
       } else if crate::lex::KEYWORDS_MAPPING.contains_key(&t.typ) {
         // Allow any keyword as namespace name for error recovery
-        p.string(t.loc)
+        p.ident_string(t.loc)
       } else {
         return Err(t.error(SyntaxErrorType::ExpectedSyntax("identifier")));
       };
diff --git a/parse-js/src/parse/type_expr.rs b/parse-js/src/parse/type_expr.rs
index c9d54e4..5f86277 100644
--- a/parse-js/src/parse/type_expr.rs
+++ b/parse-js/src/parse/type_expr.rs
@@ -78,7 +78,7 @@ impl<'a> Parser<'a> {
         debug_assert!(crate::parse::expr::pat::is_valid_pattern_identifier(
           t.typ, ctx.rules
         ));
-        self.string(t.loc)
+        self.ident_string(t.loc)
       };
 
       let next = self.peek();
@@ -644,7 +644,7 @@ impl<'a> Parser<'a> {
       // TypeScript: Error recovery - allow reserved keywords in qualified type names
       // Examples: `x.void`, `typeof Controller.prototype.delete`, `typeof foo.var`
       TT::KeywordVoid | TT::KeywordDelete | TT::KeywordVar
-      => Ok(self.string(t.loc)),
+      => Ok(self.ident_string(t.loc)),
       _ => Err(t.error(SyntaxErrorType::ExpectedSyntax("type identifier")))
     }
   }
-- 
2.43.0


From 2d1418bd33f20ba7362aae921090f9085c94410a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:55 +0000
Subject: [PATCH 07/32] fix: parse-js: tagged template as the constructor of
 new, span of tagged templates

---
 parse-js/src/parse/expr/mod.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/parse-js/src/parse/expr/mod.rs b/parse-js/src/parse/expr/mod.rs
index a1de355..ca0a254 100644
--- a/parse-js/src/parse/expr/mod.rs
+++ b/parse-js/src/parse/expr/mod.rs
@@ -937,6 +937,7 @@ impl<'a> Parser<'a> {
                 // `new URL("...").href` / `new URL("...").searchParams.get("q")`.
 
                 // Parse the constructor target expression without consuming call syntax.
+                let operand_start = p.checkpoint();
                 let mut callee = p.expr_operand(ctx, terminators, asi)?;
 
                 // Consume member access chains (`new Foo.bar()`).
@@ -1018,6 +1019,21 @@ impl<'a> Parser<'a> {
                       .into_wrapped();
                       continue;
                     }
+                    // A tagged template is part of the constructor: `new a``()`.
+                    TT::LiteralTemplatePartString | TT::LiteralTemplatePartStringEnd => {
+                      let (parts, template_parts) =
+                        p.lit_template_parts_with_template_data(ctx, true)?;
+                      let mut node = Node::new(
+                        p.since_checkpoint(&operand_start),
+                        TaggedTemplateExpr {
+                          function: callee,
+                          parts,
+                        },
+                      );
+                      node.assoc.set(template_parts);
+                      callee = node.into_wrapped();
+                      continue;
+                    }
                     _ => break,
                   }
                 }
@@ -1414,13 +1430,13 @@ impl<'a> Parser<'a> {
             }
             return Err(t.error(SyntaxErrorType::ExpectedSyntax("parenthesized expression")));
           }
-          let loc = t.loc;
+          let start = cp;
           self.restore_checkpoint(cp);
           // ES2018: Tagged templates allow invalid escape sequences
           let function = left;
           let (parts, template_parts) = self.lit_template_parts_with_template_data(ctx, true)?;
           let mut node = Node::new(
-            function.loc + loc,
+            function.loc + self.since_checkpoint(&start),
             TaggedTemplateExpr {
               function,
               parts,
-- 
2.43.0


From 094d44f965f5c4019996c91807d7b62a5a7ad5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:13 +0000
Subject: [PATCH 08/32] fix: parse-js: a line terminator before ! ends a
 variable name

---
 parse-js/src/parse/stmt/decl.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parse-js/src/parse/stmt/decl.rs b/parse-js/src/parse/stmt/decl.rs
index 3213170..71baf0f 100644
--- a/parse-js/src/parse/stmt/decl.rs
+++ b/parse-js/src/parse/stmt/decl.rs
@@ -78,7 +78,9 @@ impl<'a> Parser<'a> {
 
         // TypeScript: definite assignment assertion
         let definite_assignment =
-          !p.is_strict_ecmascript() && p.consume_if(TT::Exclamation).is_match();
+          !p.is_strict_ecmascript()
+            && !p.peek().preceded_by_line_terminator
+            && p.consume_if(TT::Exclamation).is_match();
 
         // TypeScript: type annotation
         // Note: We use type_expr_or_predicate for error recovery - type predicates
-- 
2.43.0


From b264019db3404c6e84a38c89469611e58d3e7763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:51 +0000
Subject: [PATCH 09/32] fix: parse-js: accessor names followed by parentheses,
 class-body recovery only on one line

---
 parse-js/src/parse/class_or_object.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/parse-js/src/parse/class_or_object.rs b/parse-js/src/parse/class_or_object.rs
index af9d6ff..5370e5e 100644
--- a/parse-js/src/parse/class_or_object.rs
+++ b/parse-js/src/parse/class_or_object.rs
@@ -141,10 +141,15 @@ impl<'a> Parser<'a> {
       // but try to skip them so the rest of the class body can be parsed.
       let looks_like_nested_class = self.should_recover()
         && self.peek().typ == TT::KeywordClass
-        && matches!(
-          self.peek_n::<3>()[1].typ,
-          TT::Identifier | TT::BraceOpen | TT::KeywordExtends
-        );
+        && {
+          // A line terminator may end a field named `class`.
+          let [_, next] = self.peek_n::<2>();
+          match next.typ {
+            TT::BraceOpen => true,
+            TT::Identifier | TT::KeywordExtends => !next.preceded_by_line_terminator,
+            _ => false,
+          }
+        };
       if looks_like_nested_class {
         // Skip the entire nested class declaration
         self.consume(); // consume 'class'
@@ -1674,7 +1679,9 @@ impl<'a> Parser<'a> {
       }
       // Getter (may have invalid type parameters like get foo<T>())
       // Error recovery: also handle getters without parentheses like "get e"
-      (TT::KeywordGet, _, TT::ParenthesisOpen, _) | (TT::KeywordGet, _, TT::ChevronLeft, _) => {
+      (TT::KeywordGet, _, TT::ParenthesisOpen, _) | (TT::KeywordGet, _, TT::ChevronLeft, _)
+        if !Self::ends_member_name(b.typ) =>
+      {
         let (k, v) = self.class_or_obj_getter_impl(ctx, abstract_)?;
         (k, v.into())
       }
@@ -1699,7 +1706,9 @@ impl<'a> Parser<'a> {
       }
       // Setter (may have invalid type parameters like set foo<T>(x))
       // Error recovery: also handle setters without parentheses like "set f"
-      (TT::KeywordSet, _, TT::ParenthesisOpen, _) | (TT::KeywordSet, _, TT::ChevronLeft, _) => {
+      (TT::KeywordSet, _, TT::ParenthesisOpen, _) | (TT::KeywordSet, _, TT::ChevronLeft, _)
+        if !Self::ends_member_name(b.typ) =>
+      {
         let (k, v) = self.class_or_obj_setter_impl(ctx, abstract_)?;
         (k, v.into())
       }
-- 
2.43.0


From a0fd2a1adfa1833938eeccfc10a872cc5386bcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:48 +0000
Subject: [PATCH 10/32] fix: parse-js: node spans, conditional and assertion
 precedence, splitting of > tokens, JSX text that looks like comments, ambient
 members, type-argument lookahead

---
 parse-js/src/parse/class_or_object.rs |  54 ++--
 parse-js/src/parse/expr/jsx.rs        |   8 +-
 parse-js/src/parse/expr/lit.rs        |   8 +-
 parse-js/src/parse/expr/mod.rs        |  85 ++++---
 parse-js/src/parse/expr/pat.rs        |   2 +-
 parse-js/src/parse/func.rs            |   9 +-
 parse-js/src/parse/import_export.rs   |  12 +-
 parse-js/src/parse/mod.rs             | 230 ++++++-----------
 parse-js/src/parse/stmt/mod.rs        |  43 ++--
 parse-js/src/parse/type_expr.rs       | 345 +++++++++-----------------
 10 files changed, 318 insertions(+), 478 deletions(-)

diff --git a/parse-js/src/parse/class_or_object.rs b/parse-js/src/parse/class_or_object.rs
index 5370e5e..d903163 100644
--- a/parse-js/src/parse/class_or_object.rs
+++ b/parse-js/src/parse/class_or_object.rs
@@ -76,9 +76,8 @@ impl<'a> Parser<'a> {
   fn create_synthetic_class_key(&self) -> ClassOrObjKey {
     use crate::ast::class_or_object::ClassOrObjKey;
     use crate::ast::class_or_object::ClassOrObjMemberDirectKey;
-    use crate::loc::Loc;
     ClassOrObjKey::Direct(Node::new(
-      Loc(0, 0),
+      self.last_consumed_loc(),
       ClassOrObjMemberDirectKey {
         key: String::new(),
         tt: TT::Identifier,
@@ -241,7 +240,7 @@ impl<'a> Parser<'a> {
 
         // TypeScript: abstract modifier
         // Error recovery: allow duplicate abstract modifiers
-        let mut abstract_ = ambient;
+        let mut abstract_ = false;
         while p.at_member_modifier(TT::KeywordAbstract) {
           p.consume();
           abstract_ = true;
@@ -385,7 +384,7 @@ impl<'a> Parser<'a> {
                 };
 
               // Now check for method/getter/setter or property initializer
-              let value = p.class_member_value(ctx, &key, static_, abstract_)?;
+              let value = p.class_member_value(ctx, &key, static_, abstract_ || ambient)?;
 
               (key, value, definite_assignment, optional, type_annotation)
             }
@@ -451,7 +450,13 @@ impl<'a> Parser<'a> {
             if needs_special_handling {
               // Use the original class_or_obj_member for these special cases
               let (key, value) =
-                p.class_or_obj_member(ctx, TT::Equals, TT::Semicolon, &mut Asi::can(), abstract_)?;
+                p.class_or_obj_member(
+                  ctx,
+                  TT::Equals,
+                  TT::Semicolon,
+                  &mut Asi::can(),
+                  abstract_ || ambient,
+                )?;
               (key, value, false, false, None)
             } else {
               // Parse class member with TypeScript syntax: key [!] [?] [: type] [= init]
@@ -473,7 +478,7 @@ impl<'a> Parser<'a> {
                 };
 
               // Now check for method/getter/setter or property initializer
-              let value = p.class_member_value(ctx, &key, static_, abstract_)?;
+              let value = p.class_member_value(ctx, &key, static_, abstract_ || ambient)?;
 
               (key, value, definite_assignment, optional, type_annotation)
             }
@@ -489,7 +494,16 @@ impl<'a> Parser<'a> {
             return Err(next.error(SyntaxErrorType::RequiredTokenNotFound(TT::Semicolon)));
           }
         }
-        let _ = p.consume_if(TT::Semicolon);
+        // A semicolon ends a field; after a method it is an empty member of its own.
+        let has_body = match &value {
+          ClassOrObjVal::Getter(f) => f.stx.func.stx.body.is_some(),
+          ClassOrObjVal::Setter(f) => f.stx.func.stx.body.is_some(),
+          ClassOrObjVal::Method(f) => f.stx.func.stx.body.is_some(),
+          _ => false,
+        };
+        if !has_body {
+          let _ = p.consume_if(TT::Semicolon);
+        }
         Ok(ClassMember {
           decorators,
           key,
@@ -984,17 +998,16 @@ impl<'a> Parser<'a> {
           use crate::ast::expr::pat::Pat;
           use crate::ast::stmt::decl::ParamDecl;
           use crate::ast::stmt::decl::PatDecl;
-          use crate::loc::Loc;
-          p.consume(); // consume 'this'
+          let this_loc = p.consume().loc;
           p.require(TT::Colon)?;
           let type_annotation = Some(p.type_expr(ctx)?);
           let this_pattern = Node::new(
-            Loc(0, 0),
+            this_loc,
             PatDecl {
               pat: Node::new(
-                Loc(0, 0),
+                this_loc,
                 Pat::Id(Node::new(
-                  Loc(0, 0),
+                  this_loc,
                   IdPat {
                     name: String::from("this"),
                   },
@@ -1003,7 +1016,7 @@ impl<'a> Parser<'a> {
             },
           );
           parameters.push(Node::new(
-            Loc(0, 0),
+            p.span_since(this_loc),
             ParamDecl {
               decorators: Vec::new(),
               rest: false,
@@ -1172,17 +1185,16 @@ impl<'a> Parser<'a> {
           use crate::ast::expr::pat::Pat;
           use crate::ast::stmt::decl::ParamDecl;
           use crate::ast::stmt::decl::PatDecl;
-          use crate::loc::Loc;
-          p.consume(); // consume 'this'
+          let this_loc = p.consume().loc;
           p.require(TT::Colon)?;
           let type_annotation = Some(p.type_expr(ctx)?);
           let this_pattern = Node::new(
-            Loc(0, 0),
+            this_loc,
             PatDecl {
               pat: Node::new(
-                Loc(0, 0),
+                this_loc,
                 Pat::Id(Node::new(
-                  Loc(0, 0),
+                  this_loc,
                   IdPat {
                     name: String::from("this"),
                   },
@@ -1191,7 +1203,7 @@ impl<'a> Parser<'a> {
             },
           );
           parameters.push(Node::new(
-            Loc(0, 0),
+            p.span_since(this_loc),
             ParamDecl {
               decorators: Vec::new(),
               rest: false,
@@ -1219,7 +1231,7 @@ impl<'a> Parser<'a> {
           );
         }
         // Empty parameter list - create synthetic parameter for error recovery
-        let loc = p.peek().loc;
+        let loc = p.empty_loc();
         let synthetic_pattern = Node::new(
           loc,
           PatDecl {
@@ -1250,7 +1262,7 @@ impl<'a> Parser<'a> {
 
       // Add the value parameter to the parameters list
       parameters.push(Node::new(
-        param_loc,
+        p.span_since(param_loc),
         ParamDecl {
           decorators: Vec::new(),
           rest: false,
diff --git a/parse-js/src/parse/expr/jsx.rs b/parse-js/src/parse/expr/jsx.rs
index 1b5985d..416ca14 100644
--- a/parse-js/src/parse/expr/jsx.rs
+++ b/parse-js/src/parse/expr/jsx.rs
@@ -218,7 +218,13 @@ impl<'a> Parser<'a> {
     let mut children = Vec::<JsxElemChild>::new();
     loop {
       let ahead = self.peek_with_mode(LexMode::JsxTag);
-      if matches!(ahead.typ, TT::ChevronLeftSlash | TT::EOF) {
+      // `//` and `/*` do not start comments in child text.
+      let text_start = self.last_consumed_loc().1;
+      let skipped_only_space = self
+        .str(crate::loc::Loc(text_start, ahead.loc.0.max(text_start)))
+        .chars()
+        .all(char::is_whitespace);
+      if matches!(ahead.typ, TT::ChevronLeftSlash | TT::EOF) && skipped_only_space {
         break;
       }
       let text = self.require_with_mode(TT::JsxTextContent, LexMode::JsxTextContent)?;
diff --git a/parse-js/src/parse/expr/lit.rs b/parse-js/src/parse/expr/lit.rs
index 4eab63f..6397ec6 100644
--- a/parse-js/src/parse/expr/lit.rs
+++ b/parse-js/src/parse/expr/lit.rs
@@ -830,6 +830,7 @@ impl<'a> Parser<'a> {
       p.require(TT::BraceOpen)?.loc;
       let mut members = Vec::new();
       while p.peek().typ != TT::BraceClose && p.peek().typ != TT::EOF {
+        let member_checkpoint = p.checkpoint();
         let member_start = p.peek().loc;
         // TypeScript-style recovery: class declarations in object literals are
         // not allowed, but try to skip them so the rest of the literal can be
@@ -924,7 +925,7 @@ impl<'a> Parser<'a> {
         if rest {
           let value = p.expr(ctx, [TT::Comma, TT::Semicolon, TT::BraceClose])?;
           members.push(Node::new(
-            member_start,
+            p.since_checkpoint(&member_checkpoint),
             ObjMember {
               typ: ObjMemberType::Rest { val: value },
             },
@@ -1026,7 +1027,10 @@ impl<'a> Parser<'a> {
             }
             _ => ObjMemberType::Valued { key, val: value },
           };
-          members.push(Node::new(member_start, ObjMember { typ }));
+          members.push(Node::new(
+            p.since_checkpoint(&member_checkpoint),
+            ObjMember { typ },
+          ));
         }
         if p.consume_if(TT::Comma).is_match() {
           continue;
diff --git a/parse-js/src/parse/expr/mod.rs b/parse-js/src/parse/expr/mod.rs
index ca0a254..45e0276 100644
--- a/parse-js/src/parse/expr/mod.rs
+++ b/parse-js/src/parse/expr/mod.rs
@@ -381,7 +381,9 @@ impl<'a> Parser<'a> {
       })();
       p.new_target_allowed = prev_new_target_allowed;
       let body = body?;
-      if terminators.contains(&TT::Colon) && p.peek().typ != TT::Colon {
+      // `case () => a, b:`
+      let ends_before_comma = return_type.is_none() && p.peek().typ == TT::Comma;
+      if terminators.contains(&TT::Colon) && p.peek().typ != TT::Colon && !ends_before_comma {
         return Err(
           p.peek()
             .error(SyntaxErrorType::RequiredTokenNotFound(TT::Colon)),
@@ -912,7 +914,10 @@ impl<'a> Parser<'a> {
                     && next_token.typ != TT::BracketClose
                     && next_token.typ != TT::BraceClose
                     && next_token.typ != TT::EOF
-                    && !terminators.contains(&next_token.typ)
+                    // `{` also ends a class heritage.
+                    && ((operator.name == OperatorName::New
+                      && next_token.typ == TT::BraceOpen)
+                      || !terminators.contains(&next_token.typ))
                 } else {
                   true
                 }
@@ -950,7 +955,7 @@ impl<'a> Parser<'a> {
                       let checkpoint = p.checkpoint();
                       let right_tok = p.consume();
                       let mut prop = String::new();
-                      let mut right = right_tok.loc;
+                      let right = right_tok.loc;
                       match right_tok.typ {
                         TT::Identifier | TT::PrivateMember => {
                           prop = p.ident_string(right);
@@ -972,14 +977,13 @@ impl<'a> Parser<'a> {
                           ) {
                             // Recovery: don't consume likely terminators.
                             p.restore_checkpoint(checkpoint);
-                            right = callee.loc;
                             prop.clear();
                           }
                         }
                       }
 
                       callee = Node::new(
-                        callee.loc + right,
+                        p.since_checkpoint(&operand_start),
                         MemberExpr {
                           optional_chaining: optional,
                           left: callee,
@@ -1006,10 +1010,10 @@ impl<'a> Parser<'a> {
                       } else {
                         p.expr(ctx, [TT::BracketClose])?
                       };
-                      let end = p.require(TT::BracketClose)?;
+                      p.require(TT::BracketClose)?;
 
                       callee = Node::new(
-                        callee.loc + end.loc,
+                        p.since_checkpoint(&operand_start),
                         ComputedMemberExpr {
                           optional_chaining: optional,
                           object: callee,
@@ -1044,7 +1048,7 @@ impl<'a> Parser<'a> {
                   && p.peek().typ == TT::ChevronLeft
                   && p.is_start_of_type_arguments()
                 {
-                  if let Some((type_arguments, close_loc)) = p.rewindable(|p| {
+                  if let Some((type_arguments, _)) = p.rewindable(|p| {
                     p.require(TT::ChevronLeft)?;
                     let (type_arguments, close_loc) =
                       match p.ts_type_arguments_after_chevron_left(ctx) {
@@ -1069,7 +1073,7 @@ impl<'a> Parser<'a> {
                     }
                   })? {
                     callee = Node::new(
-                      callee.loc + close_loc,
+                      p.since_checkpoint(&operand_start),
                       InstantiationExpr {
                         expression: Box::new(callee),
                         type_arguments,
@@ -1083,9 +1087,9 @@ impl<'a> Parser<'a> {
                 if p.peek().typ == TT::ParenthesisOpen {
                   p.consume(); // (
                   let arguments = p.call_args(ctx)?;
-                  let end = p.require(TT::ParenthesisClose)?;
+                  p.require(TT::ParenthesisClose)?;
                   callee = Node::new(
-                    callee.loc + end.loc,
+                    p.since_checkpoint(&operand_start),
                     CallExpr {
                       optional_chaining: false,
                       arguments,
@@ -1289,17 +1293,20 @@ impl<'a> Parser<'a> {
     terminators: [TT; N],
     asi: &mut Asi,
   ) -> SyntaxResult<Node<Expr>> {
+    // The operators below start where their (possibly parenthesised) left operand does.
+    let start_loc = self.peek().loc;
     let left = self.expr_operand(ctx, terminators, asi)?;
     if asi.did_end_with_asi && matches!(left.stx.as_ref(), Expr::Unary(_)) {
       // A semicolon was inserted after the operand, so nothing can follow the operator either.
       return Ok(left);
     }
-    self.expr_with_min_prec_after_left(ctx, left, min_prec, terminators, asi)
+    self.expr_with_min_prec_after_left(ctx, start_loc, left, min_prec, terminators, asi)
   }
 
   fn expr_with_min_prec_after_left<const N: usize>(
     &mut self,
     ctx: ParseCtx,
+    start_loc: crate::loc::Loc,
     mut left: Node<Expr>,
     min_prec: u8,
     terminators: [TT; N],
@@ -1377,7 +1384,7 @@ impl<'a> Parser<'a> {
           };
           self.validate_strict_assignment_target_expr(&left)?;
           left = Node::new(
-            left.loc + t.loc,
+            self.span_since(start_loc),
             UnaryPostfixExpr {
               operator: operator_name,
               argument: left,
@@ -1395,7 +1402,7 @@ impl<'a> Parser<'a> {
             // This is a non-null assertion: expr!
             use crate::ast::expr::NonNullAssertionExpr;
             left = Node::new(
-              left.loc + t.loc,
+              self.span_since(start_loc),
               NonNullAssertionExpr {
                 expression: Box::new(left),
               },
@@ -1430,13 +1437,12 @@ impl<'a> Parser<'a> {
             }
             return Err(t.error(SyntaxErrorType::ExpectedSyntax("parenthesized expression")));
           }
-          let start = cp;
           self.restore_checkpoint(cp);
           // ES2018: Tagged templates allow invalid escape sequences
           let function = left;
           let (parts, template_parts) = self.lit_template_parts_with_template_data(ctx, true)?;
           let mut node = Node::new(
-            function.loc + self.since_checkpoint(&start),
+            self.span_since(start_loc),
             TaggedTemplateExpr {
               function,
               parts,
@@ -1447,6 +1453,14 @@ impl<'a> Parser<'a> {
           continue;
         }
         // TypeScript: Type assertion: expr as Type or expr as const
+        TT::KeywordAs | TT::KeywordSatisfies
+          if self.is_typescript()
+            && min_prec > OPERATORS[&OperatorName::LessThan].precedence =>
+        {
+          // Both bind like a relational operator: `a + b as T` is `(a + b) as T`.
+          self.restore_checkpoint(cp);
+          break;
+        }
         TT::KeywordAs if self.is_typescript() => {
           if asi_allowed && t.preceded_by_line_terminator {
             self.restore_checkpoint(cp);
@@ -1455,10 +1469,10 @@ impl<'a> Parser<'a> {
           }
           // Check if this is "as const"
           if self.peek().typ == TT::KeywordConst {
-            let const_loc = self.consume().loc;
+            self.consume();
             use crate::ast::expr::TypeAssertionExpr;
             left = Node::new(
-              left.loc + const_loc,
+              self.span_since(start_loc),
               TypeAssertionExpr {
                 expression: Box::new(left),
                 type_annotation: None,
@@ -1470,7 +1484,7 @@ impl<'a> Parser<'a> {
             let type_annotation = self.type_expr(ctx)?;
             use crate::ast::expr::TypeAssertionExpr;
             left = Node::new(
-              left.loc + type_annotation.loc,
+              self.span_since(start_loc),
               TypeAssertionExpr {
                 expression: Box::new(left),
                 type_annotation: Some(type_annotation),
@@ -1491,7 +1505,7 @@ impl<'a> Parser<'a> {
           let type_annotation = self.type_expr(ctx)?;
           use crate::ast::expr::SatisfiesExpr;
           left = Node::new(
-            left.loc + type_annotation.loc,
+            self.span_since(start_loc),
             SatisfiesExpr {
               expression: Box::new(left),
               type_annotation,
@@ -1506,7 +1520,7 @@ impl<'a> Parser<'a> {
           let next = self.peek();
           // Match existing optional chaining call behavior (?.() token) by disallowing newlines here.
           if next.typ == TT::ChevronLeft && !next.preceded_by_line_terminator {
-            if let Some((type_arguments, close_loc, arguments, end_loc)) = self.rewindable(|p| {
+            if let Some((type_arguments, close_loc, arguments)) = self.rewindable(|p| {
               p.require(TT::ChevronLeft)?;
               let (type_arguments, close_loc) = match p.ts_type_arguments_after_chevron_left(ctx) {
                 Ok(res) => res,
@@ -1519,12 +1533,12 @@ impl<'a> Parser<'a> {
 
               p.consume(); // (
               let arguments = p.call_args(ctx)?;
-              let end = p.require(TT::ParenthesisClose)?;
+              p.require(TT::ParenthesisClose)?;
 
-              Ok(Some((type_arguments, close_loc, arguments, end.loc)))
+              Ok(Some((type_arguments, close_loc, arguments)))
             })? {
               let callee = Node::new(
-                left.loc + close_loc,
+                start_loc + close_loc,
                 InstantiationExpr {
                   expression: Box::new(left),
                   type_arguments,
@@ -1533,7 +1547,7 @@ impl<'a> Parser<'a> {
               .into_wrapped();
 
               left = Node::new(
-                callee.loc + end_loc,
+                self.span_since(start_loc),
                 CallExpr {
                   optional_chaining: true,
                   callee,
@@ -1558,7 +1572,7 @@ impl<'a> Parser<'a> {
                 | Expr::Instantiation(_)
             )
           {
-            if let Some((type_arguments, close_loc)) = self.rewindable(|p| {
+            if let Some((type_arguments, _)) = self.rewindable(|p| {
               let (type_arguments, close_loc) = match p.ts_type_arguments_after_chevron_left(ctx) {
                 Ok(res) => res,
                 Err(_) => return Ok(None),
@@ -1581,7 +1595,7 @@ impl<'a> Parser<'a> {
               Ok(None)
             })? {
               left = Node::new(
-                left.loc + close_loc,
+                self.span_since(start_loc),
                 InstantiationExpr {
                   expression: Box::new(left),
                   type_arguments,
@@ -1687,9 +1701,9 @@ impl<'a> Parser<'a> {
           left = match operator.name {
             OperatorName::Call | OperatorName::OptionalChainingCall => {
               let arguments = self.call_args(ctx)?;
-              let end = self.require(TT::ParenthesisClose)?;
+              self.require(TT::ParenthesisClose)?;
               Node::new(
-                left.loc + end.loc,
+                self.span_since(start_loc),
                 CallExpr {
                   optional_chaining: match operator.name {
                     OperatorName::OptionalChainingCall => true,
@@ -1717,9 +1731,9 @@ impl<'a> Parser<'a> {
               } else {
                 self.expr(ctx, [TT::BracketClose])?
               };
-              let end = self.require(TT::BracketClose)?;
+              self.require(TT::BracketClose)?;
               Node::new(
-                left.loc + end.loc,
+                self.span_since(start_loc),
                 ComputedMemberExpr {
                   optional_chaining: operator.name
                     == OperatorName::OptionalChainingComputedMemberAccess,
@@ -1744,7 +1758,7 @@ impl<'a> Parser<'a> {
                 asi,
               )?;
               Node::new(
-                left.loc + alternate.loc,
+                self.span_since(start_loc),
                 CondExpr {
                   test: left,
                   consequent,
@@ -1757,7 +1771,7 @@ impl<'a> Parser<'a> {
               let checkpoint = self.checkpoint();
               let right_tok = self.consume();
               let mut prop = String::new();
-              let mut right = right_tok.loc;
+              let right = right_tok.loc;
               match right_tok.typ {
                 TT::Identifier | TT::PrivateMember => {
                   prop = self.ident_string(right);
@@ -1782,13 +1796,12 @@ impl<'a> Parser<'a> {
                     // consume it; instead, fabricate an empty property name and
                     // let the outer parser handle the terminator.
                     self.restore_checkpoint(checkpoint);
-                    right = left.loc;
                     prop.clear();
                   }
                 }
               }
               Node::new(
-                left.loc + right,
+                self.span_since(start_loc),
                 MemberExpr {
                   optional_chaining: operator.name == OperatorName::OptionalChainingMemberAccess,
                   left,
@@ -1829,7 +1842,7 @@ impl<'a> Parser<'a> {
               };
               let right = self.expr_with_min_prec(ctx, next_min_prec, terminators, asi)?;
               Node::new(
-                left.loc + right.loc,
+                self.span_since(start_loc),
                 BinaryExpr {
                   operator: operator.name,
                   left,
diff --git a/parse-js/src/parse/expr/pat.rs b/parse-js/src/parse/expr/pat.rs
index d83ea1f..93e7fa6 100644
--- a/parse-js/src/parse/expr/pat.rs
+++ b/parse-js/src/parse/expr/pat.rs
@@ -270,7 +270,7 @@ impl<'a> Parser<'a> {
       // TypeScript: For error recovery, create synthetic identifier when pattern is missing
       // Handles cases like `var;`, `let;`, `const;`, `export var;`
       TT::Semicolon | TT::Comma | TT::EOF if self.should_recover() => Node::new(
-        t.loc,
+        self.empty_loc(),
         IdPat {
           name: String::from(""),
         },
diff --git a/parse-js/src/parse/func.rs b/parse-js/src/parse/func.rs
index 1c4c97f..370b109 100644
--- a/parse-js/src/parse/func.rs
+++ b/parse-js/src/parse/func.rs
@@ -24,21 +24,20 @@ impl<'a> Parser<'a> {
         let [_, next] = p.peek_n::<2>();
         if next.typ == TT::Colon {
           // This is a `this` parameter
-          p.consume(); // consume 'this'
+          let this_loc = p.consume().loc;
           p.require(TT::Colon)?;
           let type_annotation = Some(p.type_expr(ctx)?);
           // Create a pseudo-pattern for the `this` parameter
           use crate::ast::expr::pat::IdPat;
           use crate::ast::expr::pat::Pat;
           use crate::ast::stmt::decl::PatDecl;
-          use crate::loc::Loc;
           let this_pattern = Node::new(
-            Loc(0, 0),
+            this_loc,
             PatDecl {
               pat: Node::new(
-                Loc(0, 0),
+                this_loc,
                 Pat::Id(Node::new(
-                  Loc(0, 0),
+                  this_loc,
                   IdPat {
                     name: String::from("this"),
                   },
diff --git a/parse-js/src/parse/import_export.rs b/parse-js/src/parse/import_export.rs
index fc58350..b46a382 100644
--- a/parse-js/src/parse/import_export.rs
+++ b/parse-js/src/parse/import_export.rs
@@ -507,6 +507,7 @@ impl<'a> Parser<'a> {
         }
       };
 
+      let _ = p.consume_if(TT::Semicolon);
       Ok(ExportListStmt {
         type_only,
         names,
@@ -529,6 +530,7 @@ impl<'a> Parser<'a> {
       p.require(TT::KeywordDefault)?;
       let mut asi = Asi::can();
       let expression = p.expr_with_asi(ctx, [TT::Semicolon], &mut asi)?;
+      let _ = p.consume_if(TT::Semicolon);
       Ok(ExportDefaultExprStmt { expression })
     })
   }
@@ -552,9 +554,7 @@ impl<'a> Parser<'a> {
       && self.str(t1.loc) == "type"
       && matches!(t2.typ, TT::BraceOpen | TT::Asterisk)
     {
-      let stmt = self.export_list_stmt(ctx)?.into_wrapped();
-      let _ = self.consume_if(TT::Semicolon);
-      return Ok(stmt);
+      return Ok(self.export_list_stmt(ctx)?.into_wrapped());
     }
 
     // TypeScript: export = expression (export assignment)
@@ -710,7 +710,11 @@ impl<'a> Parser<'a> {
     // Declarations have already consumed the semicolon that ends them, if they have one.
     if !matches!(
       stmt.stx.as_ref(),
-      Stmt::FunctionDecl(_) | Stmt::ClassDecl(_) | Stmt::VarDecl(_)
+      Stmt::FunctionDecl(_)
+        | Stmt::ClassDecl(_)
+        | Stmt::VarDecl(_)
+        | Stmt::ExportList(_)
+        | Stmt::ExportDefaultExpr(_)
     ) {
       let _ = self.consume_if(TT::Semicolon);
     }
diff --git a/parse-js/src/parse/mod.rs b/parse-js/src/parse/mod.rs
index eeaf76b..53778e8 100644
--- a/parse-js/src/parse/mod.rs
+++ b/parse-js/src/parse/mod.rs
@@ -163,6 +163,8 @@ pub struct Parser<'a> {
   lexer: Lexer<'a>,
   buf: Vec<BufferedToken>,
   next_tok_i: usize,
+  /// Positions in `buf` of the tokens that were split by `require_chevron_right`.
+  splits: Vec<usize>,
   options: ParseOptions,
   allow_bare_ts_type_args: bool,
   strict_mode: u32,
@@ -198,6 +200,7 @@ impl<'a> Parser<'a> {
       lexer,
       buf: Vec::new(),
       next_tok_i: 0,
+      splits: Vec::new(),
       options,
       allow_bare_ts_type_args: false,
       strict_mode: 0,
@@ -485,24 +488,46 @@ impl<'a> Parser<'a> {
     // For accurate node locations (and correct downstream source slicing, e.g. in `vm-js` lazy
     // function parsing), compute the span based on the last token actually consumed since the
     // checkpoint.
-    let start = self
-      .buf
-      .get(checkpoint.next_tok_i)
-      .map(|tok| tok.token.loc.0)
-      .unwrap_or_else(|| self.lexer.next());
-    let end = if self.next_tok_i > checkpoint.next_tok_i {
-      self
-        .buf
-        .get(self.next_tok_i.saturating_sub(1))
-        .map(|tok| tok.token.loc.1)
-        .unwrap_or(start)
-    } else {
-      start
-    };
-    Loc(start, end)
+    if self.next_tok_i <= checkpoint.next_tok_i {
+      return self.empty_loc();
+    }
+    Loc(
+      self.buf[checkpoint.next_tok_i].token.loc.0,
+      self.last_consumed_loc().1,
+    )
+  }
+
+  /// The span of the last consumed token.
+  pub fn last_consumed_loc(&self) -> Loc {
+    self
+      .next_tok_i
+      .checked_sub(1)
+      .and_then(|i| self.buf.get(i))
+      .map(|tok| tok.token.loc)
+      .unwrap_or(Loc(0, 0))
+  }
+
+  /// The empty span of a node without tokens, after the last consumed token.
+  pub fn empty_loc(&self) -> Loc {
+    let end = self.last_consumed_loc().1;
+    Loc(end, end)
+  }
+
+  /// The span from the start of `start` to the end of the last consumed token.
+  pub fn span_since(&self, start: Loc) -> Loc {
+    Loc(start.0, self.last_consumed_loc().1.max(start.0))
   }
 
   pub fn restore_checkpoint(&mut self, checkpoint: ParserCheckpoint) {
+    if self
+      .splits
+      .last()
+      .is_some_and(|split| *split >= checkpoint.next_tok_i)
+    {
+      // The abandoned attempt split a token such as `>>`.
+      self.reset_to(checkpoint.next_tok_i);
+      return;
+    }
     self.next_tok_i = checkpoint.next_tok_i;
   }
 
@@ -517,6 +542,9 @@ impl<'a> Parser<'a> {
   fn reset_to(&mut self, n: usize) {
     self.next_tok_i = n;
     self.buf.truncate(n);
+    while self.splits.last().is_some_and(|split| *split >= n) {
+      self.splits.pop();
+    }
     match self.buf.last() {
       Some(t) => self.lexer.set_next(t.token.loc.1),
       None => self.lexer.set_next(0),
@@ -645,148 +673,27 @@ impl<'a> Parser<'a> {
   pub fn require_chevron_right(&mut self) -> SyntaxResult<Token> {
     let t = self.peek();
     match t.typ {
-      TT::ChevronRight => {
-        // Normal case - consume and return
-        Ok(self.consume())
-      }
-      TT::ChevronRightEquals => {
-        // Split >= into > and =
-        self.consume();
-        let equals_token = Token {
-          typ: TT::Equals,
-          loc: Loc(t.loc.1 - 1, t.loc.1),
-          preceded_by_line_terminator: false,
-        };
-        self.buf.insert(
-          self.next_tok_i,
-          BufferedToken {
-            token: equals_token,
-            lex_mode: LexMode::Standard,
-          },
-        );
-        Ok(Token {
-          typ: TT::ChevronRight,
-          loc: Loc(t.loc.0, t.loc.0 + 1),
-          preceded_by_line_terminator: t.preceded_by_line_terminator,
-        })
-      }
-      TT::ChevronRightChevronRight => {
-        // Split >> into > and >
-        self.consume(); // Consume the >>
-                        // Create a replacement > token to push back
-        let split_token = Token {
-          typ: TT::ChevronRight,
-          loc: Loc(t.loc.0 + 1, t.loc.1), // Second > starts one char later
-          preceded_by_line_terminator: false,
-        };
-        // Insert the second > into the buffer at current position
-        self.buf.insert(
-          self.next_tok_i,
-          BufferedToken {
-            token: split_token,
-            lex_mode: LexMode::Standard,
-          },
-        );
-        // Return a token representing the first >
-        Ok(Token {
-          typ: TT::ChevronRight,
-          loc: Loc(t.loc.0, t.loc.0 + 1),
-          preceded_by_line_terminator: t.preceded_by_line_terminator,
-        })
-      }
-      TT::ChevronRightChevronRightEquals => {
-        // Split >>= into >, >, =
-        self.consume();
-        let equals_token = Token {
-          typ: TT::Equals,
-          loc: Loc(t.loc.1 - 1, t.loc.1),
-          preceded_by_line_terminator: false,
-        };
-        let second = Token {
-          typ: TT::ChevronRight,
-          loc: Loc(t.loc.0 + 1, t.loc.1 - 1),
-          preceded_by_line_terminator: false,
-        };
-        // Insert in reverse order so the second > is seen before =
-        self.buf.insert(
-          self.next_tok_i,
-          BufferedToken {
-            token: equals_token,
-            lex_mode: LexMode::Standard,
-          },
-        );
-        self.buf.insert(
-          self.next_tok_i,
-          BufferedToken {
-            token: second,
-            lex_mode: LexMode::Standard,
-          },
-        );
-        Ok(Token {
-          typ: TT::ChevronRight,
-          loc: Loc(t.loc.0, t.loc.0 + 1),
-          preceded_by_line_terminator: t.preceded_by_line_terminator,
-        })
-      }
-      TT::ChevronRightChevronRightChevronRight => {
-        // Split >>> into > and >>
-        self.consume(); // Consume the >>>
-                        // Create a >> token to push back
-        let split_token = Token {
-          typ: TT::ChevronRightChevronRight,
-          loc: Loc(t.loc.0 + 1, t.loc.1), // >> starts one char later
-          preceded_by_line_terminator: false,
-        };
-        // Insert the >> into the buffer at current position
-        self.buf.insert(
-          self.next_tok_i,
-          BufferedToken {
-            token: split_token,
-            lex_mode: LexMode::Standard,
-          },
-        );
-        // Return a token representing the first >
-        Ok(Token {
-          typ: TT::ChevronRight,
-          loc: Loc(t.loc.0, t.loc.0 + 1),
-          preceded_by_line_terminator: t.preceded_by_line_terminator,
-        })
-      }
-      TT::ChevronRightChevronRightChevronRightEquals => {
-        // Split >>>= into >, >>, =
-        self.consume();
-        let equals_token = Token {
-          typ: TT::Equals,
-          loc: Loc(t.loc.1 - 1, t.loc.1),
-          preceded_by_line_terminator: false,
-        };
-        let split_token = Token {
-          typ: TT::ChevronRightChevronRight,
-          loc: Loc(t.loc.0 + 1, t.loc.1 - 1),
-          preceded_by_line_terminator: false,
-        };
-        self.buf.insert(
-          self.next_tok_i,
-          BufferedToken {
-            token: equals_token,
-            lex_mode: LexMode::Standard,
-          },
-        );
-        self.buf.insert(
-          self.next_tok_i,
-          BufferedToken {
-            token: split_token,
-            lex_mode: LexMode::Standard,
-          },
-        );
-        Ok(Token {
-          typ: TT::ChevronRight,
-          loc: Loc(t.loc.0, t.loc.0 + 1),
-          preceded_by_line_terminator: t.preceded_by_line_terminator,
-        })
-      }
-      _ => Err(t.error(SyntaxErrorType::RequiredTokenNotFound(TT::ChevronRight))),
+      TT::ChevronRight => return Ok(self.consume()),
+      TT::ChevronRightEquals
+      | TT::ChevronRightChevronRight
+      | TT::ChevronRightChevronRightEquals
+      | TT::ChevronRightChevronRightChevronRight
+      | TT::ChevronRightChevronRightChevronRightEquals => {}
+      _ => return Err(t.error(SyntaxErrorType::RequiredTokenNotFound(TT::ChevronRight))),
     }
+    // Keep the first `>` only, and lex the rest again: it may be part of another token (`>=>` is
+    // `>` and `=>`). The original token comes back when the parser backtracks over it (see
+    // `restore_checkpoint`), as it may mean something else there (e.g. `a<b<c>>d`).
+    let chevron = Token {
+      typ: TT::ChevronRight,
+      loc: Loc(t.loc.0, t.loc.0 + 1),
+      preceded_by_line_terminator: t.preceded_by_line_terminator,
+    };
+    let i = self.next_tok_i;
+    self.buf[i].token = chevron.clone();
+    self.reset_to(i + 1);
+    self.splits.push(i);
+    Ok(chevron)
   }
 
   /// Require and consume an identifier, returning its string value
@@ -831,7 +738,14 @@ impl<'a> Parser<'a> {
 
   /// Get string value of a template part literal
   pub fn lit_template_part_str_val(&mut self) -> SyntaxResult<String> {
-    let t = self.require(TT::LiteralTemplatePartString)?;
+    let t = self.peek();
+    let terminator = if t.typ == TT::LiteralTemplatePartStringEnd {
+      self.consume();
+      "`"
+    } else {
+      self.require(TT::LiteralTemplatePartString)?;
+      "${"
+    };
     let raw = self.str(t.loc);
     // Template part tokens include the surrounding delimiters, e.g.:
     // - head:   `foo${
@@ -841,7 +755,7 @@ impl<'a> Parser<'a> {
     // This helper is used by the type-expression parser for template literal
     // types, where we want the *cooked* string content of the chunk.
     let raw = raw.strip_prefix('`').unwrap_or(raw);
-    let Some(body) = raw.strip_suffix("${") else {
+    let Some(body) = raw.strip_suffix(terminator) else {
       return Err(t.error(SyntaxErrorType::ExpectedSyntax(
         "template literal continuation",
       )));
diff --git a/parse-js/src/parse/stmt/mod.rs b/parse-js/src/parse/stmt/mod.rs
index 84f7bba..ad08472 100644
--- a/parse-js/src/parse/stmt/mod.rs
+++ b/parse-js/src/parse/stmt/mod.rs
@@ -1020,25 +1020,26 @@ impl<'a> Parser<'a> {
     self.with_loc(|p| {
       let start = p.require(TT::KeywordTry)?;
       let wrapped = p.block_stmt(ctx)?;
-      let catch = p.consume_if(TT::KeywordCatch).and_then(|| {
-        let (parameter, type_annotation) =
-          match p.consume_if(TT::ParenthesisOpen).and_then(|| {
-            let pattern = p.pat_decl(ctx)?;
-            // TypeScript: optional type annotation in catch clause
-            // e.g. `catch (e: any)` or `catch (e: unknown)`
-            let type_annotation = if !p.is_strict_ecmascript() && p.consume_if(TT::Colon).is_match()
-            {
-              Some(p.type_expr(ctx)?)
-            } else {
-              None
+      let catch = if p.peek().typ == TT::KeywordCatch {
+        Some(p.with_loc(|p| {
+          p.require(TT::KeywordCatch)?;
+          let (parameter, type_annotation) =
+            match p.consume_if(TT::ParenthesisOpen).and_then(|| {
+              let pattern = p.pat_decl(ctx)?;
+              // TypeScript: optional type annotation in catch clause
+              // e.g. `catch (e: any)` or `catch (e: unknown)`
+              let type_annotation =
+                if !p.is_strict_ecmascript() && p.consume_if(TT::Colon).is_match() {
+                  Some(p.type_expr(ctx)?)
+                } else {
+                  None
+                };
+              p.require(TT::ParenthesisClose)?;
+              Ok((pattern, type_annotation))
+            })? {
+              Some((pattern, type_annotation)) => (Some(pattern), type_annotation),
+              None => (None, None),
             };
-            p.require(TT::ParenthesisClose)?;
-            Ok((pattern, type_annotation))
-          })? {
-            Some((pattern, type_annotation)) => (Some(pattern), type_annotation),
-            None => (None, None),
-          };
-        p.with_loc(|p| {
           p.require(TT::BraceOpen)?;
           let body = p.stmts(ctx.non_top_level(), TT::BraceClose)?;
           p.require(TT::BraceClose)?;
@@ -1047,8 +1048,10 @@ impl<'a> Parser<'a> {
             type_annotation,
             body,
           })
-        })
-      })?;
+        })?)
+      } else {
+        None
+      };
       let finally = p
         .consume_if(TT::KeywordFinally)
         .and_then(|| p.block_stmt(ctx))?;
diff --git a/parse-js/src/parse/type_expr.rs b/parse-js/src/parse/type_expr.rs
index 5f86277..4545dd7 100644
--- a/parse-js/src/parse/type_expr.rs
+++ b/parse-js/src/parse/type_expr.rs
@@ -1,11 +1,13 @@
 use super::ParseCtx;
 use super::Parser;
+use crate::loc::Loc;
 use crate::ast::node::Node;
 use crate::ast::type_expr::*;
 use crate::error::SyntaxErrorType;
 use crate::error::SyntaxResult;
 use crate::lex::KEYWORDS_MAPPING;
 use crate::token::TT;
+use crate::token::UNRESERVED_KEYWORDS;
 
 impl<'a> Parser<'a> {
   fn is_chevron_right_like_token(typ: TT) -> bool {
@@ -49,7 +51,7 @@ impl<'a> Parser<'a> {
 
   /// Main entry point for parsing type expressions
   pub fn type_expr(&mut self, ctx: ParseCtx) -> SyntaxResult<Node<TypeExpr>> {
-    self.type_union_or_intersection(ctx)
+    self.type_conditional(ctx)
   }
 
   /// Parse type expression or type predicate for function return type
@@ -69,7 +71,6 @@ impl<'a> Parser<'a> {
     {
       let is_this = next_typ == TT::KeywordThis;
       let param_checkpoint = self.checkpoint();
-      let param_loc = self.peek().loc; // Save location before consuming
       let parameter_name = if is_this {
         self.consume();
         "this".to_string()
@@ -86,11 +87,9 @@ impl<'a> Parser<'a> {
         self.consume(); // `is`
                         // This is a type predicate: `x is Type` or `asserts x is Type`
         let type_annotation = Some(Box::new(self.type_expr(ctx)?));
-        let end_loc = type_annotation.as_ref().unwrap().loc;
-        use crate::loc::Loc;
-        let outer_loc = Loc(start_loc.0, end_loc.1);
+        let outer_loc = self.span_since(start_loc);
         let predicate = Node::new(
-          start_loc,
+          outer_loc,
           TypePredicate {
             asserts,
             parameter_name,
@@ -100,10 +99,9 @@ impl<'a> Parser<'a> {
         return Ok(Node::new(outer_loc, TypeExpr::TypePredicate(predicate)));
       } else if asserts {
         // This is `asserts x` without 'is Type'
-        use crate::loc::Loc;
-        let outer_loc = Loc(start_loc.0, param_loc.1);
+        let outer_loc = self.span_since(start_loc);
         let predicate = Node::new(
-          start_loc,
+          outer_loc,
           TypePredicate {
             asserts: true,
             parameter_name,
@@ -121,10 +119,10 @@ impl<'a> Parser<'a> {
     if asserts {
       self.restore_checkpoint(checkpoint);
     }
-    self.type_union_or_intersection(ctx)
+    self.type_conditional(ctx)
   }
 
-  /// Parse union types (lowest precedence): T | U | V
+  /// Parse union types: T | U | V
   /// Each element of a union can be an intersection type
   fn type_union_or_intersection(&mut self, ctx: ParseCtx) -> SyntaxResult<Node<TypeExpr>> {
     // TypeScript allows leading | in union types: type A = | B | C
@@ -147,10 +145,8 @@ impl<'a> Parser<'a> {
     }
 
     let start_loc = types[0].loc;
-    let end_loc = types.last().unwrap().loc;
-    use crate::loc::Loc;
-    let outer_loc = Loc(start_loc.0, end_loc.1);
-    let union = Node::new(start_loc, TypeUnion { types });
+    let outer_loc = self.span_since(start_loc);
+    let union = Node::new(outer_loc, TypeUnion { types });
     Ok(Node::new(outer_loc, TypeExpr::UnionType(union)))
   }
 
@@ -159,7 +155,7 @@ impl<'a> Parser<'a> {
     // TypeScript allows leading & in intersection types: type A = & B & C
     let has_leading_amp = self.consume_if(TT::Ampersand).is_match();
 
-    let first = self.type_conditional(ctx)?;
+    let first = self.type_array_or_postfix(ctx)?;
 
     // Check if there are more intersection members
     if !has_leading_amp && self.peek().typ != TT::Ampersand {
@@ -168,7 +164,7 @@ impl<'a> Parser<'a> {
 
     let mut types = vec![first];
     while self.consume_if(TT::Ampersand).is_match() {
-      types.push(self.type_conditional(ctx)?);
+      types.push(self.type_array_or_postfix(ctx)?);
     }
 
     if types.len() == 1 {
@@ -176,20 +172,18 @@ impl<'a> Parser<'a> {
     }
 
     let start_loc = types[0].loc;
-    let end_loc = types.last().unwrap().loc;
-    use crate::loc::Loc;
-    let outer_loc = Loc(start_loc.0, end_loc.1);
-    let intersection = Node::new(start_loc, TypeIntersection { types });
+    let outer_loc = self.span_since(start_loc);
+    let intersection = Node::new(outer_loc, TypeIntersection { types });
     Ok(Node::new(
       outer_loc,
       TypeExpr::IntersectionType(intersection),
     ))
   }
 
-  /// Parse conditional types: T extends U ? X : Y
+  /// Parse conditional types (lowest precedence): T extends U ? X : Y
   fn type_conditional(&mut self, ctx: ParseCtx) -> SyntaxResult<Node<TypeExpr>> {
     let start_loc = self.peek().loc;
-    let check_type = self.type_array_or_postfix(ctx)?;
+    let check_type = self.type_union_or_intersection(ctx)?;
 
     if !self.consume_if(TT::KeywordExtends).is_match() {
       return Ok(check_type);
@@ -203,11 +197,9 @@ impl<'a> Parser<'a> {
     self.require(TT::Colon)?;
     let false_type = self.type_expr(ctx)?;
 
-    let end_loc = false_type.loc;
-    use crate::loc::Loc;
-    let outer_loc = Loc(start_loc.0, end_loc.1);
+    let outer_loc = self.span_since(start_loc);
     let conditional = Node::new(
-      start_loc,
+      outer_loc,
       TypeConditional {
         check_type: Box::new(check_type),
         extends_type: Box::new(extends_type),
@@ -238,12 +230,10 @@ impl<'a> Parser<'a> {
           self.consume();
           if self.peek().typ == TT::BracketClose {
             // Array type: T[]
-            let end_loc = self.peek().loc;
             self.consume();
-            use crate::loc::Loc;
-            let outer_loc = Loc(start_loc.0, end_loc.1);
+            let outer_loc = self.span_since(start_loc);
             let array = Node::new(
-              start_loc,
+              outer_loc,
               TypeArray {
                 readonly: false,
                 element_type: Box::new(base),
@@ -253,12 +243,10 @@ impl<'a> Parser<'a> {
           } else {
             // Indexed access: T[K]
             let index = self.type_expr(ctx)?;
-            let end_loc = self.peek().loc;
             self.require(TT::BracketClose)?;
-            use crate::loc::Loc;
-            let outer_loc = Loc(start_loc.0, end_loc.1);
+            let outer_loc = self.span_since(start_loc);
             let indexed = Node::new(
-              start_loc,
+              outer_loc,
               TypeIndexedAccess {
                 object_type: Box::new(base),
                 index_type: Box::new(index),
@@ -339,10 +327,9 @@ impl<'a> Parser<'a> {
         let start_loc = self.peek().loc;
         self.consume();
         if self.peek().typ == TT::KeywordSymbolType {
-          let end_loc = self.peek().loc;
           self.consume();
-          let outer_loc = crate::loc::Loc(start_loc.0, end_loc.1);
-          let inner = Node::new(start_loc, TypeUniqueSymbol {});
+          let outer_loc = self.span_since(start_loc);
+          let inner = Node::new(outer_loc, TypeUniqueSymbol {});
           Ok(Node::new(outer_loc, TypeExpr::UniqueSymbol(inner)))
         } else {
           return Err(self.peek().error(SyntaxErrorType::ExpectedSyntax("symbol after unique")));
@@ -378,63 +365,26 @@ impl<'a> Parser<'a> {
 
       // readonly modifier for array and tuple types
       TT::KeywordReadonly => {
-        let [_, next] = self.peek_n::<2>();
-        // Check if followed by a type that can be readonly (primitives, identifiers, brackets, parens, etc.)
-        // If followed by [, it's a readonly tuple type
-        // Otherwise, parse the type and if it ends up being an array, mark it readonly
-        if next.typ == TT::BracketOpen {
-          // readonly [T, U] or readonly []
-          self.consume(); // consume readonly
-          let start_loc = self.peek().loc;
-          self.require(TT::BracketOpen)?;
-          let mut elements = Vec::new();
-          let end_loc;
-          loop {
-            if self.peek().typ == TT::BracketClose {
-              end_loc = self.peek().loc;
-              self.consume();
-              break;
-            }
-            elements.push(self.tuple_element(ctx)?);
-            if !self.consume_if(TT::Comma).is_match() {
-              end_loc = self.peek().loc;
-              self.require(TT::BracketClose)?;
-              break;
-            }
+        // `readonly` applies to the whole array or tuple type that follows, including its
+        // postfix operators: `readonly T[][]` is a readonly array of `T[]`.
+        let start_loc = self.peek().loc;
+        self.consume(); // consume readonly
+        let mut operand = self.type_array_or_postfix(ctx)?;
+        let outer_loc = self.span_since(start_loc);
+        match operand.stx.as_mut() {
+          TypeExpr::ArrayType(array) => {
+            array.stx.readonly = true;
+            array.loc = outer_loc;
+            operand.loc = outer_loc;
           }
-          use crate::loc::Loc;
-          let outer_loc = Loc(start_loc.0, end_loc.1);
-          let tuple = Node::new(start_loc, TypeTuple { readonly: true, elements });
-          Ok(Node::new(outer_loc, TypeExpr::TupleType(tuple)))
-        } else {
-          // readonly T[] - consume readonly and parse the base type
-          self.consume(); // consume readonly
-          let start_loc = self.peek().loc;
-          let mut base_type = self.type_primary(ctx)?;
-
-          // Now check if it's followed by [] to make it an array type
-          if self.peek().typ == TT::BracketOpen {
-            let [_, bracket_next] = self.peek_n::<2>();
-            if bracket_next.typ == TT::BracketClose {
-              // It's T[] pattern
-              self.consume(); // consume [
-              let end_loc = self.peek().loc;
-              self.consume(); // consume ]
-              use crate::loc::Loc;
-              let outer_loc = Loc(start_loc.0, end_loc.1);
-              let array = Node::new(
-                start_loc,
-                TypeArray {
-                  readonly: true,
-                  element_type: Box::new(base_type),
-                },
-              );
-              base_type = Node::new(outer_loc, TypeExpr::ArrayType(array));
-            }
+          TypeExpr::TupleType(tuple) => {
+            tuple.stx.readonly = true;
+            tuple.loc = outer_loc;
+            operand.loc = outer_loc;
           }
-
-          Ok(base_type)
+          _ => {}
         }
+        Ok(operand)
       }
 
       // Contextual keywords allowed as type identifiers
@@ -444,7 +394,7 @@ impl<'a> Parser<'a> {
       TT::KeywordIs | TT::KeywordModule | TT::KeywordNamespace |
       TT::KeywordOverride | TT::KeywordPrivate | TT::KeywordProtected | TT::KeywordPublic |
       TT::KeywordSatisfies | TT::KeywordStatic |
-      TT::KeywordUsing | TT::KeywordOut | TT::KeywordLet |
+      TT::KeywordUsing | TT::KeywordOut | TT::KeywordLet | TT::KeywordType |
       TT::KeywordSuper  // TypeScript: Error recovery - allow 'super' in type positions
       => self.type_reference(ctx),
 
@@ -520,16 +470,14 @@ impl<'a> Parser<'a> {
           self.consume(); // consume hyphen
           let num_val = self.lit_num_val()?.to_string();
           let val = format!("-{}", num_val);
-          use crate::loc::Loc;
-          let loc = Loc(start_loc.0, self.peek().loc.1);
+          let loc = self.span_since(start_loc);
           let inner = Node::new(loc, TypeLiteral::Number(val));
           Ok(Node::new(loc, TypeExpr::LiteralType(inner)))
         } else if next.typ == TT::LiteralBigInt {
           self.consume(); // consume hyphen
           let bigint_val = self.lit_bigint_val()?.to_string();
           let val = format!("-{}", bigint_val);
-          use crate::loc::Loc;
-          let loc = Loc(start_loc.0, self.peek().loc.1);
+          let loc = self.span_since(start_loc);
           let inner = Node::new(loc, TypeLiteral::BigInt(val));
           Ok(Node::new(loc, TypeExpr::LiteralType(inner)))
         } else {
@@ -559,7 +507,9 @@ impl<'a> Parser<'a> {
       TT::KeywordImport => self.import_type(ctx),
 
       // Template literal type
-      TT::LiteralTemplatePartString => self.template_literal_type(ctx),
+      TT::LiteralTemplatePartString | TT::LiteralTemplatePartStringEnd => {
+        self.template_literal_type(ctx)
+      }
 
       // TypeScript: Error recovery - private names in type expressions
       // Example: `const x: C[#bar] = 3;` (indexed access with private name)
@@ -589,15 +539,9 @@ impl<'a> Parser<'a> {
       None
     };
 
-    let end_loc = if let Some(ref args) = type_arguments {
-      args.last().map(|a| a.loc).unwrap_or(start_loc)
-    } else {
-      self.peek().loc
-    };
-    use crate::loc::Loc;
-    let outer_loc = Loc(start_loc.0, end_loc.1);
+    let outer_loc = self.span_since(start_loc);
     let reference = Node::new(
-      start_loc,
+      outer_loc,
       TypeReference {
         name,
         type_arguments,
@@ -636,7 +580,7 @@ impl<'a> Parser<'a> {
       TT::KeywordIs | TT::KeywordModule | TT::KeywordNamespace |
       TT::KeywordOverride | TT::KeywordPrivate | TT::KeywordProtected | TT::KeywordPublic |
       TT::KeywordReadonly | TT::KeywordSatisfies | TT::KeywordStatic |
-      TT::KeywordUsing | TT::KeywordOut | TT::KeywordLet |
+      TT::KeywordUsing | TT::KeywordOut | TT::KeywordLet | TT::KeywordType |
       TT::KeywordIntrinsic |
       // Allow type keywords as identifiers in typeof queries like: typeof undefined, typeof this
       TT::KeywordUndefinedType |
@@ -704,10 +648,17 @@ impl<'a> Parser<'a> {
       | TT::LiteralTrue
       | TT::LiteralFalse
       | TT::LiteralNull
-      | TT::LiteralTemplatePartString => true,
+      | TT::LiteralTemplatePartString
+      | TT::LiteralTemplatePartStringEnd => true,
+
+      // Leading `|` or `&` of a union or intersection.
+      TT::Bar | TT::Ampersand => true,
+
+      // Negative literals and import types
+      TT::Hyphen | TT::KeywordImport => true,
 
       // Identifier followed by type-like punctuation
-      TT::Identifier => {
+      typ if typ == TT::Identifier || UNRESERVED_KEYWORDS.contains(&typ) => {
         self.consume();
         matches!(
           self.peek().typ,
@@ -782,10 +733,8 @@ impl<'a> Parser<'a> {
       }));
     }
 
-    let end_loc = self.peek().loc;
-    use crate::loc::Loc;
-    let outer_loc = Loc(start_loc.0, end_loc.1);
-    let query = Node::new(start_loc, TypeQuery { expr_name });
+    let outer_loc = self.span_since(start_loc);
+    let query = Node::new(outer_loc, TypeQuery { expr_name });
     Ok(Node::new(outer_loc, TypeExpr::TypeQuery(query)))
   }
 
@@ -793,12 +742,11 @@ impl<'a> Parser<'a> {
   fn keyof_type(&mut self, ctx: ParseCtx) -> SyntaxResult<Node<TypeExpr>> {
     let start_loc = self.peek().loc;
     self.require(TT::KeywordKeyof)?;
-    let type_expr = self.type_primary(ctx)?;
-    let end_loc = type_expr.loc;
-    use crate::loc::Loc;
-    let outer_loc = Loc(start_loc.0, end_loc.1);
+    // Postfix operators bind tighter: `keyof T[K]` is `keyof (T[K])`.
+    let type_expr = self.type_array_or_postfix(ctx)?;
+    let outer_loc = self.span_since(start_loc);
     let keyof = Node::new(
-      start_loc,
+      outer_loc,
       TypeKeyOf {
         type_expr: Box::new(type_expr),
       },
@@ -819,11 +767,9 @@ impl<'a> Parser<'a> {
       None
     };
 
-    let end_loc = self.peek().loc;
-    use crate::loc::Loc;
-    let outer_loc = Loc(start_loc.0, end_loc.1);
+    let outer_loc = self.span_since(start_loc);
     let infer = Node::new(
-      start_loc,
+      outer_loc,
       TypeInfer {
         type_parameter,
         constraint,
@@ -858,15 +804,9 @@ impl<'a> Parser<'a> {
       (None, None)
     };
 
-    let end_loc = if let Some(ref args) = type_arguments {
-      args.last().map(|a| a.loc).unwrap_or(self.peek().loc)
-    } else {
-      self.peek().loc
-    };
-    use crate::loc::Loc;
-    let outer_loc = Loc(start_loc.0, end_loc.1);
+    let outer_loc = self.span_since(start_loc);
     let import = Node::new(
-      start_loc,
+      outer_loc,
       TypeImport {
         module_specifier,
         qualifier,
@@ -918,11 +858,9 @@ impl<'a> Parser<'a> {
 
     // Parse as regular object type
     let members = self.type_members(ctx)?;
-    let end_loc = self.peek().loc;
     self.require(TT::BraceClose)?;
-    use crate::loc::Loc;
-    let outer_loc = Loc(start_loc.0, end_loc.1);
-    let object = Node::new(start_loc, TypeObjectLiteral { members });
+    let outer_loc = self.span_since(start_loc);
+    let object = Node::new(outer_loc, TypeObjectLiteral { members });
     Ok(Node::new(outer_loc, TypeExpr::ObjectType(object)))
   }
 
@@ -945,6 +883,7 @@ impl<'a> Parser<'a> {
   /// Parse a single type member
   fn type_member(&mut self, ctx: ParseCtx) -> SyntaxResult<Node<TypeMember>> {
     let checkpoint = self.checkpoint();
+    let start_loc = self.peek().loc;
     let readonly = self.consume_if(TT::KeywordReadonly).is_match();
 
     // Check for index signature vs mapped property vs computed property
@@ -1011,18 +950,18 @@ impl<'a> Parser<'a> {
     let optional = self.consume_if(TT::Question).is_match();
 
     if is_get {
-      return self.get_accessor_signature(ctx, key);
+      return self.get_accessor_signature(ctx, start_loc, key);
     } else if is_set {
-      return self.set_accessor_signature(ctx, key);
+      return self.set_accessor_signature(ctx, start_loc, key);
     }
 
     // Check if it's a method signature (has parentheses)
     if self.peek().typ == TT::ParenthesisOpen || self.peek().typ == TT::ChevronLeft {
-      return self.method_signature(ctx, key, optional);
+      return self.method_signature(ctx, start_loc, key, optional);
     }
 
     // It's a property signature
-    self.property_signature(ctx, key, readonly, optional)
+    self.property_signature(ctx, start_loc, key, readonly, optional)
   }
 
   /// Parse type property key
@@ -1078,26 +1017,20 @@ impl<'a> Parser<'a> {
   fn property_signature(
     &mut self,
     ctx: ParseCtx,
+    start_loc: Loc,
     key: TypePropertyKey,
     readonly: bool,
     optional: bool,
   ) -> SyntaxResult<Node<TypeMember>> {
-    let start_loc = self.peek().loc;
     let type_annotation = if self.consume_if(TT::Colon).is_match() {
       Some(self.type_expr(ctx)?)
     } else {
       None
     };
 
-    let end_loc = if let Some(ref ta) = type_annotation {
-      ta.loc
-    } else {
-      self.peek().loc
-    };
-    use crate::loc::Loc;
-    let outer_loc = Loc(start_loc.0, end_loc.1);
+    let outer_loc = self.span_since(start_loc);
     let prop = Node::new(
-      start_loc,
+      outer_loc,
       TypePropertySignature {
         readonly,
         optional,
@@ -1112,10 +1045,10 @@ impl<'a> Parser<'a> {
   fn method_signature(
     &mut self,
     ctx: ParseCtx,
+    start_loc: Loc,
     key: TypePropertyKey,
     optional: bool,
   ) -> SyntaxResult<Node<TypeMember>> {
-    let start_loc = self.peek().loc;
     let type_parameters = if self.peek().typ == TT::ChevronLeft && self.is_start_of_type_arguments()
     {
       Some(self.type_parameters(ctx)?)
@@ -1134,15 +1067,9 @@ impl<'a> Parser<'a> {
       None
     };
 
-    let end_loc = if let Some(ref rt) = return_type {
-      rt.loc
-    } else {
-      self.peek().loc
-    };
-    use crate::loc::Loc;
-    let outer_loc = Loc(start_loc.0, end_loc.1);
+    let outer_loc = self.span_since(start_loc);
     let method = Node::new(
-      start_loc,
+      outer_loc,
       TypeMethodSignature {
         optional,
         key,
@@ -1203,15 +1130,9 @@ impl<'a> Parser<'a> {
       None
     };
 
-    let end_loc = if let Some(ref rt) = return_type {
-      rt.loc
-    } else {
-      self.peek().loc
-    };
-    use crate::loc::Loc;
-    let outer_loc = Loc(start_loc.0, end_loc.1);
+    let outer_loc = self.span_since(start_loc);
     let constructor = Node::new(
-      start_loc,
+      outer_loc,
       TypeConstructSignature {
         type_parameters,
         parameters,
@@ -1232,11 +1153,9 @@ impl<'a> Parser<'a> {
     self.require(TT::Colon)?;
     let type_annotation = self.type_expr(ctx)?;
 
-    let end_loc = type_annotation.loc;
-    use crate::loc::Loc;
-    let outer_loc = Loc(start_loc.0, end_loc.1);
+    let outer_loc = self.span_since(start_loc);
     let index = Node::new(
-      start_loc,
+      outer_loc,
       TypeIndexSignature {
         readonly,
         parameter_name,
@@ -1251,9 +1170,9 @@ impl<'a> Parser<'a> {
   fn get_accessor_signature(
     &mut self,
     ctx: ParseCtx,
+    start_loc: Loc,
     key: TypePropertyKey,
   ) -> SyntaxResult<Node<TypeMember>> {
-    let start_loc = self.peek().loc;
     self.require(TT::ParenthesisOpen)?;
     // ES2017+: Allow trailing comma in empty parameter list
     let _ = self.consume_if(TT::Comma);
@@ -1266,14 +1185,8 @@ impl<'a> Parser<'a> {
       None
     };
 
-    let end_loc = if let Some(ref rt) = return_type {
-      rt.loc
-    } else {
-      self.peek().loc
-    };
-    use crate::loc::Loc;
-    let outer_loc = Loc(start_loc.0, end_loc.1);
-    let accessor = Node::new(start_loc, TypeGetAccessor { key, return_type });
+    let outer_loc = self.span_since(start_loc);
+    let accessor = Node::new(outer_loc, TypeGetAccessor { key, return_type });
     Ok(Node::new(outer_loc, TypeMember::GetAccessor(accessor)))
   }
 
@@ -1281,9 +1194,9 @@ impl<'a> Parser<'a> {
   fn set_accessor_signature(
     &mut self,
     ctx: ParseCtx,
+    start_loc: Loc,
     key: TypePropertyKey,
   ) -> SyntaxResult<Node<TypeMember>> {
-    let start_loc = self.peek().loc;
     self.require(TT::ParenthesisOpen)?;
     // TypeScript: Error recovery - allow setters with no parameter
     let parameter = if self.peek().typ == TT::ParenthesisClose {
@@ -1306,12 +1219,10 @@ impl<'a> Parser<'a> {
     };
     // ES2017+: Allow trailing comma in setter parameter list
     let _ = self.consume_if(TT::Comma);
-    let end_loc = self.peek().loc;
     self.require(TT::ParenthesisClose)?;
 
-    use crate::loc::Loc;
-    let outer_loc = Loc(start_loc.0, end_loc.1);
-    let accessor = Node::new(start_loc, TypeSetAccessor { key, parameter });
+    let outer_loc = self.span_since(start_loc);
+    let accessor = Node::new(outer_loc, TypeSetAccessor { key, parameter });
     Ok(Node::new(outer_loc, TypeMember::SetAccessor(accessor)))
   }
 
@@ -1320,24 +1231,20 @@ impl<'a> Parser<'a> {
     let start_loc = self.peek().loc;
     self.require(TT::BracketOpen)?;
     let mut elements = Vec::new();
-    let end_loc;
     loop {
       if self.peek().typ == TT::BracketClose {
-        end_loc = self.peek().loc;
         self.consume();
         break;
       }
       elements.push(self.tuple_element(ctx)?);
       if !self.consume_if(TT::Comma).is_match() {
-        end_loc = self.peek().loc;
         self.require(TT::BracketClose)?;
         break;
       }
     }
-    use crate::loc::Loc;
-    let outer_loc = Loc(start_loc.0, end_loc.1);
+    let outer_loc = self.span_since(start_loc);
     let tuple = Node::new(
-      start_loc,
+      outer_loc,
       TypeTuple {
         readonly: false,
         elements,
@@ -1415,12 +1322,10 @@ impl<'a> Parser<'a> {
       let start_loc = self.peek().loc;
       self.require(TT::ParenthesisOpen)?;
       let type_expr = self.type_expr(ctx)?;
-      let end_loc = self.peek().loc;
       self.require(TT::ParenthesisClose)?;
-      use crate::loc::Loc;
-      let outer_loc = Loc(start_loc.0, end_loc.1);
+      let outer_loc = self.span_since(start_loc);
       let paren = Node::new(
-        start_loc,
+        outer_loc,
         TypeParenthesized {
           type_expr: Box::new(type_expr),
         },
@@ -1472,12 +1377,7 @@ impl<'a> Parser<'a> {
     while depth > 0 && self.peek().typ != TT::EOF {
       match self.peek().typ {
         TT::ParenthesisOpen => depth += 1,
-        TT::ParenthesisClose => {
-          depth -= 1;
-          if depth > 0 {
-            self.consume();
-          }
-        }
+        TT::ParenthesisClose => depth -= 1,
         _ => {}
       }
       if depth > 0 {
@@ -1518,11 +1418,9 @@ impl<'a> Parser<'a> {
     self.require(TT::EqualsChevronRight)?;
     let return_type = self.type_expr_or_predicate(ctx)?;
 
-    let end_loc = return_type.loc;
-    use crate::loc::Loc;
-    let outer_loc = Loc(start_loc.0, end_loc.1);
+    let outer_loc = self.span_since(start_loc);
     let func = Node::new(
-      start_loc,
+      outer_loc,
       TypeFunction {
         type_parameters,
         parameters,
@@ -1550,11 +1448,9 @@ impl<'a> Parser<'a> {
     self.require(TT::EqualsChevronRight)?;
     let return_type = self.type_expr_or_predicate(ctx)?;
 
-    let end_loc = return_type.loc;
-    use crate::loc::Loc;
-    let outer_loc = Loc(start_loc.0, end_loc.1);
+    let outer_loc = self.span_since(start_loc);
     let constructor = Node::new(
-      start_loc,
+      outer_loc,
       TypeConstructor {
         type_parameters,
         parameters,
@@ -1780,11 +1676,11 @@ impl<'a> Parser<'a> {
   /// Parse template literal type: `foo${T}bar`
   fn template_literal_type(&mut self, ctx: ParseCtx) -> SyntaxResult<Node<TypeExpr>> {
     let start_loc = self.peek().loc;
+    let has_substitutions = self.peek().typ == TT::LiteralTemplatePartString;
     let head = self.lit_template_part_str_val()?;
     let mut spans = Vec::new();
 
-    let mut end_loc = start_loc;
-    loop {
+    while has_substitutions {
       let type_expr = self.type_expr(ctx)?;
 
       // Require the closing brace of the substitution
@@ -1797,7 +1693,6 @@ impl<'a> Parser<'a> {
       let (string_is_end, raw) = match t.typ {
         TT::LiteralTemplatePartString => (false, self.str(t.loc)),
         TT::LiteralTemplatePartStringEnd => {
-          end_loc = t.loc;
           (true, self.str(t.loc))
         }
         _ => {
@@ -1834,7 +1729,6 @@ impl<'a> Parser<'a> {
         .unwrap_or_else(|| body.to_string());
 
       let span_start = type_expr.loc;
-      use crate::loc::Loc;
       let span_loc = Loc(span_start.0, t.loc.1);
       spans.push(Node::new(
         span_loc,
@@ -1849,9 +1743,8 @@ impl<'a> Parser<'a> {
       }
     }
 
-    use crate::loc::Loc;
-    let outer_loc = Loc(start_loc.0, end_loc.1);
-    let template = Node::new(start_loc, TypeTemplateLiteral { head, spans });
+    let outer_loc = self.span_since(start_loc);
+    let template = Node::new(outer_loc, TypeTemplateLiteral { head, spans });
     Ok(Node::new(
       outer_loc,
       TypeExpr::TemplateLiteralType(template),
@@ -1887,13 +1780,11 @@ impl<'a> Parser<'a> {
     let type_expr = self.type_expr(ctx)?;
     // Optional semicolon or comma before closing brace
     let _ = self.consume_if(TT::Semicolon).is_match() || self.consume_if(TT::Comma).is_match();
-    let end_loc = self.peek().loc;
     self.require(TT::BraceClose)?;
 
-    use crate::loc::Loc;
-    let outer_loc = Loc(start_loc.0, end_loc.1);
+    let outer_loc = self.span_since(start_loc);
     let mapped = Node::new(
-      start_loc,
+      outer_loc,
       TypeMapped {
         readonly_modifier,
         type_parameter,
@@ -1936,13 +1827,11 @@ impl<'a> Parser<'a> {
     let type_expr = self.type_expr(ctx)?;
     // Optional semicolon or comma before closing brace
     let _ = self.consume_if(TT::Semicolon).is_match() || self.consume_if(TT::Comma).is_match();
-    let end_loc = self.peek().loc;
     self.require(TT::BraceClose)?;
 
-    use crate::loc::Loc;
-    let outer_loc = Loc(start_loc.0, end_loc.1);
+    let outer_loc = self.span_since(start_loc);
     let mapped = Node::new(
-      start_loc,
+      outer_loc,
       TypeMapped {
         readonly_modifier,
         type_parameter,
@@ -1980,24 +1869,20 @@ impl<'a> Parser<'a> {
     let optional_modifier = self.parse_mapped_type_modifier(TT::Question);
 
     // Type annotation is optional in mapped type members
-    let (type_expr, end_loc) = if self.consume_if(TT::Colon).is_match() {
-      let te = self.type_expr(ctx)?;
-      let loc = te.loc;
-      (Box::new(te), loc)
+    let type_expr = if self.consume_if(TT::Colon).is_match() {
+      Box::new(self.type_expr(ctx)?)
     } else {
       // No type annotation - create implicit 'any' type
       use crate::ast::type_expr::TypeAny;
-      use crate::loc::Loc;
       let any_loc = Loc(self.peek().loc.0, self.peek().loc.0);
       let any_inner = Node::new(any_loc, TypeAny {});
       let any_type = Node::new(any_loc, TypeExpr::Any(any_inner));
-      (Box::new(any_type), any_loc)
+      Box::new(any_type)
     };
 
-    use crate::loc::Loc;
-    let outer_loc = Loc(start_loc.0, end_loc.1);
+    let outer_loc = self.span_since(start_loc);
     let mapped = Node::new(
-      start_loc,
+      outer_loc,
       TypeMapped {
         readonly_modifier,
         type_parameter,
-- 
2.43.0


From 12b227f2cc68f74875d6996b77ee0542582be9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:48 +0000
Subject: [PATCH 11/32] fix: emit-js: parentheses around assertions and in for
 heads, token separation, ASI bodies, default exports, BigInt keys, <!--
 sequences

---
 emit-js/src/asi.rs        |  32 +++--
 emit-js/src/emitter.rs    |  39 ++++++-
 emit-js/src/expr_js.rs    | 239 ++++++++++++++++++++++++++++++++------
 emit-js/src/hir.rs        |  27 ++++-
 emit-js/src/stmt.rs       |  88 +++++++++-----
 emit-js/src/stmt_start.rs |   4 +
 emit-js/src/ts_stmt.rs    |   6 +-
 emit-js/src/ts_type.rs    |   4 +
 8 files changed, 360 insertions(+), 79 deletions(-)

diff --git a/emit-js/src/asi.rs b/emit-js/src/asi.rs
index fd376d2..b725c59 100644
--- a/emit-js/src/asi.rs
+++ b/emit-js/src/asi.rs
@@ -128,20 +128,32 @@ pub fn separator_after_last(stmt: &Node<Stmt>, end: ListEnd) -> Separator {
   }
 }
 
-fn for_body_leaf_end(body: &Node<ForBody>) -> StmtLeafEnd {
-  match body.stx.body.len() {
-    0 => StmtLeafEnd::BlockLike,
-    1 => stmt_leaf_end(&body.stx.body[0]),
-    _ => StmtLeafEnd::BlockLike,
+/// The only statement of a list other than empty ones.
+pub(crate) fn single_stmt(stmts: &[Node<Stmt>]) -> Option<&Node<Stmt>> {
+  let mut non_empty = stmts
+    .iter()
+    .filter(|stmt| !matches!(stmt.stx.as_ref(), Stmt::Empty(_)));
+  non_empty.next().filter(|_| non_empty.next().is_none())
+}
+
+/// The statement a loop body is printed as, unless it is printed in braces.
+fn for_body_stmt(body: &Node<ForBody>) -> Option<&Node<Stmt>> {
+  let mut stmts = &body.stx.body;
+  while let Some(stmt) = single_stmt(stmts) {
+    match stmt.stx.as_ref() {
+      Stmt::Block(block) => stmts = &block.stx.body,
+      _ => return Some(stmt),
+    }
   }
+  None
+}
+
+fn for_body_leaf_end(body: &Node<ForBody>) -> StmtLeafEnd {
+  for_body_stmt(body).map_or(StmtLeafEnd::BlockLike, stmt_leaf_end)
 }
 
 fn for_body_tail_is_expression_like(body: &Node<ForBody>) -> bool {
-  match body.stx.body.len() {
-    0 => false,
-    1 => stmt_tail_is_expression_like(&body.stx.body[0]),
-    _ => false,
-  }
+  for_body_stmt(body).is_some_and(stmt_tail_is_expression_like)
 }
 
 fn var_decl_ends_with_initializer(decl: Option<&VarDeclarator>) -> bool {
diff --git a/emit-js/src/emitter.rs b/emit-js/src/emitter.rs
index 4afe538..7ef612d 100644
--- a/emit-js/src/emitter.rs
+++ b/emit-js/src/emitter.rs
@@ -10,7 +10,9 @@
 //! [`Emitter::write_str`] for a single lexical token or whitespace-only
 //! fragments (e.g. indentation, newlines).
 
-use crate::escape::emit_string_literal;
+use crate::escape::{emit_string_literal, emit_string_literal_code_units};
+use parse_js::ast::expr::lit::LitStrExpr;
+use parse_js::ast::node::{literal_string_code_units, Node, NodeAssocData};
 use parse_js::loc::Loc;
 use std::fmt;
 
@@ -338,6 +340,30 @@ impl Emitter {
     self.write_str(rendered);
   }
 
+  /// Emits the string literal `lit`, including the unpaired surrogates that its
+  /// (UTF-8) value cannot represent.
+  pub fn write_string_literal_node(&mut self, lit: &Node<LitStrExpr>) {
+    self.write_string_literal_value(&lit.stx.value, &lit.assoc);
+  }
+
+  pub(crate) fn write_string_literal_value(&mut self, value: &str, assoc: &NodeAssocData) {
+    match literal_string_code_units(assoc) {
+      Some(units) if String::from_utf16(units).is_err() => {
+        let mut buf = Vec::new();
+        emit_string_literal_code_units(&mut buf, units, self.opts.quote_style, self.opts.minify);
+        let rendered = std::str::from_utf8(&buf).expect("string literal escape output is UTF-8");
+        self.write_str(rendered);
+      }
+      _ => self.write_string_literal(value),
+    }
+  }
+
+  /// Emits a regular expression literal. A word after it would be taken for its flags.
+  pub fn write_regex_literal(&mut self, text: &str) {
+    self.write_str(text);
+    self.state.trailing = Boundary::Word;
+  }
+
   /// Emits a numeric literal.
   pub fn write_number(&mut self, number: &str) {
     self.write_with_kind(number, TokenKind::Number);
@@ -452,7 +478,9 @@ impl Emitter {
   }
 
   fn insert_html_comment_break(&mut self, bytes: &[u8]) {
-    if would_start_html_comment(self.state.html_start, bytes) {
+    if would_start_html_comment(self.state.html_start, bytes)
+      || would_complete_html_open(&self.out, bytes)
+    {
       self.push_bytes(&[b' ']);
       self.state.trailing = Boundary::None;
     }
@@ -676,6 +704,13 @@ fn would_start_html_comment(mut state: HtmlStart, bytes: &[u8]) -> bool {
   false
 }
 
+/// `<!--` starts a comment anywhere in a line, so `a < !--b` needs its space. Only the operator
+/// written by an earlier call counts: string, template and regex literals arrive in one piece.
+fn would_complete_html_open(out: &[u8], bytes: &[u8]) -> bool {
+  const OPEN: &[u8] = b"<!--";
+  (1..OPEN.len()).any(|n| out.ends_with(&OPEN[..n]) && bytes.starts_with(&OPEN[n..]))
+}
+
 fn next_html_start(state: HtmlStart, byte: u8) -> (HtmlStart, bool) {
   if matches!(byte, b'\n' | b'\r') {
     return (HtmlStart::Start, false);
diff --git a/emit-js/src/expr_js.rs b/emit-js/src/expr_js.rs
index 4fc35ee..c1a4c22 100644
--- a/emit-js/src/expr_js.rs
+++ b/emit-js/src/expr_js.rs
@@ -10,7 +10,7 @@ use parse_js::ast::expr::lit::{
 use parse_js::ast::expr::pat::{ArrPat, IdPat, ObjPat, ObjPatProp, Pat};
 use parse_js::ast::expr::*;
 use parse_js::ast::func::{Func, FuncBody};
-use parse_js::ast::node::Node;
+use parse_js::ast::node::{template_string_parts, Node, ParenthesizedExpr, TemplateStringParts};
 use parse_js::ast::stmt::decl::{Accessibility, ParamDecl, PatDecl};
 use parse_js::ast::type_expr::{TypeExpr, TypeParameter};
 use parse_js::operator::{OperatorName, OPERATORS};
@@ -18,6 +18,8 @@ use parse_js::token::TT;
 
 const PRIMARY_PRECEDENCE: u8 = 19;
 const CALL_MEMBER_PRECEDENCE: u8 = 18;
+/// Everything but comma expressions.
+const ASSIGNMENT_MIN_PRECEDENCE: u8 = 2;
 const POSTFIX_PRECEDENCE: u8 = 17;
 const ARROW_PRECEDENCE: u8 = 3;
 
@@ -33,7 +35,35 @@ pub enum ExprCtx {
 }
 
 pub fn emit_expr(em: &mut Emitter, expr: &Node<Expr>, ctx: ExprCtx) -> EmitResult {
-  match emit_expr_with_min_prec(em, expr, 1, ctx) {
+  emit_expr_or_via_fmt(em, expr, 1, ctx)
+}
+
+/// Emits an expression where the grammar has an AssignmentExpression, so that a
+/// comma expression needs parentheses.
+pub(crate) fn emit_assignment_expr(
+  em: &mut Emitter,
+  expr: &Node<Expr>,
+  ctx: ExprCtx,
+) -> EmitResult {
+  emit_expr_or_via_fmt(em, expr, ASSIGNMENT_MIN_PRECEDENCE, ctx)
+}
+
+/// Emits an expression where the grammar has a LeftHandSideExpression.
+pub(crate) fn emit_left_hand_side_expr(
+  em: &mut Emitter,
+  expr: &Node<Expr>,
+  ctx: ExprCtx,
+) -> EmitResult {
+  emit_expr_or_via_fmt(em, expr, CALL_MEMBER_PRECEDENCE, ctx)
+}
+
+fn emit_expr_or_via_fmt(
+  em: &mut Emitter,
+  expr: &Node<Expr>,
+  min_prec: u8,
+  ctx: ExprCtx,
+) -> EmitResult {
+  match emit_expr_with_min_prec(em, expr, min_prec, ctx) {
     Err(EmitError {
       kind: EmitErrorKind::Unsupported(_),
       ..
@@ -42,6 +72,46 @@ pub fn emit_expr(em: &mut Emitter, expr: &Node<Expr>, ctx: ExprCtx) -> EmitResul
   }
 }
 
+fn is_parenthesized(expr: &Node<Expr>) -> bool {
+  expr.assoc.get::<ParenthesizedExpr>().is_some()
+}
+
+/// Emits the operand of a member access, call or template literal.
+fn emit_chain_base(em: &mut Emitter, expr: &Node<Expr>, tag: bool, ctx: ExprCtx) -> EmitResult {
+  let parens = match expr.stx.as_ref() {
+    // Without an argument list, the operator would take what follows.
+    Expr::Unary(unary) if unary.stx.operator == OperatorName::New => {
+      !matches!(unary.stx.argument.stx.as_ref(), Expr::Call(_))
+        || is_parenthesized(&unary.stx.argument)
+    }
+    // Parentheses end an optional chain.
+    _ => starts_with_optional_chaining(expr) && (tag || is_parenthesized(expr)),
+  };
+  if parens {
+    emit_wrapped(em, expr, ctx)
+  } else {
+    emit_expr_with_min_prec(em, expr, CALL_MEMBER_PRECEDENCE, ctx)
+  }
+}
+
+/// Whether an argument list or optional chain in `expr` would be taken for the one of a `new`
+/// operator before it.
+fn new_callee_needs_parens(expr: &Node<Expr>) -> bool {
+  match expr.stx.as_ref() {
+    Expr::Call(_) | Expr::Import(_) => true,
+    Expr::Member(member) => {
+      member.stx.optional_chaining || new_callee_needs_parens(&member.stx.left)
+    }
+    Expr::ComputedMember(member) => {
+      member.stx.optional_chaining || new_callee_needs_parens(&member.stx.object)
+    }
+    Expr::TaggedTemplate(tagged) => new_callee_needs_parens(&tagged.stx.function),
+    Expr::Instantiation(inst) => new_callee_needs_parens(&inst.stx.expression),
+    Expr::NonNullAssertion(non_null) => new_callee_needs_parens(&non_null.stx.expression),
+    _ => false,
+  }
+}
+
 fn emit_expr_with_min_prec(
   em: &mut Emitter,
   expr: &Node<Expr>,
@@ -127,11 +197,11 @@ fn emit_expr_no_parens(em: &mut Emitter, expr: &Node<Expr>, ctx: ExprCtx) -> Emi
     Expr::LitBool(lit) => em.write_keyword(if lit.stx.value { "true" } else { "false" }),
     Expr::LitNull(_) => em.write_keyword("null"),
     Expr::LitBigInt(lit) => em.write_bigint_literal(&lit.stx.value),
-    Expr::LitStr(lit) => emit_string_literal(em, &lit.stx.value),
+    Expr::LitStr(lit) => em.write_string_literal_node(lit),
     Expr::LitRegex(lit) => {
       let mut buf = Vec::new();
       crate::escape::emit_regex_literal(&mut buf, &lit.stx.value);
-      em.write_str(std::str::from_utf8(&buf).expect("regex literal escape output is UTF-8"));
+      em.write_regex_literal(std::str::from_utf8(&buf).expect("regex literal escape output is UTF-8"));
     }
     Expr::LitArr(arr) => emit_array_literal(em, arr)?,
     Expr::LitObj(obj) => emit_object_literal(em, obj)?,
@@ -181,13 +251,25 @@ fn emit_binary(em: &mut Emitter, binary: &Node<BinaryExpr>, ctx: ExprCtx) -> Emi
     || (binary.stx.operator == OperatorName::NullishCoalescing && is_logical_and_or(&binary.stx.left))
     || ((binary.stx.operator == OperatorName::LogicalAnd
       || binary.stx.operator == OperatorName::LogicalOr)
-      && is_nullish(&binary.stx.left));
+      && is_nullish(&binary.stx.left))
+    // The type would take the operator: `a as T < b`, `a as T & b`.
+    || (is_type_assertion(&binary.stx.left)
+      && matches!(
+        binary.stx.operator,
+        OperatorName::LessThan
+          | OperatorName::BitwiseLeftShift
+          | OperatorName::BitwiseAnd
+          | OperatorName::BitwiseOr
+      ));
 
   let force_right_parens = (binary.stx.operator == OperatorName::NullishCoalescing
     && is_logical_and_or(&binary.stx.right))
     || ((binary.stx.operator == OperatorName::LogicalAnd
       || binary.stx.operator == OperatorName::LogicalOr)
-      && is_nullish(&binary.stx.right));
+      && is_nullish(&binary.stx.right))
+    // `as` and `satisfies` bind like the relational operators.
+    || (starts_with_type_assertion(&binary.stx.right)
+      && right_min_prec > OPERATORS[&OperatorName::LessThan].precedence);
 
   if force_left_parens {
     emit_wrapped(em, &binary.stx.left, ctx)?;
@@ -195,6 +277,10 @@ fn emit_binary(em: &mut Emitter, binary: &Node<BinaryExpr>, ctx: ExprCtx) -> Emi
     emit_expr_with_min_prec(em, &binary.stx.left, left_min_prec, ctx)?;
   }
 
+  // `a! == b`
+  if op_txt.starts_with('=') && em.as_bytes().last() == Some(&b'!') {
+    em.write_space();
+  }
   match binary.stx.operator {
     OperatorName::In | OperatorName::Instanceof => em.write_keyword(op_txt),
     OperatorName::NullishCoalescing
@@ -296,14 +382,14 @@ fn emit_call(em: &mut Emitter, call: &Node<CallExpr>, ctx: ExprCtx) -> EmitResul
         if *spread {
           em.write_punct("...");
         }
-        emit_expr_with_min_prec(em, value, 1, ctx)?;
+        emit_expr_with_min_prec(em, value, ASSIGNMENT_MIN_PRECEDENCE, ctx)?;
       }
       em.write_punct(")");
       return Ok(());
     }
   }
 
-  emit_expr_with_min_prec(em, &call.stx.callee, CALL_MEMBER_PRECEDENCE, ctx)?;
+  emit_chain_base(em, &call.stx.callee, false, ctx)?;
   if call.stx.optional_chaining {
     em.write_str("?.(");
   } else {
@@ -317,7 +403,7 @@ fn emit_call(em: &mut Emitter, call: &Node<CallExpr>, ctx: ExprCtx) -> EmitResul
     if *spread {
       em.write_punct("...");
     }
-    emit_expr_with_min_prec(em, value, 1, ctx)?;
+    emit_expr_with_min_prec(em, value, ASSIGNMENT_MIN_PRECEDENCE, ctx)?;
   }
   em.write_punct(")");
   Ok(())
@@ -325,7 +411,7 @@ fn emit_call(em: &mut Emitter, call: &Node<CallExpr>, ctx: ExprCtx) -> EmitResul
 
 fn emit_member(em: &mut Emitter, member: &Node<MemberExpr>, ctx: ExprCtx) -> EmitResult {
   if member.stx.optional_chaining {
-    emit_expr_with_min_prec(em, &member.stx.left, CALL_MEMBER_PRECEDENCE, ctx)?;
+    emit_chain_base(em, &member.stx.left, false, ctx)?;
     em.write_str("?.");
   } else if let Expr::LitNum(num) = member.stx.left.stx.as_ref() {
     let rendered = num.stx.value.to_string();
@@ -335,7 +421,7 @@ fn emit_member(em: &mut Emitter, member: &Node<MemberExpr>, ctx: ExprCtx) -> Emi
     }
     em.write_punct(".");
   } else {
-    emit_expr_with_min_prec(em, &member.stx.left, CALL_MEMBER_PRECEDENCE, ctx)?;
+    emit_chain_base(em, &member.stx.left, false, ctx)?;
     em.write_punct(".");
   }
   em.write_identifier(&member.stx.right);
@@ -347,7 +433,7 @@ fn emit_computed_member(
   member: &Node<ComputedMemberExpr>,
   ctx: ExprCtx,
 ) -> EmitResult {
-  emit_expr_with_min_prec(em, &member.stx.object, CALL_MEMBER_PRECEDENCE, ctx)?;
+  emit_chain_base(em, &member.stx.object, false, ctx)?;
   if member.stx.optional_chaining {
     em.write_str("?.[");
   } else {
@@ -417,7 +503,7 @@ fn emit_new_expr(em: &mut Emitter, argument: &Node<Expr>, ctx: ExprCtx) -> EmitR
   em.write_keyword("new");
 
   match argument.stx.as_ref() {
-    Expr::Call(call) => {
+    Expr::Call(call) if !is_parenthesized(argument) => {
       if call.stx.optional_chaining {
         em.write_punct("(");
         emit_call(em, call, ctx)?;
@@ -426,12 +512,12 @@ fn emit_new_expr(em: &mut Emitter, argument: &Node<Expr>, ctx: ExprCtx) -> EmitR
       }
 
       let callee = &call.stx.callee;
-      if starts_with_optional_chaining(callee) {
+      if new_callee_needs_parens(callee) {
         em.write_punct("(");
         emit_expr_with_min_prec(em, callee, CALL_MEMBER_PRECEDENCE, ctx)?;
         em.write_punct(")");
       } else {
-        emit_expr_with_min_prec(em, callee, CALL_MEMBER_PRECEDENCE, ctx)?;
+        emit_chain_base(em, callee, false, ctx)?;
       }
 
       em.write_punct("(");
@@ -443,13 +529,13 @@ fn emit_new_expr(em: &mut Emitter, argument: &Node<Expr>, ctx: ExprCtx) -> EmitR
         if *spread {
           em.write_punct("...");
         }
-        emit_expr_with_min_prec(em, value, 1, ctx)?;
+        emit_expr_with_min_prec(em, value, ASSIGNMENT_MIN_PRECEDENCE, ctx)?;
       }
       em.write_punct(")");
       Ok(())
     }
     _ => {
-      if starts_with_optional_chaining(argument) {
+      if new_callee_needs_parens(argument) {
         em.write_punct("(");
         emit_expr_with_min_prec(em, argument, CALL_MEMBER_PRECEDENCE, ctx)?;
         em.write_punct(")");
@@ -479,14 +565,18 @@ fn emit_array_literal(em: &mut Emitter, arr: &Node<LitArrExpr>) -> EmitResult {
       em.write_punct(",");
     }
     match elem {
-      LitArrElem::Single(expr) => emit_expr(em, expr, ExprCtx::Default)?,
+      LitArrElem::Single(expr) => emit_assignment_expr(em, expr, ExprCtx::Default)?,
       LitArrElem::Rest(expr) => {
         em.write_punct("...");
-        emit_expr(em, expr, ExprCtx::Default)?;
+        emit_assignment_expr(em, expr, ExprCtx::Default)?;
       }
       LitArrElem::Empty => {}
     }
   }
+  if matches!(arr.stx.elements.last(), Some(LitArrElem::Empty)) {
+    // A comma after the last element is a separator, so a trailing hole needs its own.
+    em.write_punct(",");
+  }
   em.write_punct("]");
   Ok(())
 }
@@ -512,7 +602,7 @@ fn emit_obj_member(em: &mut Emitter, member: &Node<ObjMember>) -> EmitResult {
     }
     ObjMemberType::Rest { val } => {
       em.write_punct("...");
-      emit_expr(em, val, ExprCtx::Default)
+      emit_assignment_expr(em, val, ExprCtx::Default)
     }
   }
 }
@@ -527,7 +617,7 @@ fn emit_obj_valued_member(
       emit_class_or_object_key(em, key)?;
       if let Some(init) = init {
         em.write_punct(":");
-        emit_expr(em, init, ExprCtx::Default)?;
+        emit_assignment_expr(em, init, ExprCtx::Default)?;
       }
       Ok(())
     }
@@ -576,7 +666,7 @@ fn emit_class_or_object_key(em: &mut Emitter, key: &ClassOrObjKey) -> EmitResult
   match key {
     ClassOrObjKey::Direct(name) => {
       match name.stx.tt {
-        TT::LiteralString => emit_string_literal(em, &name.stx.key),
+        TT::LiteralString => em.write_string_literal_value(&name.stx.key, &name.assoc),
         TT::LiteralBigInt => em.write_bigint_literal(&name.stx.key),
         TT::LiteralNumber | TT::LiteralNumberBin | TT::LiteralNumberHex | TT::LiteralNumberOct => {
           em.write_number(&name.stx.key)
@@ -636,7 +726,7 @@ fn emit_param_decl(em: &mut Emitter, param: &Node<ParamDecl>) -> EmitResult {
   }
   if let Some(default) = &param.default_value {
     em.write_punct("=");
-    emit_expr(em, default, ExprCtx::Default)?;
+    emit_assignment_expr(em, default, ExprCtx::Default)?;
   }
   Ok(())
 }
@@ -658,7 +748,7 @@ fn emit_pat(em: &mut Emitter, pat: &Node<Pat>) -> EmitResult {
     Pat::Arr(arr) => emit_array_pattern(em, arr),
     Pat::Id(id) => emit_id_pat(em, id),
     Pat::Obj(obj) => emit_object_pattern(em, obj),
-    Pat::AssignTarget(expr) => emit_expr(em, expr, ExprCtx::Default),
+    Pat::AssignTarget(expr) => emit_assignment_expr(em, expr, ExprCtx::Default),
   }
 }
 
@@ -677,7 +767,7 @@ fn emit_array_pattern(em: &mut Emitter, arr: &Node<ArrPat>) -> EmitResult {
       emit_pat(em, &elem.target)?;
       if let Some(default) = &elem.default_value {
         em.write_punct("=");
-        emit_expr(em, default, ExprCtx::Default)?;
+        emit_assignment_expr(em, default, ExprCtx::Default)?;
       }
     }
   }
@@ -687,6 +777,8 @@ fn emit_array_pattern(em: &mut Emitter, arr: &Node<ArrPat>) -> EmitResult {
     }
     em.write_punct("...");
     emit_pat(em, rest)?;
+  } else if matches!(arr.stx.elements.last(), Some(None)) {
+    em.write_punct(",");
   }
   em.write_punct("]");
   Ok(())
@@ -719,7 +811,7 @@ fn emit_obj_pat_prop(em: &mut Emitter, prop: &Node<ObjPatProp>) -> EmitResult {
   }
   if let Some(default) = &prop.stx.default_value {
     em.write_punct("=");
-    emit_expr(em, default, ExprCtx::Default)?;
+    emit_assignment_expr(em, default, ExprCtx::Default)?;
   }
   Ok(())
 }
@@ -882,10 +974,10 @@ fn emit_class_expression(em: &mut Emitter, class: &Node<ClassExpr>) -> EmitResul
 fn emit_import_expr(em: &mut Emitter, import: &Node<ImportExpr>, ctx: ExprCtx) -> EmitResult {
   em.write_keyword("import");
   em.write_punct("(");
-  emit_expr(em, &import.stx.module, ctx)?;
+  emit_assignment_expr(em, &import.stx.module, ctx)?;
   if let Some(attrs) = &import.stx.attributes {
     em.write_punct(",");
-    emit_expr(em, attrs, ctx)?;
+    emit_assignment_expr(em, attrs, ctx)?;
   }
   em.write_punct(")");
   Ok(())
@@ -896,19 +988,53 @@ fn emit_tagged_template(
   tagged: &Node<TaggedTemplateExpr>,
   ctx: ExprCtx,
 ) -> EmitResult {
-  emit_expr_with_min_prec(em, &tagged.stx.function, CALL_MEMBER_PRECEDENCE, ctx)?;
-  emit_template_parts(em, &tagged.stx.parts)
+  emit_chain_base(em, &tagged.stx.function, true, ctx)?;
+  // The tag function can see the raw text.
+  emit_template_parts(
+    em,
+    &tagged.stx.parts,
+    template_string_parts(&tagged.assoc),
+    true,
+  )
 }
 
 fn emit_template_literal(em: &mut Emitter, template: &Node<LitTemplateExpr>) -> EmitResult {
-  emit_template_parts(em, &template.stx.parts)
+  emit_template_parts(
+    em,
+    &template.stx.parts,
+    template_string_parts(&template.assoc),
+    false,
+  )
 }
 
-fn emit_template_parts(em: &mut Emitter, parts: &[LitTemplatePart]) -> EmitResult {
+/// `keep_raw` preserves the spelling of the template's strings.
+fn emit_template_parts(
+  em: &mut Emitter,
+  parts: &[LitTemplatePart],
+  strings: Option<&TemplateStringParts>,
+  keep_raw: bool,
+) -> EmitResult {
+  let mut strings = strings.map(|strings| strings.raw.iter().zip(strings.cooked.iter()));
   em.write_raw_byte(b'`');
   for (idx, part) in parts.iter().enumerate() {
     match part {
       LitTemplatePart::String(raw) => {
+        if let Some((raw, cooked)) = strings.as_mut().and_then(|strings| strings.next()) {
+          // Unpaired surrogates can only be spelled as escape sequences.
+          let cooked = cooked
+            .as_ref()
+            .and_then(|units| String::from_utf16(units).ok())
+            .filter(|_| !keep_raw);
+          match cooked {
+            Some(cooked) => {
+              let mut buf = Vec::new();
+              emit_template_literal_segment(&mut buf, &cooked);
+              em.write_raw_str(std::str::from_utf8(&buf).expect("template segment is UTF-8"));
+            }
+            None => em.write_raw_str(&String::from_utf16_lossy(raw)),
+          }
+          continue;
+        }
         let is_first = idx == 0;
         let is_last = idx + 1 == parts.len();
         let cooked = cooked_template_segment(raw, is_first, is_last);
@@ -935,10 +1061,6 @@ fn emit_expr_via_fmt(em: &mut Emitter, expr: &Node<Expr>) -> EmitResult {
   Ok(())
 }
 
-fn emit_string_literal(em: &mut Emitter, value: &str) {
-  em.write_string_literal(value);
-}
-
 fn binary_operator_text(op: OperatorName) -> Result<&'static str, EmitError> {
   match op {
     OperatorName::Addition => Ok("+"),
@@ -1037,6 +1159,51 @@ fn expr_starts_with_brace(expr: &Node<Expr>) -> bool {
   }
 }
 
+fn is_type_assertion(expr: &Node<Expr>) -> bool {
+  matches!(
+    expr.stx.as_ref(),
+    Expr::TypeAssertion(_) | Expr::SatisfiesExpr(_)
+  )
+}
+
+fn starts_with_type_assertion(expr: &Node<Expr>) -> bool {
+  match expr.stx.as_ref() {
+    Expr::Binary(binary) => starts_with_type_assertion(&binary.stx.left),
+    _ => is_type_assertion(expr),
+  }
+}
+
+/// Whether an `in` operator of `expr` would be taken for the one of a `for`-`in` statement.
+pub(crate) fn has_bare_in(expr: &Node<Expr>) -> bool {
+  match expr.stx.as_ref() {
+    Expr::Binary(binary) => {
+      binary.stx.operator == OperatorName::In
+        || has_bare_in(&binary.stx.left)
+        || has_bare_in(&binary.stx.right)
+    }
+    Expr::Unary(unary) => has_bare_in(&unary.stx.argument),
+    Expr::UnaryPostfix(unary) => has_bare_in(&unary.stx.argument),
+    Expr::Cond(cond) => {
+      has_bare_in(&cond.stx.test)
+        || has_bare_in(&cond.stx.consequent)
+        || has_bare_in(&cond.stx.alternate)
+    }
+    Expr::ArrowFunc(arrow) => match &arrow.stx.func.stx.body {
+      Some(FuncBody::Expression(body)) => has_bare_in(body),
+      _ => false,
+    },
+    Expr::Call(call) => has_bare_in(&call.stx.callee),
+    Expr::Member(member) => has_bare_in(&member.stx.left),
+    Expr::ComputedMember(member) => has_bare_in(&member.stx.object),
+    Expr::TaggedTemplate(tagged) => has_bare_in(&tagged.stx.function),
+    Expr::Instantiation(inst) => has_bare_in(&inst.stx.expression),
+    Expr::NonNullAssertion(non_null) => has_bare_in(&non_null.stx.expression),
+    Expr::TypeAssertion(assertion) => has_bare_in(&assertion.stx.expression),
+    Expr::SatisfiesExpr(satisfies) => has_bare_in(&satisfies.stx.expression),
+    _ => false,
+  }
+}
+
 fn is_nullish(expr: &Node<Expr>) -> bool {
   matches!(
     expr.stx.as_ref(),
diff --git a/emit-js/src/hir.rs b/emit-js/src/hir.rs
index 9405b53..d094006 100644
--- a/emit-js/src/hir.rs
+++ b/emit-js/src/hir.rs
@@ -535,7 +535,12 @@ fn emit_function_decl(em: &mut Emitter, ctx: &HirContext<'_>, def: &DefData) ->
     .function
     .as_ref()
     .ok_or_else(|| EmitError::unsupported("function metadata missing"))?;
-  emit_function_like(em, ctx, Some(ctx.name(def.name)), func, body)
+  emit_function_like(em, ctx, decl_name(ctx, def), func, body)
+}
+
+/// The name of a declaration, unless it is an `export default` without one.
+fn decl_name<'b>(ctx: &'b HirContext<'_>, def: &DefData) -> Option<&'b str> {
+  Some(ctx.name(def.name)).filter(|name| !def.is_default_export || *name != "<anonymous>")
 }
 
 fn emit_class_decl(em: &mut Emitter, ctx: &HirContext<'_>, def: &DefData) -> EmitResult {
@@ -545,7 +550,7 @@ fn emit_class_decl(em: &mut Emitter, ctx: &HirContext<'_>, def: &DefData) -> Emi
   let body = ctx
     .body(body_id)
     .ok_or_else(|| EmitError::unsupported("class body not found"))?;
-  emit_class_like(em, ctx, body, Some(ctx.name(def.name)), false)
+  emit_class_like(em, ctx, body, decl_name(ctx, def), def.is_default_export)
 }
 
 fn emit_class_like(
@@ -1959,6 +1964,13 @@ fn emit_number_key(em: &mut Emitter, num: &str) {
       em.write_number(magnitude);
       em.write_punct("]");
     }
+    // The digits of a BigInt property name, which a number would round.
+    None
+      if num.bytes().all(|b| b.is_ascii_digit())
+        && num.parse::<f64>().map_or(true, |value| value.to_string() != num) =>
+    {
+      emit_string(em, num)
+    }
     None => em.write_number(num),
   }
 }
@@ -2024,7 +2036,7 @@ fn emit_literal(em: &mut Emitter, lit: &Literal) -> EmitResult {
     Literal::Regex(regex) => {
       let mut buf = Vec::new();
       emit_regex_literal(&mut buf, regex);
-      em.write_str(std::str::from_utf8(&buf).expect("regex literal is UTF-8"));
+      em.write_regex_literal(std::str::from_utf8(&buf).expect("regex literal is UTF-8"));
     }
   }
   Ok(())
@@ -2429,6 +2441,11 @@ fn expr_stmt_tokens(ctx: &HirContext<'_>, body: &Body, expr_id: ExprId) -> StmtS
         Some(arg_prefix.first),
       )
     }
+    ExprKind::Update {
+      expr,
+      prefix: false,
+      ..
+    } => prefix_with_fallback(ctx, body, *expr, StmtStartToken::Other),
     ExprKind::Unary { expr, .. }
     | ExprKind::Update { expr, .. }
     | ExprKind::Yield {
@@ -2782,6 +2799,10 @@ fn for_init_expr_needs_parens(ctx: &HirContext<'_>, body: &Body, expr_id: ExprId
 }
 
 fn for_inof_assign_needs_parens(ctx: &HirContext<'_>, body: &Body, pat_id: PatId) -> bool {
+  // No declaration starts like this.
+  if matches!(&ctx.pat(body, pat_id).kind, PatKind::Ident(name) if ctx.name(*name) == "using") {
+    return false;
+  }
   contextual_keyword_start_from_pat(ctx, body, pat_id).map_or(false, |start| match start.kind {
     ContextualKeyword::AwaitUsing => true,
     ContextualKeyword::Let | ContextualKeyword::Using => matches!(
diff --git a/emit-js/src/stmt.rs b/emit-js/src/stmt.rs
index e8f21b6..2853eee 100644
--- a/emit-js/src/stmt.rs
+++ b/emit-js/src/stmt.rs
@@ -1,4 +1,7 @@
-use crate::expr_js::{emit_expr, ExprCtx};
+use crate::asi;
+use crate::expr_js::{
+  emit_assignment_expr, emit_expr, emit_left_hand_side_expr, has_bare_in, ExprCtx,
+};
 use crate::module_names::{
   emit_module_binding_identifier_or_string_literal, is_module_binding_identifier_token,
 };
@@ -107,7 +110,7 @@ fn expr_needs_paren_in_stmt(expr: &Node<Expr>) -> bool {
   matches!(
     expr.stx.as_ref(),
     Expr::LitObj(_) | Expr::Func(_) | Expr::Class(_) | Expr::ArrowFunc(_)
-  )
+  ) || crate::stmt_start::expr_stmt_needs_parens(expr)
 }
 
 fn emit_stmt_as_body(em: &mut Emitter, stmt: &Node<Stmt>) -> EmitResult {
@@ -141,7 +144,7 @@ fn emit_for_triple(em: &mut Emitter, for_stmt: &Node<ForTripleStmt>) -> EmitResu
   match &for_stmt.init {
     ForTripleStmtInit::None => {}
     ForTripleStmtInit::Expr(expr) => {
-      if crate::stmt_start::for_init_expr_needs_parens(expr) {
+      if crate::stmt_start::for_init_expr_needs_parens(expr) || has_bare_in(expr) {
         em.write_punct("(");
         emit_expr(em, expr, ExprCtx::Default)?;
         em.write_punct(")");
@@ -149,7 +152,16 @@ fn emit_for_triple(em: &mut Emitter, for_stmt: &Node<ForTripleStmt>) -> EmitResu
         emit_expr(em, expr, ExprCtx::Default)?;
       }
     }
-    ForTripleStmtInit::Decl(decl) => emit_var_decl(em, decl.stx.as_ref(), false)?,
+    ForTripleStmtInit::Decl(decl) => {
+      let decl = decl.stx.as_ref();
+      emit_var_decl_mode(em, decl.mode);
+      for (idx, var) in decl.declarators.iter().enumerate() {
+        if idx > 0 {
+          em.write_punct(",");
+        }
+        emit_var_declarator(em, var, true)?;
+      }
+    }
   }
   em.write_punct(";");
   if let Some(cond) = &for_stmt.cond {
@@ -183,7 +195,7 @@ fn emit_for_of(em: &mut Emitter, for_stmt: &Node<ForOfStmt>) -> EmitResult {
   em.write_punct("(");
   emit_for_in_of_lhs(em, &for_stmt.lhs)?;
   em.write_keyword("of");
-  emit_expr(em, &for_stmt.rhs, ExprCtx::Default)?;
+  emit_assignment_expr(em, &for_stmt.rhs, ExprCtx::Default)?;
   em.write_punct(")");
   emit_for_body(em, &for_stmt.body)
 }
@@ -207,16 +219,29 @@ fn emit_for_in_of_lhs(em: &mut Emitter, lhs: &ForInOfLhs) -> EmitResult {
   }
 }
 
+/// Whether a statement can only be part of a statement list.
+fn is_declaration(stmt: &Node<Stmt>) -> bool {
+  match stmt.stx.as_ref() {
+    Stmt::VarDecl(decl) => decl.stx.mode != VarDeclMode::Var,
+    Stmt::FunctionDecl(_) | Stmt::ClassDecl(_) => true,
+    _ => false,
+  }
+}
+
 fn emit_for_body(em: &mut Emitter, body: &Node<ForBody>) -> EmitResult {
-  let stmts = &body.stx.body;
-  if stmts.len() == 1 {
-    emit_stmt_as_body(em, &stmts[0])
-  } else {
-    em.write_punct("{");
-    emit_stmt_list(em, stmts)?;
-    em.write_punct("}");
-    Ok(())
+  let mut stmts = &body.stx.body;
+  while let Some(stmt) = asi::single_stmt(stmts) {
+    match stmt.stx.as_ref() {
+      // The braces of the body are enough.
+      Stmt::Block(block) => stmts = &block.stx.body,
+      _ if is_declaration(stmt) => break,
+      _ => return emit_stmt_as_body(em, stmt),
+    }
   }
+  em.write_punct("{");
+  emit_stmt_list(em, stmts)?;
+  em.write_punct("}");
+  Ok(())
 }
 
 fn emit_while(em: &mut Emitter, while_stmt: &Node<WhileStmt>) -> EmitResult {
@@ -359,7 +384,7 @@ fn emit_var_decl(em: &mut Emitter, decl: &VarDecl, trailing_semicolon: bool) ->
     if idx > 0 {
       em.write_punct(",");
     }
-    emit_var_declarator(em, var)?;
+    emit_var_declarator(em, var, false)?;
   }
   if trailing_semicolon {
     em.write_punct(";");
@@ -380,7 +405,7 @@ fn emit_var_decl_mode(em: &mut Emitter, mode: VarDeclMode) {
   }
 }
 
-fn emit_var_declarator(em: &mut Emitter, decl: &VarDeclarator) -> EmitResult {
+fn emit_var_declarator(em: &mut Emitter, decl: &VarDeclarator, for_init: bool) -> EmitResult {
   emit_pat_decl(em, &decl.pattern)?;
   if decl.definite_assignment {
     em.write_punct("!");
@@ -390,7 +415,13 @@ fn emit_var_declarator(em: &mut Emitter, decl: &VarDeclarator) -> EmitResult {
   }
   if let Some(init) = &decl.initializer {
     em.write_punct("=");
-    emit_expr(em, init, ExprCtx::Default)?;
+    if for_init && has_bare_in(init) {
+      em.write_punct("(");
+      emit_expr(em, init, ExprCtx::Default)?;
+      em.write_punct(")");
+    } else {
+      emit_assignment_expr(em, init, ExprCtx::Default)?;
+    }
   }
   Ok(())
 }
@@ -486,7 +517,7 @@ pub(crate) fn emit_class_like<T>(
   emit_type_params(em, type_parameters);
   if let Some(extends) = extends {
     em.write_keyword("extends");
-    emit_expr(em, extends, ExprCtx::Default)?;
+    emit_left_hand_side_expr(em, extends, ExprCtx::Default)?;
   }
   if !implements.is_empty() {
     em.write_keyword("implements");
@@ -615,7 +646,7 @@ fn emit_class_member(em: &mut Emitter, member: &Node<ClassMember>) -> EmitResult
       }
       if let Some(init) = init {
         em.write_punct("=");
-        emit_expr(em, init, ExprCtx::Default)?;
+        emit_assignment_expr(em, init, ExprCtx::Default)?;
       }
       em.write_punct(";");
       Ok(())
@@ -700,7 +731,7 @@ fn emit_import_stmt(em: &mut Emitter, import: &ImportStmt) -> EmitResult {
   emit_string_literal(em, &import.module);
   if let Some(attrs) = &import.attributes {
     em.write_keyword("with");
-    emit_expr(em, attrs, ExprCtx::Default)?;
+    emit_assignment_expr(em, attrs, ExprCtx::Default)?;
   }
   em.write_punct(";");
   Ok(())
@@ -798,7 +829,7 @@ fn emit_export_list_stmt(em: &mut Emitter, export: &ExportListStmt) -> EmitResul
   }
   if let Some(attrs) = &export.attributes {
     em.write_keyword("with");
-    emit_expr(em, attrs, ExprCtx::Default)?;
+    emit_assignment_expr(em, attrs, ExprCtx::Default)?;
   }
   em.write_punct(";");
   Ok(())
@@ -835,10 +866,10 @@ fn emit_export_default_expr(em: &mut Emitter, stmt: &Node<ExportDefaultExprStmt>
   em.write_keyword("default");
   if expr_needs_paren_in_stmt(&stmt.stx.expression) {
     em.write_punct("(");
-    emit_expr(em, &stmt.stx.expression, ExprCtx::ExportDefault)?;
+    emit_assignment_expr(em, &stmt.stx.expression, ExprCtx::ExportDefault)?;
     em.write_punct(")");
   } else {
-    emit_expr(em, &stmt.stx.expression, ExprCtx::ExportDefault)?;
+    emit_assignment_expr(em, &stmt.stx.expression, ExprCtx::ExportDefault)?;
   }
   em.write_punct(";");
   Ok(())
@@ -872,7 +903,7 @@ fn emit_pat(em: &mut Emitter, pat: &Node<Pat>) -> EmitResult {
     Pat::Arr(arr) => emit_array_pattern(em, arr),
     Pat::Id(id) => emit_id_pat(em, id),
     Pat::Obj(obj) => emit_object_pattern(em, obj),
-    Pat::AssignTarget(expr) => emit_expr(em, expr, ExprCtx::Default),
+    Pat::AssignTarget(expr) => emit_assignment_expr(em, expr, ExprCtx::Default),
   }
 }
 
@@ -891,7 +922,7 @@ fn emit_array_pattern(em: &mut Emitter, arr: &Node<ArrPat>) -> EmitResult {
       emit_pat(em, &elem.target)?;
       if let Some(default) = &elem.default_value {
         em.write_punct("=");
-        emit_expr(em, default, ExprCtx::Default)?;
+        emit_assignment_expr(em, default, ExprCtx::Default)?;
       }
     }
   }
@@ -901,6 +932,8 @@ fn emit_array_pattern(em: &mut Emitter, arr: &Node<ArrPat>) -> EmitResult {
     }
     em.write_punct("...");
     emit_pat(em, rest)?;
+  } else if matches!(arr.stx.elements.last(), Some(None)) {
+    em.write_punct(",");
   }
   em.write_punct("]");
   Ok(())
@@ -933,7 +966,7 @@ fn emit_obj_pat_prop(em: &mut Emitter, prop: &Node<ObjPatProp>) -> EmitResult {
   }
   if let Some(default) = &prop.stx.default_value {
     em.write_punct("=");
-    emit_expr(em, default, ExprCtx::Default)?;
+    emit_assignment_expr(em, default, ExprCtx::Default)?;
   }
   Ok(())
 }
@@ -942,7 +975,8 @@ fn emit_class_or_object_key(em: &mut Emitter, key: &ClassOrObjKey) -> EmitResult
   match key {
     ClassOrObjKey::Direct(name) => {
       match name.stx.tt {
-        TT::LiteralString => emit_string_literal(em, &name.stx.key),
+        TT::LiteralString => em.write_string_literal_value(&name.stx.key, &name.assoc),
+        TT::LiteralBigInt => em.write_bigint_literal(&name.stx.key),
         TT::LiteralNumber | TT::LiteralNumberBin | TT::LiteralNumberHex | TT::LiteralNumberOct => {
           em.write_number(&name.stx.key)
         }
@@ -981,7 +1015,7 @@ fn emit_param_decl(em: &mut Emitter, param: &Node<ParamDecl>) -> EmitResult {
   }
   if let Some(default) = &param.default_value {
     em.write_punct("=");
-    emit_expr(em, default, ExprCtx::Default)?;
+    emit_assignment_expr(em, default, ExprCtx::Default)?;
   }
   Ok(())
 }
diff --git a/emit-js/src/stmt_start.rs b/emit-js/src/stmt_start.rs
index 2c3255f..8731746 100644
--- a/emit-js/src/stmt_start.rs
+++ b/emit-js/src/stmt_start.rs
@@ -379,6 +379,10 @@ pub(crate) fn for_init_expr_needs_parens(expr: &Node<Expr>) -> bool {
 }
 
 pub(crate) fn for_inof_assign_needs_parens(pat: &Node<Pat>) -> bool {
+  // No declaration starts like this.
+  if matches!(pat.stx.as_ref(), Pat::Id(id) if id.stx.name == "using") {
+    return false;
+  }
   contextual_keyword_start_from_pat(pat.stx.as_ref()).map_or(false, |start| match start.kind {
     ContextualKeyword::AwaitUsing => true,
     ContextualKeyword::Let | ContextualKeyword::Using => matches!(
diff --git a/emit-js/src/ts_stmt.rs b/emit-js/src/ts_stmt.rs
index 7095e62..e5cf2b1 100644
--- a/emit-js/src/ts_stmt.rs
+++ b/emit-js/src/ts_stmt.rs
@@ -76,7 +76,11 @@ fn emit_enum_decl(em: &mut Emitter, decl: &EnumDecl) -> EmitResult {
 }
 
 fn emit_enum_member(em: &mut Emitter, member: &EnumMember) -> EmitResult {
-  em.write_identifier(&member.name);
+  if crate::module_names::is_identifier_name_token(&member.name) {
+    em.write_identifier(&member.name);
+  } else {
+    em.write_string_literal(&member.name);
+  }
   if let Some(initializer) = &member.initializer {
     em.write_punct("=");
     space_if_canonical(em);
diff --git a/emit-js/src/ts_type.rs b/emit-js/src/ts_type.rs
index 560c2fd..29fdae1 100644
--- a/emit-js/src/ts_type.rs
+++ b/emit-js/src/ts_type.rs
@@ -598,6 +598,10 @@ impl<'a> TypeEmitter<'a> {
       if params.is_empty() {
         return Ok(());
       }
+      // `f<<T>() => void>`: keep the two apart.
+      if self.em.as_bytes().last() == Some(&b'<') {
+        self.em.write_space();
+      }
       self.em.write_punct("<");
       for (i, param) in params.iter().enumerate() {
         if i > 0 {
-- 
2.43.0


From 2009db72e4a1efa81d97d8835e6d7df962b84c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:48 +0000
Subject: [PATCH 12/32] fix: hir-js, vm-js: new with a parenthesised call as
 its constructor

---
 hir-js/src/lower.rs | 28 +++++++++++++++++-----------
 vm-js/src/exec.rs   |  6 ++++--
 2 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/hir-js/src/lower.rs b/hir-js/src/lower.rs
index 11a344e..12685bc 100644
--- a/hir-js/src/lower.rs
+++ b/hir-js/src/lower.rs
@@ -1997,17 +1997,23 @@ fn lower_expr(
         prefix: true,
       },
       OperatorName::New => {
-        if let AstExpr::Call(call) = unary.stx.argument.stx.as_ref() {
-          lower_call_expr(call, builder, ctx, true)
-        } else {
-          let callee = lower_expr(&unary.stx.argument, builder, ctx);
-          ExprKind::Call(CallExpr {
-            callee,
-            args: Vec::new(),
-            optional: false,
-            chain_ended: ends_optional_chain(&unary.stx.argument),
-            is_new: true,
-          })
+        use parse_js::ast::node::ParenthesizedExpr;
+        let argument = &unary.stx.argument;
+        match argument.stx.as_ref() {
+          // The call of `new (f())` is the constructor, not its arguments.
+          AstExpr::Call(call) if argument.assoc.get::<ParenthesizedExpr>().is_none() => {
+            lower_call_expr(call, builder, ctx, true)
+          }
+          _ => {
+            let callee = lower_expr(argument, builder, ctx);
+            ExprKind::Call(CallExpr {
+              callee,
+              args: Vec::new(),
+              optional: false,
+              chain_ended: ends_optional_chain(argument),
+              is_new: true,
+            })
+          }
         }
       }
       op => {
diff --git a/vm-js/src/exec.rs b/vm-js/src/exec.rs
index c4135d0..83ebafc 100644
--- a/vm-js/src/exec.rs
+++ b/vm-js/src/exec.rs
@@ -3983,9 +3983,11 @@ impl<'a> Evaluator<'a> {
         Ok(Value::Undefined)
       }
       OperatorName::New => {
-        // `parse-js` represents `new f()` as a `UnaryExpr` whose argument is a `CallExpr`.
+        // `parse-js` represents `new f()` as a `UnaryExpr` whose argument is a `CallExpr`. The
+        // argument of `new (f())` is in parentheses.
+        let parenthesized = expr.argument.assoc.get::<ParenthesizedExpr>().is_some();
         let (callee_expr, call_args) = match &*expr.argument.stx {
-          Expr::Call(call) => (&call.stx.callee, Some(&call.stx.arguments)),
+          Expr::Call(call) if !parenthesized => (&call.stx.callee, Some(&call.stx.arguments)),
           _ => (&expr.argument, None),
         };
 
-- 
2.43.0


From 415474835ca782ab72db836b99958ee3baadb903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:52 +0000
Subject: [PATCH 13/32] fix: parse-js: a! = b no longer loops forever; nested
 parentheses and templates in function-type lookahead

---
 parse-js/src/parse/expr/mod.rs  | 29 ++++++++++-------------------
 parse-js/src/parse/type_expr.rs | 20 ++++++++++++++++++--
 2 files changed, 28 insertions(+), 21 deletions(-)

diff --git a/parse-js/src/parse/expr/mod.rs b/parse-js/src/parse/expr/mod.rs
index 45e0276..785e290 100644
--- a/parse-js/src/parse/expr/mod.rs
+++ b/parse-js/src/parse/expr/mod.rs
@@ -1394,26 +1394,17 @@ impl<'a> Parser<'a> {
           continue;
         }
         // TypeScript: Non-null assertion: expr!
-        // We need to distinguish between non-null assertion (expr!) and
-        // inequality operators (!= and !==).
+        // `!=` and `!==` are tokens of their own, so `a! = b` assigns to `a!`.
         TT::Exclamation if self.is_typescript() && !t.preceded_by_line_terminator => {
-          let next = self.peek();
-          if next.typ != TT::Equals && next.typ != TT::EqualsEquals {
-            // This is a non-null assertion: expr!
-            use crate::ast::expr::NonNullAssertionExpr;
-            left = Node::new(
-              self.span_since(start_loc),
-              NonNullAssertionExpr {
-                expression: Box::new(left),
-              },
-            )
-            .into_wrapped();
-            continue;
-          }
-          // Otherwise it's != or !==, so restore checkpoint and continue loop to re-process
-          // We restore so the binary operator handling code below can process != or !==
-          self.restore_checkpoint(cp);
-          continue; // Restart loop to re-process the ! token as part of != or !==
+          use crate::ast::expr::NonNullAssertionExpr;
+          left = Node::new(
+            self.span_since(start_loc),
+            NonNullAssertionExpr {
+              expression: Box::new(left),
+            },
+          )
+          .into_wrapped();
+          continue;
         }
         // Tagged templates allow line terminators between the tag expression and
         // the template literal (`tag\n\`x\``). ASI must not split in that case.
diff --git a/parse-js/src/parse/type_expr.rs b/parse-js/src/parse/type_expr.rs
index 4545dd7..2782d5e 100644
--- a/parse-js/src/parse/type_expr.rs
+++ b/parse-js/src/parse/type_expr.rs
@@ -7,6 +7,7 @@ use crate::error::SyntaxErrorType;
 use crate::error::SyntaxResult;
 use crate::lex::KEYWORDS_MAPPING;
 use crate::token::TT;
+use crate::lex::LexMode;
 use crate::token::UNRESERVED_KEYWORDS;
 
 impl<'a> Parser<'a> {
@@ -1374,14 +1375,30 @@ impl<'a> Parser<'a> {
 
     // Scan to find matching )
     let mut depth = 1;
+    let mut braces = 0usize;
+    // Brace depths at which a template substitution ends.
+    let mut substitutions = Vec::new();
     while depth > 0 && self.peek().typ != TT::EOF {
-      match self.peek().typ {
+      let typ = self.peek().typ;
+      match typ {
         TT::ParenthesisOpen => depth += 1,
         TT::ParenthesisClose => depth -= 1,
+        TT::BraceOpen => braces += 1,
+        TT::LiteralTemplatePartString => substitutions.push(braces),
         _ => {}
       }
       if depth > 0 {
         self.consume();
+        if typ == TT::BraceClose {
+          if substitutions.last() == Some(&braces) {
+            let part = self.consume_with_mode(LexMode::TemplateStrContinue);
+            if part.typ != TT::LiteralTemplatePartString {
+              substitutions.pop();
+            }
+          } else {
+            braces = braces.saturating_sub(1);
+          }
+        }
       }
     }
 
@@ -1687,7 +1704,6 @@ impl<'a> Parser<'a> {
       self.require(TT::BraceClose)?;
 
       // Get the next template part in template continuation mode
-      use crate::lex::LexMode;
       let t = self.consume_with_mode(LexMode::TemplateStrContinue);
 
       let (string_is_end, raw) = match t.typ {
-- 
2.43.0


From c5eda6e34d28c79af1f02b4a4978c6bcc7c223c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:29 +0000
Subject: [PATCH 14/32] fix: parse-js: strict dialect rejects legacy octal
 keys, octal escapes in templates, uv flags and escaped line terminators in
 regexes

---
 parse-js/src/parse/class_or_object.rs | 21 +++++++++++++++++++++
 parse-js/src/parse/expr/lit.rs        | 21 +++++++++++++++++++++
 2 files changed, 42 insertions(+)

diff --git a/parse-js/src/parse/class_or_object.rs b/parse-js/src/parse/class_or_object.rs
index d903163..65192ed 100644
--- a/parse-js/src/parse/class_or_object.rs
+++ b/parse-js/src/parse/class_or_object.rs
@@ -690,6 +690,27 @@ impl<'a> Parser<'a> {
         _ => return Err(t.error(SyntaxErrorType::ExpectedSyntax("keyword or identifier"))),
       };
 
+      if self.is_strict_ecmascript() && self.is_strict_mode() {
+        if let Some(escape_loc) = legacy_escape {
+          return Err(escape_loc.error(
+            SyntaxErrorType::ExpectedSyntax("octal escape sequences not allowed in strict mode"),
+            Some(TT::LiteralString),
+          ));
+        }
+        let raw = self.str(loc);
+        if tt == TT::LiteralNumber
+          && (crate::num::is_legacy_octal_literal(raw)
+            || crate::num::is_leading_zero_decimal_literal(raw))
+        {
+          return Err(loc.error(
+            SyntaxErrorType::ExpectedSyntax(
+              "numeric literals with leading zeros are not allowed in strict mode",
+            ),
+            Some(TT::LiteralNumber),
+          ));
+        }
+      }
+
       let mut direct = Node::new(loc, ClassOrObjMemberDirectKey { key, tt });
       if let Some(units) = literal_code_units {
         direct
diff --git a/parse-js/src/parse/expr/lit.rs b/parse-js/src/parse/expr/lit.rs
index 6397ec6..a180200 100644
--- a/parse-js/src/parse/expr/lit.rs
+++ b/parse-js/src/parse/expr/lit.rs
@@ -662,6 +662,14 @@ fn validate_regex_flags(raw: &str, start: usize) -> Result<(), RegexError> {
         len: ch.len_utf8(),
       });
     }
+    // `u` and `v` exclude each other.
+    if (bit | seen_flags) & (1 << 5 | 1 << 6) == (1 << 5 | 1 << 6) {
+      return Err(RegexError {
+        kind: RegexErrorKind::InvalidFlag,
+        offset: start + offset,
+        len: ch.len_utf8(),
+      });
+    }
     seen_flags |= bit;
   }
   Ok(())
@@ -683,6 +691,13 @@ fn validate_regex_literal(raw: &str) -> Result<(), RegexError> {
           len: 0,
         });
       };
+      if is_line_terminator(escaped) {
+        return Err(RegexError {
+          kind: RegexErrorKind::LineTerminator,
+          offset: after_backslash,
+          len: escaped.len_utf8(),
+        });
+      }
       offset = after_backslash + escaped.len_utf8();
       continue;
     }
@@ -1161,6 +1176,12 @@ impl<'a> Parser<'a> {
     let mut node = Node::new(loc, LitTemplateExpr { parts });
     node.assoc.set(template_parts);
     if let Some(invalid_escape) = invalid_escape {
+      if self.is_strict_ecmascript() {
+        return Err(invalid_escape.error(
+          SyntaxErrorType::ExpectedSyntax("octal escape sequences not allowed in template literals"),
+          Some(TT::LiteralTemplatePartString),
+        ));
+      }
       node
         .assoc
         .set(InvalidTemplateEscapeSequence(invalid_escape));
-- 
2.43.0


From 9a6d8be53dad02a0050f216a08002997b650bdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:17 +0000
Subject: [PATCH 15/32] fix: types-ts-interned: unions reduce true|false to
 boolean, -0 and 0 are the same literal type

---
 types-ts-interned/src/store.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/types-ts-interned/src/store.rs b/types-ts-interned/src/store.rs
index d5b23e5..83c18da 100644
--- a/types-ts-interned/src/store.rs
+++ b/types-ts-interned/src/store.rs
@@ -758,6 +758,8 @@ impl TypeStore {
         index: self.canon(index),
       },
       TypeKind::KeyOf(inner) => TypeKind::KeyOf(self.canon(inner)),
+      // `-0` and `0` are the same literal type.
+      TypeKind::NumberLiteral(value) if value.0 == 0.0 => TypeKind::NumberLiteral(0.0.into()),
       TypeKind::Callable { mut overloads } => {
         Self::stable_dedup_signatures(&mut overloads);
         overloads.sort_by(|a, b| self.signature_cmp(*a, *b));
@@ -802,6 +804,19 @@ impl TypeStore {
       }
     }
 
+    // `true | false` is `boolean`, whatever else the union contains.
+    if !has_boolean {
+      let has_literal = |value: bool| {
+        flat
+          .iter()
+          .any(|member| self.type_kind(*member) == TypeKind::BooleanLiteral(value))
+      };
+      if has_literal(true) && has_literal(false) {
+        flat.push(self.primitives.boolean);
+        has_boolean = true;
+      }
+    }
+
     flat.retain(|member| match self.type_kind(*member) {
       TypeKind::BooleanLiteral(_) => !has_boolean,
       TypeKind::NumberLiteral(_) => !has_number,
@@ -819,13 +834,6 @@ impl TypeStore {
     if flat.len() == 1 {
       return flat[0];
     }
-    if flat.len() == 2
-      && matches!(self.type_kind(flat[0]), TypeKind::BooleanLiteral(_))
-      && matches!(self.type_kind(flat[1]), TypeKind::BooleanLiteral(_))
-    {
-      return self.primitives.boolean;
-    }
-
     self.insert_type_direct(TypeKind::Union(flat))
   }
 
-- 
2.43.0


From f29e944aff4d0b03255cc96a648f5761c15e73fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:17 +0000
Subject: [PATCH 16/32] fix: types-ts-interned: non-finite number literal types
 survive JSON snapshots

---
 types-ts-interned/src/kind.rs | 45 ++++++++++++++++++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/types-ts-interned/src/kind.rs b/types-ts-interned/src/kind.rs
index edd7e0b..76a8fee 100644
--- a/types-ts-interned/src/kind.rs
+++ b/types-ts-interned/src/kind.rs
@@ -118,6 +118,47 @@ pub enum PredicateParam {
   Param(u32),
 }
 
+/// Number literals may be non-finite (`1e999`), which JSON numbers cannot
+/// represent: human-readable formats carry those as strings.
+#[cfg(feature = "serde")]
+mod number_literal_serde {
+  use ordered_float::OrderedFloat;
+  use serde::{Deserialize, Deserializer, Serialize, Serializer};
+
+  #[derive(Deserialize)]
+  #[serde(untagged)]
+  enum Repr {
+    Finite(f64),
+    NonFinite(String),
+  }
+
+  pub(super) fn serialize<S: Serializer>(
+    value: &OrderedFloat<f64>,
+    serializer: S,
+  ) -> Result<S::Ok, S::Error> {
+    if serializer.is_human_readable() && !value.0.is_finite() {
+      value.0.to_string().serialize(serializer)
+    } else {
+      value.0.serialize(serializer)
+    }
+  }
+
+  pub(super) fn deserialize<'de, D: Deserializer<'de>>(
+    deserializer: D,
+  ) -> Result<OrderedFloat<f64>, D::Error> {
+    if !deserializer.is_human_readable() {
+      return f64::deserialize(deserializer).map(OrderedFloat);
+    }
+    match Repr::deserialize(deserializer)? {
+      Repr::Finite(value) => Ok(OrderedFloat(value)),
+      Repr::NonFinite(text) => text
+        .parse()
+        .map(OrderedFloat)
+        .map_err(serde::de::Error::custom),
+    }
+  }
+}
+
 #[derive(Clone, Debug, PartialEq, Eq, Hash)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
 pub enum TypeKind {
@@ -134,7 +175,9 @@ pub enum TypeKind {
   Symbol,
   UniqueSymbol,
   BooleanLiteral(bool),
-  NumberLiteral(OrderedFloat<f64>),
+  NumberLiteral(
+    #[cfg_attr(feature = "serde", serde(with = "number_literal_serde"))] OrderedFloat<f64>,
+  ),
   StringLiteral(NameId),
   BigIntLiteral(BigInt),
   This,
-- 
2.43.0


From 097ad61f2dde3899a78d0f38b85b7d7f29dba4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:17 +0000
Subject: [PATCH 17/32] fix: types-ts-interned: relating recursive references
 no longer unrolls them until the depth limit accepts anything

---
 types-ts-interned/src/relate.rs | 56 ++++++++++++++++++++++++++++-----
 1 file changed, 48 insertions(+), 8 deletions(-)

diff --git a/types-ts-interned/src/relate.rs b/types-ts-interned/src/relate.rs
index 78e2a61..07844cb 100644
--- a/types-ts-interned/src/relate.rs
+++ b/types-ts-interned/src/relate.rs
@@ -2939,6 +2939,53 @@ impl<'a> RelateCtx<'a> {
     }
   }
 
+  /// Evaluate the type operators at the outermost level of `ty`.
+  ///
+  /// Structural types are left alone: their members are normalized when the
+  /// relation reaches them, and references are expanded on demand. Evaluating
+  /// them here would unroll recursive references one more level on every call,
+  /// so that normalization never reaches a fixpoint.
+  fn normalize_outermost(&self, ty: TypeId) -> TypeId {
+    match self.store.type_kind(ty) {
+      TypeKind::Ref { .. }
+      | TypeKind::Object(_)
+      | TypeKind::Array { .. }
+      | TypeKind::Tuple(_)
+      | TypeKind::Callable { .. } => ty,
+      TypeKind::Union(members) => {
+        let normalized: Vec<_> = members
+          .iter()
+          .map(|member| self.normalize_outermost(*member))
+          .collect();
+        if normalized == members {
+          ty
+        } else {
+          self.store.union(normalized)
+        }
+      }
+      TypeKind::Intersection(members) => {
+        let normalized: Vec<_> = members
+          .iter()
+          .map(|member| self.normalize_outermost(*member))
+          .collect();
+        if normalized == members {
+          ty
+        } else {
+          self.store.intersection(normalized)
+        }
+      }
+      _ => {
+        let adapter = RelateExpanderAdapter {
+          hook: self.hooks.expander,
+        };
+        TypeEvaluator::with_caches(self.store.clone(), &adapter, self.normalizer_caches.clone())
+          .with_step_limit(self.limits.step_limit)
+          .with_conditional_assignability(self)
+          .evaluate(ty)
+      }
+    }
+  }
+
   fn normalize_type(&self, ty: TypeId) -> TypeId {
     #[cfg(test)]
     {
@@ -2960,14 +3007,7 @@ impl<'a> RelateCtx<'a> {
     #[cfg(feature = "tracing")]
     let _enter = span.enter();
 
-    let adapter = RelateExpanderAdapter {
-      hook: self.hooks.expander,
-    };
-    let mut evaluator =
-      TypeEvaluator::with_caches(self.store.clone(), &adapter, self.normalizer_caches.clone())
-        .with_step_limit(self.limits.step_limit)
-        .with_conditional_assignability(self);
-    let result = evaluator.evaluate(ty);
+    let result = self.normalize_outermost(ty);
 
     #[cfg(feature = "tracing")]
     {
-- 
2.43.0


From cc4377c65f0d87e257e08ae988ff3703fc977153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:17 +0000
Subject: [PATCH 18/32] fix: types-ts-interned: cache only final relation
 outcomes so answers do not depend on query history

---
 types-ts-interned/src/relate.rs | 103 +++++++++++++++++++++++++++++---
 1 file changed, 95 insertions(+), 8 deletions(-)

diff --git a/types-ts-interned/src/relate.rs b/types-ts-interned/src/relate.rs
index 07844cb..a386b65 100644
--- a/types-ts-interned/src/relate.rs
+++ b/types-ts-interned/src/relate.rs
@@ -22,7 +22,7 @@ use crate::TypeOptions;
 use crate::TypeStore;
 use bitflags::bitflags;
 use std::cell::{Cell, RefCell};
-use std::collections::{HashSet, VecDeque};
+use std::collections::{HashMap, HashSet, VecDeque};
 use std::fmt;
 use std::sync::atomic::{AtomicU64, Ordering};
 use std::sync::Arc;
@@ -128,6 +128,14 @@ impl Default for RelationLimits {
   }
 }
 
+/// Relations that succeeded under the assumption that an enclosing relation
+/// succeeds, mapped to the stack position of the outermost such relation.
+#[derive(Default, Debug)]
+struct Provisional {
+  positions: HashMap<RelationKey, usize>,
+  order: Vec<RelationKey>,
+}
+
 #[derive(Default, Debug)]
 struct ReasonBudget {
   nodes: usize,
@@ -269,7 +277,14 @@ pub struct RelateCtx<'a> {
   hooks: RelateHooks<'a>,
   cache: RelationCache,
   normalizer_caches: EvaluatorCaches,
-  in_progress: RefCell<HashSet<RelationKey>>,
+  /// Relations being decided, with their position on the stack.
+  in_progress: RefCell<HashMap<RelationKey, usize>>,
+  /// Lowest stack position whose assumed outcome the current relation relied on.
+  assumed: Cell<usize>,
+  /// Successes that still rely on the assumed outcome of a relation in progress.
+  provisional: RefCell<Provisional>,
+  /// Whether a recursion limit cut the current query short.
+  limited: Cell<bool>,
   reason_budget: RefCell<ReasonBudget>,
   limits: RelationLimits,
   steps: Cell<usize>,
@@ -386,7 +401,10 @@ impl<'a> RelateCtx<'a> {
       hooks,
       cache,
       normalizer_caches,
-      in_progress: RefCell::new(HashSet::new()),
+      in_progress: RefCell::new(HashMap::new()),
+      assumed: Cell::new(usize::MAX),
+      provisional: RefCell::default(),
+      limited: Cell::new(false),
       reason_budget: RefCell::new(ReasonBudget::default()),
       limits: RelationLimits::default(),
       steps: Cell::new(0),
@@ -471,7 +489,13 @@ impl<'a> RelateCtx<'a> {
   }
 
   pub(crate) fn is_assignable_no_normalize(&self, src: TypeId, dst: TypeId) -> bool {
-    self
+    // The answer decides how a type evaluates, and evaluations are memoized:
+    // it must not rely on relations that are still in progress.
+    let in_progress = self.in_progress.take();
+    let assumed = self.assumed.replace(usize::MAX);
+    let provisional = self.provisional.take();
+    let limited = self.limited.get();
+    let result = self
       .relate_internal(
         src,
         dst,
@@ -480,7 +504,12 @@ impl<'a> RelateCtx<'a> {
         false,
         0,
       )
-      .result
+      .result;
+    self.in_progress.replace(in_progress);
+    self.assumed.set(assumed);
+    self.provisional.replace(provisional);
+    self.limited.set(limited);
+    result
   }
 
   pub fn explain_assignable(&self, src: TypeId, dst: TypeId) -> RelationResult {
@@ -610,6 +639,9 @@ impl<'a> RelateCtx<'a> {
     if depth == 0 && self.limits.step_limit != RelationLimits::DEFAULT_STEP_LIMIT {
       self.steps.set(0);
     }
+    if self.in_progress.borrow().is_empty() {
+      self.limited.set(false);
+    }
 
     let key = RelationKey {
       src,
@@ -618,6 +650,7 @@ impl<'a> RelateCtx<'a> {
       mode,
     };
     if depth >= self.limits.max_relation_depth {
+      self.limited.set(true);
       #[cfg(feature = "tracing")]
       {
         let span = tracing::Span::current();
@@ -651,7 +684,10 @@ impl<'a> RelateCtx<'a> {
         reason: self.cached_reason(record, key, hit, depth),
       };
     }
-    if self.in_progress.borrow().contains(&key) {
+    let assumed = self.in_progress.borrow().get(&key).copied();
+    let assumed = assumed.or_else(|| self.provisional.borrow().positions.get(&key).copied());
+    if let Some(position) = assumed {
+      self.assumed.set(self.assumed.get().min(position));
       // Structural relations in TypeScript assume success on cycles to break
       // infinite recursion. We mirror that here.
       let record = record && self.take_reason_slot();
@@ -664,6 +700,7 @@ impl<'a> RelateCtx<'a> {
     if self.limits.step_limit != RelationLimits::DEFAULT_STEP_LIMIT {
       let current_steps = self.steps.get();
       if current_steps >= self.limits.step_limit {
+        self.limited.set(true);
         #[cfg(feature = "tracing")]
         {
           let span = tracing::Span::current();
@@ -686,6 +723,7 @@ impl<'a> RelateCtx<'a> {
     }
 
     if self.in_progress.borrow().len() >= self.limits.max_in_progress {
+      self.limited.set(true);
       // Stop recursion before we overflow the stack. This mirrors TypeScript's
       // behavior of assuming structural compatibility when the relation engine
       // hits its internal recursion limits.
@@ -703,7 +741,10 @@ impl<'a> RelateCtx<'a> {
       };
     }
 
-    self.in_progress.borrow_mut().insert(key);
+    let position = self.in_progress.borrow().len();
+    self.in_progress.borrow_mut().insert(key, position);
+    let outer_assumed = self.assumed.replace(usize::MAX);
+    let first_provisional = self.provisional.borrow().order.len();
 
     let outcome = match kind {
       RelationKind::Assignable => self.assignable(src, dst, mode, record, depth),
@@ -772,11 +813,57 @@ impl<'a> RelateCtx<'a> {
       }
     };
 
-    self.cache.insert(key, outcome.result);
     self.in_progress.borrow_mut().remove(&key);
+    let assumed = self.assumed.get();
+    let final_result = assumed >= position;
+    self.assumed.set(if final_result {
+      outer_assumed
+    } else {
+      outer_assumed.min(assumed)
+    });
+    self.record_outcome(key, outcome.result, assumed, position, first_provisional);
     outcome
   }
 
+  /// Cache the outcome of a finished relation.
+  ///
+  /// A success that relied on the assumed outcome of an enclosing relation only
+  /// becomes final together with that relation, and a success caused by a
+  /// recursion limit holds only for the query that ran into it. Caching either
+  /// would make later answers depend on the questions asked before.
+  fn record_outcome(
+    &self,
+    key: RelationKey,
+    result: bool,
+    assumed: usize,
+    position: usize,
+    first_provisional: usize,
+  ) {
+    let independent = assumed >= position;
+    let mut provisional = self.provisional.borrow_mut();
+    if result && !independent && !self.limited.get() && key.kind == RelationKind::Assignable {
+      provisional.positions.insert(key, assumed);
+      provisional.order.push(key);
+      return;
+    }
+    let confirmed = result && independent && !self.limited.get();
+    for finished in provisional.order.split_off(first_provisional) {
+      provisional.positions.remove(&finished);
+      if confirmed {
+        self.cache.insert(finished, true);
+      }
+    }
+    drop(provisional);
+    let cacheable = if key.kind == RelationKind::Assignable && !result {
+      true
+    } else {
+      independent && !self.limited.get()
+    };
+    if cacheable {
+      self.cache.insert(key, result);
+    }
+  }
+
   fn cached_reason(
     &self,
     record: bool,
-- 
2.43.0


From e7dd52f11394fbc0dd9b157e3a5d4882a8389444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:17 +0000
Subject: [PATCH 19/32] fix: types-ts-interned: assignability of identical
 members, string mappings, any to never, {} and readonly properties as in
 TypeScript

---
 types-ts-interned/src/relate.rs | 77 ++++++++++++++++++++++++++-------
 1 file changed, 61 insertions(+), 16 deletions(-)

diff --git a/types-ts-interned/src/relate.rs b/types-ts-interned/src/relate.rs
index a386b65..e1769b2 100644
--- a/types-ts-interned/src/relate.rs
+++ b/types-ts-interned/src/relate.rs
@@ -957,6 +957,27 @@ impl<'a> RelateCtx<'a> {
       };
     }
 
+    let contains_identical = match (self.store.type_kind(src), self.store.type_kind(dst)) {
+      (TypeKind::Intersection(srcs), _) if srcs.contains(&dst) => true,
+      (TypeKind::Union(_), _) => false,
+      (_, TypeKind::Union(dsts)) => dsts.contains(&src),
+      _ => false,
+    };
+    if contains_identical {
+      let record = record && self.take_reason_slot();
+      return RelationResult {
+        result: true,
+        reason: self.join_reasons(
+          record,
+          key,
+          Vec::new(),
+          true,
+          Some("identical member".into()),
+          depth,
+        ),
+      };
+    }
+
     if let (
       TypeKind::Ref {
         def: src_def,
@@ -1368,6 +1389,34 @@ impl<'a> RelateCtx<'a> {
           };
         }
       }
+      if let TypeKind::Intersection(srcs) = &src_kind {
+        for member in srcs {
+          let related = self.relate_internal(
+            *member,
+            dst,
+            RelationKind::Assignable,
+            mode,
+            record,
+            depth + 1,
+          );
+          if related.result {
+            return RelationResult {
+              result: true,
+              reason: self.join_reasons(
+                record,
+                key,
+                vec![related.reason],
+                true,
+                Some("intersection source".into()),
+                depth,
+              ),
+            };
+          }
+          if record {
+            attempts.push(related.reason);
+          }
+        }
+      }
       return RelationResult {
         result: false,
         reason: self.join_reasons(
@@ -1920,8 +1969,7 @@ impl<'a> RelateCtx<'a> {
         Some(true)
       }
       (src, TypeKind::Intrinsic { kind, .. }) if is_string_mapping_intrinsic(*kind) => match src {
-        // Preserve the meaning of `any` and `never`, which are handled below.
-        TypeKind::Any | TypeKind::Never => None,
+        TypeKind::Any | TypeKind::Never => Some(true),
         TypeKind::String | TypeKind::StringLiteral(_) | TypeKind::TemplateLiteral(_) => Some(true),
         TypeKind::Intrinsic { kind: src_kind, .. } if is_string_mapping_intrinsic(*src_kind) => {
           Some(true)
@@ -1937,10 +1985,15 @@ impl<'a> RelateCtx<'a> {
         | TypeKind::KeyOf(_) => None,
         _ => Some(false),
       },
+      (TypeKind::Any, TypeKind::Never) => Some(false),
       (TypeKind::Any, _) | (_, TypeKind::Any) => Some(true),
       (TypeKind::Unknown, TypeKind::Unknown) => Some(true),
       (_, TypeKind::Unknown) => Some(true),
       (TypeKind::Unknown, _) => Some(false),
+      (
+        TypeKind::EmptyObject,
+        TypeKind::Union(_) | TypeKind::Intersection(_) | TypeKind::Ref { .. },
+      ) => None,
       (TypeKind::EmptyObject, _) => Some(matches!(
         dst,
         TypeKind::Any | TypeKind::Unknown | TypeKind::EmptyObject
@@ -1961,6 +2014,12 @@ impl<'a> RelateCtx<'a> {
         | TypeKind::KeyOf(_),
       ) => None,
       (TypeKind::Void, _) => Some(false),
+      (TypeKind::Union(_), TypeKind::EmptyObject) => None,
+      (TypeKind::Ref { def, args }, TypeKind::EmptyObject)
+        if self.expand_ref(*def, args).is_some() =>
+      {
+        None
+      }
       (_, TypeKind::EmptyObject) => {
         if !opts.strict_null_checks {
           Some(true)
@@ -3153,20 +3212,6 @@ impl<'a> RelateCtx<'a> {
               ),
             };
           }
-          if !dst_prop.data.readonly && src_prop.data.readonly {
-            return RelationResult {
-              result: false,
-              reason: self.join_reasons(
-                record,
-                key,
-                children,
-                false,
-                Some("readonly property".into()),
-                depth,
-              ),
-            };
-          }
-
           if !dst_prop.data.optional && src_prop.data.optional {
             return RelationResult {
               result: false,
-- 
2.43.0


From 4935f87ab3ccf8dedc75a9cffadb7cea193cc452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:58 +0000
Subject: [PATCH 20/32] fix: types-ts-interned: tuple arity, function parameter
 counts, method bivariance, intersections of references, void to undefined as
 in TypeScript

---
 types-ts-interned/src/relate.rs | 573 +++++++++-----------------------
 1 file changed, 166 insertions(+), 407 deletions(-)

diff --git a/types-ts-interned/src/relate.rs b/types-ts-interned/src/relate.rs
index e1769b2..1f8d289 100644
--- a/types-ts-interned/src/relate.rs
+++ b/types-ts-interned/src/relate.rs
@@ -1390,6 +1390,11 @@ impl<'a> RelateCtx<'a> {
         }
       }
       if let TypeKind::Intersection(srcs) = &src_kind {
+        // Merged object types were related to each member of the union above.
+        let srcs = match self.merge_intersection(srcs) {
+          Some(_) => &[],
+          None => srcs.as_slice(),
+        };
         for member in srcs {
           let related = self.relate_internal(
             *member,
@@ -2001,7 +2006,7 @@ impl<'a> RelateCtx<'a> {
       (TypeKind::Never, _) => Some(true),
       (_, TypeKind::Never) => Some(matches!(src, TypeKind::Never)),
       (TypeKind::Void, TypeKind::Void) => Some(true),
-      (TypeKind::Void, TypeKind::Undefined) | (TypeKind::Undefined, TypeKind::Void) => Some(true),
+      (TypeKind::Undefined, TypeKind::Void) => Some(true),
       (TypeKind::Void, TypeKind::EmptyObject) => Some(!opts.strict_null_checks),
       (
         TypeKind::Void,
@@ -2142,126 +2147,19 @@ impl<'a> RelateCtx<'a> {
     record: bool,
     depth: usize,
   ) -> RelationResult {
-    let record = record && self.take_reason_slot();
-    // Array -> fixed tuple is not assignable because an array type cannot
-    // statically guarantee the tuple's maximum length.
-    //
-    // Arrays can be assignable to variadic tuples (those containing a rest
-    // element), but TypeScript's semantics for those are intentionally loose.
-    let dst_readonly = dst_elems.iter().all(|e| e.readonly);
-    if src_readonly && !dst_readonly {
-      return RelationResult {
-        result: false,
-        reason: self.join_reasons(
-          record,
-          key,
-          Vec::new(),
-          false,
-          Some("readonly array".into()),
-          depth,
-        ),
-      };
-    }
-
-    let has_rest = dst_elems.iter().any(|e| e.rest);
-    if !has_rest {
-      return RelationResult {
-        result: false,
-        reason: self.join_reasons(
-          record,
-          key,
-          Vec::new(),
-          false,
-          Some("array to fixed tuple".into()),
-          depth,
-        ),
-      };
-    }
-
-    // If the tuple is purely a spread (`[...T]`), treat it as array-like and
-    // compare element types against the spread element type.
-    if dst_elems.iter().all(|e| e.rest) {
-      let rest = dst_elems
-        .iter()
-        .find(|e| e.rest)
-        .expect("has_rest implies at least one rest element");
-      let spread_elem = self.spread_element_type(rest.ty);
-      let related = self.relate_internal(
-        src_elem,
-        spread_elem,
-        RelationKind::Assignable,
-        mode,
-        record,
-        depth + 1,
-      );
-      return RelationResult {
-        result: related.result,
-        reason: self.join_reasons(
-          record,
-          key,
-          vec![related.reason],
-          related.result,
-          Some("array to rest tuple".into()),
-          depth,
-        ),
-      };
-    }
-
-    // Arrays do not satisfy required tuple positions, but they can flow into
-    // optional elements before the rest portion.
-    if dst_elems.iter().any(|e| !e.rest && !e.optional) {
-      return RelationResult {
-        result: false,
-        reason: self.join_reasons(
-          record,
-          key,
-          Vec::new(),
-          false,
-          Some("array required tuple element".into()),
-          depth,
-        ),
-      };
-    }
-
-    let mut children = Vec::new();
-    for dst_elem in dst_elems.iter().filter(|e| !e.rest) {
-      let dst_ty = self.optional_type(dst_elem.ty, dst_elem.optional, OptionalFlavor::TupleElement);
-      let related = self.relate_internal(
-        src_elem,
-        dst_ty,
-        RelationKind::Assignable,
-        mode,
-        record,
-        depth + 1,
-      );
-      if record {
-        children.push(related.reason);
-      }
-      if !related.result {
-        return RelationResult {
-          result: false,
-          reason: self.join_reasons(
-            record,
-            key,
-            children,
-            false,
-            Some("array to variadic tuple".into()),
-            depth,
-          ),
-        };
-      }
-    }
-    RelationResult {
-      result: true,
-      reason: self.join_reasons(
-        record,
-        key,
-        children,
-        true,
-        Some("array to variadic tuple".into()),
-        depth,
-      ),
-    }
+    // An array behaves like a tuple of unknown length. It is never assignable
+    // to a fixed tuple, which bounds the length; TypeScript's rules for tuples
+    // with a rest element are intentionally loose.
+    let src_elems = [(src_elem, false, true)];
+    self.relate_tuple_elements(
+      &src_elems,
+      src_readonly,
+      dst_elems,
+      key,
+      mode,
+      record,
+      depth,
+    )
   }
 
   /// Extract the element type produced by spreading `ty`.
@@ -2344,52 +2242,49 @@ impl<'a> RelateCtx<'a> {
         ),
       };
     }
-    let mut children = Vec::new();
-    for src_elem in src_elems {
-      let src_ty = if src_elem.rest {
-        let spread_elem = self.spread_element_type(src_elem.ty);
-        self.optional_type(spread_elem, src_elem.optional, OptionalFlavor::TupleElement)
-      } else {
-        self.optional_type(src_elem.ty, src_elem.optional, OptionalFlavor::TupleElement)
-      };
-      let related = self.relate_internal(
-        src_ty,
-        dst_elem,
-        RelationKind::Assignable,
-        mode,
-        record,
-        depth + 1,
-      );
-      if record {
-        children.push(related.reason);
-      }
-      if !related.result {
-        return RelationResult {
-          result: false,
-          reason: self.join_reasons(
-            record,
-            key,
-            children,
-            false,
-            Some("tuple to array".into()),
-            depth,
-          ),
-        };
-      }
-    }
+    // Indexing the tuple gives the union of its element types.
+    let src_elem = self.store.union(
+      self
+        .tuple_elements(src_elems)
+        .into_iter()
+        .map(|(ty, optional, _)| self.optional_type(ty, optional, OptionalFlavor::TupleElement))
+        .collect(),
+    );
+    let related = self.relate_internal(
+      src_elem,
+      dst_elem,
+      RelationKind::Assignable,
+      mode,
+      record,
+      depth + 1,
+    );
     RelationResult {
-      result: true,
+      result: related.result,
       reason: self.join_reasons(
         record,
         key,
-        children,
-        true,
+        vec![related.reason],
+        related.result,
         Some("tuple to array".into()),
         depth,
       ),
     }
   }
 
+  /// Element types of a tuple, with whether each is optional or repeated.
+  fn tuple_elements(&self, elems: &[crate::TupleElem]) -> Vec<(TypeId, bool, bool)> {
+    elems
+      .iter()
+      .map(|elem| {
+        if elem.rest {
+          (self.spread_element_type(elem.ty), elem.optional, true)
+        } else {
+          (elem.ty, elem.optional, false)
+        }
+      })
+      .collect()
+  }
+
   fn relate_tuple(
     &self,
     src_elems: &[crate::TupleElem],
@@ -2399,248 +2294,108 @@ impl<'a> RelateCtx<'a> {
     record: bool,
     depth: usize,
   ) -> RelationResult {
-    let record = record && self.take_reason_slot();
-    let mut children = Vec::new();
-    let src_required = src_elems.iter().filter(|e| !e.optional && !e.rest).count();
-    let dst_required = dst_elems.iter().filter(|e| !e.optional && !e.rest).count();
+    let src_readonly = src_elems.iter().any(|e| e.readonly);
+    let src_elems = self.tuple_elements(src_elems);
+    self.relate_tuple_elements(
+      &src_elems,
+      src_readonly,
+      dst_elems,
+      key,
+      mode,
+      record,
+      depth,
+    )
+  }
 
-    if src_required > dst_elems.len()
-      && !src_elems.iter().any(|e| e.rest)
-      && dst_required == dst_elems.len()
+  /// Relate the elements `(type, optional, rest)` of a tuple or array to a tuple.
+  fn relate_tuple_elements(
+    &self,
+    src: &[(TypeId, bool, bool)],
+    src_readonly: bool,
+    dst_elems: &[crate::TupleElem],
+    key: RelationKey,
+    mode: RelationMode,
+    record: bool,
+    depth: usize,
+  ) -> RelationResult {
+    let record = record && self.take_reason_slot();
+    let dst = self.tuple_elements(dst_elems);
+    let min_length = |elems: &[(TypeId, bool, bool)]| {
+      elems
+        .iter()
+        .rposition(|(_, optional, rest)| !optional && !rest)
+        .map_or(0, |last| last + 1)
+    };
+    let src_has_rest = src.iter().any(|elem| elem.2);
+    let dst_has_rest = dst.iter().any(|elem| elem.2);
+    let mismatch = if src_readonly && !dst_elems.is_empty() && !dst_elems.iter().all(|e| e.readonly)
     {
+      Some("tuple readonly")
+    } else if !src_has_rest && src.len() < min_length(&dst) {
+      Some("tuple required elements")
+    } else if !dst_has_rest && (src_has_rest || src.len() > dst.len()) {
+      Some("tuple arity")
+    } else {
+      None
+    };
+    if let Some(note) = mismatch {
       return RelationResult {
         result: false,
-        reason: self.join_reasons(
-          record,
-          key,
-          Vec::new(),
-          false,
-          Some("tuple arity".into()),
-          depth,
-        ),
+        reason: self.join_reasons(record, key, Vec::new(), false, Some(note.into()), depth),
       };
     }
 
-    if dst_required > src_elems.len() && !src_elems.iter().any(|e| e.rest) {
-      return RelationResult {
-        result: false,
-        reason: self.join_reasons(
-          record,
-          key,
-          Vec::new(),
-          false,
-          Some("tuple required elements".into()),
-          depth,
-        ),
+    let mut children = Vec::new();
+    let dst_start = dst.iter().position(|elem| elem.2).unwrap_or(dst.len());
+    let dst_end = dst
+      .iter()
+      .rev()
+      .position(|elem| elem.2)
+      .unwrap_or(dst.len());
+    for (position, (src_ty, src_optional, src_rest)) in src.iter().enumerate() {
+      let target = if dst_has_rest && position >= dst_start {
+        dst.len() - 1 - (src.len() - 1 - position).min(dst_end)
+      } else {
+        position
       };
-    }
-
-    let mut s_idx = 0usize;
-    let mut d_idx = 0usize;
-    while d_idx < dst_elems.len() {
-      let dst_elem = &dst_elems[d_idx];
-      let src_elem = src_elems.get(s_idx);
-      match src_elem {
-        None => {
-          if dst_elem.rest || dst_elem.optional {
-            d_idx += 1;
-            continue;
-          }
-          return RelationResult {
-            result: false,
-            reason: self.join_reasons(
-              record,
-              key,
-              children,
-              false,
-              Some("tuple length".into()),
-              depth,
-            ),
-          };
-        }
-        Some(src_elem) => {
-          if dst_elem.rest {
-            for rem in src_elems.iter().skip(s_idx) {
-              let src_ty = self.optional_type(
-                rem.ty,
-                rem.optional || rem.rest,
-                OptionalFlavor::TupleElement,
-              );
-              let dst_ty = self.optional_type(
-                dst_elem.ty,
-                dst_elem.optional || dst_elem.rest,
-                OptionalFlavor::TupleElement,
-              );
-              if !dst_elem.readonly && rem.readonly {
-                return RelationResult {
-                  result: false,
-                  reason: self.join_reasons(
-                    record,
-                    key,
-                    children,
-                    false,
-                    Some("tuple readonly".into()),
-                    depth,
-                  ),
-                };
-              }
-              let related = self.relate_internal(
-                src_ty,
-                dst_ty,
-                RelationKind::Assignable,
-                mode,
-                record,
-                depth + 1,
-              );
-              if record {
-                children.push(related.reason);
-              }
-              if !related.result {
-                return RelationResult {
-                  result: false,
-                  reason: self.join_reasons(
-                    record,
-                    key,
-                    children,
-                    false,
-                    Some("tuple rest".into()),
-                    depth,
-                  ),
-                };
-              }
-            }
-            return RelationResult {
-              result: true,
-              reason: self.join_reasons(
-                record,
-                key,
-                children,
-                true,
-                Some("tuple rest".into()),
-                depth,
-              ),
-            };
-          }
-
-          if src_elem.rest {
-            let src_ty = self.optional_type(
-              src_elem.ty,
-              src_elem.optional || src_elem.rest,
-              OptionalFlavor::TupleElement,
-            );
-            for d in dst_elems.iter().skip(d_idx) {
-              if !d.readonly && src_elem.readonly {
-                return RelationResult {
-                  result: false,
-                  reason: self.join_reasons(
-                    record,
-                    key,
-                    children,
-                    false,
-                    Some("tuple rest readonly".into()),
-                    depth,
-                  ),
-                };
-              }
-              let dst_ty =
-                self.optional_type(d.ty, d.optional || d.rest, OptionalFlavor::TupleElement);
-              let related = self.relate_internal(
-                src_ty,
-                dst_ty,
-                RelationKind::Assignable,
-                mode,
-                record,
-                depth + 1,
-              );
-              if record {
-                children.push(related.reason);
-              }
-              if !related.result {
-                return RelationResult {
-                  result: false,
-                  reason: self.join_reasons(
-                    record,
-                    key,
-                    children,
-                    false,
-                    Some("tuple rest spread".into()),
-                    depth,
-                  ),
-                };
-              }
-            }
-            return RelationResult {
-              result: true,
-              reason: self.join_reasons(
-                record,
-                key,
-                children,
-                true,
-                Some("tuple rest spread".into()),
-                depth,
-              ),
-            };
-          }
-
-          if !dst_elem.optional && src_elem.optional {
-            return RelationResult {
-              result: false,
-              reason: self.join_reasons(
-                record,
-                key,
-                children,
-                false,
-                Some("tuple optional".into()),
-                depth,
-              ),
-            };
-          }
-          if !dst_elem.readonly && src_elem.readonly {
-            return RelationResult {
-              result: false,
-              reason: self.join_reasons(
-                record,
-                key,
-                children,
-                false,
-                Some("tuple readonly".into()),
-                depth,
-              ),
-            };
-          }
-          let src_ty =
-            self.optional_type(src_elem.ty, src_elem.optional, OptionalFlavor::TupleElement);
-          let dst_ty =
-            self.optional_type(dst_elem.ty, dst_elem.optional, OptionalFlavor::TupleElement);
-          let related = self.relate_internal(
-            src_ty,
-            dst_ty,
-            RelationKind::Assignable,
-            mode,
+      let (dst_ty, dst_optional, dst_rest) = dst[target];
+      if !dst_optional && !dst_rest && (*src_optional || *src_rest) {
+        return RelationResult {
+          result: false,
+          reason: self.join_reasons(
             record,
-            depth + 1,
-          );
-          if record {
-            children.push(related.reason);
-          }
-          if !related.result {
-            return RelationResult {
-              result: false,
-              reason: self.join_reasons(
-                record,
-                key,
-                children,
-                false,
-                Some("tuple element".into()),
-                depth,
-              ),
-            };
-          }
-        }
+            key,
+            children,
+            false,
+            Some("tuple optional".into()),
+            depth,
+          ),
+        };
+      }
+      let related = self.relate_internal(
+        self.optional_type(*src_ty, *src_optional, OptionalFlavor::TupleElement),
+        self.optional_type(dst_ty, dst_optional, OptionalFlavor::TupleElement),
+        RelationKind::Assignable,
+        mode,
+        record,
+        depth + 1,
+      );
+      if record {
+        children.push(related.reason);
+      }
+      if !related.result {
+        return RelationResult {
+          result: false,
+          reason: self.join_reasons(
+            record,
+            key,
+            children,
+            false,
+            Some("tuple element".into()),
+            depth,
+          ),
+        };
       }
-
-      s_idx += 1;
-      d_idx += 1;
     }
 
     RelationResult {
@@ -2724,7 +2479,7 @@ impl<'a> RelateCtx<'a> {
   ) -> RelationResult {
     let record = record && self.take_reason_slot();
     let dst_shape = self.store.shape(self.store.object(dst_obj).shape);
-    if !dst_shape.properties.is_empty()
+    if dst_shape.properties.iter().any(|p| !p.data.optional)
       || !dst_shape.construct_signatures.is_empty()
       || !dst_shape.indexers.is_empty()
     {
@@ -2745,7 +2500,7 @@ impl<'a> RelateCtx<'a> {
       dst_id,
       overloads,
       &dst_shape.call_signatures,
-      mode | RelationMode::BIVARIANT_PARAMS,
+      mode,
       record,
       depth + 1,
     )
@@ -2764,10 +2519,7 @@ impl<'a> RelateCtx<'a> {
   ) -> RelationResult {
     let record = record && self.take_reason_slot();
     let src_shape = self.store.shape(self.store.object(src_obj).shape);
-    if !src_shape.properties.is_empty()
-      || !src_shape.construct_signatures.is_empty()
-      || !src_shape.indexers.is_empty()
-    {
+    if src_shape.call_signatures.is_empty() {
       return RelationResult {
         result: false,
         reason: self.join_reasons(
@@ -2785,7 +2537,7 @@ impl<'a> RelateCtx<'a> {
       dst_id,
       &src_shape.call_signatures,
       overloads,
-      mode | RelationMode::BIVARIANT_PARAMS,
+      mode,
       record,
       depth + 1,
     )
@@ -2823,6 +2575,8 @@ impl<'a> RelateCtx<'a> {
     let mut children = Vec::new();
     let allow_bivariance =
       !self.options.strict_function_types || mode.contains(RelationMode::BIVARIANT_PARAMS);
+    // Only the parameters of the method itself are compared bivariantly.
+    let mode = mode - RelationMode::BIVARIANT_PARAMS;
 
     if src.type_params.len() != dst.type_params.len() {
       return RelationResult {
@@ -2907,8 +2661,8 @@ impl<'a> RelateCtx<'a> {
     }
 
     let src_required = src.params.iter().filter(|p| !p.optional && !p.rest).count();
-    let dst_required = dst.params.iter().filter(|p| !p.optional && !p.rest).count();
-    if src_required > dst_required {
+    let dst_has_rest = dst.params.iter().any(|p| p.rest);
+    if !dst_has_rest && src_required > dst.params.len() {
       return RelationResult {
         result: false,
         reason: self.join_reasons(
@@ -3041,7 +2795,13 @@ impl<'a> RelateCtx<'a> {
   fn merge_intersection(&self, members: &[TypeId]) -> Option<ObjectId> {
     let mut shape = Shape::new();
     for member in members {
-      match self.store.type_kind(*member) {
+      let mut kind = self.store.type_kind(*member);
+      if let TypeKind::Ref { def, args } = &kind {
+        if let Some(expanded) = self.expand_ref(*def, args) {
+          kind = self.store.type_kind(expanded);
+        }
+      }
+      match kind {
         TypeKind::Object(obj) => {
           let obj = self.store.object(obj);
           let obj_shape = self.store.shape(obj.shape);
@@ -3226,12 +2986,11 @@ impl<'a> RelateCtx<'a> {
             };
           }
 
-          let next_mode =
-            if self.is_method_like(&src_prop.data) || self.is_method_like(&dst_prop.data) {
-              mode | RelationMode::BIVARIANT_PARAMS
-            } else {
-              mode
-            };
+          let next_mode = if self.is_method_like(&dst_prop.data) {
+            mode | RelationMode::BIVARIANT_PARAMS
+          } else {
+            mode
+          };
           let src_ty = self.optional_type(
             src_prop.data.ty,
             src_prop.data.optional,
@@ -3419,7 +3178,7 @@ impl<'a> RelateCtx<'a> {
           *dst_sig,
           &src_sig_data,
           &dst_sig_data,
-          mode | RelationMode::BIVARIANT_PARAMS,
+          mode,
           record,
           depth + 1,
         );
@@ -3458,7 +3217,7 @@ impl<'a> RelateCtx<'a> {
           *dst_sig,
           &src_sig_data,
           &dst_sig_data,
-          mode | RelationMode::BIVARIANT_PARAMS,
+          mode,
           record,
           depth + 1,
         );
-- 
2.43.0


From c1c7ccce84fe297f2947cb9bf2d23f41f0f83957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:20 +0000
Subject: [PATCH 21/32] fix: types-ts-interned: merging three declarations of a
 property gives one origin in any order

---
 types-ts-interned/src/store.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/types-ts-interned/src/store.rs b/types-ts-interned/src/store.rs
index 83c18da..c1ea16f 100644
--- a/types-ts-interned/src/store.rs
+++ b/types-ts-interned/src/store.rs
@@ -587,6 +587,7 @@ impl TypeStore {
     // restrictive accessibility modifier if present.
     let mut merged_properties: Vec<Property> = Vec::with_capacity(shape.properties.len());
     let mut declared_on_conflict = false;
+    let mut origin_conflict = false;
     for prop in shape.properties.into_iter() {
       if let Some(last) = merged_properties.last_mut() {
         if last.key == prop.key {
@@ -609,8 +610,15 @@ impl TypeStore {
           }
           match (last.data.origin, prop.data.origin) {
             (Some(a), Some(b)) if a == b => {}
-            (Some(_), Some(_)) => last.data.origin = None,
-            (None, Some(b)) => last.data.origin = Some(b),
+            (Some(_), Some(_)) => {
+              last.data.origin = None;
+              origin_conflict = true;
+            }
+            (None, Some(b)) => {
+              if !origin_conflict {
+                last.data.origin = Some(b);
+              }
+            }
             _ => {}
           }
           let existing_access = last.data.accessibility.take();
@@ -624,6 +632,7 @@ impl TypeStore {
       }
       merged_properties.push(prop);
       declared_on_conflict = false;
+      origin_conflict = false;
     }
     shape.properties = merged_properties;
     Self::stable_dedup_signatures(&mut shape.call_signatures);
-- 
2.43.0


From d6bf0c843c5690168307671d040f35b22f8f8a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:18 +0000
Subject: [PATCH 22/32] fix: types-ts-interned: unresolved operators over
 recursive references no longer unroll until any relation holds

---
 types-ts-interned/src/relate.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/types-ts-interned/src/relate.rs b/types-ts-interned/src/relate.rs
index 1f8d289..edcbaa2 100644
--- a/types-ts-interned/src/relate.rs
+++ b/types-ts-interned/src/relate.rs
@@ -2852,7 +2852,8 @@ impl<'a> RelateCtx<'a> {
   /// them here would unroll recursive references one more level on every call,
   /// so that normalization never reaches a fixpoint.
   fn normalize_outermost(&self, ty: TypeId) -> TypeId {
-    match self.store.type_kind(ty) {
+    let kind = self.store.type_kind(ty);
+    match &kind {
       TypeKind::Ref { .. }
       | TypeKind::Object(_)
       | TypeKind::Array { .. }
@@ -2863,7 +2864,7 @@ impl<'a> RelateCtx<'a> {
           .iter()
           .map(|member| self.normalize_outermost(*member))
           .collect();
-        if normalized == members {
+        if normalized == *members {
           ty
         } else {
           self.store.union(normalized)
@@ -2874,7 +2875,7 @@ impl<'a> RelateCtx<'a> {
           .iter()
           .map(|member| self.normalize_outermost(*member))
           .collect();
-        if normalized == members {
+        if normalized == *members {
           ty
         } else {
           self.store.intersection(normalized)
@@ -2884,10 +2885,20 @@ impl<'a> RelateCtx<'a> {
         let adapter = RelateExpanderAdapter {
           hook: self.hooks.expander,
         };
-        TypeEvaluator::with_caches(self.store.clone(), &adapter, self.normalizer_caches.clone())
-          .with_step_limit(self.limits.step_limit)
-          .with_conditional_assignability(self)
-          .evaluate(ty)
+        let mut evaluator =
+          TypeEvaluator::with_caches(self.store.clone(), &adapter, self.normalizer_caches.clone())
+            .with_step_limit(self.limits.step_limit)
+            .with_conditional_assignability(self);
+        let result = evaluator.evaluate(ty);
+        // An operator that stays unresolved keeps unrolling the recursive
+        // references among its operands.
+        let unresolved =
+          std::mem::discriminant(&self.store.type_kind(result)) == std::mem::discriminant(&kind);
+        if unresolved && result != ty && evaluator.evaluate(result) != result {
+          ty
+        } else {
+          result
+        }
       }
     }
   }
-- 
2.43.0


From 27ad360e0516b8c72955f982869a5dc42422d991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:18 +0000
Subject: [PATCH 23/32] fix: types-ts-interned: comparing properties no longer
 deadlocks with a thread interning a name

---
 types-ts-interned/src/store.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/types-ts-interned/src/store.rs b/types-ts-interned/src/store.rs
index c1ea16f..7e4031a 100644
--- a/types-ts-interned/src/store.rs
+++ b/types-ts-interned/src/store.rs
@@ -1275,8 +1275,9 @@ impl TypeStore {
   }
 
   fn compare_props(&self, a: &Property, b: &Property) -> Ordering {
-    let names = self.names.read();
-    let ord = a.key.cmp_with(&b.key, &|id| names.name(id));
+    // The guard must not outlive this comparison: comparing the types below
+    // takes the lock again, which deadlocks while another thread waits to write.
+    let ord = self.compare_prop_keys(&a.key, &b.key);
     if ord != Ordering::Equal {
       return ord;
     }
-- 
2.43.0


From e34a554f687350a9ced27e7773d187caec5c0c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:26 +0000
Subject: [PATCH 24/32] fix: semantic-js: functions in parameter defaults and
 catch patterns do not see the body's declarations

---
 semantic-js/src/js/resolve.rs | 87 ++++++++++++++++++++++-------------
 1 file changed, 54 insertions(+), 33 deletions(-)

diff --git a/semantic-js/src/js/resolve.rs b/semantic-js/src/js/resolve.rs
index 21145cc..027ef7c 100644
--- a/semantic-js/src/js/resolve.rs
+++ b/semantic-js/src/js/resolve.rs
@@ -108,6 +108,20 @@ struct ForInOfResolveContext {
   lhs_active: bool,
 }
 
+#[derive(Default, VisitorMut)]
+#[visitor(IdPatNode(enter))]
+struct ParamSymbolCollector {
+  symbols: HashSet<SymbolId>,
+}
+
+impl ParamSymbolCollector {
+  fn enter_id_pat_node(&mut self, node: &mut IdPatNode) {
+    if let Some(sym) = declared_symbol(&node.assoc) {
+      self.symbols.insert(sym);
+    }
+  }
+}
+
 #[derive(VisitorMut)]
 #[visitor(
   ArrPatElemNode(enter, exit),
@@ -162,6 +176,7 @@ struct ResolveVisitor<'a> {
   for_triple_scope_stack: Vec<Option<ScopeId>>,
   catch_param_next_pat_decl: Vec<bool>,
   catch_param_pat_decl_stack: Vec<bool>,
+  catch_param_stack: Vec<(ScopeId, HashSet<SymbolId>)>,
 }
 
 impl ResolveVisitor<'_> {
@@ -192,6 +207,7 @@ impl ResolveVisitor<'_> {
       for_triple_scope_stack: Vec::new(),
       catch_param_next_pat_decl: Vec::new(),
       catch_param_pat_decl_stack: Vec::new(),
+      catch_param_stack: Vec::new(),
     }
   }
 
@@ -343,33 +359,39 @@ impl ResolveVisitor<'_> {
   }
 
   fn resolve_name_for_use(&self, scope: ScopeId, name: &str) -> Option<SymbolId> {
-    if !self.in_param_list.last().copied().unwrap_or(false) {
+    if !self.in_param_list.contains(&true) && self.catch_param_stack.is_empty() {
       return self.sem.resolve_name_in_scope(scope, name);
     }
 
     let Some(name_id) = self.sem.name_id(name) else {
       return None;
     };
-    let func_scope = self.func_scope_stack.last().copied().unwrap_or(scope);
-    let param_symbols = self.param_tdz_stack.last().map(|frame| &frame.params);
 
     let mut current = Some(scope);
     while let Some(scope_id) = current {
       let scope_data = self.sem.scope(scope_id);
       if let Some(symbol) = scope_data.get(name_id) {
-        // Default parameter initializers are evaluated in the parameter scope
-        // before the function body's `var`/function/lexical declarations become
-        // visible. If name resolution finds a binding in the function scope
-        // that is not a parameter binding, skip it and continue searching outer
-        // scopes instead.
-        if scope_id == func_scope {
-          if param_symbols.is_some_and(|symbols| symbols.contains(&symbol)) {
-            return Some(symbol);
-          }
-          current = scope_data.parent;
-          continue;
+        // Default parameter initializers, and the functions inside them, see
+        // the parameter scope but not the function body's
+        // `var`/function/lexical declarations. If name resolution finds a
+        // binding of a function whose parameters are being visited that is not
+        // a parameter binding, skip it and continue searching outer scopes
+        // instead. The same goes for a catch parameter's pattern and the
+        // declarations of the catch body.
+        let is_body_binding = self
+          .func_scope_stack
+          .iter()
+          .rposition(|func_scope| *func_scope == scope_id)
+          .is_some_and(|index| {
+            self.in_param_list[index] && !self.param_tdz_stack[index].params.contains(&symbol)
+          })
+          || self
+            .catch_param_stack
+            .iter()
+            .any(|(catch_scope, params)| *catch_scope == scope_id && !params.contains(&symbol));
+        if !is_body_binding {
+          return Some(symbol);
         }
-        return Some(symbol);
       }
       current = scope_data.parent;
     }
@@ -408,7 +430,7 @@ impl ResolveVisitor<'_> {
     self.catch_param_next_pat_decl.pop();
   }
 
-  fn enter_pat_decl_node(&mut self, _node: &mut PatDeclNode) {
+  fn enter_pat_decl_node(&mut self, node: &mut PatDeclNode) {
     let is_catch_param = self
       .catch_param_next_pat_decl
       .last()
@@ -419,6 +441,17 @@ impl ResolveVisitor<'_> {
         *flag = false;
       }
       self.push_pending(true);
+
+      let mut collector = ParamSymbolCollector::default();
+      node.stx.pat.drive_mut(&mut collector);
+      let catch_scope = self
+        .scope_stack
+        .last()
+        .copied()
+        .unwrap_or_else(|| self.sem.top_scope());
+      self
+        .catch_param_stack
+        .push((catch_scope, collector.symbols));
     }
     self.catch_param_pat_decl_stack.push(is_catch_param);
   }
@@ -427,6 +460,7 @@ impl ResolveVisitor<'_> {
     let is_catch_param = self.catch_param_pat_decl_stack.pop().unwrap_or(false);
     if is_catch_param {
       self.pop_pending();
+      self.catch_param_stack.pop();
     }
   }
 
@@ -685,25 +719,12 @@ impl ResolveVisitor<'_> {
   }
 
   fn enter_func_node(&mut self, node: &mut FuncNode) {
-    if let Some(scope) = scope_id(&node.assoc) {
-      self.func_scope_stack.push(scope);
-    }
+    let scope = scope_id(&node.assoc).or(self.scope_stack.last().copied());
+    self
+      .func_scope_stack
+      .push(scope.unwrap_or_else(|| self.sem.top_scope()));
     self.in_param_list.push(true);
 
-    #[derive(Default, VisitorMut)]
-    #[visitor(IdPatNode(enter))]
-    struct ParamSymbolCollector {
-      symbols: HashSet<SymbolId>,
-    }
-
-    impl ParamSymbolCollector {
-      fn enter_id_pat_node(&mut self, node: &mut IdPatNode) {
-        if let Some(sym) = declared_symbol(&node.assoc) {
-          self.symbols.insert(sym);
-        }
-      }
-    }
-
     let mut collector = ParamSymbolCollector::default();
     for param in node.stx.parameters.iter_mut() {
       param.stx.pattern.drive_mut(&mut collector);
-- 
2.43.0


From 075094aab613c2491819b9e8205757ad02b7c635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:29 +0000
Subject: [PATCH 25/32] fix: minify-js: exported classes keep their names;
 operands of ++, -- and delete are not rewritten to void 0

---
 minify-js/src/opt/sem_rewrite.rs | 40 +++++++++++++++++++++++++++-----
 minify-js/src/rename/mod.rs      |  4 +++-
 2 files changed, 37 insertions(+), 7 deletions(-)

diff --git a/minify-js/src/opt/sem_rewrite.rs b/minify-js/src/opt/sem_rewrite.rs
index 239b25f..086a02b 100644
--- a/minify-js/src/opt/sem_rewrite.rs
+++ b/minify-js/src/opt/sem_rewrite.rs
@@ -1,7 +1,7 @@
 use super::{OptCtx, Pass};
 use derive_visitor::{DriveMut, VisitorMut};
 use parse_js::ast::expr::lit::{LitNullExpr, LitNumExpr};
-use parse_js::ast::expr::{BinaryExpr, Expr, IdExpr, UnaryExpr};
+use parse_js::ast::expr::{BinaryExpr, Expr, IdExpr, UnaryExpr, UnaryPostfixExpr};
 use parse_js::ast::node::Node;
 use parse_js::ast::stmt::ReturnStmt;
 use parse_js::ast::stx::TopLevel;
@@ -29,6 +29,8 @@ impl Pass for SemanticRewritePass {
 
 type ExprNode = Node<Expr>;
 type ReturnStmtNode = Node<ReturnStmt>;
+type UnaryExprNode = Node<UnaryExpr>;
+type UnaryPostfixExprNode = Node<UnaryPostfixExpr>;
 
 #[derive(Clone, Copy, Debug, Eq, PartialEq)]
 enum NullishKind {
@@ -102,15 +104,25 @@ impl<'a> SemanticRewriteVisitor<'a> {
 }
 
 #[derive(VisitorMut)]
-#[visitor(ExprNode(exit))]
+#[visitor(
+  ExprNode(exit),
+  UnaryExprNode(enter),
+  UnaryPostfixExprNode(enter)
+)]
 struct GlobalUndefinedToVoidZeroVisitor<'a> {
   cx: &'a OptCtx,
   changed: bool,
+  // The operand of `++`, `--` or `delete`: a reference, not a value.
+  reference: Option<Loc>,
 }
 
 impl<'a> GlobalUndefinedToVoidZeroVisitor<'a> {
   fn new(cx: &'a OptCtx) -> Self {
-    Self { cx, changed: false }
+    Self {
+      cx,
+      changed: false,
+      reference: None,
+    }
   }
 
   fn is_disabled(&self, assoc: &parse_js::ast::node::NodeAssocData) -> bool {
@@ -134,14 +146,30 @@ impl<'a> GlobalUndefinedToVoidZeroVisitor<'a> {
     false
   }
 
-  fn exit_expr_node(&mut self, node: &mut ExprNode) {
-    if self.is_disabled(&node.assoc) {
-      return;
+  fn enter_unary_expr_node(&mut self, node: &mut UnaryExprNode) {
+    if matches!(
+      node.stx.operator,
+      OperatorName::PrefixIncrement | OperatorName::PrefixDecrement | OperatorName::Delete
+    ) {
+      self.reference = Some(node.stx.argument.loc);
     }
+  }
+
+  fn enter_unary_postfix_expr_node(&mut self, node: &mut UnaryPostfixExprNode) {
+    self.reference = Some(node.stx.argument.loc);
+  }
 
+  fn exit_expr_node(&mut self, node: &mut ExprNode) {
     let Expr::Id(id) = node.stx.as_ref() else {
       return;
     };
+    if self.reference == Some(node.loc) {
+      return;
+    }
+    if self.is_disabled(&node.assoc) {
+      return;
+    }
+
     if id.stx.name == "undefined" && resolved_symbol(&id.assoc).is_none() {
       self.changed = true;
       *node.stx = build_void_zero(node.loc);
diff --git a/minify-js/src/rename/mod.rs b/minify-js/src/rename/mod.rs
index 9622de4..148ebf7 100644
--- a/minify-js/src/rename/mod.rs
+++ b/minify-js/src/rename/mod.rs
@@ -310,7 +310,9 @@ impl SymbolCollectorVisitor<'_> {
     };
     let mark_export = *self.inner.export_decl_stack.last().unwrap_or(&false);
     if let Some(sym) = declared_symbol(&node.assoc) {
-      self.inner.maybe_mark_export(scope, sym, mark_export);
+      // The name node of a class sits in the class' own scope.
+      let decl_scope = self.inner.sem.symbol(sym).decl_scope;
+      self.inner.maybe_mark_export(decl_scope, sym, mark_export);
       self.inner.record_symbol_usage(scope, sym);
     } else {
       self.inner.record_unknown(scope, &node.stx.name);
-- 
2.43.0


From 8bc8aac695b1b3ee5d3d6303fe313f2950f9b12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:41 +0000
Subject: [PATCH 26/32] fix: minify-js: a binding is not renamed to a name kept
 in a nested scope

---
 minify-js/src/rename/mod.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/minify-js/src/rename/mod.rs b/minify-js/src/rename/mod.rs
index 148ebf7..ede3b05 100644
--- a/minify-js/src/rename/mod.rs
+++ b/minify-js/src/rename/mod.rs
@@ -487,6 +487,24 @@ pub fn assign_names(sem: &JsSemantics, usage: &UsageData) -> HashMap<SymbolId, S
     })
     .flat_map(|usage| usage.foreign.iter().copied())
     .collect();
+  // Names that stay as they are inside each scope's descendants: a binding that
+  // is visible there must not be renamed to one of them.
+  let mut kept_below: HashMap<ScopeId, HashSet<String>> = HashMap::default();
+  for (scope, symbols) in usage.scope_symbol_order.iter() {
+    for sym in symbols {
+      if !disabled_scopes.contains(scope) && !pinned_symbols.contains(sym) {
+        continue;
+      }
+      let Some(name) = usage.symbol_names.get(sym) else {
+        continue;
+      };
+      let mut current = sem.scope(*scope).parent;
+      while let Some(scope_id) = current {
+        kept_below.entry(scope_id).or_default().insert(name.clone());
+        current = sem.scope(scope_id).parent;
+      }
+    }
+  }
   let mut renames = HashMap::default();
 
   let mut annex_b_block_to_var = HashMap::default();
@@ -509,6 +527,7 @@ pub fn assign_names(sem: &JsSemantics, usage: &UsageData) -> HashMap<SymbolId, S
     reserved: &HashSet<String>,
     disabled_scopes: &HashSet<ScopeId>,
     pinned_symbols: &HashSet<SymbolId>,
+    kept_below: &HashMap<ScopeId, HashSet<String>>,
     annex_b_block_to_var: &HashMap<SymbolId, SymbolId>,
     annex_b_var_to_blocks: &HashMap<SymbolId, Vec<SymbolId>>,
     renames: &mut HashMap<SymbolId, String>,
@@ -530,6 +549,7 @@ pub fn assign_names(sem: &JsSemantics, usage: &UsageData) -> HashMap<SymbolId, S
           reserved,
           disabled_scopes,
           pinned_symbols,
+          kept_below,
           annex_b_block_to_var,
           annex_b_var_to_blocks,
           renames,
@@ -539,6 +559,9 @@ pub fn assign_names(sem: &JsSemantics, usage: &UsageData) -> HashMap<SymbolId, S
     }
 
     let mut disallowed: HashSet<String> = reserved.clone();
+    if let Some(names) = kept_below.get(&scope) {
+      disallowed.extend(names.iter().cloned());
+    }
     if let Some(u) = usage_data {
       for sym in u.foreign.iter() {
         if let Some(name) = renames.get(sym) {
@@ -671,6 +694,7 @@ pub fn assign_names(sem: &JsSemantics, usage: &UsageData) -> HashMap<SymbolId, S
         reserved,
         disabled_scopes,
         pinned_symbols,
+        kept_below,
         annex_b_block_to_var,
         annex_b_var_to_blocks,
         renames,
@@ -685,6 +709,7 @@ pub fn assign_names(sem: &JsSemantics, usage: &UsageData) -> HashMap<SymbolId, S
     &reserved,
     &disabled_scopes,
     &pinned_symbols,
+    &kept_below,
     &annex_b_block_to_var,
     &annex_b_var_to_blocks,
     &mut renames,
-- 
2.43.0


From 870237ce04b98397e0c13c19a7ceb2510b2ce6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:41 +0000
Subject: [PATCH 27/32] fix: optimize-js: dataflow visits every block; cfg
 pruning keeps phi arguments; phis are lowered as parallel copies

---
 optimize-js/src/analysis/dataflow.rs     | 11 ++++-
 optimize-js/src/opt/optpass_cfg_prune.rs | 42 ++++++++++++++-----
 optimize-js/src/ssa/ssa_deconstruct.rs   | 51 +++++++++++++++++++++---
 3 files changed, 89 insertions(+), 15 deletions(-)

diff --git a/optimize-js/src/analysis/dataflow.rs b/optimize-js/src/analysis/dataflow.rs
index d18cf1c..6c0dffa 100644
--- a/optimize-js/src/analysis/dataflow.rs
+++ b/optimize-js/src/analysis/dataflow.rs
@@ -141,8 +141,17 @@ fn run_dataflow<A: DataFlowAnalysis>(
 
   let boundary_label = resolved_boundary.label();
   let boundary_state = analysis.boundary_state(&resolved_boundary, cfg);
+  // Every block is visited at least once: a block whose state stays at bottom (an empty exit block,
+  // say) does not wake up its neighbours, and a block in an infinite loop may not be connected to the
+  // boundary at all.
   let mut worklist = VecDeque::from([boundary_label]);
-  let mut queued = HashSet::from_iter([boundary_label]);
+  worklist.extend(
+    flow_graph
+      .labels()
+      .into_iter()
+      .filter(|&label| label != boundary_label),
+  );
+  let mut queued = HashSet::from_iter(worklist.iter().copied());
   while let Some(label) = worklist.pop_front() {
     queued.remove(&label);
     let incoming = if label == boundary_label {
diff --git a/optimize-js/src/opt/optpass_cfg_prune.rs b/optimize-js/src/opt/optpass_cfg_prune.rs
index 384bc5d..8b6d24c 100644
--- a/optimize-js/src/opt/optpass_cfg_prune.rs
+++ b/optimize-js/src/opt/optpass_cfg_prune.rs
@@ -57,20 +57,14 @@ fn maybe_reroot_entry(result: &mut PassResult, cfg: &mut Cfg) -> bool {
       if inst.t != InstTyp::Phi {
         break;
       }
-      if inst.labels.contains(&0) && inst.labels.len() == 1 {
-        // Removing the old entry would leave this Phi without any sources.
+      if inst.labels.contains(&0) {
+        // Removing the old entry would lose the value this Phi has on entry (e.g. the initial value of
+        // a loop counter).
         return false;
       }
     }
   }
 
-  for inst in cfg.bblocks.get_mut(new_entry).iter_mut() {
-    if inst.t != InstTyp::Phi {
-      break;
-    }
-    inst.remove_phi(0);
-  }
-
   cfg.graph.delete_many([0]);
   cfg.bblocks.remove(0);
   cfg.entry = new_entry;
@@ -78,6 +72,33 @@ fn maybe_reroot_entry(result: &mut PassResult, cfg: &mut Cfg) -> bool {
   true
 }
 
+/// An empty bblock that is pruned hands its Phi arguments to its parents. A parent that already is a
+/// predecessor of the child would need two different arguments for what then is one edge.
+fn prune_merges_phi_edges(cfg: &Cfg, cur: u32, parents: &[u32], children: &[u32]) -> bool {
+  children.iter().any(|&c| {
+    cfg
+      .bblocks
+      .get(c)
+      .iter()
+      .take_while(|i| i.t == InstTyp::Phi)
+      .any(|phi| {
+        let arg_from = |label: u32| {
+          phi
+            .labels
+            .iter()
+            .position(|&l| l == label)
+            .map(|i| &phi.args[i])
+        };
+        let Some(arg) = arg_from(cur) else {
+          return false;
+        };
+        parents
+          .iter()
+          .any(|&p| arg_from(p).is_some_and(|existing| existing != arg))
+      })
+  })
+}
+
 pub fn optpass_cfg_prune(cfg: &mut Cfg) -> PassResult {
   let mut result = PassResult::default();
   // Iterate until convergence, instead of waiting for another optimisation pass.
@@ -114,6 +135,9 @@ pub fn optpass_cfg_prune(cfg: &mut Cfg) -> PassResult {
       if !can_prune_bblock(&parents, &children, is_only_child_of_all_parents, is_empty) {
         continue;
       }
+      if prune_merges_phi_edges(cfg, cur, &parents, &children) {
+        continue;
+      }
 
       for &c in children.iter() {
         // Detach from children.
diff --git a/optimize-js/src/ssa/ssa_deconstruct.rs b/optimize-js/src/ssa/ssa_deconstruct.rs
index c2e73cd..ed4ec7d 100644
--- a/optimize-js/src/ssa/ssa_deconstruct.rs
+++ b/optimize-js/src/ssa/ssa_deconstruct.rs
@@ -1,17 +1,56 @@
 use crate::cfg::cfg::Cfg;
+use crate::il::inst::Arg;
 use crate::il::inst::Inst;
 use crate::il::inst::InstTyp;
 use crate::util::counter::Counter;
 use std::collections::BTreeMap;
 use std::iter::zip;
 
+/// The Phis of a bblock all read the values at the end of the predecessor, before any of them is
+/// assigned. This orders the copies so that no target is written while another copy still has to read
+/// it, and breaks cycles with a new temp.
+fn sequentialise_copies(mut copies: Vec<(u32, Arg)>, next_temp: &mut u32) -> Vec<Inst> {
+  let mut insts = Vec::new();
+  copies.retain(|(tgt, value)| *value != Arg::Var(*tgt));
+  while !copies.is_empty() {
+    let ready = copies
+      .iter()
+      .position(|(tgt, _)| !copies.iter().any(|(_, value)| *value == Arg::Var(*tgt)));
+    if let Some(idx) = ready {
+      let (tgt, value) = copies.remove(idx);
+      insts.push(Inst::var_assign(tgt, value));
+    } else {
+      let saved = copies[0].0;
+      let temp = *next_temp;
+      *next_temp += 1;
+      insts.push(Inst::var_assign(temp, Arg::Var(saved)));
+      for (_, value) in copies.iter_mut() {
+        if *value == Arg::Var(saved) {
+          *value = Arg::Var(temp);
+        }
+      }
+    }
+  }
+  insts
+}
+
 pub fn deconstruct_ssa(cfg: &mut Cfg, c_label: &mut Counter) {
   struct NewBblock {
     label: u32,
     parent: u32,
     child: u32,
-    insts: Vec<Inst>,
+    copies: Vec<(u32, Arg)>,
   }
+  let mut next_temp = cfg
+    .bblocks
+    .all()
+    .flat_map(|(_, insts)| insts.iter())
+    .flat_map(|inst| {
+      let args = inst.args.iter().filter_map(|arg| arg.maybe_var());
+      inst.tgts.iter().copied().chain(args)
+    })
+    .max()
+    .map_or(0, |max| max + 1);
   let mut new_bblocks = Vec::<NewBblock>::new();
   let mut labels: Vec<u32> = cfg.bblocks.all().map(|(label, _)| label).collect();
   labels.sort_unstable();
@@ -28,10 +67,10 @@ pub fn deconstruct_ssa(cfg: &mut Cfg, c_label: &mut Counter) {
             label: c_label.bump(),
             parent,
             child: label,
-            insts: Vec::new(),
+            copies: Vec::new(),
           })
-          .insts
-          .push(Inst::var_assign(tgt, value));
+          .copies
+          .push((tgt, value));
       }
     }
     new_bblocks.extend(new_bblocks_by_parent.into_values());
@@ -54,6 +93,8 @@ pub fn deconstruct_ssa(cfg: &mut Cfg, c_label: &mut Counter) {
     cfg.graph.connect(b.parent, b.label);
     cfg.graph.connect(b.label, b.child);
     // Insert new bblock.
-    cfg.bblocks.add(b.label, b.insts);
+    cfg
+      .bblocks
+      .add(b.label, sequentialise_copies(b.copies, &mut next_temp));
   }
 }
-- 
2.43.0


From cd94a730914fc38b596885390e9b75b1322cdac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:55 +0000
Subject: [PATCH 28/32] fix: optimize-js: loop guards that exit when true,
 state machine entry, property reads are not reused or dropped, member updates
 are stored, constant folding of ** and number to string

---
 optimize-js/src/decompile/structurer.rs    | 31 ++++++---
 optimize-js/src/eval/consteval.rs          | 74 +++++++++++++++++++---
 optimize-js/src/il/s2i/expr.rs             | 68 +++++++++++++++++++-
 optimize-js/src/opt/optpass_dvn.rs         |  5 +-
 optimize-js/src/opt/optpass_trivial_dce.rs |  5 +-
 5 files changed, 159 insertions(+), 24 deletions(-)

diff --git a/optimize-js/src/decompile/structurer.rs b/optimize-js/src/decompile/structurer.rs
index 297164f..b6ea39f 100644
--- a/optimize-js/src/decompile/structurer.rs
+++ b/optimize-js/src/decompile/structurer.rs
@@ -470,9 +470,11 @@ impl<'a> StructCtx<'a> {
         });
       }
       if let Some(ancestor) = self.loops.ancestor_containing(loop_label, succ) {
-        return SuccessorResolution::Node(ControlTree::Break {
-          target: BreakTarget::Loop(ancestor),
-        });
+        // The jump stays within an outer loop, so leaving that loop is not what it does.
+        if succ != self.loops.info(ancestor).header {
+          return SuccessorResolution::Err;
+        }
+        return SuccessorResolution::Node(ControlTree::Continue { target: ancestor });
       }
     }
 
@@ -543,21 +545,27 @@ impl<'a> StructCtx<'a> {
     let guard = loop_guard(self.cfg, &info);
     if let Some(guard) = guard {
       self.consumed.insert(info.header);
-      let then_tree = if guard.inside == info.header {
+      let loop_tree = if guard.inside == info.header {
         ControlTree::Seq(Vec::new())
       } else {
         self
           .structure_seq(guard.inside, None, &info.nodes, Some(loop_label))
           .map_err(|_| ())?
       };
+      let exit_tree = ControlTree::Break {
+        target: BreakTarget::Loop(loop_label),
+      };
+      let (then_t, else_t) = if guard.exit_when_true {
+        (exit_tree, loop_tree)
+      } else {
+        (loop_tree, exit_tree)
+      };
       let guard_if = ControlTree::If {
         cond_block: info.header,
         insts: guard.insts,
         cond: guard.cond,
-        then_t: Box::new(then_tree),
-        else_t: Box::new(ControlTree::Break {
-          target: BreakTarget::Loop(loop_label),
-        }),
+        then_t: Box::new(then_t),
+        else_t: Box::new(else_t),
         join: guard.outside,
       };
       let body = ControlTree::Seq(vec![guard_if]);
@@ -600,6 +608,7 @@ struct GuardInfo {
   cond: Arg,
   inside: u32,
   outside: u32,
+  exit_when_true: bool,
 }
 
 fn loop_guard(cfg: &Cfg, info: &LoopInfo) -> Option<GuardInfo> {
@@ -624,6 +633,7 @@ fn loop_guard(cfg: &Cfg, info: &LoopInfo) -> Option<GuardInfo> {
     cond: last.args[0].clone(),
     inside,
     outside,
+    exit_when_true: outside == last.labels[0],
   })
 }
 
@@ -636,7 +646,10 @@ fn build_state_machine(cfg: &Cfg) -> ControlTree {
     let (insts, term) = build_terminator(block, cfg.graph.children(label));
     blocks.push(StateBlock { label, insts, term });
   }
-  ControlTree::StateMachine { entry: 0, blocks }
+  ControlTree::StateMachine {
+    entry: cfg.entry,
+    blocks,
+  }
 }
 
 fn build_terminator(
diff --git a/optimize-js/src/eval/consteval.rs b/optimize-js/src/eval/consteval.rs
index 97e426b..a59cb3a 100644
--- a/optimize-js/src/eval/consteval.rs
+++ b/optimize-js/src/eval/consteval.rs
@@ -211,7 +211,7 @@ fn coerce_to_int32(v: &Const) -> Option<i32> {
 // https://developer.mozilla.org/en-US/docs/Glossary/Falsy
 pub fn coerce_to_bool(v: &Const) -> bool {
   match v {
-    BigInt(v) => v == &BigInt::from(0),
+    BigInt(v) => v != &BigInt::from(0),
     Bool(b) => *b,
     Null => false,
     Num(JN(v)) => !v.is_nan() && *v != 0.0,
@@ -224,7 +224,8 @@ pub fn coerce_to_bool(v: &Const) -> bool {
 // https://tc39.es/ecma262/multipage/abstract-operations.html#sec-islessthan
 pub fn js_cmp(a: &Const, b: &Const) -> Option<Ordering> {
   match (a, b) {
-    (Str(a), Str(b)) => Some(a.cmp(b)),
+    // Strings are compared by UTF-16 code units.
+    (Str(a), Str(b)) => Some(a.encode_utf16().cmp(b.encode_utf16())),
     (Str(a), BigInt(b)) => parse_bigint(a).map(|a| a.cmp(b)),
     (BigInt(a), Str(b)) => parse_bigint(b).map(|b| a.cmp(&b)),
     (BigInt(a), BigInt(b)) => Some(a.cmp(b)),
@@ -253,6 +254,61 @@ pub fn js_mod(a: f64, b: f64) -> f64 {
   }
 }
 
+// https://tc39.es/ecma262/multipage/ecmascript-data-types-and-values.html#sec-numeric-types-number-exponentiate
+pub fn js_exp(base: f64, exponent: f64) -> f64 {
+  // Unlike `powf`, a NaN exponent always gives NaN, and so does 1 (or -1) to the power of infinity.
+  if exponent.is_nan() || (base.abs() == 1.0 && exponent.is_infinite()) {
+    return f64::NAN;
+  }
+  base.powf(exponent)
+}
+
+// https://tc39.es/ecma262/multipage/numbers-and-dates.html#sec-math.round
+pub fn js_round(n: f64) -> f64 {
+  // Halves are rounded towards positive infinity.
+  let floor = n.floor();
+  if n - floor >= 0.5 {
+    n.ceil()
+  } else {
+    floor
+  }
+}
+
+// https://tc39.es/ecma262/multipage/ecmascript-data-types-and-values.html#sec-numeric-types-number-tostring
+pub fn js_num_to_str(n: f64) -> String {
+  if n.is_nan() {
+    return "NaN".into();
+  }
+  if n == 0.0 {
+    return "0".into();
+  }
+  let sign = if n < 0.0 { "-" } else { "" };
+  if n.is_infinite() {
+    return format!("{sign}Infinity");
+  }
+  // The shortest digits that read back as the same number, as `d.ddde-x`.
+  let shortest = format!("{:e}", n.abs());
+  let (mantissa, exponent) = shortest.split_once('e').unwrap();
+  let digits = mantissa.replace('.', "");
+  let point = exponent.parse::<i32>().unwrap() + 1;
+  let len = digits.len() as i32;
+  let text = if len <= point && point <= 21 {
+    format!("{digits}{}", "0".repeat((point - len) as usize))
+  } else if 0 < point && point <= 21 {
+    let (int, frac) = digits.split_at(point as usize);
+    format!("{int}.{frac}")
+  } else if -6 < point && point <= 0 {
+    format!("0.{}{digits}", "0".repeat(-point as usize))
+  } else {
+    let exponent = point - 1;
+    let exponent_sign = if exponent < 0 { '-' } else { '+' };
+    let (first, rest) = digits.split_at(1);
+    let dot = if rest.is_empty() { "" } else { "." };
+    format!("{first}{dot}{rest}e{exponent_sign}{}", exponent.abs())
+  };
+  format!("{sign}{text}")
+}
+
 // https://tc39.es/ecma262/multipage/abstract-operations.html#sec-islooselyequal
 pub fn js_loose_eq(a: &Const, b: &Const) -> bool {
   if discriminant(a) == discriminant(b) {
@@ -285,8 +341,8 @@ pub fn maybe_eval_const_bin_expr(op: BinOp, a: &Const, b: &Const) -> Option<Cons
   #[rustfmt::skip]
   let res = match (op, a, b) {
     (Add, Num(l), Num(r)) => Num(JN(l.0 + r.0)),
-    (Add, Num(l), Str(r)) => Str(format!("{l}{r}")),
-    (Add, Str(l), Num(r)) => Str(format!("{l}{r}")),
+    (Add, Num(l), Str(r)) => Str(format!("{}{r}", js_num_to_str(l.0))),
+    (Add, Str(l), Num(r)) => Str(format!("{l}{}", js_num_to_str(r.0))),
     (Add, Str(l), Str(r)) => Str(format!("{l}{r}")),
     (Div, Num(l), Num(r)) => Num(JN(js_div(l.0, r.0))),
     (Div, Num(l), Str(r)) => Num(JN(js_div(l.0, coerce_str_to_num(r)))),
@@ -295,10 +351,10 @@ pub fn maybe_eval_const_bin_expr(op: BinOp, a: &Const, b: &Const) -> Option<Cons
     (BitAnd, l, r) => Num(JN((coerce_to_int32(l)? & coerce_to_int32(r)?) as f64)),
     (BitOr, l, r) => Num(JN((coerce_to_int32(l)? | coerce_to_int32(r)?) as f64)),
     (BitXor, l, r) => Num(JN((coerce_to_int32(l)? ^ coerce_to_int32(r)?) as f64)),
-    (Exp, Num(l), Num(r)) => Num(JN(l.0.powf(r.0))),
-    (Exp, Num(l), Str(r)) => Num(JN(l.0.powf(coerce_str_to_num(r)))),
-    (Exp, Str(l), Num(r)) => Num(JN(coerce_str_to_num(l).powf(r.0))),
-    (Exp, Str(l), Str(r)) => Num(JN(coerce_str_to_num(l).powf(coerce_str_to_num(r)))),
+    (Exp, Num(l), Num(r)) => Num(JN(js_exp(l.0, r.0))),
+    (Exp, Num(l), Str(r)) => Num(JN(js_exp(l.0, coerce_str_to_num(r)))),
+    (Exp, Str(l), Num(r)) => Num(JN(js_exp(coerce_str_to_num(l), r.0))),
+    (Exp, Str(l), Str(r)) => Num(JN(js_exp(coerce_str_to_num(l), coerce_str_to_num(r)))),
     (Geq, l, r) => Bool(js_cmp(l, r).is_some_and(|c| c.is_ge())),
     (Gt, l, r) => Bool(js_cmp(l, r).is_some_and(|c| c.is_gt())),
     (Leq, l, r) => Bool(js_cmp(l, r).is_some_and(|c| c.is_le())),
@@ -371,7 +427,7 @@ pub fn maybe_eval_const_builtin_call(func: &str, args: &[Const]) -> Option<Const
       ("Math.log10", Num(a)) => Num(JN(a.0.log10())),
       ("Math.log1p", Num(a)) => Num(JN(a.0.ln_1p())),
       ("Math.log2", Num(a)) => Num(JN(a.0.log2())),
-      ("Math.round", Num(a)) => Num(JN(a.0.round())),
+      ("Math.round", Num(a)) => Num(JN(js_round(a.0))),
       ("Math.sin", Num(a)) => Num(JN(a.0.sin())),
       ("Math.sqrt", Num(a)) => Num(JN(a.0.sqrt())),
       ("Math.tan", Num(a)) => Num(JN(a.0.tan())),
diff --git a/optimize-js/src/il/s2i/expr.rs b/optimize-js/src/il/s2i/expr.rs
index 56a69db..df0bb4f 100644
--- a/optimize-js/src/il/s2i/expr.rs
+++ b/optimize-js/src/il/s2i/expr.rs
@@ -102,7 +102,21 @@ impl<'p> HirSourceToInst<'p> {
       hir_js::Literal::Number(v) => {
         Arg::Const(Const::Num(JsNumber(v.parse::<f64>().unwrap_or_default())))
       }
-      hir_js::Literal::String(v) => Arg::Const(Const::Str(v.lossy.clone())),
+      hir_js::Literal::String(v) => {
+        // Strings are UTF-8 here, which cannot represent unpaired surrogates.
+        if v
+          .code_units
+          .as_ref()
+          .is_some_and(|units| !units.iter().copied().eq(v.lossy.encode_utf16()))
+        {
+          return Err(unsupported_syntax(
+            self.program.lower.hir.file,
+            span,
+            "string literals with unpaired surrogates are not supported",
+          ));
+        }
+        Arg::Const(Const::Str(v.lossy.clone()))
+      }
       hir_js::Literal::Null => Arg::Const(Const::Null),
       hir_js::Literal::Undefined => Arg::Const(Const::Undefined),
       hir_js::Literal::BigInt(v) => {
@@ -782,18 +796,66 @@ impl<'p> HirSourceToInst<'p> {
 
   pub fn compile_update_expr(
     &mut self,
-    _span: Loc,
+    span: Loc,
     operator: UpdateOp,
     argument: ExprId,
     prefix: bool,
   ) -> OptimizeResult<Arg> {
-    let arg = self.compile_expr(argument)?;
+    enum Store {
+      Local,
+      Foreign(crate::symbol::semantics::SymbolId),
+      Unknown(String),
+      Prop(Arg, Arg),
+    }
+    let (arg, store) = match &self.body.exprs[argument.0 as usize].kind {
+      ExprKind::Ident(name) => {
+        let store = match self.classify_ident(argument, *name) {
+          VarType::Local(_) => Store::Local,
+          VarType::Foreign(foreign) => Store::Foreign(foreign),
+          VarType::Unknown(name) => Store::Unknown(name),
+          VarType::Builtin(builtin) => {
+            return Err(unsupported_syntax(
+              self.program.lower.hir.file,
+              span,
+              format!("assignment to builtin {builtin}"),
+            ))
+          }
+        };
+        (self.compile_expr(argument)?, store)
+      }
+      ExprKind::Member(member) if !member.optional => {
+        let object = self.compile_expr(member.object)?;
+        let key = key_arg(self, &member.property)?;
+        let arg =
+          self.temp_var_arg(|tgt| Inst::bin(tgt, object.clone(), BinOp::GetProp, key.clone()));
+        (arg, Store::Prop(object, key))
+      }
+      _ => {
+        return Err(unsupported_syntax(
+          self.program.lower.hir.file,
+          span,
+          "unsupported update target",
+        ))
+      }
+    };
     match operator {
       UpdateOp::Decrement | UpdateOp::Increment => {
         let rhs = match operator {
           UpdateOp::Decrement => BinOp::Sub,
           UpdateOp::Increment => BinOp::Add,
         };
+        if !matches!(store, Store::Local) {
+          let new = self.temp_var_arg(|tgt| {
+            Inst::bin(tgt, arg.clone(), rhs, Arg::Const(Const::Num(JsNumber(1.0))))
+          });
+          self.out.push(match store {
+            Store::Foreign(foreign) => Inst::foreign_store(foreign, new.clone()),
+            Store::Unknown(name) => Inst::unknown_store(name, new.clone()),
+            Store::Prop(object, key) => Inst::prop_assign(object, key, new.clone()),
+            Store::Local => unreachable!(),
+          });
+          return Ok(if prefix { new } else { arg });
+        }
         if prefix {
           self.out.push(Inst::bin(
             arg.to_var(),
diff --git a/optimize-js/src/opt/optpass_dvn.rs b/optimize-js/src/opt/optpass_dvn.rs
index d8cbb39..3cc20fc 100644
--- a/optimize-js/src/opt/optpass_dvn.rs
+++ b/optimize-js/src/opt/optpass_dvn.rs
@@ -223,7 +223,7 @@ fn inner(result: &mut PassResult, state: &mut State, cfg: &mut Cfg, dom: &Dom, l
         match (op, left, right) {
           (op, Arg::Const(l), Arg::Const(r)) => maybe_eval_const_bin_expr(op, l, r).map(Arg::Const),
           (BinOp::GetProp, Arg::Builtin(o), Arg::Const(Const::Str(p)))
-            if is_valid_member_ident(&p) =>
+            if o != "undefined" && is_valid_member_ident(&p) =>
           {
             Some(Arg::Builtin(format!("{o}.{p}")))
           }
@@ -266,7 +266,8 @@ fn inner(result: &mut PassResult, state: &mut State, cfg: &mut Cfg, dom: &Dom, l
       let pure_val = match new_inst.t {
         InstTyp::Bin => {
           let (_, left, op, right) = new_inst.as_bin();
-          Some(Val::Bin {
+          // A property may have been assigned (or be an accessor) since it was last read.
+          (op != BinOp::GetProp).then(|| Val::Bin {
             left: left.clone(),
             op,
             right: right.clone(),
diff --git a/optimize-js/src/opt/optpass_trivial_dce.rs b/optimize-js/src/opt/optpass_trivial_dce.rs
index 45ca6e0..64d84ba 100644
--- a/optimize-js/src/opt/optpass_trivial_dce.rs
+++ b/optimize-js/src/opt/optpass_trivial_dce.rs
@@ -1,5 +1,6 @@
 use crate::cfg::cfg::Cfg;
 use crate::il::inst::Arg;
+use crate::il::inst::BinOp;
 use crate::il::inst::InstTyp;
 use crate::opt::PassResult;
 use ahash::HashSet;
@@ -23,7 +24,9 @@ pub fn optpass_trivial_dce(cfg: &mut Cfg) -> PassResult {
       // We should delete if all targets are unused. (There should only ever be zero or one targets.)
       let should_delete =
         !bblock[i].tgts.is_empty() && bblock[i].tgts.iter().all(|var| !used.contains(var));
-      if should_delete {
+      // Reading a property may call a getter, and throws where the object is null or undefined.
+      let reads_prop = bblock[i].t == InstTyp::Bin && bblock[i].bin_op == BinOp::GetProp;
+      if should_delete && !reads_prop {
         if bblock[i].t == InstTyp::Call {
           // We pessimistically assume all functions are non-pure and therefore cannot be removed. Therefore, we can only remove the target.
           bblock[i].tgts.clear();
-- 
2.43.0


From 54504949cfb30205aa69147fa663f779f8c306ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:27 +0000
Subject: [PATCH 29/32] fix: optimize-js: forward dataflow leaves unreachable
 blocks at bottom; pruning only keeps phi edges of real branches

---
 optimize-js/src/analysis/dataflow.rs     | 34 +++++++++++++++++-------
 optimize-js/src/opt/optpass_cfg_prune.rs |  7 +++++
 2 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/optimize-js/src/analysis/dataflow.rs b/optimize-js/src/analysis/dataflow.rs
index 6c0dffa..359d80f 100644
--- a/optimize-js/src/analysis/dataflow.rs
+++ b/optimize-js/src/analysis/dataflow.rs
@@ -141,17 +141,31 @@ fn run_dataflow<A: DataFlowAnalysis>(
 
   let boundary_label = resolved_boundary.label();
   let boundary_state = analysis.boundary_state(&resolved_boundary, cfg);
-  // Every block is visited at least once: a block whose state stays at bottom (an empty exit block,
-  // say) does not wake up its neighbours, and a block in an infinite loop may not be connected to the
-  // boundary at all.
+  // A block whose state stays at bottom (an empty exit block, say) does not wake up its neighbours, so
+  // blocks are not only visited when an input changes. Going forwards, every block that can run is
+  // visited; going backwards every block is, as one in an infinite loop never reaches the boundary.
   let mut worklist = VecDeque::from([boundary_label]);
-  worklist.extend(
-    flow_graph
-      .labels()
-      .into_iter()
-      .filter(|&label| label != boundary_label),
-  );
-  let mut queued = HashSet::from_iter(worklist.iter().copied());
+  let mut queued = HashSet::from_iter([boundary_label]);
+  match A::DIRECTION {
+    Direction::Forward => {
+      let mut pending = vec![boundary_label];
+      while let Some(label) = pending.pop() {
+        for succ in flow_graph.successors(label) {
+          if queued.insert(succ) {
+            worklist.push_back(succ);
+            pending.push(succ);
+          }
+        }
+      }
+    }
+    Direction::Backward => {
+      for label in flow_graph.labels() {
+        if queued.insert(label) {
+          worklist.push_back(label);
+        }
+      }
+    }
+  }
   while let Some(label) = worklist.pop_front() {
     queued.remove(&label);
     let incoming = if label == boundary_label {
diff --git a/optimize-js/src/opt/optpass_cfg_prune.rs b/optimize-js/src/opt/optpass_cfg_prune.rs
index 8b6d24c..2f6e5fe 100644
--- a/optimize-js/src/opt/optpass_cfg_prune.rs
+++ b/optimize-js/src/opt/optpass_cfg_prune.rs
@@ -94,6 +94,13 @@ fn prune_merges_phi_edges(cfg: &Cfg, cur: u32, parents: &[u32], children: &[u32]
         };
         parents
           .iter()
+          .filter(|&&p| {
+            cfg
+              .bblocks
+              .get(p)
+              .last()
+              .is_some_and(|i| i.t == InstTyp::CondGoto)
+          })
           .any(|&p| arg_from(p).is_some_and(|existing| existing != arg))
       })
   })
-- 
2.43.0


From d7760a29136b61bf2c8736713d591d20c1c27c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:28 +0000
Subject: [PATCH 30/32] fix: optimize-js: a phi of a block merged into its only
 parent becomes an assignment

---
 optimize-js/src/opt/optpass_cfg_prune.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/optimize-js/src/opt/optpass_cfg_prune.rs b/optimize-js/src/opt/optpass_cfg_prune.rs
index 2f6e5fe..a1a8563 100644
--- a/optimize-js/src/opt/optpass_cfg_prune.rs
+++ b/optimize-js/src/opt/optpass_cfg_prune.rs
@@ -1,4 +1,5 @@
 use crate::cfg::cfg::Cfg;
+use crate::il::inst::Inst;
 use crate::il::inst::InstTyp;
 use crate::opt::PassResult;
 use crate::ssa::phi_simplify::simplify_phis;
@@ -160,8 +161,15 @@ pub fn optpass_cfg_prune(cfg: &mut Cfg) -> PassResult {
       }
 
       // Pop from graph and bblocks.
-      let insts = cfg.pop(cur);
+      let mut insts = cfg.pop(cur);
       result.mark_cfg_changed();
+      // A Phi that only has a value from the one parent is that value; it must not become a Phi of the
+      // parent, which has other predecessors.
+      for inst in insts.iter_mut() {
+        if inst.t == InstTyp::Phi && inst.args.len() == 1 {
+          *inst = Inst::var_assign(inst.tgts[0], inst.args[0].clone());
+        }
+      }
       // Move insts to parents, before any CondGoto, and update that CondGoto.
       for &parent in parents.iter() {
         let p_bblock = cfg.bblocks.get_mut(parent);
-- 
2.43.0


From 55e318aef20a7df0c6ad95fcf26b6a6b79f6d9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:32 +0000
Subject: [PATCH 31/32] fix: minify-js, parse-js: declare variables and fields,
 abstract fields, exports of namespaces in scripts

---
 minify-js/src/ts_erase.rs             | 22 +++++++++++++++++++---
 parse-js/src/ast/node.rs              |  5 +++++
 parse-js/src/parse/class_or_object.rs | 26 +++++++++++++++++++++-----
 parse-js/src/parse/import_export.rs   |  4 +++-
 parse-js/src/parse/stmt/mod.rs        | 22 +++++++++++-----------
 5 files changed, 59 insertions(+), 20 deletions(-)

diff --git a/minify-js/src/ts_erase.rs b/minify-js/src/ts_erase.rs
index d5829c3..4584db7 100644
--- a/minify-js/src/ts_erase.rs
+++ b/minify-js/src/ts_erase.rs
@@ -12,7 +12,7 @@ use parse_js::ast::expr::pat::{ArrPat, ClassOrFuncName, IdPat, ObjPat, Pat};
 use parse_js::ast::expr::*;
 use parse_js::ast::func::{Func, FuncBody};
 use parse_js::ast::import_export::{ExportName, ExportNames, ImportNames, ModuleExportImportName};
-use parse_js::ast::node::{Node, NodeAssocData};
+use parse_js::ast::node::{AmbientDeclaration, Node, NodeAssocData};
 use parse_js::ast::stmt::decl::{
   ClassDecl, FuncDecl, ParamDecl, PatDecl, VarDecl, VarDeclMode, VarDeclarator,
 };
@@ -511,6 +511,11 @@ fn strip_stmts(ctx: &mut StripContext, stmts: &mut Vec<Node<Stmt>>, is_top_level
   *stmts = new_stmts;
 }
 
+/// Whether this is a `declare var`/`let`/`const`, which exists only for the type checker.
+fn is_ambient(decl: &Node<VarDecl>) -> bool {
+  decl.assoc.get::<AmbientDeclaration>().is_some()
+}
+
 fn empty_stmt(loc: Loc) -> Node<Stmt> {
   Node::new(loc, Stmt::Empty(Node::new(loc, EmptyStmt {})))
 }
@@ -702,6 +707,7 @@ fn strip_stmt(ctx: &mut StripContext, stmt: Node<Stmt>, is_top_level: bool) -> V
       label_stmt.stx.statement = strip_stmt_required(ctx, label_stmt.stx.statement, false);
       vec![new_node(loc, assoc, Stmt::Label(label_stmt))]
     }
+    Stmt::VarDecl(decl) if is_ambient(&decl) => vec![],
     Stmt::VarDecl(mut decl) => {
       strip_var_decl(ctx, &mut decl.stx);
       vec![new_node(loc, assoc, Stmt::VarDecl(decl))]
@@ -764,7 +770,7 @@ fn collect_top_level_value_bindings(stmts: &[Node<Stmt>]) -> HashSet<String> {
           }
         }
       }
-      Stmt::VarDecl(decl) => {
+      Stmt::VarDecl(decl) if !is_ambient(decl) => {
         for declarator in &decl.stx.declarators {
           let mut bindings = Vec::new();
           collect_pat_binding_names(&declarator.pattern.stx.pat, &mut bindings);
@@ -815,7 +821,7 @@ fn collect_top_level_module_exports(
   let mut names = HashSet::new();
   for stmt in stmts {
     match stmt.stx.as_ref() {
-      Stmt::VarDecl(decl) if decl.stx.export => {
+      Stmt::VarDecl(decl) if decl.stx.export && !is_ambient(decl) => {
         for declarator in &decl.stx.declarators {
           let mut bindings = Vec::new();
           collect_pat_binding_names(&declarator.pattern.stx.pat, &mut bindings);
@@ -3576,6 +3582,7 @@ fn strip_namespace_body_stmt(
       out.extend(namespace_export_assignments(loc, namespace_param, &[name]));
       out
     }
+    Stmt::VarDecl(decl) if is_ambient(&decl) => vec![],
     Stmt::VarDecl(mut decl) if decl.stx.export => {
       decl.stx.export = false;
       strip_var_decl(ctx, &mut decl.stx);
@@ -4392,6 +4399,10 @@ fn strip_class_members(
         let ClassOrObjVal::Prop(init) = member.val else {
           unreachable!("matches! guard ensures ClassOrObjVal::Prop");
         };
+        if init.is_none() && !ctx.ts_erase_options.use_define_for_class_fields {
+          // Nothing is assigned to a field without initializer.
+          continue;
+        }
         field_inits.push(class_field_init_stmt(ctx, loc, member.key, init));
         continue;
       }
@@ -4584,6 +4595,11 @@ fn strip_class_member(
         return None;
       }
     }
+    ClassOrObjVal::Prop(_)
+      if member.stx.abstract_ || member.assoc.get::<AmbientDeclaration>().is_some() =>
+    {
+      return None;
+    }
     ClassOrObjVal::Prop(init) => {
       if let Some(init) = init {
         let value = take_expr(init);
diff --git a/parse-js/src/ast/node.rs b/parse-js/src/ast/node.rs
index 4c86d97..ef9717e 100644
--- a/parse-js/src/ast/node.rs
+++ b/parse-js/src/ast/node.rs
@@ -29,6 +29,11 @@ pub struct NodeAssocData {
 #[derive(Clone, Copy, Debug)]
 pub struct ParenthesizedExpr;
 
+/// Marker attached to a variable declaration with a `declare` modifier, which
+/// only describes a variable that exists elsewhere.
+#[derive(Clone, Copy, Debug)]
+pub struct AmbientDeclaration;
+
 /// Marker attached to a numeric literal node that originated from a legacy octal
 /// integer literal (e.g. `010`).
 ///
diff --git a/parse-js/src/parse/class_or_object.rs b/parse-js/src/parse/class_or_object.rs
index 65192ed..5fd1a06 100644
--- a/parse-js/src/parse/class_or_object.rs
+++ b/parse-js/src/parse/class_or_object.rs
@@ -13,6 +13,7 @@ use crate::ast::class_or_object::ClassOrObjVal;
 use crate::ast::expr::pat::IdPat;
 use crate::ast::expr::Expr;
 use crate::ast::func::Func;
+use crate::ast::node::AmbientDeclaration;
 use crate::ast::node::LeadingZeroDecimalLiteral;
 use crate::ast::node::LegacyOctalEscapeSequence;
 use crate::ast::node::LegacyOctalNumberLiteral;
@@ -211,7 +212,9 @@ impl<'a> Parser<'a> {
         // Continue to next member
         continue;
       }
-      let member = self.with_loc(|p| {
+      // TypeScript: `declare` fields exist only for the type checker.
+      let mut declared = false;
+      let mut member = self.with_loc(|p| {
         // TypeScript-style recovery: parse decorators for members.
         let decorators = if p.should_recover() {
           p.decorators(ctx)?
@@ -228,8 +231,11 @@ impl<'a> Parser<'a> {
         while p.at_member_modifier(TT::KeywordPublic)
           || p.at_member_modifier(TT::KeywordPrivate)
           || p.at_member_modifier(TT::KeywordProtected)
+          || (p.is_typescript() && p.at_member_modifier(TT::KeywordDeclare))
         {
-          if p.consume_if(TT::KeywordPublic).is_match() {
+          if p.consume_if(TT::KeywordDeclare).is_match() {
+            declared = true;
+          } else if p.consume_if(TT::KeywordPublic).is_match() {
             accessibility = Some(crate::ast::stmt::decl::Accessibility::Public);
           } else if p.consume_if(TT::KeywordPrivate).is_match() {
             accessibility = Some(crate::ast::stmt::decl::Accessibility::Private);
@@ -315,9 +321,15 @@ impl<'a> Parser<'a> {
         // TypeScript: readonly modifier
         // Error recovery: allow duplicate readonly modifiers
         let mut readonly = false;
-        while p.at_member_modifier(TT::KeywordReadonly) {
-          p.consume();
-          readonly = true;
+        while p.at_member_modifier(TT::KeywordReadonly)
+          || (p.is_typescript() && p.at_member_modifier(TT::KeywordDeclare))
+        {
+          if p.consume_if(TT::KeywordDeclare).is_match() {
+            declared = true;
+          } else {
+            p.consume();
+            readonly = true;
+          }
         }
 
         // TypeScript/JavaScript: accessor modifier for auto-accessors
@@ -520,6 +532,10 @@ impl<'a> Parser<'a> {
         })
       })?;
 
+      if declared {
+        member.assoc.set(AmbientDeclaration);
+      }
+
       if self.is_strict_ecmascript() {
         if let ClassOrObjKey::Direct(key) = &member.stx.key {
           if member.stx.static_ && key.stx.key == "prototype" {
diff --git a/parse-js/src/parse/import_export.rs b/parse-js/src/parse/import_export.rs
index b46a382..2e9fd0b 100644
--- a/parse-js/src/parse/import_export.rs
+++ b/parse-js/src/parse/import_export.rs
@@ -12,6 +12,7 @@ use crate::ast::import_export::ExportNames;
 use crate::ast::import_export::ImportName;
 use crate::ast::import_export::ImportNames;
 use crate::ast::import_export::ModuleExportImportName;
+use crate::ast::node::AmbientDeclaration;
 use crate::ast::node::LegacyOctalEscapeSequence;
 use crate::ast::node::Node;
 use crate::ast::stmt::decl::PatDecl;
@@ -636,7 +637,7 @@ impl<'a> Parser<'a> {
         self.consume(); // export
         self.enum_decl(ctx, true, false, false)?.into_wrapped()
       },
-      (TT::KeywordNamespace, _) if self.is_typescript() => {
+      (TT::KeywordNamespace | TT::KeywordModule, _) if self.is_typescript() => {
         self.consume(); // export
         self.namespace_decl(ctx, true, false)?.into_wrapped()
       },
@@ -698,6 +699,7 @@ impl<'a> Parser<'a> {
           | TT::KeywordAwait => {
             let mut decl = self.var_decl(ctx, VarDeclParseMode::Asi)?;
             decl.stx.export = true;
+            decl.assoc.set(AmbientDeclaration);
             decl.into_wrapped()
           }
           _ => return Err(self.peek().error(SyntaxErrorType::ExpectedSyntax("declaration after export declare"))),
diff --git a/parse-js/src/parse/stmt/mod.rs b/parse-js/src/parse/stmt/mod.rs
index ad08472..32ee35b 100644
--- a/parse-js/src/parse/stmt/mod.rs
+++ b/parse-js/src/parse/stmt/mod.rs
@@ -4,6 +4,7 @@ use super::expr::pat::is_valid_pattern_identifier;
 use super::expr::Asi;
 use super::ParseCtx;
 use super::Parser;
+use crate::ast::node::AmbientDeclaration;
 use crate::ast::node::Node;
 use crate::ast::stmt::decl::PatDecl;
 use crate::ast::stmt::BlockStmt;
@@ -100,7 +101,8 @@ impl<'a> Parser<'a> {
       TT::KeywordDebugger => self.debugger_stmt()?.into_wrapped(),
       TT::KeywordDo => self.do_while_stmt(ctx)?.into_wrapped(),
       TT::KeywordExport => {
-        if !self.is_module() {
+        // The members of a namespace are exported in scripts too.
+        if !self.is_module() && !(ctx.in_namespace && self.is_typescript()) {
           return Err(t0.error(SyntaxErrorType::ExpectedSyntax(
             "export not allowed in scripts",
           )));
@@ -253,20 +255,18 @@ impl<'a> Parser<'a> {
           .wrap(Stmt::ClassDecl),
       ),
       // TypeScript: declare var, declare const, declare let, declare using
-      TT::KeywordVar | TT::KeywordConst | TT::KeywordLet | TT::KeywordUsing => Ok(
-        self
-          .var_decl(ctx, VarDeclParseMode::Asi)?
-          .wrap(Stmt::VarDecl),
-      ),
+      TT::KeywordVar | TT::KeywordConst | TT::KeywordLet | TT::KeywordUsing => {
+        let mut decl = self.var_decl(ctx, VarDeclParseMode::Asi)?;
+        decl.assoc.set(AmbientDeclaration);
+        Ok(decl.wrap(Stmt::VarDecl))
+      }
       // TypeScript: declare await using
       TT::KeywordAwait => {
         let [_, next] = self.peek_n::<2>();
         if next.typ == TT::KeywordUsing {
-          Ok(
-            self
-              .var_decl(ctx, VarDeclParseMode::Asi)?
-              .wrap(Stmt::VarDecl),
-          )
+          let mut decl = self.var_decl(ctx, VarDeclParseMode::Asi)?;
+          decl.assoc.set(AmbientDeclaration);
+          Ok(decl.wrap(Stmt::VarDecl))
         } else {
           Err(
             self
-- 
2.43.0


From 30c0ebec4b4f72eb8946d25676dd072b8a7ed81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:18 +0000
Subject: [PATCH 32/32] fix: minify-js: constant evaluation of const enums,
 bare static fields under assign semantics, lowering keeps private fields

---
 minify-js/src/ts_erase.rs | 64 ++++++++++++++++++++++++++++++---------
 1 file changed, 50 insertions(+), 14 deletions(-)

diff --git a/minify-js/src/ts_erase.rs b/minify-js/src/ts_erase.rs
index 4584db7..0f04aa8 100644
--- a/minify-js/src/ts_erase.rs
+++ b/minify-js/src/ts_erase.rs
@@ -1293,6 +1293,14 @@ fn unwrap_ts_const_expr<'a>(mut expr: &'a Node<Expr>) -> &'a Node<Expr> {
   }
 }
 
+/// ECMAScript `ToInt32`.
+fn const_enum_int32(value: f64) -> i32 {
+  if !value.is_finite() {
+    return 0;
+  }
+  value.trunc().rem_euclid(4294967296.0) as u32 as i32
+}
+
 fn eval_const_enum_expr(
   enum_name: &str,
   expr: &Node<Expr>,
@@ -1314,7 +1322,7 @@ fn eval_const_enum_expr(
     Expr::Unary(unary)
       if matches!(
         unary.stx.operator,
-        OperatorName::UnaryNegation | OperatorName::UnaryPlus
+        OperatorName::UnaryNegation | OperatorName::UnaryPlus | OperatorName::BitwiseNot
       ) =>
     {
       let value = eval_const_enum_expr(enum_name, &unary.stx.argument, prior_members)?;
@@ -1324,25 +1332,43 @@ fn eval_const_enum_expr(
       match unary.stx.operator {
         OperatorName::UnaryNegation => Some(ConstEnumValue::Number(-num)),
         OperatorName::UnaryPlus => Some(ConstEnumValue::Number(num)),
+        OperatorName::BitwiseNot => Some(ConstEnumValue::Number(!const_enum_int32(num) as f64)),
         _ => unreachable!(),
       }
     }
-    Expr::Binary(bin)
-      if matches!(
-        bin.stx.operator,
-        OperatorName::Addition | OperatorName::Subtraction
-      ) =>
-    {
+    Expr::Binary(bin) => {
       let left = eval_const_enum_expr(enum_name, &bin.stx.left, prior_members)?;
       let right = eval_const_enum_expr(enum_name, &bin.stx.right, prior_members)?;
-      let (ConstEnumValue::Number(left), ConstEnumValue::Number(right)) = (left, right) else {
-        return None;
+      let (left, right) = match (left, right) {
+        (ConstEnumValue::Number(left), ConstEnumValue::Number(right)) => (left, right),
+        (ConstEnumValue::String(left), ConstEnumValue::String(right))
+          if bin.stx.operator == OperatorName::Addition =>
+        {
+          return Some(ConstEnumValue::String(left + &right));
+        }
+        _ => return None,
       };
-      match bin.stx.operator {
-        OperatorName::Addition => Some(ConstEnumValue::Number(left + right)),
-        OperatorName::Subtraction => Some(ConstEnumValue::Number(left - right)),
-        _ => unreachable!(),
-      }
+      let shift = const_enum_int32(right) as u32 & 31;
+      let value = match bin.stx.operator {
+        OperatorName::Addition => left + right,
+        OperatorName::Subtraction => left - right,
+        OperatorName::Multiplication => left * right,
+        OperatorName::Division => left / right,
+        OperatorName::Remainder => left % right,
+        OperatorName::Exponentiation if right.fract() == 0.0 && right.abs() < 64.0 => {
+          left.powi(right as i32)
+        }
+        OperatorName::BitwiseAnd => (const_enum_int32(left) & const_enum_int32(right)) as f64,
+        OperatorName::BitwiseOr => (const_enum_int32(left) | const_enum_int32(right)) as f64,
+        OperatorName::BitwiseXor => (const_enum_int32(left) ^ const_enum_int32(right)) as f64,
+        OperatorName::BitwiseLeftShift => const_enum_int32(left).wrapping_shl(shift) as f64,
+        OperatorName::BitwiseRightShift => const_enum_int32(left).wrapping_shr(shift) as f64,
+        OperatorName::BitwiseUnsignedRightShift => {
+          (const_enum_int32(left) as u32).wrapping_shr(shift) as f64
+        }
+        _ => return None,
+      };
+      Some(ConstEnumValue::Number(value))
     }
     Expr::Id(id) => prior_members.get(&id.stx.name).cloned(),
     Expr::Member(member) => match member.stx.left.stx.as_ref() {
@@ -4393,6 +4419,7 @@ fn strip_class_members(
         && !stripped.stx.static_
         && stripped.stx.decorators.is_empty()
         && matches!(&stripped.stx.val, ClassOrObjVal::Prop(_))
+        && !matches!(&stripped.stx.key, ClassOrObjKey::Direct(key) if key.stx.key.starts_with('#'))
       {
         let Node { loc, stx, .. } = stripped;
         let member = *stx;
@@ -4406,6 +4433,15 @@ fn strip_class_members(
         field_inits.push(class_field_init_stmt(ctx, loc, member.key, init));
         continue;
       }
+      if ctx.ts_erase_options.lower_class_fields
+        && !ctx.ts_erase_options.use_define_for_class_fields
+        && stripped.stx.static_
+        && stripped.stx.decorators.is_empty()
+        && matches!(&stripped.stx.val, ClassOrObjVal::Prop(None))
+        && !matches!(&stripped.stx.key, ClassOrObjKey::Direct(key) if key.stx.key.starts_with('#'))
+      {
+        continue;
+      }
       new_members.push(stripped);
     }
   }
-- 
2.43.0

