From 35e7b34244df963fa7daaa1ae041c9ea6bad8f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:01 +0000
Subject: [PATCH 01/66] fix: count a struct literal as a use of the struct's
 import

---
 crates/compiler/semantic/src/semantic_index.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/compiler/semantic/src/semantic_index.rs b/crates/compiler/semantic/src/semantic_index.rs
index 5426ee5..c89cd31 100644
--- a/crates/compiler/semantic/src/semantic_index.rs
+++ b/crates/compiler/semantic/src/semantic_index.rs
@@ -1132,8 +1132,10 @@ impl<'db, 'sink> SemanticIndexBuilder<'db, 'sink> {
                 // until phase 1 (forward declarations) is fully in place.
                 if let Some(def_idx) = self
                     .index
-                    .latest_definition_index_by_name(self.current_scope(), name.value())
+                    .latest_definition_index_by_name_in_chain(self.current_scope(), name.value())
                 {
+                    // Constructing a struct is a use of its definition (or of its import)
+                    self.index.mark_definition_used(def_idx);
                     self.index
                         .add_type_usage_to_definition(usage_index, def_idx);
                 }
-- 
2.43.0


From 395735851d15d6bd0326c7425e3f504d5b859cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:01 +0000
Subject: [PATCH 02/66] fix: do not look up an imported callee's parameters in
 the caller's index

---
 .../semantic/src/validation/type_validator.rs | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/crates/compiler/semantic/src/validation/type_validator.rs b/crates/compiler/semantic/src/validation/type_validator.rs
index b24c854..8bea11b 100644
--- a/crates/compiler/semantic/src/validation/type_validator.rs
+++ b/crates/compiler/semantic/src/validation/type_validator.rs
@@ -594,15 +594,19 @@ impl TypeValidator {
                         );
 
                         if !are_types_compatible(db, arg_type, *param_type) {
-                            // Find the parameter's AST to get its span
+                            // Find the parameter's AST to get its span. A definition id is only
+                            // meaningful in the index of its own file, so the declaration can
+                            // only be pointed at when the callee lives in this file.
                             let func_def_id = signature_id.definition_id(db);
-                            let func_def = index.definition(func_def_id.id_in_file(db)).unwrap();
-                            let param_type_span =
-                                if let DefinitionKind::Function(func_ref) = &func_def.kind {
-                                    func_ref.params_ast.get(arg_idx).map(|p| p.1.span())
-                                } else {
-                                    None
-                                };
+                            let param_type_span = (func_def_id.file(db) == file)
+                                .then(|| index.definition(func_def_id.id_in_file(db)))
+                                .flatten()
+                                .and_then(|func_def| match &func_def.kind {
+                                    DefinitionKind::Function(func_ref) => {
+                                        func_ref.params_ast.get(arg_idx).map(|p| p.1.span())
+                                    }
+                                    _ => None,
+                                });
 
                             let mut diag = Diagnostic::error(
                                 DiagnosticCode::TypeMismatch,
-- 
2.43.0


From a29d6b1237dbed33ad5bc3e5f78926a4789bbe72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:01 +0000
Subject: [PATCH 03/66] fix: check patterns and type cohesion inside for loops

---
 .../src/validation/structural_validator.rs     | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/crates/compiler/semantic/src/validation/structural_validator.rs b/crates/compiler/semantic/src/validation/structural_validator.rs
index c87a0bf..2998a36 100644
--- a/crates/compiler/semantic/src/validation/structural_validator.rs
+++ b/crates/compiler/semantic/src/validation/structural_validator.rs
@@ -146,6 +146,13 @@ impl StructuralValidator {
                 Statement::Loop { body } | Statement::While { body, .. } => {
                     self.check_patterns_in_statements(&[(**body).clone()], file_path, sink);
                 }
+                Statement::For {
+                    init, step, body, ..
+                } => {
+                    for part in [init, step, body] {
+                        self.check_patterns_in_statements(&[(**part).clone()], file_path, sink);
+                    }
+                }
                 _ => {}
             }
         }
@@ -203,6 +210,17 @@ impl StructuralValidator {
                 Statement::Loop { body } | Statement::While { body, .. } => {
                     self.check_type_cohesion_in_statements(&[(**body).clone()], file_path, sink);
                 }
+                Statement::For {
+                    init, step, body, ..
+                } => {
+                    for part in [init, step, body] {
+                        self.check_type_cohesion_in_statements(
+                            &[(**part).clone()],
+                            file_path,
+                            sink,
+                        );
+                    }
+                }
                 _ => {}
             }
         }
-- 
2.43.0


From f4c2541377e7e0a175d50286028ec3a2385cf49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:01 +0000
Subject: [PATCH 04/66] fix: report each diagnostic once on the per-module path

---
 crates/compiler/semantic/src/db.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/crates/compiler/semantic/src/db.rs b/crates/compiler/semantic/src/db.rs
index 9405b30..9d3c64a 100644
--- a/crates/compiler/semantic/src/db.rs
+++ b/crates/compiler/semantic/src/db.rs
@@ -489,9 +489,8 @@ pub fn module_semantic_diagnostics(
         };
         let registry = create_default_registry();
 
-        let mut validate_diags = registry.validate_all(db, crate_id, *file, &index);
-        validate_diags.extend(index.semantic_syntax_errors);
-        validate_diags
+        // Includes the index's own `semantic_syntax_errors`
+        registry.validate_all(db, crate_id, *file, &index)
     } else {
         DiagnosticCollection::default()
     }
@@ -505,12 +504,11 @@ pub fn module_all_diagnostics(
     module_name: String,
 ) -> DiagnosticCollection {
     let parse_diag = module_parse_diagnostics(db, crate_id, module_name.clone());
-    let semantic_diag = module_semantic_diagnostics(db, crate_id, module_name);
-
-    let mut collection = DiagnosticCollection::default();
-    collection.extend(parse_diag.all().iter().cloned());
-    collection.extend(semantic_diag.all().iter().cloned());
-    collection
+    if !parse_diag.is_empty() {
+        // Semantic validation is skipped and would report the same parse errors again
+        return parse_diag;
+    }
+    module_semantic_diagnostics(db, crate_id, module_name)
 }
 
 /// Check if a specific module has changed since a given revision
-- 
2.43.0


From be18f02cbc686868f716050ec457fd316ab9bfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:54 +0000
Subject: [PATCH 05/66] fix: record the types named by constants and casts as
 used

---
 crates/compiler/semantic/src/semantic_index.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/compiler/semantic/src/semantic_index.rs b/crates/compiler/semantic/src/semantic_index.rs
index c89cd31..62a2f21 100644
--- a/crates/compiler/semantic/src/semantic_index.rs
+++ b/crates/compiler/semantic/src/semantic_index.rs
@@ -1329,12 +1329,11 @@ impl<'db, 'sink> SemanticIndexBuilder<'db, 'sink> {
                 // Visit count expression normally
                 self.visit_expr(count);
             }
-            Expression::Cast {
-                expr,
-                target_type: _,
-            } => {
+            Expression::Cast { expr, target_type } => {
                 // Visit the expression being cast
                 self.visit_expr(expr);
+                // Record the usages of the types named by the target
+                self.visit_type_expr(target_type);
             }
             Expression::Literal(_, _) | Expression::BooleanLiteral(_) => {
                 // Leaf nodes - no sub-expressions
@@ -1566,6 +1565,7 @@ where
 
                 // Process the value expression with optional type annotation
                 if let Some(ref ty) = const_def.ty {
+                    self.visit_type_expr(ty);
                     self.with_expected_type(Some(ty.clone()), |builder| {
                         builder.visit_expr(&const_def.value);
                     });
@@ -1684,6 +1684,7 @@ where
 
         // Visit the value expression with optional type annotation
         if let Some(ref ty) = const_def_inner.ty {
+            self.visit_type_expr(ty);
             self.with_expected_type(Some(ty.clone()), |builder| {
                 builder.visit_expr(&const_def_inner.value);
             });
-- 
2.43.0


From 1ff98c06bcb15bbbdf4f96d1e3d32665b8c00615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:54 +0000
Subject: [PATCH 06/66] fix: check top-level constants against their declared
 type

---
 .../semantic/src/validation/type_validator.rs | 127 +++++++++++-------
 1 file changed, 79 insertions(+), 48 deletions(-)

diff --git a/crates/compiler/semantic/src/validation/type_validator.rs b/crates/compiler/semantic/src/validation/type_validator.rs
index 8bea11b..d08bbc0 100644
--- a/crates/compiler/semantic/src/validation/type_validator.rs
+++ b/crates/compiler/semantic/src/validation/type_validator.rs
@@ -16,7 +16,7 @@ use std::collections::HashSet;
 use cairo_m_compiler_diagnostics::{Diagnostic, DiagnosticCode, DiagnosticSink};
 use cairo_m_compiler_parser::ParsedModule;
 use cairo_m_compiler_parser::parser::{
-    BinaryOp, Expression, FunctionDef, Pattern, Spanned, Statement, TopLevelItem, TypeExpr,
+    BinaryOp, ConstDef, Expression, FunctionDef, Pattern, Spanned, Statement, TopLevelItem, TypeExpr,
     UnaryOp, parse_file,
 };
 use chumsky::span::SimpleSpan;
@@ -67,17 +67,30 @@ impl Validator for TypeValidator {
             self.check_expression_types(db, crate_id, file, index, expr_id, expr_info, sink);
         }
 
-        // Check all function definitions for nested arrays in their signatures
+        // Check all function definitions for nested arrays in their signatures,
+        // and all constants against their declared types
         for item in parsed_module.items() {
-            if let TopLevelItem::Function(func_spanned) = item {
-                let func_def = func_spanned.value();
-                // Check return type for nested arrays
-                Self::check_for_nested_arrays(db, file, &func_def.return_type, sink);
-
-                // Check parameter types for nested arrays
-                for param in &func_def.params {
-                    Self::check_for_nested_arrays(db, file, &param.type_expr, sink);
+            match item {
+                TopLevelItem::Function(func_spanned) => {
+                    let func_def = func_spanned.value();
+                    // Check return type for nested arrays
+                    Self::check_for_nested_arrays(db, file, &func_def.return_type, sink);
+
+                    // Check parameter types for nested arrays
+                    for param in &func_def.params {
+                        Self::check_for_nested_arrays(db, file, &param.type_expr, sink);
+                    }
                 }
+                TopLevelItem::Const(const_spanned) => Self::check_const_declared_type(
+                    db,
+                    crate_id,
+                    file,
+                    index,
+                    const_spanned.value(),
+                    const_spanned.span(),
+                    sink,
+                ),
+                _ => {}
             }
         }
 
@@ -102,6 +115,53 @@ impl Validator for TypeValidator {
 }
 
 impl TypeValidator {
+    /// Checks that the value of a constant has the type the constant declares.
+    /// `const_span` is the span under which the constant's scope was recorded.
+    fn check_const_declared_type(
+        db: &dyn SemanticDb,
+        crate_id: Crate,
+        file: File,
+        index: &SemanticIndex,
+        const_def: &ConstDef,
+        const_span: SimpleSpan<usize>,
+        sink: &dyn DiagnosticSink,
+    ) {
+        let Some(type_ast) = const_def.ty.as_ref() else {
+            return;
+        };
+        let Some(value_expr_id) = index.expression_id_by_span(const_def.value.span()) else {
+            return;
+        };
+
+        // Get the declared type
+        let declared_type = resolve_ast_type(
+            db,
+            crate_id,
+            file,
+            type_ast.clone(),
+            index.scope_for_span(const_span).unwrap(),
+        );
+
+        // Get the actual value type
+        let value_type =
+            expression_semantic_type(db, crate_id, file, value_expr_id, Some(declared_type));
+
+        // Check compatibility
+        if !are_types_compatible(db, value_type, declared_type) {
+            sink.push(
+                Diagnostic::error(
+                    DiagnosticCode::TypeMismatch,
+                    format!(
+                        "Type mismatch in const declaration: expected `{}`, got `{}`",
+                        declared_type.data(db).display_name(db),
+                        value_type.data(db).display_name(db)
+                    ),
+                )
+                .with_location(file.file_path(db).to_string(), const_def.value.span()),
+            );
+        }
+    }
+
     /// Returns Some((name, name_span)) if the expression resolves to a const array
     fn expr_resolves_to_const_array(
         db: &dyn SemanticDb,
@@ -1418,44 +1478,15 @@ impl TypeValidator {
                 let _expr_id = index.expression_id_by_span(expr.span());
             }
             Statement::Const(const_def) => {
-                // Validate that the const value type matches the declared type
-                if let Some(ref type_ast) = const_def.ty {
-                    if let Some(value_expr_id) = index.expression_id_by_span(const_def.value.span())
-                    {
-                        // Get the declared type
-                        let declared_type = resolve_ast_type(
-                            db,
-                            crate_id,
-                            file,
-                            type_ast.clone(),
-                            index.scope_for_span(stmt.span()).unwrap(),
-                        );
-
-                        // Get the actual value type
-                        let value_type = expression_semantic_type(
-                            db,
-                            crate_id,
-                            file,
-                            value_expr_id,
-                            Some(declared_type),
-                        );
-
-                        // Check compatibility
-                        if !are_types_compatible(db, value_type, declared_type) {
-                            sink.push(
-                                Diagnostic::error(
-                                    DiagnosticCode::TypeMismatch,
-                                    format!(
-                                        "Type mismatch in const declaration: expected `{}`, got `{}`",
-                                        declared_type.data(db).display_name(db),
-                                        value_type.data(db).display_name(db)
-                                    ),
-                                )
-                                .with_location(file.file_path(db).to_string(), const_def.value.span()),
-                            );
-                        }
-                    }
-                }
+                Self::check_const_declared_type(
+                    db,
+                    crate_id,
+                    file,
+                    index,
+                    const_def,
+                    stmt.span(),
+                    sink,
+                );
             }
             Statement::Loop { body } => {
                 self.check_statement_type(db, crate_id, file, index, function_def, body, sink);
-- 
2.43.0


From ea10def8e67a01aff74c37ee67efdb501ed0b9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:28 +0000
Subject: [PATCH 07/66] fix: exclude a constant from the scope of its own
 initialiser

---
 .../compiler/semantic/src/semantic_index.rs   | 35 +++++++++----------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/crates/compiler/semantic/src/semantic_index.rs b/crates/compiler/semantic/src/semantic_index.rs
index 62a2f21..738988f 100644
--- a/crates/compiler/semantic/src/semantic_index.rs
+++ b/crates/compiler/semantic/src/semantic_index.rs
@@ -412,7 +412,7 @@ impl SemanticIndex {
 
     /// Resolve a name as of a specific source position by walking up the scope chain,
     /// respecting temporal ordering for shadowed variables. The returned definition must
-    /// have been declared no later than `position.start`, and `let` initializers that
+    /// have been declared no later than `position.start`, and `let`/`const` initializers that
     /// contain this usage are skipped to avoid self-referential cycles.
     pub fn resolve_name_at_position(
         &self,
@@ -441,23 +441,22 @@ impl SemanticIndex {
                             continue;
                         }
 
-                        // Skip if usage falls inside this let initializer
-                        let skip =
-                            if let crate::definition::DefinitionKind::Let(let_ref) = &def.kind {
-                                if let Some(init_expr_id) = let_ref.value_expr_id {
-                                    if let Some(init_expr) = self.expression(init_expr_id) {
-                                        let init_span = init_expr.ast_span;
-                                        position.start >= init_span.start
-                                            && position.end <= init_span.end
-                                    } else {
-                                        false
-                                    }
-                                } else {
-                                    false
-                                }
-                            } else {
-                                false
-                            };
+                        // Skip if usage falls inside this let (or const) initializer
+                        let init_expr_id = match &def.kind {
+                            crate::definition::DefinitionKind::Let(let_ref) => {
+                                let_ref.value_expr_id
+                            }
+                            crate::definition::DefinitionKind::Const(const_ref) => {
+                                const_ref.value_expr_id
+                            }
+                            _ => None,
+                        };
+                        let skip = init_expr_id
+                            .and_then(|init_expr_id| self.expression(init_expr_id))
+                            .is_some_and(|init_expr| {
+                                let init_span = init_expr.ast_span;
+                                position.start >= init_span.start && position.end <= init_span.end
+                            });
                         if skip {
                             continue;
                         }
-- 
2.43.0


From c4c23e4873a56a971d03c924daf8703e2dea255b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:21 +0000
Subject: [PATCH 08/66] fix: report recursive structs instead of failing on a
 query cycle

---
 .../compiler/semantic/src/type_resolution.rs  | 92 ++++++++++++++++++-
 .../semantic/src/validation/type_validator.rs | 21 +++++
 2 files changed, 109 insertions(+), 4 deletions(-)

diff --git a/crates/compiler/semantic/src/type_resolution.rs b/crates/compiler/semantic/src/type_resolution.rs
index 1290820..bcbf55a 100644
--- a/crates/compiler/semantic/src/type_resolution.rs
+++ b/crates/compiler/semantic/src/type_resolution.rs
@@ -12,6 +12,8 @@
 //! - `function_semantic_signature`: Resolves function signature information
 //! - `are_types_compatible`: Checks type compatibility
 
+use std::collections::HashSet;
+
 use cairo_m_compiler_parser::parser::{
     BinaryOp, Expression, NamedType, Spanned, TypeExpr as AstTypeExpr, UnaryOp,
 };
@@ -21,7 +23,7 @@ use crate::builtins::{self, BuiltinFn};
 use crate::db::{Crate, SemanticDb, module_name_for_file, module_semantic_index};
 use crate::definition::{DefinitionKind, FunctionDefRef, ParameterDefRef, StructDefRef};
 use crate::place::FileScopeId;
-use crate::semantic_index::{DefinitionId, ExpressionId, Origin};
+use crate::semantic_index::{DefinitionId, DefinitionIndex, ExpressionId, Origin, SemanticIndex};
 use crate::types::{FunctionSignatureId, StructTypeId, TypeData, TypeId};
 
 /// Resolves an AST type expression to a `TypeId`
@@ -55,9 +57,19 @@ pub fn resolve_ast_type<'db>(
                 NamedType::Bool => TypeId::new(db, TypeData::Bool),
                 NamedType::U32 => TypeId::new(db, TypeData::U32),
                 NamedType::Custom(name_str) => {
-                    // Try to resolve as a struct type using scope-chain helper (supports forward refs)
+                    // Try to resolve as a struct type using scope-chain helper (supports forward refs).
+                    // Only a struct, or an import of one, names a type: the type of any other
+                    // definition is not needed, and may itself depend on the type being resolved.
                     semantic_index
                         .latest_definition_index_by_name_in_chain(context_scope_id, name_str)
+                        .filter(|def_idx| {
+                            semantic_index.definition(*def_idx).is_some_and(|def| {
+                                matches!(
+                                    def.kind,
+                                    DefinitionKind::Struct(_) | DefinitionKind::Use(_)
+                                )
+                            })
+                        })
                         .map(|def_idx| {
                             let def_id = DefinitionId::new(db, file, def_idx);
                             let def_type = definition_semantic_type(db, crate_id, def_id);
@@ -889,6 +901,69 @@ pub fn expression_semantic_type<'db>(
     }
 }
 
+/// Whether a type expression mentions the struct `target` of the same module, directly or through
+/// the fields of other structs of the module. (Imports are acyclic, so a struct of another module
+/// cannot mention `target`.)
+pub(crate) fn type_expr_mentions_struct(
+    index: &SemanticIndex,
+    scope_id: FileScopeId,
+    type_expr: &Spanned<AstTypeExpr>,
+    target: DefinitionIndex,
+) -> bool {
+    fn mentions(
+        index: &SemanticIndex,
+        scope_id: FileScopeId,
+        type_expr: &AstTypeExpr,
+        target: DefinitionIndex,
+        visited: &mut HashSet<DefinitionIndex>,
+    ) -> bool {
+        match type_expr {
+            AstTypeExpr::Named(name) => {
+                let NamedType::Custom(name) = name.value() else {
+                    return false;
+                };
+                let Some(def_idx) = index.latest_definition_index_by_name_in_chain(scope_id, name)
+                else {
+                    return false;
+                };
+                if def_idx == target {
+                    return true;
+                }
+                if !visited.insert(def_idx) {
+                    return false;
+                }
+                match index.definition(def_idx) {
+                    Some(def) => match &def.kind {
+                        DefinitionKind::Struct(struct_ref) => {
+                            struct_ref.fields_ast.iter().any(|(_, field_type)| {
+                                mentions(index, def.scope_id, field_type.value(), target, visited)
+                            })
+                        }
+                        _ => false,
+                    },
+                    None => false,
+                }
+            }
+            AstTypeExpr::Pointer(inner) => {
+                mentions(index, scope_id, inner.value(), target, visited)
+            }
+            AstTypeExpr::Tuple(elements) => elements
+                .iter()
+                .any(|element| mentions(index, scope_id, element.value(), target, visited)),
+            AstTypeExpr::FixedArray { element_type, .. } => {
+                mentions(index, scope_id, element_type.value(), target, visited)
+            }
+        }
+    }
+    mentions(
+        index,
+        scope_id,
+        type_expr.value(),
+        target,
+        &mut HashSet::new(),
+    )
+}
+
 /// Retrieves the semantic data for a struct definition
 #[salsa::tracked]
 pub fn struct_semantic_data<'db>(
@@ -908,8 +983,17 @@ pub fn struct_semantic_data<'db>(
     if let DefinitionKind::Struct(StructDefRef { fields_ast, name }) = &definition.kind {
         let mut fields = Vec::new();
         for field_def in fields_ast {
-            let field_type =
-                resolve_ast_type(db, crate_id, file, field_def.1.clone(), definition.scope_id);
+            let field_type = if type_expr_mentions_struct(
+                &semantic_index,
+                definition.scope_id,
+                &field_def.1,
+                def_index,
+            ) {
+                // Recursive structs are not supported (reported by the type validator)
+                TypeId::new(db, TypeData::Error)
+            } else {
+                resolve_ast_type(db, crate_id, file, field_def.1.clone(), definition.scope_id)
+            };
             fields.push((field_def.0.clone(), field_type));
         }
 
diff --git a/crates/compiler/semantic/src/validation/type_validator.rs b/crates/compiler/semantic/src/validation/type_validator.rs
index d08bbc0..a63ff5a 100644
--- a/crates/compiler/semantic/src/validation/type_validator.rs
+++ b/crates/compiler/semantic/src/validation/type_validator.rs
@@ -27,6 +27,7 @@ use crate::semantic_index::{DefinitionId as SemDefinitionId, ExpressionInfo};
 use crate::type_resolution::{
     are_types_compatible, definition_semantic_type as sem_definition_type,
     expression_semantic_type, get_binary_op_signatures, get_unary_op_signatures, resolve_ast_type,
+    type_expr_mentions_struct,
 };
 use crate::types::{TypeData, TypeId};
 use crate::validation::Validator;
@@ -94,6 +95,26 @@ impl Validator for TypeValidator {
             }
         }
 
+        // Check all struct definitions for fields that contain the struct itself
+        for (def_idx, definition) in index.all_definitions() {
+            if let DefinitionKind::Struct(struct_ref) = &definition.kind {
+                for (field_name, field_type) in &struct_ref.fields_ast {
+                    if type_expr_mentions_struct(index, definition.scope_id, field_type, def_idx) {
+                        sink.push(
+                            Diagnostic::error(
+                                DiagnosticCode::InvalidTypeDefinition,
+                                format!(
+                                    "recursive struct `{}`: field `{}` refers to the struct itself",
+                                    definition.name, field_name
+                                ),
+                            )
+                            .with_location(file.file_path(db).to_string(), field_type.span()),
+                        );
+                    }
+                }
+            }
+        }
+
         for (_def_idx, definition) in index.all_definitions() {
             if let DefinitionKind::Function(_) = &definition.kind {
                 self.analyze_function_statement_types(
-- 
2.43.0


From efa8bb243b0d2291a4e56d26fd0940cff2b4f5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:45 +0000
Subject: [PATCH 09/66] fix: report cyclic imports on the per-module path too

---
 crates/compiler/semantic/src/db.rs | 57 +++++++++++++++++++++++-------
 1 file changed, 44 insertions(+), 13 deletions(-)

diff --git a/crates/compiler/semantic/src/db.rs b/crates/compiler/semantic/src/db.rs
index 9d3c64a..486d2fb 100644
--- a/crates/compiler/semantic/src/db.rs
+++ b/crates/compiler/semantic/src/db.rs
@@ -11,7 +11,7 @@ use std::collections::hash_map::Entry;
 use std::path::PathBuf;
 
 use cairo_m_compiler_diagnostics::{Diagnostic, DiagnosticCode, DiagnosticCollection};
-use cairo_m_compiler_parser::parser::TopLevelItem;
+use cairo_m_compiler_parser::parser::{TopLevelItem, UseStmt};
 use cairo_m_compiler_parser::{self as parser, parse_file};
 #[allow(unused_imports)]
 use parser::ParserDatabaseImpl;
@@ -231,6 +231,16 @@ pub fn project_parsed_modules(
     parsed
 }
 
+/// The name of the module a `use` imports from
+fn import_path(use_stmt: &UseStmt) -> String {
+    use_stmt
+        .path
+        .iter()
+        .map(|p| p.value().clone())
+        .collect::<Vec<_>>()
+        .join("::")
+}
+
 #[salsa::tracked]
 pub fn project_import_graph(db: &dyn SemanticDb, crate_id: Crate) -> HashMap<String, Vec<String>> {
     let parsed = project_parsed_modules(db, crate_id);
@@ -240,15 +250,8 @@ pub fn project_import_graph(db: &dyn SemanticDb, crate_id: Crate) -> HashMap<Str
         for item in parsed_module.items() {
             if let TopLevelItem::Use(use_spanned) = item {
                 let use_stmt = use_spanned.value();
-                let path_len = use_stmt.path.len();
-                if path_len > 0 {
-                    let imported_module = use_stmt
-                        .path
-                        .iter()
-                        .map(|p| p.value().clone())
-                        .collect::<Vec<_>>()
-                        .join("::");
-                    imports.push(imported_module);
+                if !use_stmt.path.is_empty() {
+                    imports.push(import_path(use_stmt));
                 }
             }
         }
@@ -258,6 +261,16 @@ pub fn project_import_graph(db: &dyn SemanticDb, crate_id: Crate) -> HashMap<Str
 }
 
 fn detect_import_cycle(graph: &HashMap<String, Vec<String>>) -> Option<Vec<String>> {
+    let mut sorted_keys = graph.keys().collect::<Vec<_>>();
+    sorted_keys.sort();
+    detect_import_cycle_from(graph, &sorted_keys)
+}
+
+/// Finds an import cycle that can be reached from one of `roots`.
+fn detect_import_cycle_from(
+    graph: &HashMap<String, Vec<String>>,
+    roots: &[&String],
+) -> Option<Vec<String>> {
     let mut visited: HashMap<String, i32> = HashMap::new();
     let mut path: Vec<String> = Vec::new();
     let mut cycle: Option<Vec<String>> = None;
@@ -298,9 +311,7 @@ fn detect_import_cycle(graph: &HashMap<String, Vec<String>>) -> Option<Vec<Strin
         visited.insert(node.clone(), 2);
     }
 
-    let mut sorted_keys = graph.keys().collect::<Vec<_>>();
-    sorted_keys.sort();
-    for node in sorted_keys {
+    for &node in roots {
         if !visited.contains_key(node) {
             dfs(graph, &mut visited, &mut path, node, &mut cycle);
             if cycle.is_some() {
@@ -437,6 +448,26 @@ pub fn module_semantic_index(
         )
     })?;
 
+    // Indexing a module follows its imports, which must therefore not lead into a cycle
+    let graph = project_import_graph(db, crate_id);
+    if let Some(cycle) = detect_import_cycle_from(&graph, &[&module_name]) {
+        let mut diagnostic = Diagnostic::error(
+            DiagnosticCode::SyntaxError,
+            format!("Cyclic import: {}", cycle.join(" -> ")),
+        );
+        // Point at the import through which the cycle is reached
+        for item in parsed_module.items() {
+            if let TopLevelItem::Use(use_spanned) = item
+                && detect_import_cycle_from(&graph, &[&import_path(use_spanned.value())]).is_some()
+            {
+                diagnostic = diagnostic
+                    .with_location(file.file_path(db).to_string(), use_spanned.span());
+                break;
+            }
+        }
+        return Err(diagnostic);
+    }
+
     Ok(semantic_index_from_module(
         db,
         &parsed_module,
-- 
2.43.0


From acfbeedb2c7dc1e1e08a1ca7e4d36888bbb81cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:15 +0000
Subject: [PATCH 10/66] fix: do not serve the diagnostics of another project,
 database or removed module

---
 .../semantic/src/delta_diagnostics.rs         | 124 +++---------------
 1 file changed, 18 insertions(+), 106 deletions(-)

diff --git a/crates/compiler/semantic/src/delta_diagnostics.rs b/crates/compiler/semantic/src/delta_diagnostics.rs
index 78d85ef..1a467e2 100644
--- a/crates/compiler/semantic/src/delta_diagnostics.rs
+++ b/crates/compiler/semantic/src/delta_diagnostics.rs
@@ -5,11 +5,11 @@
 //!
 //! ## Architecture
 //!
-//! The delta diagnostics system works by:
-//! 1. Tracking the last known revision for each module
-//! 2. Using Salsa's change detection to identify which modules have been modified
-//! 3. Only recomputing diagnostics for changed modules
-//! 4. Merging results with cached diagnostics from unchanged modules
+//! Which diagnostics have to be recomputed after a change is decided by Salsa, per module and
+//! including what a module imports: `module_all_diagnostics` is memoised, and only the modules
+//! that a change can affect are validated again. The tracker keeps no results of its own. A cache
+//! keyed by module name and revision can tell apart neither two projects that both have a `main`
+//! module nor two databases, and it outlives the modules it was filled from.
 //!
 //! ## Usage
 //!
@@ -18,142 +18,54 @@
 //!
 //! // Compute diagnostics (only changed modules will be recomputed)
 //! let diagnostics = delta_system.get_project_diagnostics(db, crate_id);
-//!
-//! // Update tracking after changes
-//! delta_system.mark_revision(db);
 //! ```
 
-use std::collections::HashMap;
-
 use cairo_m_compiler_diagnostics::DiagnosticCollection;
 use tracing::debug;
 
 use crate::db::{Crate, SemanticDb, module_all_diagnostics};
 
-/// Tracks the revision state for delta-based diagnostics computation
+/// Computes project diagnostics module by module
 #[derive(Debug, Clone)]
 pub struct DeltaDiagnosticsTracker {
-    /// Last known revision for each module
-    module_revisions: HashMap<String, salsa::Revision>,
-    /// Cached diagnostics for each module from the last computation
-    cached_diagnostics: HashMap<String, DiagnosticCollection>,
-    /// The overall project revision at last computation
+    /// The project revision at the last computation
     last_project_revision: Option<salsa::Revision>,
 }
 
 impl DeltaDiagnosticsTracker {
     /// Create a new delta diagnostics tracker
-    pub fn new() -> Self {
+    pub const fn new() -> Self {
         Self {
-            module_revisions: HashMap::new(),
-            cached_diagnostics: HashMap::new(),
             last_project_revision: None,
         }
     }
 
     /// Get diagnostics for the entire project, only recomputing changed modules
+    ///
+    /// The diagnostics are ordered by module name.
     pub fn get_project_diagnostics(
         &mut self,
         db: &dyn SemanticDb,
         crate_id: Crate,
     ) -> DiagnosticCollection {
         let current_revision = db.zalsa().current_revision();
-
-        // Check if this is the first computation or if anything has changed
-        let needs_full_recompute = self.last_project_revision.is_none()
-            || self.last_project_revision.unwrap() < current_revision;
-
-        if !needs_full_recompute {
-            debug!("[DELTA] No changes detected, using cached diagnostics");
-            return self.get_cached_project_diagnostics();
+        if self.last_project_revision == Some(current_revision) {
+            debug!("[DELTA] No changes since the last computation");
         }
 
-        let modules = crate_id.modules(db);
-        let mut total_diagnostics = DiagnosticCollection::default();
-
-        for (module_name, _file) in modules.iter() {
-            let module_changed = self.has_module_changed(db, crate_id, module_name.clone());
+        let mut module_names = crate_id.modules(db).into_keys().collect::<Vec<_>>();
+        module_names.sort();
 
-            if module_changed {
-                debug!(
-                    "[DELTA] Recomputing diagnostics for changed module: {}",
-                    module_name
-                );
-                let module_diagnostics = module_all_diagnostics(db, crate_id, module_name.clone());
-
-                // Update our cache
-                self.cached_diagnostics
-                    .insert(module_name.clone(), module_diagnostics.clone());
-                self.module_revisions
-                    .insert(module_name.clone(), current_revision);
-
-                total_diagnostics.extend(module_diagnostics.all().iter().cloned());
-            } else {
-                debug!(
-                    "[DELTA] Using cached diagnostics for unchanged module: {}",
-                    module_name
-                );
-                if let Some(cached_diag) = self.cached_diagnostics.get(module_name) {
-                    total_diagnostics.extend(cached_diag.all().iter().cloned());
-                } else {
-                    // Module wasn't in cache, need to compute it
-                    debug!("[DELTA] Module {} not in cache, computing", module_name);
-                    let module_diagnostics =
-                        module_all_diagnostics(db, crate_id, module_name.clone());
-                    self.cached_diagnostics
-                        .insert(module_name.clone(), module_diagnostics.clone());
-                    self.module_revisions
-                        .insert(module_name.clone(), current_revision);
-                    total_diagnostics.extend(module_diagnostics.all().iter().cloned());
-                }
-            }
+        let mut total_diagnostics = DiagnosticCollection::default();
+        for module_name in module_names {
+            let module_diagnostics = module_all_diagnostics(db, crate_id, module_name);
+            total_diagnostics.extend(module_diagnostics.all().iter().cloned());
         }
 
         self.last_project_revision = Some(current_revision);
 
         total_diagnostics
     }
-
-    /// Check if a specific module has changed since our last tracking
-    fn has_module_changed(
-        &self,
-        db: &dyn SemanticDb,
-        crate_id: Crate,
-        module_name: String,
-    ) -> bool {
-        let current_revision = db.zalsa().current_revision();
-
-        // If we don't have a tracked revision for this module, it's considered changed
-        if let Some(last_revision) = self.module_revisions.get(&module_name) {
-            if current_revision > *last_revision {
-                // Check if the actual module content has changed by querying the file
-                if let Some(file) = crate_id.modules(db).get(&module_name) {
-                    // This query will be cached by Salsa and will tell us if the content changed
-                    let _content = file.text(db);
-                    // If we reach here and the revision is newer, the content likely changed
-                    true
-                } else {
-                    false
-                }
-            } else {
-                false
-            }
-        } else {
-            // No previous revision tracked, consider it changed
-            true
-        }
-    }
-
-    /// Get all cached diagnostics combined (without recomputation)
-    fn get_cached_project_diagnostics(&self) -> DiagnosticCollection {
-        let mut total_diagnostics = DiagnosticCollection::default();
-
-        for cached_diag in self.cached_diagnostics.values() {
-            total_diagnostics.extend(cached_diag.all().iter().cloned());
-        }
-
-        total_diagnostics
-    }
 }
 
 impl Default for DeltaDiagnosticsTracker {
-- 
2.43.0


From 9bfc81c50e9577a4cfee25de98a2623c4a7e78ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:06 +0000
Subject: [PATCH 11/66] fix: infer returned literals from the function they are
 in, not the first of the module

---
 .../compiler/semantic/src/type_resolution.rs  | 65 ++++---------------
 1 file changed, 13 insertions(+), 52 deletions(-)

diff --git a/crates/compiler/semantic/src/type_resolution.rs b/crates/compiler/semantic/src/type_resolution.rs
index bcbf55a..3c401be 100644
--- a/crates/compiler/semantic/src/type_resolution.rs
+++ b/crates/compiler/semantic/src/type_resolution.rs
@@ -348,58 +348,19 @@ pub fn expression_semantic_type<'db>(
             }
             Origin::Condition { .. } => Some(TypeId::new(db, TypeData::Bool)),
             Origin::ReturnExpr => {
-                // Get the function's return type as context for return expressions
-                // We need to find the containing function to get its return type
-
-                // Walk up the scope hierarchy to find a function scope
-                let expr_scope = expr_info.scope_id;
-                let mut current_scope = Some(expr_scope);
-
-                let mut result = None;
-                while let Some(scope_id) = current_scope {
-                    // Check if this scope has a function definition
-                    for (def_idx, def) in semantic_index.all_definitions() {
-                        if let DefinitionKind::Function(_func_def) = &def.kind {
-                            // Check if this function's scope contains our expression
-                            // Functions create a new scope, so we need to check if our expression
-                            // is within the function's body scope
-                            if def.scope_id == scope_id
-                                || semantic_index
-                                    .scope(expr_scope)
-                                    .and_then(|s| {
-                                        let mut parent = s.parent;
-                                        while let Some(p) = parent {
-                                            if p == def.scope_id {
-                                                return Some(true);
-                                            }
-                                            parent =
-                                                semantic_index.scope(p).and_then(|ps| ps.parent);
-                                        }
-                                        None
-                                    })
-                                    .unwrap_or(false)
-                            {
-                                // Found the containing function, get its signature
-                                let def_id = DefinitionId::new(db, file, def_idx);
-                                if let Some(signature) =
-                                    function_semantic_signature(db, crate_id, def_id)
-                                {
-                                    result = Some(signature.return_type(db));
-                                    break;
-                                }
-                            }
-                        }
-                    }
-
-                    if result.is_some() {
-                        break;
-                    }
-
-                    // Move to parent scope
-                    current_scope = semantic_index.scope(scope_id).and_then(|s| s.parent);
-                }
-
-                result
+                // Use the return type of the function the expression is in as context.
+                semantic_index
+                    .all_definitions()
+                    .find(|(_, def)| {
+                        matches!(def.kind, DefinitionKind::Function(_))
+                            && def.full_span.start <= expr_info.ast_span.start
+                            && expr_info.ast_span.end <= def.full_span.end
+                    })
+                    .and_then(|(def_idx, _)| {
+                        let def_id = DefinitionId::new(db, file, def_idx);
+                        function_semantic_signature(db, crate_id, def_id)
+                    })
+                    .map(|signature| signature.return_type(db))
             }
             Origin::StructField { parent, field, .. } => {
                 semantic_index.expression(*parent).and_then(|parent_info| {
-- 
2.43.0


From e66aa9a66db8acd840d393994412abcf214756bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:18 +0000
Subject: [PATCH 12/66] fix: keep the type annotation of constants when
 formatting

---
 crates/compiler/formatter/src/rules/items.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/crates/compiler/formatter/src/rules/items.rs b/crates/compiler/formatter/src/rules/items.rs
index beaed17..13c2a17 100644
--- a/crates/compiler/formatter/src/rules/items.rs
+++ b/crates/compiler/formatter/src/rules/items.rs
@@ -145,14 +145,22 @@ impl Format for StructDef {
 
 impl Format for ConstDef {
     fn format(&self, ctx: &mut FormatterCtx) -> Doc {
-        Doc::concat(vec![
+        let mut parts = vec![
             Doc::text("const"),
             Doc::text(" "),
             Doc::text(self.name.value()),
-            Doc::text(" = "),
-            self.value.value().format(ctx),
-            Doc::text(";"),
-        ])
+        ];
+
+        if let Some(ty) = &self.ty {
+            parts.push(Doc::text(": "));
+            parts.push(ty.value().format(ctx));
+        }
+
+        parts.push(Doc::text(" = "));
+        parts.push(self.value.value().format(ctx));
+        parts.push(Doc::text(";"));
+
+        Doc::concat(parts)
     }
 }
 
-- 
2.43.0


From 653c907340da34d1abf47625edd32d5fb874e3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:21 +0000
Subject: [PATCH 13/66] fix: keep the comma of one-element tuples when
 formatting

---
 crates/compiler/formatter/src/rules/expressions.rs |  2 +-
 crates/compiler/formatter/src/rules/types.rs       |  2 +-
 crates/compiler/formatter/src/utils.rs             | 10 ++++++++++
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/compiler/formatter/src/rules/expressions.rs b/crates/compiler/formatter/src/rules/expressions.rs
index b9cce2e..a57c6eb 100644
--- a/crates/compiler/formatter/src/rules/expressions.rs
+++ b/crates/compiler/formatter/src/rules/expressions.rs
@@ -54,7 +54,7 @@ impl Format for Expression {
                     .iter()
                     .map(|e| e.value().format(ctx))
                     .collect::<Vec<_>>();
-                parens(comma_separated(elem_docs))
+                tuple(elem_docs)
             }
             Self::StructLiteral { name, fields } => {
                 let field_docs = fields
diff --git a/crates/compiler/formatter/src/rules/types.rs b/crates/compiler/formatter/src/rules/types.rs
index fe4e90f..2b23ce4 100644
--- a/crates/compiler/formatter/src/rules/types.rs
+++ b/crates/compiler/formatter/src/rules/types.rs
@@ -15,7 +15,7 @@ impl Format for TypeExpr {
                     .iter()
                     .map(|t| t.value().format(ctx))
                     .collect::<Vec<_>>();
-                parens(comma_separated(type_docs))
+                tuple(type_docs)
             }
             Self::FixedArray { element_type, size } => Doc::concat(vec![
                 Doc::text("["),
diff --git a/crates/compiler/formatter/src/utils.rs b/crates/compiler/formatter/src/utils.rs
index e04c7dd..f4b7991 100644
--- a/crates/compiler/formatter/src/utils.rs
+++ b/crates/compiler/formatter/src/utils.rs
@@ -15,6 +15,16 @@ pub fn parens(inner: Doc) -> Doc {
     Doc::concat(vec![Doc::text("("), inner, Doc::text(")")])
 }
 
+/// Helper function to create a tuple; a single element keeps its trailing comma
+pub fn tuple(mut items: Vec<Doc>) -> Doc {
+    if items.len() == 1 {
+        let item = items.remove(0);
+        parens(Doc::concat(vec![item, Doc::text(",")]))
+    } else {
+        parens(comma_separated(items))
+    }
+}
+
 /// Helper function to wrap in braces
 pub fn braces(inner: Doc) -> Doc {
     Doc::concat(vec![Doc::text("{"), inner, Doc::text("}")])
-- 
2.43.0


From ee4d0ade0fa19d5938eb2b72ec284b5cd0007b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:52 +0000
Subject: [PATCH 14/66] fix: keep every comment when formatting

---
 crates/compiler/formatter/src/api.rs          |   8 +-
 .../formatter/src/comment_attachment.rs       | 323 +++++-------------
 crates/compiler/formatter/src/context.rs      |   4 +
 crates/compiler/formatter/src/lib.rs          |   1 -
 crates/compiler/formatter/src/rules/items.rs  |  84 ++---
 .../formatter/src/rules/statements.rs         |  61 ++--
 .../formatter/src/simple_comment_preserver.rs |  43 ---
 crates/compiler/formatter/src/trivia.rs       |  16 +-
 8 files changed, 189 insertions(+), 351 deletions(-)
 delete mode 100644 crates/compiler/formatter/src/simple_comment_preserver.rs

diff --git a/crates/compiler/formatter/src/api.rs b/crates/compiler/formatter/src/api.rs
index 60d4d79..e76ae81 100644
--- a/crates/compiler/formatter/src/api.rs
+++ b/crates/compiler/formatter/src/api.rs
@@ -5,7 +5,6 @@ use crate::Format;
 use crate::comment_attachment::attach_comments_to_ast;
 use crate::config::FormatterConfig;
 use crate::context::FormatterCtx;
-use crate::simple_comment_preserver::format_with_comments;
 
 /// Format a source file
 pub fn format_source_file(
@@ -32,15 +31,12 @@ pub fn format_parsed_module(
 ) -> String {
     let mut ctx = FormatterCtx::new(cfg, original_text);
 
-    // Attach comments to AST nodes (excludes file-level comments)
+    // Attach comments to AST nodes
     let comment_buckets = attach_comments_to_ast(module, original_text);
     ctx.set_comments(comment_buckets);
 
     let doc = module.format(&mut ctx);
-    let formatted = doc.render(cfg.max_width);
-
-    // Apply file-level comment preservation
-    format_with_comments(&formatted, original_text)
+    doc.render(cfg.max_width)
 }
 
 /// Format a range within a source file
diff --git a/crates/compiler/formatter/src/comment_attachment.rs b/crates/compiler/formatter/src/comment_attachment.rs
index 537c198..2a9a059 100644
--- a/crates/compiler/formatter/src/comment_attachment.rs
+++ b/crates/compiler/formatter/src/comment_attachment.rs
@@ -1,11 +1,7 @@
-use cairo_m_compiler_parser::parser::{
-    Expression, FunctionDef, ParsedModule, Statement, TopLevelItem,
-};
+use cairo_m_compiler_parser::parser::{ParsedModule, Spanned, Statement, TopLevelItem};
 use chumsky::span::SimpleSpan;
 
-use crate::trivia::{
-    Comment, CommentBuckets, CommentPosition, determine_comment_position, scan_comments,
-};
+use crate::trivia::{Comment, CommentBuckets, scan_comments};
 
 /// Trait for AST nodes that have spans
 pub trait HasSpan {
@@ -13,274 +9,121 @@ pub trait HasSpan {
 }
 
 // Implement for Spanned<T> from the parser
-impl<T> HasSpan for cairo_m_compiler_parser::parser::Spanned<T> {
+impl<T> HasSpan for Spanned<T> {
     fn span(&self) -> SimpleSpan<usize> {
         self.span()
     }
 }
 
 /// Attach comments to AST nodes based on their spans
+///
+/// Every comment of the source is attached exactly once, to something that is printed
+/// together with its comments:
+/// - on the line on which an item or statement ends: trailing comment of that node
+/// - before an item or statement: leading comment of that node
+/// - after the last item or statement of a module or block: closing comment of it
+/// - inside an item or statement, but not in one of its blocks: leading comment of that node
 pub fn attach_comments_to_ast(module: &ParsedModule, source: &str) -> CommentBuckets {
-    let comments = scan_comments(source);
     let mut buckets = CommentBuckets::new();
-    let mut node_spans = Vec::new();
 
-    // Collect all node spans from the AST
-    collect_node_spans(module, &mut node_spans);
-
-    // Sort spans by start position for efficient attachment
-    node_spans.sort_by_key(|span| span.start);
-
-    // Find the first code position (non-comment, non-whitespace)
-    let first_code_pos = source
-        .lines()
-        .enumerate()
-        .find(|(_, line)| {
-            let trimmed = line.trim();
-            !trimmed.is_empty() && !trimmed.starts_with("//")
-        })
-        .map(|(line_num, _)| {
-            source
-                .lines()
-                .take(line_num)
-                .map(|l| l.len() + 1)
-                .sum::<usize>()
-                .saturating_sub(1)
-        })
-        .unwrap_or(0);
-
-    // For each comment, find the best node to attach it to
-    for comment in comments {
-        // Skip file-level comments (before first code)
-        if comment.span.start < first_code_pos {
-            continue;
-        }
-
-        if let Some(node_span) = find_best_attachment(&comment, &node_spans, source) {
-            match determine_comment_position(comment.span, node_span, source) {
-                Some(CommentPosition::Before) => {
-                    buckets.add_leading(node_span, comment);
-                }
-                Some(CommentPosition::EndOfLine) => {
-                    buckets.add_trailing(node_span, comment);
-                }
-                Some(CommentPosition::After) => {
-                    buckets.add_trailing(node_span, comment);
-                }
-                None => {
-                    // Orphaned comment - attach to nearest node
-                    if let Some(nearest) = find_nearest_node(&comment, &node_spans) {
-                        buckets.add_leading(nearest, comment);
-                    }
+    for comment in scan_comments(source) {
+        let spans: Vec<_> = module.items.iter().map(item_span).collect();
+        match locate(&comment, &spans, source) {
+            Location::Inside(index) => match &module.items[index] {
+                TopLevelItem::Function(func) => {
+                    let body = &func.value().body;
+                    attach_in_block(comment, body, func.span(), source, &mut buckets);
                 }
-            }
+                item => buckets.add_leading(item_span(item), comment),
+            },
+            Location::EndOfLine(index) => buckets.add_trailing(spans[index], comment),
+            Location::Before(index) => buckets.add_leading(spans[index], comment),
+            Location::End => buckets.module_closing.push(comment),
         }
     }
 
     buckets
 }
 
-/// Collect all spans from AST nodes
-fn collect_node_spans(module: &ParsedModule, spans: &mut Vec<SimpleSpan<usize>>) {
-    for item in &module.items {
-        collect_item_spans(item, spans);
+/// Attach a comment that lies in the block `statements`, which spans `block`
+fn attach_in_block(
+    comment: Comment,
+    statements: &[Spanned<Statement>],
+    block: SimpleSpan<usize>,
+    source: &str,
+    buckets: &mut CommentBuckets,
+) {
+    let spans: Vec<_> = statements.iter().map(|s| s.span()).collect();
+    match locate(&comment, &spans, source) {
+        Location::Inside(index) => {
+            let mut blocks = Vec::new();
+            collect_blocks(&statements[index], &mut blocks);
+            match blocks.iter().find(|(_, span)| contains(*span, &comment)) {
+                Some((inner, span)) => attach_in_block(comment, inner, *span, source, buckets),
+                None => buckets.add_leading(spans[index], comment),
+            }
+        }
+        Location::EndOfLine(index) => buckets.add_trailing(spans[index], comment),
+        Location::Before(index) => buckets.add_leading(spans[index], comment),
+        Location::End => buckets.add_closing(block, comment),
     }
 }
 
-fn collect_item_spans(item: &TopLevelItem, spans: &mut Vec<SimpleSpan<usize>>) {
-    match item {
-        TopLevelItem::Function(func) => {
-            spans.push(func.span());
-            collect_function_spans(func.value(), spans);
-        }
-        TopLevelItem::Struct(s) => {
-            spans.push(s.span());
-        }
-        TopLevelItem::Const(c) => {
-            spans.push(c.span());
-        }
-        TopLevelItem::Use(u) => {
-            spans.push(u.span());
+/// Where a comment lies relative to a sequence of nodes
+enum Location {
+    Inside(usize),
+    EndOfLine(usize),
+    Before(usize),
+    End,
+}
+
+fn locate(comment: &Comment, spans: &[SimpleSpan<usize>], source: &str) -> Location {
+    if let Some(index) = spans.iter().position(|span| contains(*span, comment)) {
+        return Location::Inside(index);
+    }
+    let next = spans.iter().position(|span| span.start >= comment.span.end);
+    let previous = next.unwrap_or(spans.len()).checked_sub(1);
+    if let Some(index) = previous {
+        if !source[spans[index].end..comment.span.start].contains('\n') {
+            return Location::EndOfLine(index);
         }
     }
+    next.map_or(Location::End, Location::Before)
 }
 
-fn collect_function_spans(func: &FunctionDef, spans: &mut Vec<SimpleSpan<usize>>) {
-    // Collect spans from function body statements
-    for stmt in &func.body {
-        collect_statement_spans(stmt, spans);
+fn contains(span: SimpleSpan<usize>, comment: &Comment) -> bool {
+    span.start <= comment.span.start && comment.span.end <= span.end
+}
+
+fn item_span(item: &TopLevelItem) -> SimpleSpan<usize> {
+    match item {
+        TopLevelItem::Function(f) => f.span(),
+        TopLevelItem::Struct(s) => s.span(),
+        TopLevelItem::Const(c) => c.span(),
+        TopLevelItem::Use(u) => u.span(),
     }
 }
 
-fn collect_statement_spans(
-    stmt: &cairo_m_compiler_parser::parser::Spanned<Statement>,
-    spans: &mut Vec<SimpleSpan<usize>>,
+/// Collect the blocks of a statement, outermost ones only
+fn collect_blocks<'a>(
+    stmt: &'a Spanned<Statement>,
+    blocks: &mut Vec<(&'a [Spanned<Statement>], SimpleSpan<usize>)>,
 ) {
-    spans.push(stmt.span());
-
-    // Recursively collect from nested statements and expressions
     match stmt.value() {
+        Statement::Block(statements) => blocks.push((statements, stmt.span())),
         Statement::If {
-            condition,
             then_block,
             else_block,
+            ..
         } => {
-            collect_expression_spans(condition, spans);
-            collect_statement_spans(then_block, spans);
+            collect_blocks(then_block, blocks);
             if let Some(else_stmt) = else_block {
-                collect_statement_spans(else_stmt, spans);
-            }
-        }
-        Statement::While { condition, body } => {
-            collect_expression_spans(condition, spans);
-            collect_statement_spans(body, spans);
-        }
-        Statement::For {
-            init,
-            condition,
-            step,
-            body,
-        } => {
-            collect_statement_spans(init, spans);
-            collect_expression_spans(condition, spans);
-            collect_statement_spans(step, spans);
-            collect_statement_spans(body, spans);
-        }
-        Statement::Block(statements) => {
-            for s in statements {
-                collect_statement_spans(s, spans);
-            }
-        }
-        Statement::Let { value, .. } => {
-            collect_expression_spans(value, spans);
-        }
-        Statement::Assignment { lhs, rhs } => {
-            collect_expression_spans(lhs, spans);
-            collect_expression_spans(rhs, spans);
-        }
-        Statement::Return { value: Some(expr) } => {
-            collect_expression_spans(expr, spans);
-        }
-        Statement::Return { value: None } => {}
-        Statement::Expression(expr) => {
-            collect_expression_spans(expr, spans);
-        }
-        _ => {} // Other statement types
-    }
-}
-
-fn collect_expression_spans(
-    expr: &cairo_m_compiler_parser::parser::Spanned<Expression>,
-    spans: &mut Vec<SimpleSpan<usize>>,
-) {
-    spans.push(expr.span());
-
-    // Recursively collect from nested expressions
-    match expr.value() {
-        Expression::BinaryOp { left, right, .. } => {
-            collect_expression_spans(left, spans);
-            collect_expression_spans(right, spans);
-        }
-        Expression::UnaryOp { expr, .. } => {
-            collect_expression_spans(expr, spans);
-        }
-        Expression::FunctionCall { callee, args } => {
-            collect_expression_spans(callee, spans);
-            for arg in args {
-                collect_expression_spans(arg, spans);
-            }
-        }
-        Expression::IndexAccess { array, index } => {
-            collect_expression_spans(array, spans);
-            collect_expression_spans(index, spans);
-        }
-        Expression::MemberAccess { object, .. } => {
-            collect_expression_spans(object, spans);
-        }
-        Expression::Tuple(elements) => {
-            for elem in elements {
-                collect_expression_spans(elem, spans);
+                collect_blocks(else_stmt, blocks);
             }
         }
-        Expression::Parenthesized(inner) => {
-            collect_expression_spans(inner, spans);
-        }
-        Expression::StructLiteral { fields, .. } => {
-            for (_, value) in fields {
-                collect_expression_spans(value, spans);
-            }
-        }
-        _ => {} // Literals and identifiers
+        Statement::While { body, .. }
+        | Statement::For { body, .. }
+        | Statement::Loop { body } => collect_blocks(body, blocks),
+        _ => {}
     }
 }
-
-/// Find the best node span to attach a comment to
-fn find_best_attachment(
-    comment: &Comment,
-    node_spans: &[SimpleSpan<usize>],
-    source: &str,
-) -> Option<SimpleSpan<usize>> {
-    // Find nodes that could be related to this comment
-    let mut candidates: Vec<(
-        SimpleSpan<usize>,
-        crate::trivia::CommentPosition,
-        usize,
-        u32,
-    )> = Vec::new();
-
-    for &span in node_spans {
-        if let Some(pos) = determine_comment_position(comment.span, span, source) {
-            // Distance from the relevant edge
-            let distance = if comment.span.start < span.start {
-                span.start.saturating_sub(comment.span.start)
-            } else {
-                comment.span.start.saturating_sub(span.end)
-            };
-
-            // Rank preferences: EndOfLine < Before < After
-            // docstrings ("///") should strongly prefer Before
-            let is_doc = comment.text.trim_start().starts_with("///");
-            let rank = match pos {
-                CommentPosition::EndOfLine => 0,
-                CommentPosition::Before => {
-                    if is_doc {
-                        0
-                    } else {
-                        1
-                    }
-                }
-                CommentPosition::After => {
-                    if is_doc {
-                        3
-                    } else {
-                        2
-                    }
-                }
-            };
-            candidates.push((span, pos, distance, rank));
-        }
-    }
-
-    // Prefer lower rank then smaller distance
-    candidates
-        .into_iter()
-        .min_by_key(|&(_span, _pos, distance, rank)| (rank, distance))
-        .map(|(span, _pos, _distance, _rank)| span)
-}
-
-/// Find the nearest node to a comment
-fn find_nearest_node(
-    comment: &Comment,
-    node_spans: &[SimpleSpan<usize>],
-) -> Option<SimpleSpan<usize>> {
-    node_spans
-        .iter()
-        .min_by_key(|&&span| {
-            if comment.span.start < span.start {
-                span.start - comment.span.start
-            } else {
-                comment.span.start - span.end
-            }
-        })
-        .copied()
-}
diff --git a/crates/compiler/formatter/src/context.rs b/crates/compiler/formatter/src/context.rs
index 0d5b7ff..c6c31f5 100644
--- a/crates/compiler/formatter/src/context.rs
+++ b/crates/compiler/formatter/src/context.rs
@@ -33,6 +33,10 @@ impl<'a> FormatterCtx<'a> {
         self.comments.get_trailing(span)
     }
 
+    pub fn get_closing_comments(&self, block_span: SimpleSpan<usize>) -> Vec<Comment> {
+        self.comments.get_closing(block_span).to_vec()
+    }
+
     pub fn set_comments(&mut self, comments: CommentBuckets) {
         self.comments = comments;
     }
diff --git a/crates/compiler/formatter/src/lib.rs b/crates/compiler/formatter/src/lib.rs
index d651f72..dff9c1a 100644
--- a/crates/compiler/formatter/src/lib.rs
+++ b/crates/compiler/formatter/src/lib.rs
@@ -5,7 +5,6 @@ pub mod config;
 pub mod context;
 pub mod doc;
 pub mod rules;
-pub mod simple_comment_preserver;
 pub mod trivia;
 pub mod utils;
 
diff --git a/crates/compiler/formatter/src/rules/items.rs b/crates/compiler/formatter/src/rules/items.rs
index 13c2a17..8137050 100644
--- a/crates/compiler/formatter/src/rules/items.rs
+++ b/crates/compiler/formatter/src/rules/items.rs
@@ -5,6 +5,8 @@ use cairo_m_compiler_parser::parser::{
 use crate::Format;
 use crate::context::FormatterCtx;
 use crate::doc::Doc;
+use crate::rules::statements::format_block;
+use crate::trivia::Comment;
 use crate::utils::*;
 
 impl Format for ParsedModule {
@@ -25,6 +27,16 @@ impl Format for ParsedModule {
             docs.push(Doc::line());
         }
 
+        // Add the comments after the last item
+        let closing = &ctx.comments.module_closing;
+        if !closing.is_empty() && !self.items.is_empty() {
+            docs.push(Doc::line());
+        }
+        for comment in closing {
+            docs.push(Doc::comment(&comment.text));
+            docs.push(Doc::line());
+        }
+
         Doc::concat(docs)
     }
 }
@@ -32,7 +44,10 @@ impl Format for ParsedModule {
 impl Format for TopLevelItem {
     fn format(&self, ctx: &mut FormatterCtx) -> Doc {
         let (span, inner_doc) = match self {
-            Self::Function(f) => (f.span(), f.value().format(ctx)),
+            Self::Function(f) => {
+                let closing = ctx.get_closing_comments(f.span());
+                (f.span(), format_function(f.value(), &closing, ctx))
+            }
             Self::Struct(s) => (s.span(), s.value().format(ctx)),
             Self::Const(c) => (c.span(), c.value().format(ctx)),
             Self::Use(u) => (u.span(), u.value().format(ctx)),
@@ -57,46 +72,39 @@ impl Format for TopLevelItem {
 
 impl Format for FunctionDef {
     fn format(&self, ctx: &mut FormatterCtx) -> Doc {
-        let mut parts = vec![
-            Doc::text("fn"),
-            Doc::text(" "),
-            Doc::text(self.name.value()),
-        ];
-
-        // Parameters
-        let params = self
-            .params
-            .iter()
-            .map(|p| p.format(ctx))
-            .collect::<Vec<_>>();
-        parts.push(parens(comma_separated(params)));
-
-        // Return type (skip empty unit type only if it's implicit - has span 0..0)
-        let is_implicit_unit = matches!(self.return_type.value(), cairo_m_compiler_parser::parser::TypeExpr::Tuple(types) if types.is_empty());
-
-        if !is_implicit_unit {
-            parts.push(Doc::text(" -> "));
-            parts.push(self.return_type.value().format(ctx));
-        }
-
-        // Body
-        parts.push(Doc::text(" {"));
-
-        if !self.body.is_empty() {
-            let stmts = self
-                .body
-                .iter()
-                .map(|s| Doc::concat(vec![Doc::line(), s.format(ctx)]))
-                .collect::<Vec<_>>();
+        format_function(self, &[], ctx)
+    }
+}
 
-            parts.push(Doc::indent(ctx.cfg.indent_width, Doc::concat(stmts)));
-            parts.push(Doc::line());
-        }
+/// Format a function, `closing` being the comments after its last statement
+fn format_function(func: &FunctionDef, closing: &[Comment], ctx: &mut FormatterCtx) -> Doc {
+    let mut parts = vec![
+        Doc::text("fn"),
+        Doc::text(" "),
+        Doc::text(func.name.value()),
+    ];
+
+    // Parameters
+    let params = func
+        .params
+        .iter()
+        .map(|p| p.format(ctx))
+        .collect::<Vec<_>>();
+    parts.push(parens(comma_separated(params)));
+
+    // Return type (skip empty unit type only if it's implicit - has span 0..0)
+    let is_implicit_unit = matches!(func.return_type.value(), cairo_m_compiler_parser::parser::TypeExpr::Tuple(types) if types.is_empty());
+
+    if !is_implicit_unit {
+        parts.push(Doc::text(" -> "));
+        parts.push(func.return_type.value().format(ctx));
+    }
 
-        parts.push(Doc::text("}"));
+    // Body
+    parts.push(Doc::text(" "));
+    parts.push(format_block(&func.body, closing, ctx));
 
-        Doc::concat(parts)
-    }
+    Doc::concat(parts)
 }
 
 impl Format for Parameter {
diff --git a/crates/compiler/formatter/src/rules/statements.rs b/crates/compiler/formatter/src/rules/statements.rs
index 4f989a5..a32e025 100644
--- a/crates/compiler/formatter/src/rules/statements.rs
+++ b/crates/compiler/formatter/src/rules/statements.rs
@@ -3,12 +3,19 @@ use cairo_m_compiler_parser::parser::{Pattern, Spanned, Statement};
 use crate::Format;
 use crate::context::FormatterCtx;
 use crate::doc::Doc;
+use crate::trivia::Comment;
 
 // Implement Format for Spanned<Statement> to handle comments
 impl Format for Spanned<Statement> {
     fn format(&self, ctx: &mut FormatterCtx) -> Doc {
         let span = self.span();
-        let mut doc = self.value().format(ctx);
+        let mut doc = match self.value() {
+            Statement::Block(statements) => {
+                let closing = ctx.get_closing_comments(span);
+                format_block(statements, &closing, ctx)
+            }
+            statement => statement.format(ctx),
+        };
 
         // Add leading comments
         if let Some(leading) = ctx.get_leading_comments(span) {
@@ -76,45 +83,30 @@ impl Format for Statement {
                     Doc::text(" "),
                     condition.value().format(ctx),
                     Doc::text(" "),
-                    then_block.value().format(ctx),
+                    then_block.format(ctx),
                 ];
 
                 if let Some(else_stmt) = else_block {
                     parts.push(Doc::text(" "));
                     parts.push(Doc::text("else"));
                     parts.push(Doc::text(" "));
-                    parts.push(else_stmt.value().format(ctx));
-                }
-
-                Doc::concat(parts)
-            }
-            Self::Block(statements) => {
-                let mut parts = vec![Doc::text("{")];
-
-                if !statements.is_empty() {
-                    let stmts = statements
-                        .iter()
-                        .map(|s| Doc::concat(vec![Doc::line(), s.value().format(ctx)]))
-                        .collect::<Vec<_>>();
-
-                    parts.push(Doc::indent(ctx.cfg.indent_width, Doc::concat(stmts)));
-                    parts.push(Doc::line());
+                    parts.push(else_stmt.format(ctx));
                 }
 
-                parts.push(Doc::text("}"));
                 Doc::concat(parts)
             }
+            Self::Block(statements) => format_block(statements, &[], ctx),
             Self::Loop { body } => Doc::concat(vec![
                 Doc::text("loop"),
                 Doc::text(" "),
-                body.value().format(ctx),
+                body.format(ctx),
             ]),
             Self::While { condition, body } => Doc::concat(vec![
                 Doc::text("while"),
                 Doc::text(" "),
                 condition.value().format(ctx),
                 Doc::text(" "),
-                body.value().format(ctx),
+                body.format(ctx),
             ]),
             Self::For {
                 init,
@@ -146,7 +138,7 @@ impl Format for Statement {
 
                 parts.push(Doc::text(")"));
                 parts.push(Doc::text(" "));
-                parts.push(body.value().format(ctx));
+                parts.push(body.format(ctx));
 
                 Doc::concat(parts)
             }
@@ -156,6 +148,31 @@ impl Format for Statement {
     }
 }
 
+/// Format a block, `closing` being the comments after its last statement
+pub fn format_block(
+    statements: &[Spanned<Statement>],
+    closing: &[Comment],
+    ctx: &mut FormatterCtx,
+) -> Doc {
+    let mut lines = Vec::new();
+    for statement in statements {
+        lines.push(Doc::line());
+        lines.push(statement.format(ctx));
+    }
+    for comment in closing {
+        lines.push(Doc::line());
+        lines.push(Doc::comment(&comment.text));
+    }
+
+    let mut parts = vec![Doc::text("{")];
+    if !lines.is_empty() {
+        parts.push(Doc::indent(ctx.cfg.indent_width, Doc::concat(lines)));
+        parts.push(Doc::line());
+    }
+    parts.push(Doc::text("}"));
+    Doc::concat(parts)
+}
+
 impl Format for Pattern {
     fn format(&self, _ctx: &mut FormatterCtx) -> Doc {
         match self {
diff --git a/crates/compiler/formatter/src/simple_comment_preserver.rs b/crates/compiler/formatter/src/simple_comment_preserver.rs
deleted file mode 100644
index bcbf092..0000000
--- a/crates/compiler/formatter/src/simple_comment_preserver.rs
+++ /dev/null
@@ -1,43 +0,0 @@
-use chumsky::span::Span;
-
-/// Simple comment preservation strategy for MVP
-/// This approach re-inserts comments based on their original line positions
-use crate::trivia::scan_comments;
-
-pub fn format_with_comments(formatted_content: &str, original_content: &str) -> String {
-    // For MVP, we'll just prepend file-level comments
-    let comments = scan_comments(original_content);
-
-    if comments.is_empty() {
-        return formatted_content.to_string();
-    }
-
-    let mut output = String::new();
-
-    // Find comments that appear before any code
-    let first_non_comment_line = original_content
-        .lines()
-        .position(|line| {
-            let trimmed = line.trim();
-            !trimmed.is_empty() && !trimmed.starts_with("//")
-        })
-        .unwrap_or(0);
-
-    // Add leading comments
-    for comment in &comments {
-        let comment_line = original_content[..comment.span.start()]
-            .chars()
-            .filter(|&c| c == '\n')
-            .count();
-
-        if comment_line < first_non_comment_line {
-            output.push_str(&comment.text);
-            output.push('\n');
-        }
-    }
-
-    // Add the formatted content
-    output.push_str(formatted_content);
-
-    output
-}
diff --git a/crates/compiler/formatter/src/trivia.rs b/crates/compiler/formatter/src/trivia.rs
index e80af65..2eeaa3e 100644
--- a/crates/compiler/formatter/src/trivia.rs
+++ b/crates/compiler/formatter/src/trivia.rs
@@ -13,6 +13,10 @@ pub struct Comment {
 pub struct CommentBuckets {
     pub leading: HashMap<SimpleSpan<usize>, Vec<Comment>>,
     pub trailing: HashMap<SimpleSpan<usize>, Vec<Comment>>,
+    /// Comments after the last statement of a function body or block
+    pub closing: HashMap<SimpleSpan<usize>, Vec<Comment>>,
+    /// Comments after the last item of the module
+    pub module_closing: Vec<Comment>,
 }
 
 impl CommentBuckets {
@@ -28,6 +32,10 @@ impl CommentBuckets {
         self.trailing.entry(node_span).or_default().push(comment);
     }
 
+    pub fn add_closing(&mut self, block_span: SimpleSpan<usize>, comment: Comment) {
+        self.closing.entry(block_span).or_default().push(comment);
+    }
+
     pub fn get_leading(&self, span: SimpleSpan<usize>) -> Option<&[Comment]> {
         self.leading.get(&span).map(|v| v.as_slice())
     }
@@ -35,6 +43,10 @@ impl CommentBuckets {
     pub fn get_trailing(&self, span: SimpleSpan<usize>) -> Option<&[Comment]> {
         self.trailing.get(&span).map(|v| v.as_slice())
     }
+
+    pub fn get_closing(&self, block_span: SimpleSpan<usize>) -> &[Comment] {
+        self.closing.get(&block_span).map_or(&[], |v| v.as_slice())
+    }
 }
 
 /// Scan source text for comments
@@ -54,7 +66,9 @@ pub fn scan_comments(source: &str) -> Vec<Comment> {
                 i += 1;
             }
 
-            let text = String::from_utf8_lossy(&bytes[start..i]).to_string();
+            let text = String::from_utf8_lossy(&bytes[start..i])
+                .trim_end()
+                .to_string();
             comments.push(Comment {
                 text,
                 span: SimpleSpan::from(start..i),
-- 
2.43.0


From 2e4637d2ae0212c748ac5bb666989043f48e751f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:42 +0000
Subject: [PATCH 15/66] fix: keep the parentheses that keep a condition apart
 from an empty body when formatting

---
 .../formatter/src/rules/statements.rs         | 34 +++++++++++++++++--
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/crates/compiler/formatter/src/rules/statements.rs b/crates/compiler/formatter/src/rules/statements.rs
index a32e025..369aaa6 100644
--- a/crates/compiler/formatter/src/rules/statements.rs
+++ b/crates/compiler/formatter/src/rules/statements.rs
@@ -1,9 +1,10 @@
-use cairo_m_compiler_parser::parser::{Pattern, Spanned, Statement};
+use cairo_m_compiler_parser::parser::{Expression, Pattern, Spanned, Statement};
 
 use crate::Format;
 use crate::context::FormatterCtx;
 use crate::doc::Doc;
 use crate::trivia::Comment;
+use crate::utils::parens;
 
 // Implement Format for Spanned<Statement> to handle comments
 impl Format for Spanned<Statement> {
@@ -81,7 +82,7 @@ impl Format for Statement {
                 let mut parts = vec![
                     Doc::text("if"),
                     Doc::text(" "),
-                    condition.value().format(ctx),
+                    format_condition(condition, then_block, ctx),
                     Doc::text(" "),
                     then_block.format(ctx),
                 ];
@@ -104,7 +105,7 @@ impl Format for Statement {
             Self::While { condition, body } => Doc::concat(vec![
                 Doc::text("while"),
                 Doc::text(" "),
-                condition.value().format(ctx),
+                format_condition(condition, body, ctx),
                 Doc::text(" "),
                 body.format(ctx),
             ]),
@@ -148,6 +149,33 @@ impl Format for Statement {
     }
 }
 
+/// Format the condition in front of `body`
+///
+/// Parentheses around conditions are dropped, except where the condition and an empty body
+/// would then read as a struct literal: `while (a) {}`.
+fn format_condition(
+    condition: &Spanned<Expression>,
+    body: &Spanned<Statement>,
+    ctx: &mut FormatterCtx,
+) -> Doc {
+    let doc = condition.value().format(ctx);
+    let empty = matches!(body.value(), Statement::Block(statements) if statements.is_empty());
+    if empty && ends_with_identifier(condition.value()) {
+        parens(doc)
+    } else {
+        doc
+    }
+}
+
+fn ends_with_identifier(expr: &Expression) -> bool {
+    match expr {
+        Expression::Identifier(_) => true,
+        Expression::UnaryOp { expr, .. } => ends_with_identifier(expr.value()),
+        Expression::BinaryOp { right, .. } => ends_with_identifier(right.value()),
+        _ => false,
+    }
+}
+
 /// Format a block, `closing` being the comments after its last statement
 pub fn format_block(
     statements: &[Spanned<Statement>],
-- 
2.43.0


From d0c9541ed6f59b2cc81db4884993e044a47188e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:48 +0000
Subject: [PATCH 16/66] fix: do not put :: in front of an import without a path
 when formatting

---
 crates/compiler/formatter/src/rules/items.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/compiler/formatter/src/rules/items.rs b/crates/compiler/formatter/src/rules/items.rs
index 8137050..0f30a7b 100644
--- a/crates/compiler/formatter/src/rules/items.rs
+++ b/crates/compiler/formatter/src/rules/items.rs
@@ -183,8 +183,10 @@ impl Format for UseStmt {
             .map(|p| p.value().as_str())
             .collect::<Vec<_>>()
             .join("::");
-        parts.push(Doc::text(path_str));
-        parts.push(Doc::text("::"));
+        if !self.path.is_empty() {
+            parts.push(Doc::text(path_str));
+            parts.push(Doc::text("::"));
+        }
 
         // Format the items
         match &self.items {
-- 
2.43.0


From 9464d936d7adbf7b98712f093a41d65caf46caa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:18 +0000
Subject: [PATCH 17/66] fix: decide missing returns by whether the end of the
 function can be reached

A loop that can be left by break does not guarantee a return, even if its body
ends with one; an endless loop without break never reaches the end.
---
 .../src/validation/control_flow_validator.rs  | 85 ++++---------------
 1 file changed, 18 insertions(+), 67 deletions(-)

diff --git a/crates/compiler/semantic/src/validation/control_flow_validator.rs b/crates/compiler/semantic/src/validation/control_flow_validator.rs
index b9c8828..3189bc3 100644
--- a/crates/compiler/semantic/src/validation/control_flow_validator.rs
+++ b/crates/compiler/semantic/src/validation/control_flow_validator.rs
@@ -261,84 +261,35 @@ impl ControlFlowValidator {
 
     /// Returns `true` if the function body guarantees a return on all paths.
     fn body_returns_on_all_paths(statements: &[Spanned<Statement>]) -> bool {
-        if statements.is_empty() {
-            return false;
-        }
-
-        // Check for an early, hard return in all but the last statement.
-        for stmt in &statements[..statements.len() - 1] {
-            if Self::statement_guarantees_hard_return(stmt) {
-                return true;
-            }
-        }
-
-        // If no early return, the outcome depends on the last statement providing a value.
-        Self::statement_provides_return_value(statements.last().unwrap())
+        !Self::sequence_falls_through(statements)
     }
 
-    /// Checks if a statement can provide a return value, only explicitly (`return`).
-    fn statement_provides_return_value(stmt: &Spanned<Statement>) -> bool {
-        match stmt.value() {
-            Statement::Return { .. } => true,
-            Statement::Block(body) => Self::body_returns_on_all_paths(body),
-            Statement::If {
-                then_block,
-                else_block,
-                ..
-            } => {
-                let then_returns = Self::statement_provides_return_value(then_block);
-                // An `if` must have an `else` to guarantee a return.
-                let else_returns = else_block
-                    .as_ref()
-                    .is_some_and(|eb| Self::statement_provides_return_value(eb));
-                then_returns && else_returns
-            }
-            Statement::Loop { body } => {
-                // Loop statements can provide returns if they contain return statements
-                // TODO: This could be improved to check if all break paths lead to returns
-                Self::statement_provides_return_value(body)
-            }
-            Statement::While { .. } => {
-                // While loops might not execute, so they can't guarantee a return
-                false
-            }
-            Statement::For { .. } => {
-                // For loops might not execute, so they can't guarantee a return
-                false
-            }
-            _ => false, // `let`, `const`, `assign`, `expression`, `break`, and `continue` do not provide return values.
-        }
+    /// Returns `true` if control can reach the end of a sequence of statements.
+    fn sequence_falls_through(statements: &[Spanned<Statement>]) -> bool {
+        statements.iter().all(Self::statement_falls_through)
     }
 
-    /// Checks if a statement guarantees an *explicit* `return`. Used for statements
-    /// that are not the last in a block. Expressions do not count.
-    fn statement_guarantees_hard_return(stmt: &Spanned<Statement>) -> bool {
+    /// Returns `true` if control can move on to what follows a statement.
+    fn statement_falls_through(stmt: &Spanned<Statement>) -> bool {
         match stmt.value() {
-            Statement::Return { .. } => true,
-            Statement::Block(body) => {
-                // A block has a hard return if any of its statements has one.
-                body.iter().any(Self::statement_guarantees_hard_return)
-            }
+            Statement::Return { .. } => false,
+            Statement::Block(body) => Self::sequence_falls_through(body),
             Statement::If {
                 then_block,
                 else_block,
                 ..
             } => {
-                let then_returns = Self::statement_guarantees_hard_return(then_block);
-                let else_returns = else_block
-                    .as_ref()
-                    .is_some_and(|eb| Self::statement_guarantees_hard_return(eb));
-                then_returns && else_returns
-            }
-            Statement::Loop { body } => {
-                // Check if the loop body has a hard return
-                Self::statement_guarantees_hard_return(body)
-            }
-            Statement::While { .. } | Statement::For { .. } => {
-                // While and for loops might not execute, so they don't guarantee hard returns
-                false
+                // Without an `else`, a false condition falls through
+                Self::statement_falls_through(then_block)
+                    || else_block
+                        .as_ref()
+                        .is_none_or(|eb| Self::statement_falls_through(eb))
             }
-            _ => false, // let, const, assign, expression, break, and continue are not hard returns.
+            // An endless loop is only left through a `break`
+            Statement::Loop { body } => Self::contains_break(body),
+            // While and for loops might not execute at all. `break` and `continue` are only
+            // seen here outside of loops, where they are errors of their own.
+            _ => true,
         }
     }
 
-- 
2.43.0


From 7b84e06c5dc7116384045ee7c177ee9a7419dddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:10 +0000
Subject: [PATCH 18/66] fix: do not let the type expected of a call, cast or
 access reach its operands

The type annotation of a let or a struct field reached every literal inside the
value, so `let v: u32 = f(5) + 1` took 5 for a u32 whatever f expects, and
`let v: felt = -x` was reported as a negative literal.
---
 .../compiler/semantic/src/semantic_index.rs   | 24 +++++++++++--------
 .../compiler/semantic/src/type_resolution.rs  | 24 +++++++++----------
 .../src/validation/literal_validator.rs       | 17 +++++++++----
 3 files changed, 39 insertions(+), 26 deletions(-)

diff --git a/crates/compiler/semantic/src/semantic_index.rs b/crates/compiler/semantic/src/semantic_index.rs
index 738988f..14ea16e 100644
--- a/crates/compiler/semantic/src/semantic_index.rs
+++ b/crates/compiler/semantic/src/semantic_index.rs
@@ -1092,7 +1092,9 @@ impl<'db, 'sink> SemanticIndexBuilder<'db, 'sink> {
                 self.visit_expr(inner);
             }
             Expression::FunctionCall { callee, args } => {
-                self.visit_expr(callee);
+                // The type expected of the call says nothing about the callee and the arguments:
+                // the expected types of the arguments are the types of the parameters.
+                self.with_expected_type(None, |builder| builder.visit_expr(callee));
                 // Get the callee expression ID for context
                 if let Some(callee_expr_id) = self.index.expression_id_by_span(callee.span()) {
                     for (index, arg) in args.iter().enumerate() {
@@ -1100,21 +1102,23 @@ impl<'db, 'sink> SemanticIndexBuilder<'db, 'sink> {
                             callee: callee_expr_id,
                             index,
                         };
-                        self.visit_expr_with_origin(arg, arg_origin);
+                        self.with_expected_type(None, |builder| {
+                            builder.visit_expr_with_origin(arg, arg_origin);
+                        });
                     }
                 } else {
                     // Fallback: visit arguments without special origin if callee not found
                     for arg in args {
-                        self.visit_expr(arg);
+                        self.with_expected_type(None, |builder| builder.visit_expr(arg));
                     }
                 }
             }
             Expression::MemberAccess { object, .. } => {
-                self.visit_expr(object);
+                self.with_expected_type(None, |builder| builder.visit_expr(object));
             }
             Expression::IndexAccess { array, index } => {
-                self.visit_expr(array);
                 self.with_expected_type(None, |builder| {
+                    builder.visit_expr(array);
                     builder.visit_expr(index);
                 });
             }
@@ -1257,7 +1261,7 @@ impl<'db, 'sink> SemanticIndexBuilder<'db, 'sink> {
                 }
             }
             Expression::TupleIndex { tuple, .. } => {
-                self.visit_expr(tuple);
+                self.with_expected_type(None, |builder| builder.visit_expr(tuple));
             }
             Expression::ArrayLiteral(elements) => {
                 // If we have an array type hint, propagate the element type to all elements
@@ -1325,12 +1329,12 @@ impl<'db, 'sink> SemanticIndexBuilder<'db, 'sink> {
             Expression::New { elem_type, count } => {
                 // Leverage existing TypeExpr visitor to record type usages (and nested types)
                 self.visit_type_expr(elem_type);
-                // Visit count expression normally
-                self.visit_expr(count);
+                // Visit the count, which does not have the type expected of the pointer
+                self.with_expected_type(None, |builder| builder.visit_expr(count));
             }
             Expression::Cast { expr, target_type } => {
-                // Visit the expression being cast
-                self.visit_expr(expr);
+                // Visit the expression being cast, which need not have the type expected of the cast
+                self.with_expected_type(None, |builder| builder.visit_expr(expr));
                 // Record the usages of the types named by the target
                 self.visit_type_expr(target_type);
             }
diff --git a/crates/compiler/semantic/src/type_resolution.rs b/crates/compiler/semantic/src/type_resolution.rs
index 3c401be..52e45fd 100644
--- a/crates/compiler/semantic/src/type_resolution.rs
+++ b/crates/compiler/semantic/src/type_resolution.rs
@@ -330,18 +330,18 @@ pub fn expression_semantic_type<'db>(
             Origin::Arg { callee, index } => {
                 semantic_index.expression(*callee).and_then(|callee_info| {
                     match &callee_info.ast_node {
-                        // Use builder-recorded mapping for the callee identifier
-                        Expression::Identifier(_name) => semantic_index
-                            .definition_for_identifier_expr(*callee)
-                            .and_then(|(def_idx, _)| {
-                                let def_id = DefinitionId::new(db, file, def_idx);
-                                function_semantic_signature(db, crate_id, def_id).and_then(
-                                    |signature_id| {
-                                        let params = signature_id.params(db);
-                                        params.get(*index).map(|(_, param_type)| *param_type)
-                                    },
-                                )
-                            }),
+                        // The callee may also be a function of another module
+                        Expression::Identifier(_name) => {
+                            let callee_type =
+                                expression_semantic_type(db, crate_id, file, *callee, None);
+                            match callee_type.data(db) {
+                                TypeData::Function(signature_id) => signature_id
+                                    .params(db)
+                                    .get(*index)
+                                    .map(|(_, param_type)| *param_type),
+                                _ => None,
+                            }
+                        }
                         _ => None,
                     }
                 })
diff --git a/crates/compiler/semantic/src/validation/literal_validator.rs b/crates/compiler/semantic/src/validation/literal_validator.rs
index 40cf214..7fd5aa0 100644
--- a/crates/compiler/semantic/src/validation/literal_validator.rs
+++ b/crates/compiler/semantic/src/validation/literal_validator.rs
@@ -24,6 +24,15 @@ pub struct LiteralValidator;
 /// Maximum value for felt type (2^31 - 1)
 const FELT_MAX: u64 = (1u64 << 31) - 1;
 
+/// Whether an expression is a numeric literal, possibly parenthesized.
+fn is_literal(expr: &Expression) -> bool {
+    match expr {
+        Expression::Literal(..) => true,
+        Expression::Parenthesized(inner) => is_literal(inner.value()),
+        _ => false,
+    }
+}
+
 impl Validator for LiteralValidator {
     fn validate(
         &self,
@@ -156,8 +165,8 @@ impl LiteralValidator {
             }
             Expression::UnaryOp {
                 op: UnaryOp::Neg,
-                expr: _,
-            } => {
+                expr: operand,
+            } if is_literal(operand.value()) => {
                 // Negative values are not allowed for u32
                 sink.push(
                     Diagnostic::error(
@@ -212,8 +221,8 @@ impl LiteralValidator {
             }
             Expression::UnaryOp {
                 op: UnaryOp::Neg,
-                expr: _,
-            } => {
+                expr: operand,
+            } if is_literal(operand.value()) => {
                 // Negative values are not allowed for felt in Cairo-M (uses M31 field)
                 sink.push(
                     Diagnostic::error(
-- 
2.43.0


From 29ce259effd16dfaedfbe0223f3e6fd65b88cb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:46 +0000
Subject: [PATCH 19/66] fix: keep the parentheses around a condition that
 starts with parentheses when formatting

---
 .../formatter/src/rules/statements.rs         | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/crates/compiler/formatter/src/rules/statements.rs b/crates/compiler/formatter/src/rules/statements.rs
index 369aaa6..8826dba 100644
--- a/crates/compiler/formatter/src/rules/statements.rs
+++ b/crates/compiler/formatter/src/rules/statements.rs
@@ -152,7 +152,8 @@ impl Format for Statement {
 /// Format the condition in front of `body`
 ///
 /// Parentheses around conditions are dropped, except where the condition and an empty body
-/// would then read as a struct literal: `while (a) {}`.
+/// would then read as a struct literal: `while (a) {}`, and where the condition itself starts
+/// with parentheses, which would then be taken for those around it: `while ((a) == b) { .. }`.
 fn format_condition(
     condition: &Spanned<Expression>,
     body: &Spanned<Statement>,
@@ -160,13 +161,28 @@ fn format_condition(
 ) -> Doc {
     let doc = condition.value().format(ctx);
     let empty = matches!(body.value(), Statement::Block(statements) if statements.is_empty());
-    if empty && ends_with_identifier(condition.value()) {
+    if (empty && ends_with_identifier(condition.value()))
+        || starts_with_parenthesis(condition.value())
+    {
         parens(doc)
     } else {
         doc
     }
 }
 
+fn starts_with_parenthesis(expr: &Expression) -> bool {
+    match expr {
+        Expression::Parenthesized(_) => true,
+        Expression::BinaryOp { left: first, .. }
+        | Expression::FunctionCall { callee: first, .. }
+        | Expression::IndexAccess { array: first, .. }
+        | Expression::MemberAccess { object: first, .. }
+        | Expression::TupleIndex { tuple: first, .. }
+        | Expression::Cast { expr: first, .. } => starts_with_parenthesis(first.value()),
+        _ => false,
+    }
+}
+
 fn ends_with_identifier(expr: &Expression) -> bool {
     match expr {
         Expression::Identifier(_) => true,
-- 
2.43.0


From c4c926def52c5a55629b93283efeb75304e71948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:07 +0000
Subject: [PATCH 20/66] fix: a standalone file may have any name (its stem was
 pasted into TOML text and parsed back)

---
 crates/compiler/cairo-m-project/src/discovery.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/crates/compiler/cairo-m-project/src/discovery.rs b/crates/compiler/cairo-m-project/src/discovery.rs
index 95dea31..d0840a7 100644
--- a/crates/compiler/cairo-m-project/src/discovery.rs
+++ b/crates/compiler/cairo-m-project/src/discovery.rs
@@ -57,14 +57,11 @@ fn setup_as_standalone_file(file_path: &Path) -> Result<Project> {
         .unwrap_or("main");
 
     // For standalone files, the entry point is just the file name
-    let manifest_content = format!(
-        r#"name = "{file_stem}"
-version = "0.1.0"
-entry_point = "{file_stem}.cm"
-"#
-    );
-    let project_manifest =
-        ProjectManifest::from_file_content(&manifest_content).expect("Failed to parse manifest");
+    let project_manifest = ProjectManifest {
+        name: file_stem.to_string(),
+        version: "0.1.0".to_string(),
+        entry_point: format!("{file_stem}.cm"),
+    };
 
     let project = Project {
         config: project_manifest,
-- 
2.43.0


From 89a4c297933c78212d4fed9840b7e9ada62d23db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:08 +0000
Subject: [PATCH 21/66] fix: listing the source files of a project at the root,
 in a relative or in a non-UTF-8 directory no longer panics

---
 crates/compiler/cairo-m-project/src/model.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/compiler/cairo-m-project/src/model.rs b/crates/compiler/cairo-m-project/src/model.rs
index e808589..e0e7611 100644
--- a/crates/compiler/cairo-m-project/src/model.rs
+++ b/crates/compiler/cairo-m-project/src/model.rs
@@ -23,7 +23,10 @@ pub struct Project {
 impl Project {
     /// Get the absolute path to the source directory. The `root_directory` is the file path to the `.cm` file that is the project root.
     pub fn source_directory(&self) -> PathBuf {
-        self.root_directory.parent().unwrap().to_owned()
+        self.root_directory
+            .parent()
+            .unwrap_or_else(|| Path::new(""))
+            .to_owned()
     }
 
     /// Check if a path belongs to this project
@@ -33,12 +36,11 @@ impl Project {
 
     /// Get all source files in the project
     pub fn source_files(&self) -> anyhow::Result<Vec<PathBuf>> {
-        let src_dir = self.root_directory.parent().unwrap();
-        let src_dir_name = src_dir.file_name().unwrap().to_str().unwrap();
+        let src_dir = self.source_directory();
 
         // TODO: refactor with a stronger mechanism regarding standalone file detection
         //1. If it's not an `src` dir we're in the standalone file case and there's only one file, the crate root.
-        if src_dir_name != "src" {
+        if src_dir.file_name() != Some(std::ffi::OsStr::new("src")) {
             tracing::info!(
                 "Compiling standalone file: {}",
                 self.root_directory.display()
-- 
2.43.0


From 27beeacacb040da2b74357d284d372403d5b0ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:08 +0000
Subject: [PATCH 22/66] fix: look for the manifest above the current directory
 too, and do not take an I/O error for its absence

---
 .../compiler/cairo-m-project/src/discovery.rs | 37 +++++++++++++++++--
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/crates/compiler/cairo-m-project/src/discovery.rs b/crates/compiler/cairo-m-project/src/discovery.rs
index d0840a7..227da1b 100644
--- a/crates/compiler/cairo-m-project/src/discovery.rs
+++ b/crates/compiler/cairo-m-project/src/discovery.rs
@@ -1,5 +1,6 @@
 use std::collections::HashMap;
-use std::path::{Path, PathBuf};
+use std::io::ErrorKind;
+use std::path::{Component, Path, PathBuf};
 
 use anyhow::{Context, Result};
 use tracing::debug;
@@ -119,19 +120,27 @@ pub fn discover_workspace(workspace_root: &Path) -> Result<Workspace> {
 
 /// Find the project manifest (cairom.toml) starting from a given path
 pub fn find_project_manifest(start_path: &Path) -> Result<Option<PathBuf>> {
-    let start_dir = if start_path.is_file() {
+    // A path that cannot be examined is an error: only one that is known not to exist may be skipped
+    let metadata = |path: &Path| match path.metadata() {
+        Ok(metadata) => Ok(Some(metadata)),
+        Err(e) if matches!(e.kind(), ErrorKind::NotFound | ErrorKind::NotADirectory) => Ok(None),
+        Err(e) => Err(e).with_context(|| format!("Failed to access {}", path.display())),
+    };
+
+    let start_path = absolute_path(start_path)?;
+    let start_dir = if metadata(&start_path)?.is_some_and(|m| m.is_file()) {
         start_path
             .parent()
             .ok_or_else(|| anyhow::anyhow!("Invalid file path: no parent directory"))?
     } else {
-        start_path
+        &start_path
     };
 
     let mut current = start_dir;
 
     loop {
         let manifest_path = current.join(crate::MANIFEST_FILE_NAME);
-        if manifest_path.exists() {
+        if metadata(&manifest_path)?.is_some() {
             return Ok(Some(manifest_path));
         }
 
@@ -142,6 +151,26 @@ pub fn find_project_manifest(start_path: &Path) -> Result<Option<PathBuf>> {
     }
 }
 
+/// The absolute form of a path, whose components can be removed one by one to reach all the
+/// directories that contain it
+fn absolute_path(path: &Path) -> Result<PathBuf> {
+    let path = if path.as_os_str().is_empty() {
+        Path::new(".")
+    } else {
+        path
+    };
+    if path.components().any(|c| c == Component::ParentDir) {
+        match path.canonicalize() {
+            Ok(path) => return Ok(path),
+            Err(e) if matches!(e.kind(), ErrorKind::NotFound | ErrorKind::NotADirectory) => {}
+            Err(e) => {
+                return Err(e).with_context(|| format!("Failed to access {}", path.display()));
+            }
+        }
+    }
+    std::path::absolute(path).with_context(|| format!("Failed to resolve {}", path.display()))
+}
+
 /// Load a project from its manifest file
 fn load_project_from_manifest(manifest_path: &Path) -> Result<Project> {
     let manifest = ProjectManifest::from_path(manifest_path)
-- 
2.43.0


From 1e7675db46306501d1e548d11070578789bcc5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:08 +0000
Subject: [PATCH 23/66] fix: a directory whose name ends in .cm is not a source
 file

---
 crates/compiler/cairo-m-project/src/model.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/compiler/cairo-m-project/src/model.rs b/crates/compiler/cairo-m-project/src/model.rs
index e0e7611..888dd90 100644
--- a/crates/compiler/cairo-m-project/src/model.rs
+++ b/crates/compiler/cairo-m-project/src/model.rs
@@ -59,6 +59,11 @@ impl Project {
             let entry = entry?;
             let path = entry.path();
 
+            // A directory is not a source file, whatever its name
+            if entry.file_type().is_some_and(|t| t.is_dir()) {
+                continue;
+            }
+
             if path.extension().and_then(|s| s.to_str()) == Some("cm") {
                 files.push(path.to_owned());
             }
-- 
2.43.0


From 56bc5cf89f3c460da69ce52d1f84d6372800ef2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:08 +0000
Subject: [PATCH 24/66] fix: workspace project ids and name resolution do not
 depend on the order of directory listings

---
 crates/compiler/cairo-m-project/src/discovery.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/compiler/cairo-m-project/src/discovery.rs b/crates/compiler/cairo-m-project/src/discovery.rs
index 227da1b..5defad9 100644
--- a/crates/compiler/cairo-m-project/src/discovery.rs
+++ b/crates/compiler/cairo-m-project/src/discovery.rs
@@ -88,7 +88,11 @@ pub fn discover_workspace(workspace_root: &Path) -> Result<Workspace> {
 
     // Walk the directory tree looking for cairom.toml files
     use ignore::WalkBuilder;
-    let walker = WalkBuilder::new(workspace_root).follow_links(false).build();
+    // The order of the walk decides the ids: it must not depend on the order of the directory listings
+    let walker = WalkBuilder::new(workspace_root)
+        .follow_links(false)
+        .sort_by_file_path(|a, b| a.cmp(b))
+        .build();
 
     for entry in walker {
         let entry = entry?;
-- 
2.43.0


From e364500f8d2e5dede475d7f68eadca6c12afd1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:08 +0000
Subject: [PATCH 25/66] fix: Project::contains_path compared with the entry
 file instead of the source directory

---
 crates/compiler/cairo-m-project/src/model.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/compiler/cairo-m-project/src/model.rs b/crates/compiler/cairo-m-project/src/model.rs
index 888dd90..ba7a0da 100644
--- a/crates/compiler/cairo-m-project/src/model.rs
+++ b/crates/compiler/cairo-m-project/src/model.rs
@@ -31,7 +31,11 @@ impl Project {
 
     /// Check if a path belongs to this project
     pub fn contains_path(&self, path: &Path) -> bool {
-        path.starts_with(&self.root_directory)
+        // A standalone file is alone in its project
+        if self.source_directory().file_name() != Some(std::ffi::OsStr::new("src")) {
+            return path == self.root_directory;
+        }
+        path.starts_with(self.source_directory())
     }
 
     /// Get all source files in the project
-- 
2.43.0


From 05af7a3588e7e1f13449ee03fb5d98404d066c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:08 +0000
Subject: [PATCH 26/66] fix: two source files that map to the same module are
 an error instead of one silently replacing the other

---
 crates/compiler/semantic/src/db.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/compiler/semantic/src/db.rs b/crates/compiler/semantic/src/db.rs
index 486d2fb..7697190 100644
--- a/crates/compiler/semantic/src/db.rs
+++ b/crates/compiler/semantic/src/db.rs
@@ -181,7 +181,17 @@ pub fn crate_from_project(
 
         // Create a File entity in the database
         let file = File::new(db, content, file_path.to_string_lossy().to_string());
-        modules.insert(module_name, file);
+        if let Some(other) = modules.insert(module_name.clone(), file) {
+            diagnostics.add(Diagnostic::error(
+                DiagnosticCode::InternalError,
+                format!(
+                    "Both {} and {} are module '{}'",
+                    other.file_path(db),
+                    file_path.display(),
+                    module_name
+                ),
+            ));
+        }
     }
 
     if !diagnostics.is_empty() {
-- 
2.43.0


From 2000245a5ccfd5b8069d3b6dfda04aa39583b569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:08 +0000
Subject: [PATCH 27/66] fix: init creates the project directory atomically and
 refuses names that break the manifests

---
 crates/cargo-cairo-m/src/main.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/crates/cargo-cairo-m/src/main.rs b/crates/cargo-cairo-m/src/main.rs
index 0be194b..69d610b 100644
--- a/crates/cargo-cairo-m/src/main.rs
+++ b/crates/cargo-cairo-m/src/main.rs
@@ -44,14 +44,26 @@ fn init_project(name: &str) -> Result<()> {
     let project_name = project_path
         .file_name()
         .and_then(|s| s.to_str())
-        .unwrap_or(name);
+        .with_context(|| format!("'{name}' does not end with a project name"))?;
+
+    // The name is written as is between the quotes of the manifests
+    if project_name.contains(|c: char| matches!(c, '"' | '\\') || c.is_control()) {
+        anyhow::bail!("Project name cannot contain quotes, backslashes or control characters");
+    }
 
     if project_path.exists() {
         anyhow::bail!("Directory '{}' already exists", project_path.display());
     }
 
     // Create all parent directories if needed
-    fs::create_dir_all(project_path).with_context(|| {
+    if let Some(parent) = project_path.parent() {
+        fs::create_dir_all(parent).with_context(|| {
+            format!("Failed to create parent directory '{}'", parent.display())
+        })?;
+    }
+
+    // Create the project directory itself: this fails if it exists, so that nothing in it is touched
+    fs::create_dir(project_path).with_context(|| {
         format!(
             "Failed to create project directory '{}'",
             project_path.display()
-- 
2.43.0


From 77edb8e4444c148f46f5708c87b2327154b57770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:34 +0000
Subject: [PATCH 28/66] fix: an I/O error while resolving a standalone file is
 reported instead of loading its unresolved path

---
 crates/compiler/cairo-m-project/src/discovery.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/compiler/cairo-m-project/src/discovery.rs b/crates/compiler/cairo-m-project/src/discovery.rs
index 5defad9..e680078 100644
--- a/crates/compiler/cairo-m-project/src/discovery.rs
+++ b/crates/compiler/cairo-m-project/src/discovery.rs
@@ -49,9 +49,12 @@ pub fn discover_project(start_path: &Path) -> Result<Option<Project>> {
 /// 3. Copy the file to the src directory
 /// 4. Create a manifest file in the root directory
 fn setup_as_standalone_file(file_path: &Path) -> Result<Project> {
-    let canonical_file_path = file_path
-        .canonicalize()
-        .unwrap_or_else(|_| file_path.to_path_buf());
+    let canonical_file_path = match file_path.canonicalize() {
+        Err(e) if matches!(e.kind(), ErrorKind::NotFound | ErrorKind::NotADirectory) => {
+            file_path.to_path_buf()
+        }
+        path => path.with_context(|| format!("Failed to access {}", file_path.display()))?,
+    };
     let file_stem = canonical_file_path
         .file_stem()
         .and_then(|s| s.to_str())
-- 
2.43.0


From 329ee0fa52cdb0f50afdd6e2104510a8fa8b8a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:02 +0000
Subject: [PATCH 29/66] sim hook: step budget for VM runs under
 cfg(cairo_m_sim)

---
 crates/runner/src/lib.rs    |  4 ++++
 crates/runner/src/sim.rs    | 28 ++++++++++++++++++++++++++++
 crates/runner/src/vm/mod.rs |  5 +++++
 3 files changed, 37 insertions(+)
 create mode 100644 crates/runner/src/sim.rs

diff --git a/crates/runner/src/lib.rs b/crates/runner/src/lib.rs
index 0341d52..7c5aa35 100644
--- a/crates/runner/src/lib.rs
+++ b/crates/runner/src/lib.rs
@@ -1,4 +1,8 @@
+#![allow(unexpected_cfgs)]
+
 pub mod memory;
+#[cfg(cairo_m_sim)]
+pub mod sim;
 pub mod vm;
 
 use cairo_m_common::abi_codec::m31_from_i64;
diff --git a/crates/runner/src/sim.rs b/crates/runner/src/sim.rs
new file mode 100644
index 0000000..15292cb
--- /dev/null
+++ b/crates/runner/src/sim.rs
@@ -0,0 +1,28 @@
+//! Step budget for the simulator. Compiled only with `--cfg cairo_m_sim`.
+
+use std::cell::Cell;
+use std::io;
+
+thread_local! {
+    static BUDGET: Cell<u64> = const { Cell::new(u64::MAX) };
+}
+
+/// Sets how many steps the runs of this thread may still take.
+pub fn set_step_budget(steps: u64) {
+    BUDGET.with(|b| b.set(steps));
+}
+
+/// The steps left.
+pub fn step_budget() -> u64 {
+    BUDGET.with(|b| b.get())
+}
+
+pub(crate) fn spend_step() -> io::Result<()> {
+    BUDGET.with(|b| match b.get() {
+        0 => Err(io::Error::other("simulated step budget exhausted")),
+        n => {
+            b.set(n - 1);
+            Ok(())
+        }
+    })
+}
diff --git a/crates/runner/src/vm/mod.rs b/crates/runner/src/vm/mod.rs
index 329a655..66f96e1 100644
--- a/crates/runner/src/vm/mod.rs
+++ b/crates/runner/src/vm/mod.rs
@@ -160,7 +160,12 @@ impl VM {
             return Ok(ExecutionStatus::Complete);
         }
 
+        #[cfg(cairo_m_sim)]
+        crate::sim::spend_step()?;
+
         while self.state.pc != self.final_pc && self.trace.len() < max_steps {
+            #[cfg(cairo_m_sim)]
+            crate::sim::spend_step()?;
             self.step()?;
         }
 
-- 
2.43.0


From 3dd7f214569d5679738d81f85b93bce32980a38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:02 +0000
Subject: [PATCH 30/66] fix: removing a trivial phi left stale references to it
 in SSA construction

---
 crates/compiler/mir/src/function.rs | 43 +++++++++++++++--------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/crates/compiler/mir/src/function.rs b/crates/compiler/mir/src/function.rs
index 46b0f94..ae1f716 100644
--- a/crates/compiler/mir/src/function.rs
+++ b/crates/compiler/mir/src/function.rs
@@ -529,17 +529,15 @@ impl MirFunction {
 
         // Determine operands from predecessors - build explicit block-value pairs
         let preds = self.basic_blocks[phi_block].preds.clone();
-        let mut block_value_pairs = Vec::new();
 
         for &pred in &preds {
             // Recursively read variable from predecessor
             let operand = self.read_variable(var, pred);
-            block_value_pairs.push((pred, operand));
+            // Store each operand as soon as it is known: reading the next predecessor may remove
+            // a trivial phi, and only operands held by an instruction are replaced then.
+            self.push_phi_operand(phi_block, phi, pred, operand);
         }
 
-        // Update the phi instruction with operands
-        self.update_phi_operands(phi_block, phi, block_value_pairs);
-
         // Try trivial phi elimination
         self.try_remove_trivial_phi(phi, var)
     }
@@ -558,29 +556,21 @@ impl MirFunction {
         None
     }
 
-    /// Update phi instruction operands
-    fn update_phi_operands(
+    /// Append an operand to a phi instruction
+    fn push_phi_operand(
         &mut self,
         block: BasicBlockId,
         phi: ValueId,
-        block_value_pairs: Vec<(BasicBlockId, ValueId)>,
+        pred: BasicBlockId,
+        value: ValueId,
     ) {
         if let Some(block_ref) = self.basic_blocks.get_mut(block) {
             for instr in &mut block_ref.instructions {
-                if let crate::InstructionKind::Phi {
-                    dest,
-                    sources: phi_sources,
-                    ..
-                } = &mut instr.kind
+                if let crate::InstructionKind::Phi { dest, sources, .. } = &mut instr.kind
+                    && *dest == phi
                 {
-                    if *dest == phi {
-                        // Convert Vec<(BasicBlockId, ValueId)> to Vec<(BasicBlockId, Value)>
-                        *phi_sources = block_value_pairs
-                            .into_iter()
-                            .map(|(pred_block, value_id)| (pred_block, Value::operand(value_id)))
-                            .collect();
-                        return;
-                    }
+                    sources.push((pred, Value::operand(value)));
+                    return;
                 }
             }
         }
@@ -612,6 +602,17 @@ impl MirFunction {
         // Phi is trivial - replace all uses with the unique operand
         self.replace_value_uses(phi, replacement);
 
+        // Blocks that saw the phi as the current definition of a variable now see its replacement
+        for value in self
+            .current_def
+            .values_mut()
+            .chain(self.locals.values_mut())
+        {
+            if *value == phi {
+                *value = replacement;
+            }
+        }
+
         // Remove phi instruction
         self.remove_phi_instruction(phi_block, phi);
 
-- 
2.43.0


From c92411aed27857d665a05634317ea10c80ada1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:51 +0000
Subject: [PATCH 31/66] fix: parallel copies that form a cycle were rotated the
 wrong way

---
 .../mir/src/passes/phi_elimination.rs         | 102 ++++++------------
 1 file changed, 34 insertions(+), 68 deletions(-)

diff --git a/crates/compiler/mir/src/passes/phi_elimination.rs b/crates/compiler/mir/src/passes/phi_elimination.rs
index bde659d..55f33cb 100644
--- a/crates/compiler/mir/src/passes/phi_elimination.rs
+++ b/crates/compiler/mir/src/passes/phi_elimination.rs
@@ -20,7 +20,7 @@ use std::collections::{HashSet, VecDeque};
 use rustc_hash::FxHashMap;
 
 use crate::{
-    BasicBlockId, Instruction, InstructionKind, MirFunction, MirPass, Value, ValueId, cfg,
+    BasicBlockId, Instruction, InstructionKind, MirFunction, MirPass, MirType, Value, ValueId, cfg,
 };
 
 /// Statistics for phi elimination
@@ -240,84 +240,50 @@ impl PhiElimination {
             );
         }
 
-        let mut sequenced = Vec::new();
-        let mut processed = HashSet::new();
-
-        // Handle cycles first by breaking them with temporaries
-        for cycle in cycles {
-            if cycle.len() <= 1 {
-                continue; // Skip trivial cycles
-            }
-
-            self.stats.cycles_broken += 1;
+        if cycles.is_empty() {
+            return self.topological_sort_copies(copies, &graph);
+        }
 
-            // Find the actual copy instructions for this cycle
-            let mut cycle_copies = Vec::new();
-            for copy in &copies {
-                if let InstructionKind::Assign { dest, .. } = &copy.kind {
-                    if cycle.contains(dest) {
-                        cycle_copies.push(copy.clone());
-                        processed.insert(*dest);
-                    }
+        // All the copies read their sources before any of them writes its destination. A copy can
+        // therefore be emitted once no other pending copy reads its destination. When every
+        // pending destination is still read, the pending copies form cycles: the first destination
+        // is then saved to a temporary, which its readers use instead.
+        let mut pending: Vec<(ValueId, Value, MirType)> = Vec::with_capacity(copies.len());
+        for copy in copies {
+            if let InstructionKind::Assign { dest, source, ty } = copy.kind {
+                // Copying a value to itself has no effect
+                if source != Value::operand(dest) {
+                    pending.push((dest, source, ty));
                 }
             }
+        }
 
-            if cycle_copies.is_empty() {
+        let mut sequenced = Vec::with_capacity(pending.len());
+        while !pending.is_empty() {
+            let ready = pending.iter().position(|(dest, ..)| {
+                pending
+                    .iter()
+                    .all(|(_, source, _)| *source != Value::operand(*dest))
+            });
+
+            if let Some(index) = ready {
+                let (dest, source, ty) = pending.remove(index);
+                sequenced.push(Instruction::assign(dest, source, ty));
                 continue;
             }
 
-            // Break the cycle using a temporary
-            // Save the first source to a temporary
-            if let InstructionKind::Assign { source, ty, .. } = &cycle_copies[0].kind {
-                let temp = function.new_value_id();
-                sequenced.push(Instruction::assign(temp, *source, ty.clone()));
-
-                // Perform the cycle rotations
-                for i in 0..cycle_copies.len() - 1 {
-                    if let (
-                        InstructionKind::Assign {
-                            dest: dest1,
-                            ty: ty1,
-                            ..
-                        },
-                        InstructionKind::Assign {
-                            source: source2, ..
-                        },
-                    ) = (&cycle_copies[i].kind, &cycle_copies[i + 1].kind)
-                    {
-                        sequenced.push(Instruction::assign(*dest1, *source2, ty1.clone()));
-                    }
-                }
-
-                // Restore from temporary to complete the cycle
-                if let InstructionKind::Assign {
-                    dest: last_dest,
-                    ty: last_ty,
-                    ..
-                } = &cycle_copies[cycle_copies.len() - 1].kind
-                {
-                    sequenced.push(Instruction::assign(
-                        *last_dest,
-                        Value::Operand(temp),
-                        last_ty.clone(),
-                    ));
-                }
-            }
-        }
-
-        // Add non-cyclic copies in dependency order
-        let mut remaining_copies = Vec::new();
-        for copy in copies {
-            if let InstructionKind::Assign { dest, .. } = &copy.kind {
-                if !processed.contains(dest) {
-                    remaining_copies.push(copy);
+            // Only cycles are left: save the destination of the first copy before it is written
+            let (dest, _, ty) = pending[0].clone();
+            let temp = function.new_typed_value_id(ty.clone());
+            sequenced.push(Instruction::assign(temp, Value::operand(dest), ty));
+            for (_, source, _) in &mut pending {
+                if *source == Value::operand(dest) {
+                    *source = Value::operand(temp);
                 }
             }
+            self.stats.cycles_broken += 1;
         }
 
-        // Topological sort for remaining copies
-        sequenced.extend(self.topological_sort_copies(remaining_copies, &graph));
-
         sequenced
     }
 
-- 
2.43.0


From fd04dd4ca7c2e3228cb6f77ae21595459dab0573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:51 +0000
Subject: [PATCH 32/66] fix: removing unreachable blocks left old block ids in
 phis and predecessor lists

---
 .../mir/src/passes/dead_code_elimination.rs   | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/crates/compiler/mir/src/passes/dead_code_elimination.rs b/crates/compiler/mir/src/passes/dead_code_elimination.rs
index 140297a..56acabf 100644
--- a/crates/compiler/mir/src/passes/dead_code_elimination.rs
+++ b/crates/compiler/mir/src/passes/dead_code_elimination.rs
@@ -3,7 +3,7 @@ use std::collections::{HashMap, HashSet};
 use index_vec::IndexVec;
 
 use super::MirPass;
-use crate::{BasicBlockId, MirFunction, Terminator};
+use crate::{BasicBlockId, InstructionKind, MirFunction, Terminator};
 
 /// Dead Code Elimination Pass
 ///
@@ -158,6 +158,19 @@ impl MirPass for DeadCodeElimination {
                 if let Some(block) = new_blocks.get_mut(bid) {
                     let new_term = Self::remap_terminator(block.terminator.clone(), &old_to_new);
                     block.terminator = new_term;
+
+                    // Block ids have changed, and the removed blocks are no predecessors anymore.
+                    block.preds.clear();
+                    for phi in block.phi_instructions_mut() {
+                        if let InstructionKind::Phi { sources, .. } = &mut phi.kind {
+                            *sources = sources
+                                .iter()
+                                .filter_map(|(source, value)| {
+                                    old_to_new.get(source).map(|new_id| (*new_id, *value))
+                                })
+                                .collect();
+                        }
+                    }
                 }
             }
 
@@ -165,12 +178,11 @@ impl MirPass for DeadCodeElimination {
             function.basic_blocks = new_blocks;
             function.entry_block = mapped_entry;
 
-            // 5) Ensure any internal CFG metadata is consistent by re-applying
-            //    terminators via the utility that updates edge tables.
+            // 5) Rebuild the predecessor lists from the remapped terminators.
             let ids: Vec<BasicBlockId> = function.basic_blocks.indices().collect();
             for bid in ids {
-                if let Some(block) = function.basic_blocks.get(bid) {
-                    function.set_terminator_with_edges(bid, block.terminator.clone());
+                for target in function.basic_blocks[bid].terminator.target_blocks() {
+                    function.connect(bid, target);
                 }
             }
             modified = true;
-- 
2.43.0


From 9618205a00fe3df12b6c4a0d8a25f6f0938e9062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:51 +0000
Subject: [PATCH 33/66] fix: folding a branch left the phi operands of the edge
 it removed

---
 crates/compiler/mir/src/function.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/crates/compiler/mir/src/function.rs b/crates/compiler/mir/src/function.rs
index ae1f716..a85d45f 100644
--- a/crates/compiler/mir/src/function.rs
+++ b/crates/compiler/mir/src/function.rs
@@ -696,17 +696,29 @@ impl MirFunction {
         };
 
         // Disconnect from old targets
+        let new_targets = new_term.target_blocks();
         for target in old_targets {
             self.disconnect(block_id, target);
+
+            // A block that is no longer reached from here takes no value from here
+            if !new_targets.contains(&target)
+                && let Some(block) = self.basic_blocks.get_mut(target)
+            {
+                for phi in block.phi_instructions_mut() {
+                    if let crate::InstructionKind::Phi { sources, .. } = &mut phi.kind {
+                        sources.retain(|(source_block, _)| *source_block != block_id);
+                    }
+                }
+            }
         }
 
         // Set new terminator
         if let Some(block) = self.basic_blocks.get_mut(block_id) {
-            block.set_terminator(new_term.clone());
+            block.set_terminator(new_term);
         }
 
         // Connect to new targets
-        for target in new_term.target_blocks() {
+        for target in new_targets {
             self.connect(block_id, target);
         }
     }
-- 
2.43.0


From 9b14b1eb16f0e14367bd572d172ec4f94fded9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:51 +0000
Subject: [PATCH 34/66] fix: 0 - x and 1 / x were simplified to x

---
 crates/compiler/mir/src/passes/arithmetic_simplify.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/compiler/mir/src/passes/arithmetic_simplify.rs b/crates/compiler/mir/src/passes/arithmetic_simplify.rs
index 5e35244..6291862 100644
--- a/crates/compiler/mir/src/passes/arithmetic_simplify.rs
+++ b/crates/compiler/mir/src/passes/arithmetic_simplify.rs
@@ -37,7 +37,12 @@ impl ArithmeticSimplify {
     ) -> Option<SimplificationResult> {
         // Check for identity values
         if let Some(identity) = self.evaluator.identity_value(op) {
-            if left == Value::Literal(identity) {
+            // The identity of subtraction and division is a right identity only
+            let is_left_identity = !matches!(
+                op,
+                BinaryOp::Sub | BinaryOp::Div | BinaryOp::U32Sub | BinaryOp::U32Div
+            );
+            if is_left_identity && left == Value::Literal(identity) {
                 // identity op x → x
                 return Some(SimplificationResult::Assign(right));
             }
-- 
2.43.0


From 0ce9d4b61b17294a63d7cba128c0912e64020499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:51 +0000
Subject: [PATCH 35/66] fix: local CSE merged distinct arrays and dropped calls
 with an unused result

---
 crates/compiler/mir/src/passes/local_cse.rs | 44 +++++++--------------
 1 file changed, 15 insertions(+), 29 deletions(-)

diff --git a/crates/compiler/mir/src/passes/local_cse.rs b/crates/compiler/mir/src/passes/local_cse.rs
index abe9c1e..1acb364 100644
--- a/crates/compiler/mir/src/passes/local_cse.rs
+++ b/crates/compiler/mir/src/passes/local_cse.rs
@@ -178,22 +178,9 @@ impl PureExpressionKey {
             // Cast operations - skip for now
             InstructionKind::Cast { .. } => None,
 
-            // Array operations - can be CSE'd similar to tuples
-            InstructionKind::MakeFixedArray { elements, .. } => {
-                // Only handle all-operand arrays
-                let element_ids: Option<Vec<ValueId>> = elements
-                    .iter()
-                    .map(|v| match v {
-                        Value::Operand(id) => Some(*id),
-                        _ => None,
-                    })
-                    .collect();
-
-                element_ids.map(|ids| Self::MakeTuple {
-                    elements: ids,
-                    tuple_type: MirType::Unknown, // Use MakeTuple variant for simplicity
-                })
-            }
+            // Arrays are memory locations that can be written through: two arrays made of the
+            // same elements are still two arrays
+            InstructionKind::MakeFixedArray { .. } => None,
         }
     }
 }
@@ -245,35 +232,34 @@ impl LocalCSE {
         }
 
         // Apply replacements
+        let mut replaced = Vec::new();
         for (dest, existing_value, _instr_idx) in replacements {
             // Replace all uses of dest with existing_value
             function.replace_all_uses(dest, existing_value);
+            replaced.push(dest);
             modified = true;
         }
 
         // Remove redundant instructions (need to do this carefully)
         if modified {
-            self.remove_redundant_instructions(function, block_id);
+            self.remove_redundant_instructions(function, block_id, &replaced);
         }
 
         modified
     }
 
     /// Remove instructions that compute values we've already replaced
-    fn remove_redundant_instructions(&self, function: &mut MirFunction, block_id: BasicBlockId) {
-        // Get use counts first to avoid borrowing conflicts
-        let use_counts = function.get_value_use_counts();
-
+    fn remove_redundant_instructions(
+        &self,
+        function: &mut MirFunction,
+        block_id: BasicBlockId,
+        replaced: &[ValueId],
+    ) {
         if let Some(block) = function.basic_blocks.get_mut(block_id) {
-            // Remove instructions whose destinations are no longer used
             block.instructions.retain(|instr| {
-                if let Some(dest) = instr.destination() {
-                    // Keep instruction if its result is still used
-                    use_counts.get(&dest).copied().unwrap_or(0) > 0
-                } else {
-                    // Keep instructions without destinations (side effects)
-                    true
-                }
+                instr
+                    .destination()
+                    .is_none_or(|dest| !replaced.contains(&dest))
             });
         }
     }
-- 
2.43.0


From 970320506bda2cb211192426e01ca2e3a9b774ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:51 +0000
Subject: [PATCH 36/66] fix: comparing a u32 with zero in a branch only looked
 at its low limb

---
 crates/compiler/mir/src/passes/fuse_cmp.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/compiler/mir/src/passes/fuse_cmp.rs b/crates/compiler/mir/src/passes/fuse_cmp.rs
index e9612d9..0b290b9 100644
--- a/crates/compiler/mir/src/passes/fuse_cmp.rs
+++ b/crates/compiler/mir/src/passes/fuse_cmp.rs
@@ -73,28 +73,29 @@ impl MirPass for FuseCmpBranch {
                             if Self::is_fusible_comparison(*op) {
                                 // We found the pattern! Perform the fusion.
 
-                                // We first check for comparisons with 0 which can be optimized
+                                // We first check for comparisons with 0 which can be optimized.
+                                // A u32 takes two cells, so it cannot be the condition itself.
                                 match (
                                     *op,
                                     self.evaluator.is_zero(left),
                                     self.evaluator.is_zero(right),
                                 ) {
-                                    (BinaryOp::Eq | BinaryOp::U32Eq, true, false) => {
+                                    (BinaryOp::Eq, true, false) => {
                                         // 0 == x is equivalent to !x, so we switch the targets
                                         block.terminator =
                                             Terminator::branch(*right, else_target, then_target);
                                     }
-                                    (BinaryOp::Eq | BinaryOp::U32Eq, false, true) => {
+                                    (BinaryOp::Eq, false, true) => {
                                         // x == 0 is equivalent to !x, so we switch the targets
                                         block.terminator =
                                             Terminator::branch(*left, else_target, then_target);
                                     }
-                                    (BinaryOp::Neq | BinaryOp::U32Neq, true, false) => {
+                                    (BinaryOp::Neq, true, false) => {
                                         // 0 != x is equivalent to x, so we use x as the condition
                                         block.terminator =
                                             Terminator::branch(*right, then_target, else_target);
                                     }
-                                    (BinaryOp::Neq | BinaryOp::U32Neq, false, true) => {
+                                    (BinaryOp::Neq, false, true) => {
                                         // x != 0 is equivalent to x, so we use x as the condition
                                         block.terminator =
                                             Terminator::branch(*left, then_target, else_target);
-- 
2.43.0


From bc5c42083f7dc9086d20b1e9f0562aafb5d1450f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:51 +0000
Subject: [PATCH 37/66] fix: constant felt comparisons compared unreduced
 integers

---
 crates/compiler/mir/src/passes/const_eval.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/compiler/mir/src/passes/const_eval.rs b/crates/compiler/mir/src/passes/const_eval.rs
index fbe22fc..b37028e 100644
--- a/crates/compiler/mir/src/passes/const_eval.rs
+++ b/crates/compiler/mir/src/passes/const_eval.rs
@@ -47,7 +47,7 @@ impl ConstEvaluator {
                 let result = a_m31 * b_m31;
                 Some(Literal::Integer(result.0))
             }
-            (BinaryOp::Div, Literal::Integer(a), Literal::Integer(b)) if b != 0 => {
+            (BinaryOp::Div, Literal::Integer(a), Literal::Integer(b)) if M31::from(b).0 != 0 => {
                 let a_m31 = M31::from(a);
                 let b_m31 = M31::from(b);
                 let result = a_m31 / b_m31; // Uses modular inverse
@@ -56,10 +56,10 @@ impl ConstEvaluator {
 
             // Felt comparisons - compare as field elements
             (BinaryOp::Eq, Literal::Integer(a), Literal::Integer(b)) => {
-                Some(Literal::Boolean(a == b))
+                Some(Literal::Boolean(M31::from(a) == M31::from(b)))
             }
             (BinaryOp::Neq, Literal::Integer(a), Literal::Integer(b)) => {
-                Some(Literal::Boolean(a != b))
+                Some(Literal::Boolean(M31::from(a) != M31::from(b)))
             }
             // Note: Ordering comparisons on field elements are typically not well-defined
             // and disabled at semantic index level - thus not getting evaluated.
-- 
2.43.0


From 8a3610ad36aa69db64f2524c0e8a69d0e5110b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:11 +0000
Subject: [PATCH 38/66] fix: a boolean literal could not be passed to a
 function

---
 crates/compiler/codegen/src/builder/calls.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/compiler/codegen/src/builder/calls.rs b/crates/compiler/codegen/src/builder/calls.rs
index d619650..a4ac59c 100644
--- a/crates/compiler/codegen/src/builder/calls.rs
+++ b/crates/compiler/codegen/src/builder/calls.rs
@@ -208,6 +208,13 @@ impl super::CasmBuilder {
                         )));
                     }
                 },
+                Value::Literal(Literal::Boolean(b)) => {
+                    self.store_immediate(
+                        *b as u32,
+                        arg_offset,
+                        format!("Arg {i}: [fp + {arg_offset}] = {b}"),
+                    );
+                }
                 Value::Operand(arg_id) => {
                     let src_off = self.layout.get_offset(*arg_id)?;
                     if src_off == arg_offset
-- 
2.43.0


From 476cc80b9926feb3bebf72765d0d3c4e2f15ed8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:41 +0000
Subject: [PATCH 39/66] fix: scalar replacement dropped aggregates that were
 still used, and writes to shared arrays

---
 crates/compiler/mir/src/passes/sroa.rs | 196 ++++++++++++++++++++-----
 1 file changed, 163 insertions(+), 33 deletions(-)

diff --git a/crates/compiler/mir/src/passes/sroa.rs b/crates/compiler/mir/src/passes/sroa.rs
index cd29991..ea4aa43 100644
--- a/crates/compiler/mir/src/passes/sroa.rs
+++ b/crates/compiler/mir/src/passes/sroa.rs
@@ -508,6 +508,103 @@ impl ScalarReplacementOfAggregates {
         false
     }
 
+    /// Check that the elements of an array can only be reached by loading and storing them, one at
+    /// a time, in the block that builds the array. Its last use there may store the array itself.
+    ///
+    /// An array is a place in memory: anything else that is given the array could write to it, or
+    /// read what was stored in it.
+    fn array_is_private(&self, root: ValueId, bb: BasicBlockId, function: &MirFunction) -> bool {
+        let Some(MirType::FixedArray { element_type, size }) = function.get_value_type(root) else {
+            return false;
+        };
+        if matches!(
+            **element_type,
+            MirType::Tuple(_) | MirType::Struct { .. } | MirType::FixedArray { .. }
+        ) {
+            return false;
+        }
+
+        for (block_id, block) in function.basic_blocks.iter_enumerated() {
+            let mut uses = 0;
+            let mut expected_uses = 0;
+            let mut stored = false;
+            for inst in &block.instructions {
+                self.collect_value_uses_in_instruction(&inst.kind, |used| {
+                    uses += usize::from(used == root);
+                });
+                if stored && uses > expected_uses {
+                    return false;
+                }
+                if let InstructionKind::Load { place, .. } | InstructionKind::Store { place, .. } =
+                    &inst.kind
+                    && place.base == root
+                    && let [Projection::Index(Value::Literal(Literal::Integer(index)))] =
+                        place.projections[..]
+                    && (index as usize) < *size
+                {
+                    expected_uses += 1;
+                }
+                if let InstructionKind::Store { value, .. } = &inst.kind
+                    && *value == Value::operand(root)
+                {
+                    expected_uses += 1;
+                    stored = true;
+                }
+            }
+            self.collect_value_uses_in_terminator(&block.terminator, |used| {
+                uses += usize::from(used == root);
+            });
+            if uses != expected_uses || (uses > 0 && block_id != bb) {
+                return false;
+            }
+        }
+        true
+    }
+
+    /// Put back the definitions of aggregates that something still uses as a whole.
+    fn restore_used_definitions(
+        &self,
+        function: &MirFunction,
+        bb: BasicBlockId,
+        new_instrs: &mut Vec<Instruction>,
+        return_values: Option<&[Value]>,
+        dropped: Vec<(usize, ValueId, AggState)>,
+    ) {
+        let mut used = FxHashSet::default();
+        for (block_id, block) in function.basic_blocks.iter_enumerated() {
+            let instructions = if block_id == bb {
+                &new_instrs[..]
+            } else {
+                &block.instructions[..]
+            };
+            for inst in instructions {
+                self.collect_value_uses_in_instruction(&inst.kind, |id| {
+                    used.insert(id);
+                });
+            }
+            match return_values {
+                Some(values) if block_id == bb => {
+                    used.extend(values.iter().filter_map(|value| value.as_operand()));
+                }
+                _ => self.collect_value_uses_in_terminator(&block.terminator, |id| {
+                    used.insert(id);
+                }),
+            }
+        }
+
+        // An aggregate is made of values defined before it, so that going backwards finds all that
+        // is needed, and leaves the recorded positions valid
+        for (position, dest, state) in dropped.into_iter().rev() {
+            if used.contains(&dest)
+                && let Some(ty) = function.get_value_type(dest)
+                && let Some(definition) = build_aggregate(dest, &state, ty)
+            {
+                used.extend(state.elems.iter().filter_map(|value| value.as_operand()));
+                new_instrs.insert(position, definition);
+            }
+        }
+    }
+
     /// Find aggregates that are used across block boundaries.
     /// In phase 1, we skip scalarizing these to maintain correctness.
     fn find_cross_block_aggregates(&self, function: &MirFunction) -> FxHashSet<ValueId> {
@@ -796,6 +893,9 @@ impl MirPass for ScalarReplacementOfAggregates {
             // Map: aggregate ValueId → AggState
             let mut agg_states: FxHashMap<ValueId, AggState> = FxHashMap::default();
 
+            // Definitions dropped so far: where they stood in `new_instrs`, and what they defined
+            let mut dropped: Vec<(usize, ValueId, AggState)> = Vec::new();
+
             let mut block_modified = false;
 
             // Collect all instructions for forward-looking
@@ -858,7 +958,9 @@ impl MirPass for ScalarReplacementOfAggregates {
                             continue;
                         }
 
-                        agg_states.insert(*dest, AggState::tuple(elements.clone()));
+                        let tracked = AggState::tuple(elements.clone());
+                        dropped.push((new_instrs.len(), *dest, tracked.clone()));
+                        agg_states.insert(*dest, tracked);
                         self.stats.scalarized_builds += 1;
                         block_modified = true;
                     }
@@ -896,7 +998,9 @@ impl MirPass for ScalarReplacementOfAggregates {
                         };
 
                         if let Some(state) = AggState::from_struct_fields(fields, ty_fields) {
-                            agg_states.insert(*dest, state);
+                            let tracked = state;
+                            dropped.push((new_instrs.len(), *dest, tracked.clone()));
+                            agg_states.insert(*dest, tracked);
                             self.stats.scalarized_builds += 1;
                             block_modified = true;
                         } else {
@@ -941,14 +1045,19 @@ impl MirPass for ScalarReplacementOfAggregates {
                             function,
                         );
 
-                        if !can_scalarize_general || family_has_dynamic_index {
+                        if !can_scalarize_general
+                            || family_has_dynamic_index
+                            || !self.array_is_private(*dest, bb, function)
+                        {
                             // Keep as real array (do not SROA)
                             new_instrs.push(inst);
                             continue;
                         }
 
                         // Arrays can be scalarized like tuples
-                        agg_states.insert(*dest, AggState::tuple(elements.clone()));
+                        let tracked = AggState::tuple(elements.clone());
+                        dropped.push((new_instrs.len(), *dest, tracked.clone()));
+                        agg_states.insert(*dest, tracked);
                         self.stats.scalarized_builds += 1;
                         block_modified = true;
                     }
@@ -975,7 +1084,9 @@ impl MirPass for ScalarReplacementOfAggregates {
                             continue;
                         }
                         next.elems[*index] = *new_value;
-                        agg_states.insert(*dest, next);
+                        let tracked = next;
+                        dropped.push((new_instrs.len(), *dest, tracked.clone()));
+                        agg_states.insert(*dest, tracked);
                         self.stats.inserts_forwarded += 1;
                         block_modified = true;
                     }
@@ -1005,7 +1116,9 @@ impl MirPass for ScalarReplacementOfAggregates {
                             continue;
                         }
                         next.elems[field_index] = *new_value;
-                        agg_states.insert(*dest, next);
+                        let tracked = next;
+                        dropped.push((new_instrs.len(), *dest, tracked.clone()));
+                        agg_states.insert(*dest, tracked);
                         self.stats.inserts_forwarded += 1;
                         block_modified = true;
                     }
@@ -1035,7 +1148,9 @@ impl MirPass for ScalarReplacementOfAggregates {
                         if let Value::Operand(elem_val_id) = &scalar {
                             if let Some(elem_state) = agg_states.get(elem_val_id) {
                                 // The extracted element is a scalarized aggregate - propagate its state
-                                agg_states.insert(*dest, elem_state.clone());
+                                let tracked = elem_state.clone();
+                                dropped.push((new_instrs.len(), *dest, tracked.clone()));
+                                agg_states.insert(*dest, tracked);
                                 self.stats.extracts_rewritten += 1;
                                 block_modified = true;
                                 continue;
@@ -1082,7 +1197,9 @@ impl MirPass for ScalarReplacementOfAggregates {
                         if let Value::Operand(field_val_id) = &scalar {
                             if let Some(field_state) = agg_states.get(field_val_id) {
                                 // The extracted field is a scalarized aggregate - propagate its state
-                                agg_states.insert(*dest, field_state.clone());
+                                let tracked = field_state.clone();
+                                dropped.push((new_instrs.len(), *dest, tracked.clone()));
+                                agg_states.insert(*dest, tracked);
                                 self.stats.extracts_rewritten += 1;
                                 block_modified = true;
                                 continue;
@@ -1128,7 +1245,9 @@ impl MirPass for ScalarReplacementOfAggregates {
                                             | MirType::Struct { .. }
                                             | MirType::FixedArray { .. }
                                     ) {
-                                        agg_states.insert(*dest, state.clone());
+                                        let tracked = state.clone();
+                                        dropped.push((new_instrs.len(), *dest, tracked.clone()));
+                                        agg_states.insert(*dest, tracked);
                                         self.stats.extracts_rewritten += 1;
                                         block_modified = true;
                                         continue;
@@ -1213,7 +1332,9 @@ impl MirPass for ScalarReplacementOfAggregates {
                                             | MirType::Struct { .. }
                                             | MirType::FixedArray { .. }
                                     ) {
-                                        agg_states.insert(*dest, state.clone());
+                                        let tracked = state.clone();
+                                        dropped.push((new_instrs.len(), *dest, tracked.clone()));
+                                        agg_states.insert(*dest, tracked);
                                         self.stats.extracts_rewritten += 1;
                                         block_modified = true;
                                         continue;
@@ -1236,7 +1357,9 @@ impl MirPass for ScalarReplacementOfAggregates {
                     } => {
                         if let Value::Operand(src_id) = source {
                             if let Some(state) = agg_states.get(src_id).cloned() {
-                                agg_states.insert(*dest, state);
+                                let tracked = state;
+                                dropped.push((new_instrs.len(), *dest, tracked.clone()));
+                                agg_states.insert(*dest, tracked);
                                 self.stats.assigns_forwarded += 1;
                                 block_modified = true;
                                 // Drop the assign (no materialization yet)
@@ -1346,6 +1469,13 @@ impl MirPass for ScalarReplacementOfAggregates {
             }
 
             if block_modified {
+                self.restore_used_definitions(
+                    function,
+                    bb,
+                    &mut new_instrs,
+                    new_return_values.as_deref(),
+                    dropped,
+                );
                 modified_any = true;
                 if let Some(block_mut) = function.get_basic_block_mut(bb) {
                     // Reinstall updated instruction list: phi prefix + rewritten tail
@@ -1415,14 +1545,10 @@ fn struct_field_index(ty: &MirType, name: &str) -> Option<usize> {
     }
 }
 
-/// Create a concrete aggregate value (MakeTuple/MakeStruct) from components,
-/// insert it *before* the current use by pushing into `sink`, and return the new ValueId
-fn materialize(
-    func: &mut MirFunction,
-    sink: &mut Vec<Instruction>,
-    state: &AggState,
-    ty: &MirType,
-) -> ValueId {
+/// The instruction that builds the aggregate `dest` of type `ty` from its components
+///
+/// Returns None when `ty` is no aggregate type.
+fn build_aggregate(dest: ValueId, state: &AggState, ty: &MirType) -> Option<Instruction> {
     match ty {
         MirType::Tuple(elem_tys) => {
             // Sanity check on arity; if mismatch, truncate/pad with unit (defensive)
@@ -1433,9 +1559,7 @@ fn materialize(
                     elems.push(Value::unit());
                 }
             }
-            let dest = func.new_typed_value_id(ty.clone());
-            sink.push(Instruction::make_tuple(dest, elems));
-            dest
+            Some(Instruction::make_tuple(dest, elems))
         }
         MirType::Struct { fields, .. } => {
             // Rebuild in declared order with names
@@ -1444,9 +1568,7 @@ fn materialize(
                 let v = state.elems.get(i).cloned().unwrap_or_else(Value::unit);
                 pairs.push((name.clone(), v));
             }
-            let dest = func.new_typed_value_id(ty.clone());
-            sink.push(Instruction::make_struct(dest, pairs, ty.clone()));
-            dest
+            Some(Instruction::make_struct(dest, pairs, ty.clone()))
         }
         MirType::FixedArray { element_type, size } => {
             // Rebuild array from elements. The tracked element count must match the array size.
@@ -1457,21 +1579,29 @@ fn materialize(
                 state.elems.len(),
                 size
             );
-            let dest = func.new_typed_value_id(ty.clone());
-            sink.push(Instruction::make_fixed_array(
+            Some(Instruction::make_fixed_array(
                 dest,
                 state.elems.clone(),
                 (**element_type).clone(),
-            ));
-            dest
-        }
-        _ => {
-            // Not an aggregate; should not be called
-            func.new_typed_value_id(ty.clone())
+            ))
         }
+        _ => None,
     }
 }
 
+/// Create a concrete aggregate value (MakeTuple/MakeStruct) from components,
+/// insert it *before* the current use by pushing into `sink`, and return the new ValueId
+fn materialize(
+    func: &mut MirFunction,
+    sink: &mut Vec<Instruction>,
+    state: &AggState,
+    ty: &MirType,
+) -> ValueId {
+    let dest = func.new_typed_value_id(ty.clone());
+    sink.extend(build_aggregate(dest, state, ty));
+    dest
+}
+
 #[cfg(test)]
 #[path = "sroa_tests.rs"]
 mod tests;
-- 
2.43.0


From e34d0101bf9881647f6728a8b7f579f942371d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:44 +0000
Subject: [PATCH 40/66] fix: in-place updates of aggregates overwrote slots
 that were still needed

A field extracted from a struct or tuple shares the slots of the aggregate, and
an insertion updates them in place. The older version of the aggregate, a field
extracted earlier, or the caller's copy of an argument could still be read
afterwards. Blocks could also be emitted before the definition of a view.
---
 .../codegen/src/builder/aggregates.rs         |  33 +++
 crates/compiler/codegen/src/generator.rs      |  11 +-
 crates/compiler/codegen/src/layout.rs         |  15 +-
 .../src/mir_passes/aggregate_copies.rs        | 245 ++++++++++++++++++
 crates/compiler/codegen/src/mir_passes/mod.rs |   1 +
 crates/compiler/mir/src/function.rs           |  59 ++++-
 crates/compiler/mir/src/instruction.rs        |   2 +-
 crates/compiler/mir/src/terminator.rs         |   4 +-
 8 files changed, 357 insertions(+), 13 deletions(-)
 create mode 100644 crates/compiler/codegen/src/mir_passes/aggregate_copies.rs

diff --git a/crates/compiler/codegen/src/builder/aggregates.rs b/crates/compiler/codegen/src/builder/aggregates.rs
index 8e4c59c..11a54f9 100644
--- a/crates/compiler/codegen/src/builder/aggregates.rs
+++ b/crates/compiler/codegen/src/builder/aggregates.rs
@@ -73,6 +73,12 @@ impl super::CasmBuilder {
         let field_size = DataLayout::memory_size_of(field_ty);
         let absolute_offset = struct_offset + field_offset as i32;
 
+        if self.layout.is_aggregate_copy(dest) {
+            let dest_offset = self.layout.allocate_local(dest, field_size)?;
+            self.copy_slots(absolute_offset, dest_offset, field_size, "Extract");
+            return Ok(());
+        }
+
         // Map destination to the field's location
         if field_size == 1 {
             self.layout.value_layouts.insert(
@@ -94,6 +100,23 @@ impl super::CasmBuilder {
         Ok(())
     }
 
+    /// Returns the slots that an insertion updates: those of the source aggregate itself, or
+    /// a copy of them when the source is still needed.
+    fn insertion_base(
+        &mut self,
+        dest: ValueId,
+        source_offset: i32,
+        ty: &MirType,
+    ) -> CodegenResult<i32> {
+        if !self.layout.is_aggregate_copy(dest) {
+            return Ok(source_offset);
+        }
+        let size = DataLayout::memory_size_of(ty);
+        let dest_offset = self.layout.allocate_local(dest, size)?;
+        self.copy_slots(source_offset, dest_offset, size, "Insert");
+        Ok(dest_offset)
+    }
+
     /// Inserts a new value into a struct field (in-place update)
     pub(crate) fn insert_struct_field(
         &mut self,
@@ -124,6 +147,8 @@ impl super::CasmBuilder {
         })?;
         let field_size = DataLayout::memory_size_of(field_ty);
 
+        let struct_offset = self.insertion_base(dest, struct_offset, struct_ty)?;
+
         // Calculate target offset for the field
         let target_offset = struct_offset + field_offset as i32;
 
@@ -249,6 +274,12 @@ impl super::CasmBuilder {
         let element_size = DataLayout::memory_size_of(element_ty);
         let absolute_offset = tuple_offset + element_offset as i32;
 
+        if self.layout.is_aggregate_copy(dest) {
+            let dest_offset = self.layout.allocate_local(dest, element_size)?;
+            self.copy_slots(absolute_offset, dest_offset, element_size, "Extract");
+            return Ok(());
+        }
+
         // Map destination to the element's location
         if element_size == 1 {
             self.layout.value_layouts.insert(
@@ -300,6 +331,8 @@ impl super::CasmBuilder {
         })?;
         let element_size = DataLayout::memory_size_of(element_ty);
 
+        let tuple_offset = self.insertion_base(dest, tuple_offset, tuple_ty)?;
+
         // Calculate target offset for the element
         let target_offset = tuple_offset + element_offset as i32;
 
diff --git a/crates/compiler/codegen/src/generator.rs b/crates/compiler/codegen/src/generator.rs
index 6bd7294..dac1ed8 100644
--- a/crates/compiler/codegen/src/generator.rs
+++ b/crates/compiler/codegen/src/generator.rs
@@ -441,8 +441,9 @@ impl CodeGenerator {
         builder: &mut CasmBuilder,
     ) -> CodegenResult<()> {
         // Process blocks in order
-        let block_count = function.basic_blocks.len();
-        for (block_id, block) in function.basic_blocks.iter_enumerated() {
+        let order = function.emission_order();
+        for (position, &block_id) in order.iter().enumerate() {
+            let block = &function.basic_blocks[block_id];
             // Add block label
             let block_label = Label::for_block(&function.name, block_id);
             builder.emit_add_label(block_label);
@@ -521,11 +522,7 @@ impl CodeGenerator {
             }
 
             // Determine the next block in sequence (if any)
-            let next_block_id = if block_id.index() + 1 < block_count {
-                Some(BasicBlockId::from_raw(block_id.index() + 1))
-            } else {
-                None
-            };
+            let next_block_id = order.get(position + 1).copied();
 
             // Generate terminator with fall-through optimization
             self.generate_terminator(
diff --git a/crates/compiler/codegen/src/layout.rs b/crates/compiler/codegen/src/layout.rs
index 30cfb34..fc13e47 100644
--- a/crates/compiler/codegen/src/layout.rs
+++ b/crates/compiler/codegen/src/layout.rs
@@ -30,8 +30,9 @@
 //! ```
 
 use cairo_m_compiler_mir::{DataLayout, MirFunction, ValueId};
-use rustc_hash::FxHashMap;
+use rustc_hash::{FxHashMap, FxHashSet};
 
+use crate::mir_passes::aggregate_copies::aggregate_copies;
 use crate::{CodegenError, CodegenResult};
 
 /// Represents the memory layout of a value in the stack frame.
@@ -61,6 +62,8 @@ pub struct FunctionLayout {
     num_return_values: usize,
     /// Total number of slots required for return values (accounting for multi-slot types).
     num_return_slots: usize,
+    /// Results of `Extract*`/`Insert*` that cannot share the slots of their source.
+    aggregate_copies: FxHashSet<ValueId>,
 }
 
 impl FunctionLayout {
@@ -75,6 +78,7 @@ impl FunctionLayout {
             num_parameters: function.parameters.len(),
             num_return_values: function.return_values.len(),
             num_return_slots: 0, // Will be calculated in allocate_parameters_with_sizes
+            aggregate_copies: aggregate_copies(function),
         };
 
         // Phase 1: Calculate parameter layout with proper multi-slot support
@@ -147,7 +151,8 @@ impl FunctionLayout {
         let mut current_offset = 0;
 
         // Walk through all basic blocks and instructions
-        for block in function.basic_blocks.iter() {
+        for block_id in function.emission_order() {
+            let block = &function.basic_blocks[block_id];
             for instruction in &block.instructions {
                 // Handle special memory instructions
                 match &instruction.kind {
@@ -259,6 +264,11 @@ impl FunctionLayout {
         Ok(offset)
     }
 
+    /// Whether the result of an `Extract*`/`Insert*` needs slots of its own.
+    pub(crate) fn is_aggregate_copy(&self, value_id: ValueId) -> bool {
+        self.aggregate_copies.contains(&value_id)
+    }
+
     /// Manually maps a `ValueId` to a specific offset. Used by the caller to map
     /// return value destinations.
     pub(crate) fn map_value(&mut self, value_id: ValueId, offset: i32) {
@@ -373,6 +383,7 @@ impl FunctionLayout {
             num_parameters: 0,
             num_return_values: 0,
             num_return_slots: 0,
+            aggregate_copies: FxHashSet::default(),
         }
     }
 
diff --git a/crates/compiler/codegen/src/mir_passes/aggregate_copies.rs b/crates/compiler/codegen/src/mir_passes/aggregate_copies.rs
new file mode 100644
index 0000000..98d2579
--- /dev/null
+++ b/crates/compiler/codegen/src/mir_passes/aggregate_copies.rs
@@ -0,0 +1,245 @@
+//! Finds the aggregate operations that cannot share the frame slots of their source.
+//!
+//! The builder lowers `Extract*` to a view of the slots of its source, and `Insert*` to an
+//! update of these slots in place. That is only correct when no one observes the overwritten
+//! slots afterwards: the older version of the aggregate, a field extracted from it before, or
+//! the caller of the function when the aggregate is a parameter. This analysis returns the
+//! destinations that must get slots of their own instead.
+
+use cairo_m_compiler_mir::{
+    BasicBlockId, DataLayout, Instruction, InstructionKind, MirFunction, Value, ValueId,
+};
+use rustc_hash::{FxHashMap, FxHashSet};
+
+/// The slots that hold a value: a range of the slots of `root`.
+#[derive(Clone, Copy)]
+struct Storage {
+    root: ValueId,
+    start: usize,
+    end: usize,
+}
+
+impl Storage {
+    fn overlaps(&self, other: &Self) -> bool {
+        self.root == other.root && self.start < other.end && other.start < self.end
+    }
+}
+
+/// An aggregate operation, as a view of a range of `source`.
+enum View {
+    Extract,
+    Insert,
+}
+
+/// Returns the destinations of `Extract*` and `Insert*` instructions that must be copies.
+pub fn aggregate_copies(function: &MirFunction) -> FxHashSet<ValueId> {
+    let mut copies = FxHashSet::default();
+    let order = function.emission_order();
+    let views = order
+        .iter()
+        .flat_map(|&id| &function.basic_blocks[id].instructions)
+        .filter_map(|instruction| view(function, instruction))
+        .count();
+    if views == 0 {
+        return copies;
+    }
+
+    let live_out = live_out(function, &order);
+    // Every round adds at least one destination of a view.
+    while let Some(copy) = find_conflict(function, &order, &live_out, &copies) {
+        copies.insert(copy);
+    }
+    copies
+}
+
+/// Returns the source of an `Extract*` or `Insert*` and the range it reads or writes there.
+fn view(
+    function: &MirFunction,
+    instruction: &Instruction,
+) -> Option<(View, ValueId, ValueId, usize, usize)> {
+    let type_of = |value: &Value| match value {
+        Value::Operand(id) => function.value_types.get(id).map(|ty| (*id, ty)),
+        _ => None,
+    };
+    let (kind, dest, source, start, part_ty) = match &instruction.kind {
+        InstructionKind::ExtractStructField {
+            dest,
+            struct_val,
+            field_name,
+            ..
+        } => {
+            let (id, ty) = type_of(struct_val)?;
+            let start = DataLayout::field_offset(ty, field_name)?;
+            (View::Extract, dest, id, start, ty.field_type(field_name)?)
+        }
+        InstructionKind::ExtractTupleElement {
+            dest, tuple, index, ..
+        } => {
+            let (id, ty) = type_of(tuple)?;
+            let start = DataLayout::tuple_offset(ty, *index)?;
+            (
+                View::Extract,
+                dest,
+                id,
+                start,
+                ty.tuple_element_type(*index)?,
+            )
+        }
+        InstructionKind::InsertField {
+            dest,
+            struct_val,
+            field_name,
+            ..
+        } => {
+            let (id, ty) = type_of(struct_val)?;
+            let start = DataLayout::field_offset(ty, field_name)?;
+            (View::Insert, dest, id, start, ty.field_type(field_name)?)
+        }
+        InstructionKind::InsertTuple {
+            dest,
+            tuple_val,
+            index,
+            ..
+        } => {
+            let (id, ty) = type_of(tuple_val)?;
+            let start = DataLayout::tuple_offset(ty, *index)?;
+            (
+                View::Insert,
+                dest,
+                id,
+                start,
+                ty.tuple_element_type(*index)?,
+            )
+        }
+        _ => return None,
+    };
+    let end = start + DataLayout::memory_size_of(part_ty);
+    Some((kind, *dest, source, start, end))
+}
+
+/// Finds a destination that cannot share slots, given those that are already copies.
+fn find_conflict(
+    function: &MirFunction,
+    order: &[BasicBlockId],
+    live_out: &FxHashMap<BasicBlockId, FxHashSet<ValueId>>,
+    copies: &FxHashSet<ValueId>,
+) -> Option<ValueId> {
+    // Where the values live, and which of them are views.
+    let mut storage: FxHashMap<ValueId, Storage> = FxHashMap::default();
+    let mut extracts: FxHashSet<ValueId> = FxHashSet::default();
+    let own = |id: ValueId| Storage {
+        root: id,
+        start: 0,
+        end: function
+            .value_types
+            .get(&id)
+            .map_or(1, DataLayout::memory_size_of),
+    };
+    for &block_id in order {
+        for instruction in &function.basic_blocks[block_id].instructions {
+            if let Some((kind, dest, source, start, end)) = view(function, instruction)
+                && !copies.contains(&dest)
+            {
+                let of = *storage.entry(source).or_insert_with(|| own(source));
+                let range = match kind {
+                    View::Extract => {
+                        extracts.insert(dest);
+                        Storage {
+                            root: of.root,
+                            start: of.start + start,
+                            end: of.start + end,
+                        }
+                    }
+                    View::Insert => of,
+                };
+                storage.insert(dest, range);
+            }
+        }
+    }
+
+    // Look for writes to slots that someone still needs.
+    for &block_id in order {
+        let block = &function.basic_blocks[block_id];
+        let mut live = live_out[&block_id].clone();
+        live.extend(block.terminator.used_values());
+        for instruction in block.instructions.iter().rev() {
+            let write = match (view(function, instruction), &instruction.kind) {
+                (Some((View::Insert, dest, _, start, end)), _) if !copies.contains(&dest) => {
+                    let of = storage[&dest];
+                    if function.parameters.contains(&of.root) {
+                        return Some(dest);
+                    }
+                    let range = Storage {
+                        root: of.root,
+                        start: of.start + start,
+                        end: of.start + end,
+                    };
+                    Some((dest, range, true))
+                }
+                // A variable that is assigned on several paths.
+                (None, InstructionKind::Assign { dest, .. }) if storage.contains_key(dest) => {
+                    Some((*dest, own(*dest), false))
+                }
+                _ => None,
+            };
+            if let Some((dest, written, in_place)) = write {
+                let victims: Vec<ValueId> = live
+                    .iter()
+                    .copied()
+                    .filter(|id| *id != dest)
+                    .filter(|id| storage.get(id).is_some_and(|s| s.overlaps(&written)))
+                    .collect();
+                let view_victim = victims
+                    .iter()
+                    .filter(|id| !in_place || extracts.contains(id))
+                    .filter(|id| storage[id].root != **id)
+                    .min();
+                if let Some(victim) = view_victim {
+                    return Some(*victim);
+                }
+                if !victims.is_empty() && in_place {
+                    return Some(dest);
+                }
+            }
+            for dest in instruction.destinations() {
+                live.remove(&dest);
+            }
+            live.extend(instruction.used_values());
+        }
+    }
+    None
+}
+
+/// The values that are still needed at the end of each block.
+fn live_out(
+    function: &MirFunction,
+    order: &[BasicBlockId],
+) -> FxHashMap<BasicBlockId, FxHashSet<ValueId>> {
+    let mut live_in: FxHashMap<BasicBlockId, FxHashSet<ValueId>> = FxHashMap::default();
+    let mut live_out: FxHashMap<BasicBlockId, FxHashSet<ValueId>> =
+        order.iter().map(|id| (*id, FxHashSet::default())).collect();
+    let mut changed = true;
+    while changed {
+        changed = false;
+        for block_id in order.iter().rev() {
+            let block = &function.basic_blocks[*block_id];
+            let mut live = FxHashSet::default();
+            for target in block.terminator.target_blocks() {
+                live.extend(live_in.get(&target).into_iter().flatten().copied());
+            }
+            live_out.insert(*block_id, live.clone());
+            live.extend(block.terminator.used_values());
+            for instruction in block.instructions.iter().rev() {
+                for dest in instruction.destinations() {
+                    live.remove(&dest);
+                }
+                live.extend(instruction.used_values());
+            }
+            if live_in.get(block_id) != Some(&live) {
+                live_in.insert(*block_id, live);
+                changed = true;
+            }
+        }
+    }
+    live_out
+}
diff --git a/crates/compiler/codegen/src/mir_passes/mod.rs b/crates/compiler/codegen/src/mir_passes/mod.rs
index 1fbf5ca..826d891 100644
--- a/crates/compiler/codegen/src/mir_passes/mod.rs
+++ b/crates/compiler/codegen/src/mir_passes/mod.rs
@@ -3,4 +3,5 @@
 //! Passes in this module are intended to keep the generic MIR clean and
 //! move backend quirks or instruction-set constraints into codegen.
 
+pub mod aggregate_copies;
 pub mod legalize;
diff --git a/crates/compiler/mir/src/function.rs b/crates/compiler/mir/src/function.rs
index a85d45f..7879c07 100644
--- a/crates/compiler/mir/src/function.rs
+++ b/crates/compiler/mir/src/function.rs
@@ -9,7 +9,7 @@ use index_vec::IndexVec;
 use rustc_hash::{FxHashMap, FxHashSet};
 
 use crate::{
-    BasicBlock, BasicBlockId, Instruction, MirType, PrettyPrint, Terminator, Value, ValueId,
+    BasicBlock, BasicBlockId, Instruction, InstructionKind, MirType, PrettyPrint, Terminator, Value, ValueId,
     indent_str,
 };
 
@@ -194,6 +194,63 @@ impl MirFunction {
         counts
     }
 
+    /// Returns the order in which the backend must lay out and emit the blocks.
+    ///
+    /// The frame slot of some values (e.g. the result of a call, or a field extracted from
+    /// a struct) is only settled when their definition is emitted, so definitions have to be
+    /// emitted before their uses. This is the natural block order whenever it satisfies that,
+    /// and a reverse postorder of the CFG otherwise (e.g. for the step block of a loop, which
+    /// is created before the blocks that a nested statement adds to the loop body).
+    pub fn emission_order(&self) -> Vec<BasicBlockId> {
+        let natural: Vec<BasicBlockId> = self.basic_blocks.indices().collect();
+
+        let mut used: FxHashSet<ValueId> = FxHashSet::default();
+        let mut def_before_use = true;
+        for block in self.basic_blocks.iter() {
+            for (index, instruction) in block.instructions.iter().enumerate() {
+                let slot_is_fixed = match &instruction.kind {
+                    // May be computed in the argument area of a call that follows
+                    InstructionKind::Assign { .. }
+                    | InstructionKind::UnaryOp { .. }
+                    | InstructionKind::BinaryOp { .. } => !matches!(
+                        block.instructions.get(index + 1).map(|next| &next.kind),
+                        Some(InstructionKind::Call { .. })
+                    ),
+                    InstructionKind::Call { .. }
+                    | InstructionKind::ExtractTupleElement { .. }
+                    | InstructionKind::ExtractStructField { .. }
+                    | InstructionKind::InsertField { .. }
+                    | InstructionKind::InsertTuple { .. } => false,
+                    _ => true,
+                };
+                def_before_use &= slot_is_fixed
+                    || instruction.destinations().iter().all(|id| !used.contains(id));
+                used.extend(instruction.used_values());
+            }
+            used.extend(block.terminator.used_values());
+        }
+        if def_before_use {
+            return natural;
+        }
+
+        let mut visited: FxHashSet<BasicBlockId> = FxHashSet::default();
+        let mut postorder = Vec::with_capacity(natural.len());
+        let mut stack = vec![(self.entry_block, false)];
+        while let Some((block_id, successors_done)) = stack.pop() {
+            if successors_done {
+                postorder.push(block_id);
+            } else if visited.insert(block_id) {
+                stack.push((block_id, true));
+                for target in self.basic_blocks[block_id].terminator.target_blocks() {
+                    stack.push((target, false));
+                }
+            }
+        }
+        let mut order: Vec<BasicBlockId> = postorder.into_iter().rev().collect();
+        order.extend(natural.into_iter().filter(|id| !visited.contains(id)));
+        order
+    }
+
     /// Validates the function structure
     ///
     /// Checks:
diff --git a/crates/compiler/mir/src/instruction.rs b/crates/compiler/mir/src/instruction.rs
index 2e9fa70..5a1b946 100644
--- a/crates/compiler/mir/src/instruction.rs
+++ b/crates/compiler/mir/src/instruction.rs
@@ -709,7 +709,7 @@ impl Instruction {
     }
 
     /// Returns all values used by this instruction
-    pub(crate) fn used_values(&self) -> HashSet<ValueId> {
+    pub fn used_values(&self) -> HashSet<ValueId> {
         let mut used = HashSet::new();
 
         match &self.kind {
diff --git a/crates/compiler/mir/src/terminator.rs b/crates/compiler/mir/src/terminator.rs
index 4d5e7c0..c8a4d7f 100644
--- a/crates/compiler/mir/src/terminator.rs
+++ b/crates/compiler/mir/src/terminator.rs
@@ -114,7 +114,7 @@ impl Terminator {
     /// Returns all basic block targets of this terminator
     ///
     /// This is used for CFG construction and analysis.
-    pub(crate) fn target_blocks(&self) -> Vec<BasicBlockId> {
+    pub fn target_blocks(&self) -> Vec<BasicBlockId> {
         match self {
             Self::Jump { target } => vec![*target],
             Self::If {
@@ -133,7 +133,7 @@ impl Terminator {
     }
 
     /// Returns all values used by this terminator
-    pub(crate) fn used_values(&self) -> HashSet<crate::ValueId> {
+    pub fn used_values(&self) -> HashSet<crate::ValueId> {
         let mut used = HashSet::new();
 
         match self {
-- 
2.43.0


From 1cbcae275f6504bb7f6b14e620b26fa45287deac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:27 +0000
Subject: [PATCH 41/66] fix: array literals kept stale elements and call frames
 overlapped arrays

Literal zeros were not stored, although the slots of a frame hold whatever was
there before: an earlier call, or the previous iteration of a loop. And the
slots of an array that is created in a loop, or after the last call, were not
below the frame of a call that runs while the array is in use.
---
 .../codegen/src/builder/aggregates.rs         | 19 +++---
 crates/compiler/codegen/src/generator.rs      | 58 +++++++++++++++++--
 crates/compiler/codegen/src/layout.rs         | 42 ++++++++++++++
 crates/compiler/mir/src/function.rs           | 15 +++++
 4 files changed, 121 insertions(+), 13 deletions(-)

diff --git a/crates/compiler/codegen/src/builder/aggregates.rs b/crates/compiler/codegen/src/builder/aggregates.rs
index 11a54f9..1ab14e7 100644
--- a/crates/compiler/codegen/src/builder/aggregates.rs
+++ b/crates/compiler/codegen/src/builder/aggregates.rs
@@ -375,20 +375,21 @@ impl super::CasmBuilder {
         let total_size = element_size * elements.len();
 
         // Reserve space for the array elements (anonymous region)
-        let base_offset = if total_size > 0 {
-            self.layout.reserve_stack(total_size)
-        } else {
-            // Zero-sized array: still produce a pointer to the current top (valid but unused)
-            self.layout.current_frame_usage()
-        };
+        let base_offset = self.layout.array_region(dest, total_size);
+        // The frames of later calls must not start below it.
+        self.max_written_offset = self
+            .max_written_offset
+            .max(base_offset + total_size as i32 - 1);
 
         // Copy each element to its position in the array
         for (index, element) in elements.iter().enumerate() {
-            // Skip writing zeroes in memory.
-            if element == &Value::Literal(Literal::Integer(0)) {
+            let target_offset = base_offset + (index * element_size) as i32;
+            // Skip writing zeroes in memory that still holds zero.
+            if element == &Value::Literal(Literal::Integer(0))
+                && self.layout.unwritten_slots_are_zero
+            {
                 continue;
             }
-            let target_offset = base_offset + (index * element_size) as i32;
             self.copy_value_to_offset(element, target_offset, element_size)?;
         }
 
diff --git a/crates/compiler/codegen/src/generator.rs b/crates/compiler/codegen/src/generator.rs
index dac1ed8..dcc6deb 100644
--- a/crates/compiler/codegen/src/generator.rs
+++ b/crates/compiler/codegen/src/generator.rs
@@ -2,13 +2,13 @@
 //!
 //! This module orchestrates the entire MIR to CASM translation process.
 
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 
 use cairo_m_common::instruction::Instruction as CasmInstr;
 use cairo_m_common::program::{AbiSlot, AbiType, EntrypointInfo};
 use cairo_m_common::{Program, ProgramData, ProgramMetadata};
 use cairo_m_compiler_mir::{
-    BasicBlockId, BinaryOp, DataLayout, Instruction, InstructionKind, Literal, MirFunction,
+    BasicBlockId, BinaryOp, DataLayout, FunctionId, Instruction, InstructionKind, Literal, MirFunction,
     MirModule, MirType, Projection, Terminator, Value, ValueId,
 };
 use stwo_prover::core::fields::m31::M31;
@@ -248,8 +248,10 @@ impl CodeGenerator {
 
     /// Calculate layouts for all functions in the module
     fn calculate_all_layouts(&mut self, module: &MirModule) -> CodegenResult<()> {
-        for (_, function) in module.functions() {
-            let layout = FunctionLayout::new(function)?;
+        let unused_frames = functions_with_unused_frames(module);
+        for (function_id, function) in module.functions() {
+            let mut layout = FunctionLayout::new(function)?;
+            layout.unwritten_slots_are_zero = unused_frames.contains(&function_id);
             self.function_layouts.insert(function.name.clone(), layout);
         }
         Ok(())
@@ -449,6 +451,9 @@ impl CodeGenerator {
             builder.emit_add_label(block_label);
 
             for (idx, instruction) in block.instructions.iter().enumerate() {
+                if runs_after_writes(function, block_id, idx) {
+                    builder.layout_mut().unwritten_slots_are_zero = false;
+                }
                 match &instruction.kind {
                     InstructionKind::MakeFixedArray {
                         dest,
@@ -2331,6 +2336,51 @@ mod tests_rodata {
     // Constant-index folding is handled by MIR; no codegen folding test here.
 }
 
+/// Whether an instruction may run when slots that its function has not written yet have been
+/// written already: in a previous iteration of a loop, or by the frame of a previous call.
+fn runs_after_writes(function: &MirFunction, block_id: BasicBlockId, index: usize) -> bool {
+    let block = &function.basic_blocks[block_id];
+    block_id != function.entry_block
+        || function.is_in_loop(block_id)
+        || block.instructions[..index]
+            .iter()
+            .any(|instruction| matches!(instruction.kind, InstructionKind::Call { .. }))
+}
+
+/// Returns the functions whose frame is never placed over memory that was used before: those
+/// that are not called, and those that are only called once, first thing by such a function.
+fn functions_with_unused_frames(module: &MirModule) -> HashSet<FunctionId> {
+    let mut callers: HashMap<FunctionId, Vec<(FunctionId, bool)>> = HashMap::new();
+    for (caller_id, caller) in module.functions() {
+        for (block_id, block) in caller.basic_blocks() {
+            for (index, instruction) in block.instructions.iter().enumerate() {
+                if let InstructionKind::Call { callee, .. } = &instruction.kind {
+                    let late = runs_after_writes(caller, block_id, index);
+                    callers.entry(*callee).or_default().push((caller_id, late));
+                }
+            }
+        }
+    }
+
+    let mut unused: HashSet<FunctionId> = HashSet::new();
+    loop {
+        let before = unused.len();
+        for (function_id, _) in module.functions() {
+            let is_unused = match callers.get(&function_id).map(Vec::as_slice) {
+                None => true,
+                Some([(caller_id, late)]) => !late && unused.contains(caller_id),
+                Some(_) => false,
+            };
+            if is_unused {
+                unused.insert(function_id);
+            }
+        }
+        if unused.len() == before {
+            return unused;
+        }
+    }
+}
+
 /// Convert MIR types to ABI types for program metadata
 fn abi_type_from_mir(ty: &MirType) -> CodegenResult<AbiType> {
     let out = match ty {
diff --git a/crates/compiler/codegen/src/layout.rs b/crates/compiler/codegen/src/layout.rs
index fc13e47..ee1eda1 100644
--- a/crates/compiler/codegen/src/layout.rs
+++ b/crates/compiler/codegen/src/layout.rs
@@ -64,6 +64,10 @@ pub struct FunctionLayout {
     num_return_slots: usize,
     /// Results of `Extract*`/`Insert*` that cannot share the slots of their source.
     aggregate_copies: FxHashSet<ValueId>,
+    /// Slots of the elements of arrays that are reserved for the whole function.
+    array_regions: FxHashMap<ValueId, i32>,
+    /// Whether slots that have not been written yet are known to hold zero.
+    pub(crate) unwritten_slots_are_zero: bool,
 }
 
 impl FunctionLayout {
@@ -79,6 +83,8 @@ impl FunctionLayout {
             num_return_values: function.return_values.len(),
             num_return_slots: 0, // Will be calculated in allocate_parameters_with_sizes
             aggregate_copies: aggregate_copies(function),
+            array_regions: FxHashMap::default(),
+            unwritten_slots_are_zero: false,
         };
 
         // Phase 1: Calculate parameter layout with proper multi-slot support
@@ -233,6 +239,30 @@ impl FunctionLayout {
             }
         }
 
+        // An array created in a loop can still be in use when a call that comes before it in
+        // the loop runs again, so that call's frame must not start below the array.
+        let has_calls = function
+            .basic_blocks
+            .iter()
+            .flat_map(|block| &block.instructions)
+            .any(|instruction| matches!(instruction.kind, InstructionKind::Call { .. }));
+        for (block_id, block) in function.basic_blocks() {
+            for instruction in &block.instructions {
+                if let InstructionKind::MakeFixedArray {
+                    dest,
+                    elements,
+                    element_ty,
+                    ..
+                } = &instruction.kind
+                    && has_calls
+                    && function.is_in_loop(block_id)
+                {
+                    self.array_regions.insert(*dest, current_offset as i32);
+                    current_offset += DataLayout::value_size_of(element_ty) * elements.len();
+                }
+            }
+        }
+
         // Set the final frame size
         self.frame_size = current_offset;
 
@@ -298,6 +328,16 @@ impl FunctionLayout {
         offset
     }
 
+    /// Returns the slots for the elements of the array `value_id`.
+    pub(crate) fn array_region(&mut self, value_id: ValueId, size: usize) -> i32 {
+        match self.array_regions.get(&value_id) {
+            Some(offset) => *offset,
+            None if size > 0 => self.reserve_stack(size),
+            // Zero-sized array: the current top is a valid, but unused, address
+            None => self.current_frame_usage(),
+        }
+    }
+
     /// Gets the fp-relative offset for a `ValueId`.
     pub(crate) fn get_offset(&self, value_id: ValueId) -> CodegenResult<i32> {
         match self.value_layouts.get(&value_id) {
@@ -384,6 +424,8 @@ impl FunctionLayout {
             num_return_values: 0,
             num_return_slots: 0,
             aggregate_copies: FxHashSet::default(),
+            array_regions: FxHashMap::default(),
+            unwritten_slots_are_zero: true,
         }
     }
 
diff --git a/crates/compiler/mir/src/function.rs b/crates/compiler/mir/src/function.rs
index 7879c07..a880438 100644
--- a/crates/compiler/mir/src/function.rs
+++ b/crates/compiler/mir/src/function.rs
@@ -194,6 +194,21 @@ impl MirFunction {
         counts
     }
 
+    /// Whether a block can run more than once in a call of the function.
+    pub fn is_in_loop(&self, block_id: BasicBlockId) -> bool {
+        let mut visited: FxHashSet<BasicBlockId> = FxHashSet::default();
+        let mut stack = self.basic_blocks[block_id].terminator.target_blocks();
+        while let Some(next) = stack.pop() {
+            if next == block_id {
+                return true;
+            }
+            if visited.insert(next) {
+                stack.extend(self.basic_blocks[next].terminator.target_blocks());
+            }
+        }
+        false
+    }
+
     /// Returns the order in which the backend must lay out and emit the blocks.
     ///
     /// The frame slot of some values (e.g. the result of a call, or a field extracted from
-- 
2.43.0


From cfa8111d67777e064a448c6c28f3ef20fdb7f924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:49 +0000
Subject: [PATCH 42/66] fix: labels of one function could be taken for those of
 another

A function named like a block of another function, e.g. f_1 and f, or like a
generated label, was called or jumped to in its place.
---
 crates/compiler/codegen/src/builder/emit.rs |  4 ++
 crates/compiler/codegen/src/generator.rs    | 63 +++++++++++++--------
 crates/compiler/codegen/src/layout.rs       |  5 ++
 3 files changed, 47 insertions(+), 25 deletions(-)

diff --git a/crates/compiler/codegen/src/builder/emit.rs b/crates/compiler/codegen/src/builder/emit.rs
index 4e6be06..e0b832a 100644
--- a/crates/compiler/codegen/src/builder/emit.rs
+++ b/crates/compiler/codegen/src/builder/emit.rs
@@ -17,6 +17,10 @@ impl super::CasmBuilder {
     pub(crate) fn emit_new_label_name(&mut self, prefix: &str) -> String {
         let label_id = self.label_counter;
         self.label_counter += 1;
+        if self.layout.function_name() == prefix {
+            // That could be the label of a block of the function
+            return format!("{}__{}", prefix, label_id);
+        }
         format!("{}_{}", prefix, label_id)
     }
 
diff --git a/crates/compiler/codegen/src/generator.rs b/crates/compiler/codegen/src/generator.rs
index dcc6deb..b457bde 100644
--- a/crates/compiler/codegen/src/generator.rs
+++ b/crates/compiler/codegen/src/generator.rs
@@ -31,6 +31,8 @@ pub struct CodeGenerator {
     labels: Vec<Label>,
     /// Function name to entrypoint info mapping
     function_entrypoints: HashMap<String, EntrypointInfo>,
+    /// Logical addresses of the jumps to those of their targets
+    jump_targets: HashMap<usize, usize>,
     /// Function layouts for frame size calculations
     function_layouts: HashMap<String, FunctionLayout>,
     /// Memory layout: maps logical instruction index to physical memory address
@@ -59,6 +61,7 @@ impl CodeGenerator {
             instructions: Vec::new(),
             labels: Vec::new(),
             function_entrypoints: HashMap::new(),
+            jump_targets: HashMap::new(),
             function_layouts: HashMap::new(),
             memory_layout: Vec::new(),
             label_counter: 0,
@@ -427,6 +430,25 @@ impl CodeGenerator {
             }
         }
 
+        // Jumps stay within the function: find their targets among its own labels, so that they
+        // cannot be mistaken for a label of the same name elsewhere (e.g. the function `f_1` and
+        // the block 1 of the function `f`).
+        let addresses: HashMap<&str, usize> = corrected_labels
+            .iter()
+            .skip(1) // the function itself
+            .filter_map(|label| Some((label.name.as_str(), label.address?)))
+            .collect();
+        for (index, instruction) in builder.instructions().iter().enumerate() {
+            if let CasmInstr::JmpRelImm { .. } | CasmInstr::JnzFpImm { .. } =
+                instruction.inner_instr()
+                && let Some(&target) = instruction
+                    .get_label()
+                    .and_then(|name| addresses.get(name))
+            {
+                self.jump_targets.insert(instruction_offset + index, target);
+            }
+        }
+
         // Append generated instructions and corrected labels
         self.instructions
             .extend(builder.instructions().iter().cloned());
@@ -1560,15 +1582,16 @@ impl CodeGenerator {
 
     /// Resolve all label references (second pass)
     fn resolve_labels(&mut self) -> CodegenResult<()> {
-        // Build a map of label names to their physical addresses
-        let mut label_map = HashMap::new();
+        // Functions, and data below, have separate namespaces.
+        let mut function_addresses = HashMap::new();
+        let mut data_addresses = HashMap::new();
 
         // Update function entrypoints to use physical addresses and add to label map
         for (name, info) in &mut self.function_entrypoints {
             let logical_pc = info.pc;
             if let Some(&physical_pc) = self.memory_layout.get(logical_pc) {
                 info.pc = physical_pc as usize;
-                label_map.insert(name.clone(), physical_pc as usize);
+                function_addresses.insert(name.clone(), physical_pc as usize);
             } else {
                 return Err(CodegenError::UnresolvedLabel(format!(
                     "Function {} has invalid PC {}",
@@ -1577,20 +1600,6 @@ impl CodeGenerator {
             }
         }
 
-        // Add block labels with their physical addresses
-        for label in &self.labels {
-            if let Some(logical_addr) = label.address {
-                if let Some(&physical_addr) = self.memory_layout.get(logical_addr) {
-                    label_map.insert(label.name.clone(), physical_addr as usize);
-                } else {
-                    return Err(CodegenError::UnresolvedLabel(format!(
-                        "Label {} has invalid address {}",
-                        label.name, logical_addr
-                    )));
-                }
-            }
-        }
-
         // Before resolving instruction labels, add rodata and data labels to the map
         // Compute total code length in QM31 words
         let mut code_len_qm31: u32 = 0;
@@ -1623,7 +1632,7 @@ impl CodeGenerator {
             let addr = *ro_offsets
                 .get(blob_idx)
                 .ok_or_else(|| CodegenError::InternalError("Invalid rodata blob index".into()))?;
-            label_map.insert(lbl.clone(), addr as usize);
+            data_addresses.insert(lbl.clone(), addr as usize);
         }
 
         // Now add mutable data labels after rodata
@@ -1645,7 +1654,7 @@ impl CodeGenerator {
             let addr = *data_offsets
                 .get(blob_idx)
                 .ok_or_else(|| CodegenError::InternalError("Invalid data blob index".into()))?;
-            label_map.insert(lbl.clone(), addr as usize);
+            data_addresses.insert(lbl.clone(), addr as usize);
         }
 
         // Resolve label references in instructions (typed API)
@@ -1661,30 +1670,34 @@ impl CodeGenerator {
 
             match instruction.inner_instr_mut() {
                 CasmInstr::JmpRelImm { offset } => {
-                    let &target_addr = label_map
-                        .get(&label_name)
+                    let target_addr = self
+                        .jump_targets
+                        .get(&logical_pc)
+                        .and_then(|&target| self.memory_layout.get(target).copied())
                         .ok_or_else(|| CodegenError::UnresolvedLabel(label_name.clone()))?;
                     let rel = (target_addr as i32) - (physical_pc as i32);
                     *offset = M31::from(rel);
                     instruction.label = None;
                 }
                 CasmInstr::JnzFpImm { offset, .. } => {
-                    let &target_addr = label_map
-                        .get(&label_name)
+                    let target_addr = self
+                        .jump_targets
+                        .get(&logical_pc)
+                        .and_then(|&target| self.memory_layout.get(target).copied())
                         .ok_or_else(|| CodegenError::UnresolvedLabel(label_name.clone()))?;
                     let rel = (target_addr as i32) - (physical_pc as i32);
                     *offset = M31::from(rel);
                     instruction.label = None;
                 }
                 CasmInstr::CallAbsImm { target, .. } => {
-                    let &target_addr = label_map
+                    let &target_addr = function_addresses
                         .get(&label_name)
                         .ok_or_else(|| CodegenError::UnresolvedLabel(label_name.clone()))?;
                     *target = M31::from(target_addr as i32);
                     instruction.label = None;
                 }
                 CasmInstr::StoreImm { imm, .. } => {
-                    let &target_addr = label_map
+                    let &target_addr = data_addresses
                         .get(&label_name)
                         .ok_or_else(|| CodegenError::UnresolvedLabel(label_name.clone()))?;
                     *imm = M31::from(target_addr as i32);
diff --git a/crates/compiler/codegen/src/layout.rs b/crates/compiler/codegen/src/layout.rs
index ee1eda1..fada6f1 100644
--- a/crates/compiler/codegen/src/layout.rs
+++ b/crates/compiler/codegen/src/layout.rs
@@ -294,6 +294,11 @@ impl FunctionLayout {
         Ok(offset)
     }
 
+    /// The name of the function.
+    pub(crate) fn function_name(&self) -> &str {
+        &self.name
+    }
+
     /// Whether the result of an `Extract*`/`Insert*` needs slots of its own.
     pub(crate) fn is_aggregate_copy(&self, value_id: ValueId) -> bool {
         self.aggregate_copies.contains(&value_id)
-- 
2.43.0


From 69d8d4c5fd255b34b10ae2ad693e12995b716b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:49 +0000
Subject: [PATCH 43/66] fix: imported constants could not be compiled, and
 module order was random

A constant of another module was looked up as a local variable, which panics.
The order of the functions in the program was that of a hash map of modules.
---
 crates/compiler/mir/src/lowering/builder.rs  |  8 +-
 crates/compiler/mir/src/lowering/expr.rs     | 83 +++++++++++++++-----
 crates/compiler/mir/src/lowering/function.rs | 22 ++----
 3 files changed, 79 insertions(+), 34 deletions(-)

diff --git a/crates/compiler/mir/src/lowering/builder.rs b/crates/compiler/mir/src/lowering/builder.rs
index e087754..f98d3fd 100644
--- a/crates/compiler/mir/src/lowering/builder.rs
+++ b/crates/compiler/mir/src/lowering/builder.rs
@@ -9,7 +9,9 @@ use std::cell::RefCell;
 use cairo_m_compiler_parser::parser::{Expression, Spanned};
 use cairo_m_compiler_semantic::db::Crate;
 use cairo_m_compiler_semantic::definition::{Definition, DefinitionKind};
-use cairo_m_compiler_semantic::semantic_index::{DefinitionId, ExpressionId, SemanticIndex};
+use cairo_m_compiler_semantic::semantic_index::{
+    DefinitionId, ExpressionId, ProjectSemanticIndex, SemanticIndex,
+};
 use cairo_m_compiler_semantic::type_resolution::{
     definition_semantic_type, expression_semantic_type, resolve_ast_type,
 };
@@ -32,6 +34,8 @@ pub struct LoweringContext<'a, 'db> {
     pub(super) file: File,
     pub(super) crate_id: Crate,
     pub(super) semantic_index: &'a SemanticIndex,
+    /// The semantic indices of all the modules of the crate
+    pub(super) crate_index: &'a ProjectSemanticIndex,
     /// Global map from function DefinitionId to MIR FunctionId for call resolution
     pub(super) function_mapping: &'a FxHashMap<DefinitionId<'db>, (&'a Definition, FunctionId)>,
     /// Reverse mapping from FunctionId to DefinitionId for O(1) signature lookups
@@ -151,6 +155,7 @@ impl<'a, 'db> MirBuilder<'a, 'db> {
         db: &'db dyn SemanticDb,
         file: File,
         semantic_index: &'a SemanticIndex,
+        crate_index: &'a ProjectSemanticIndex,
         function_mapping: &'a FxHashMap<DefinitionId<'db>, (&'a Definition, FunctionId)>,
         file_id: u64,
         crate_id: Crate,
@@ -170,6 +175,7 @@ impl<'a, 'db> MirBuilder<'a, 'db> {
             file,
             crate_id,
             semantic_index,
+            crate_index,
             function_mapping,
             function_id_to_def: RefCell::new(function_id_to_def),
             file_id,
diff --git a/crates/compiler/mir/src/lowering/expr.rs b/crates/compiler/mir/src/lowering/expr.rs
index 120d087..c60004e 100644
--- a/crates/compiler/mir/src/lowering/expr.rs
+++ b/crates/compiler/mir/src/lowering/expr.rs
@@ -188,25 +188,12 @@ impl<'a, 'db> MirBuilder<'a, 'db> {
 
             // Check if this is a constant definition
             if let DefinitionKind::Const(const_ref) = &def.kind {
-                // Constants need to be evaluated to their values
-                if let Some(value_expr_id) = const_ref.value_expr_id {
-                    // Get the constant's value expression from the semantic index
-                    if let Some(expr_info) = self.ctx.semantic_index.expression(value_expr_id) {
-                        // Lower the constant's value expression
-                        let const_expr =
-                            Spanned::new(expr_info.ast_node.clone(), expr_info.ast_span);
-                        // Lower under const context to mark aggregates as read-only
-                        let prev = self.state.in_const_context;
-                        self.state.in_const_context = true;
-                        let value = self.lower_expression(&const_expr);
-                        self.state.in_const_context = prev;
-                        return value;
-                    }
-                }
-                return Err(format!(
-                    "Constant '{}' has no value expression",
-                    name.value()
-                ));
+                return self.lower_constant(name.value(), const_ref.value_expr_id);
+            }
+
+            // Or a constant of another module
+            if let DefinitionKind::Use(use_ref) = &def.kind {
+                return self.lower_imported_constant(use_ref.imported_module.value(), name.value());
             }
 
             let _mir_def_id = self.convert_definition_id(def_id);
@@ -224,6 +211,64 @@ impl<'a, 'db> MirBuilder<'a, 'db> {
         Ok(LoweredExpr::new(Value::error()))
     }
 
+    /// Lowers the value of a constant of the current module.
+    fn lower_constant(
+        &mut self,
+        name: &str,
+        value_expr_id: Option<ExpressionId>,
+    ) -> Result<LoweredExpr, String> {
+        // Get the constant's value expression from the semantic index
+        let expr_info = value_expr_id
+            .and_then(|id| self.ctx.semantic_index.expression(id))
+            .ok_or_else(|| format!("Constant '{name}' has no value expression"))?;
+        let const_expr = Spanned::new(expr_info.ast_node.clone(), expr_info.ast_span);
+        // Lower under const context to mark aggregates as read-only
+        let prev = self.state.in_const_context;
+        self.state.in_const_context = true;
+        let value = self.lower_expression(&const_expr);
+        self.state.in_const_context = prev;
+        value
+    }
+
+    /// Lowers the value of a constant that is imported from `module_name`. The names and types
+    /// in its value are those of that module.
+    fn lower_imported_constant(
+        &mut self,
+        module_name: &str,
+        name: &str,
+    ) -> Result<LoweredExpr, String> {
+        let unresolved = || format!("'{name}' is not a constant of module '{module_name}'");
+        let index = self
+            .ctx
+            .crate_index
+            .modules()
+            .get(module_name)
+            .ok_or_else(unresolved)?;
+        let file = *self
+            .ctx
+            .crate_id
+            .modules(self.ctx.db)
+            .get(module_name)
+            .ok_or_else(unresolved)?;
+        let definition = index
+            .root_scope()
+            .and_then(|root| index.latest_definition_index_by_name(root, name))
+            .and_then(|def_idx| index.definition(def_idx))
+            .ok_or_else(unresolved)?;
+        let DefinitionKind::Const(const_ref) = &definition.kind else {
+            return Err(unresolved());
+        };
+
+        let prev_index = std::mem::replace(&mut self.ctx.semantic_index, index);
+        let prev_file = std::mem::replace(&mut self.ctx.file, file);
+        let prev_types = self.ctx.expr_type_cache.take();
+        let value = self.lower_constant(name, const_ref.value_expr_id);
+        self.ctx.semantic_index = prev_index;
+        self.ctx.file = prev_file;
+        self.ctx.expr_type_cache.replace(prev_types);
+        value
+    }
+
     fn lower_unary_op(
         &mut self,
         op: UnaryOp,
diff --git a/crates/compiler/mir/src/lowering/function.rs b/crates/compiler/mir/src/lowering/function.rs
index 6e96fea..8f87694 100644
--- a/crates/compiler/mir/src/lowering/function.rs
+++ b/crates/compiler/mir/src/lowering/function.rs
@@ -74,19 +74,18 @@ pub fn generate_mir_with_config(
         parsed_modules.insert(module_name.clone(), (file, parsed_program.module));
     }
 
+    // The order of the modules decides that of the functions in the program: it must not depend
+    // on that of a hash map.
+    let mut modules: Vec<_> = crate_semantic_index.modules().iter().collect();
+    modules.sort_unstable_by_key(|(name, _)| *name);
+
     // First pass: Collect all function definitions from all modules and assign them MIR function IDs
     // This allows resolving cross-module function calls correctly
     let modules_map = crate_id.modules(db);
-    for (module_name, semantic_index) in crate_semantic_index.modules() {
+    for &(module_name, semantic_index) in &modules {
         let file = *modules_map
             .get(module_name)
             .expect("Module file should exist");
-        let _file_id: u64 = crate_id
-            .modules(db)
-            .iter()
-            .position(|(name, _)| name == module_name)
-            .expect("Module should exist in crate") as u64;
-
         // Get the parsed module for this file
         let (_, parsed_module) = parsed_modules
             .get(module_name)
@@ -116,17 +115,11 @@ pub fn generate_mir_with_config(
     }
 
     // Second pass: Now lower all function bodies with the complete function mapping
-    for (module_name, semantic_index) in crate_semantic_index.modules() {
+    for (position, &(module_name, semantic_index)) in modules.iter().enumerate() {
         let file = *modules_map
             .get(module_name)
             .expect("Module file should exist");
 
-        let position = crate_id
-            .modules(db)
-            .iter()
-            .position(|(name, _)| name == module_name)
-            .expect("Module should exist in crate");
-
         let mut hasher = DefaultHasher::new();
         crate_id.name(db).hash(&mut hasher);
         position.hash(&mut hasher);
@@ -155,6 +148,7 @@ pub fn generate_mir_with_config(
                         db,
                         file,
                         semantic_index,
+                        &crate_semantic_index,
                         &function_mapping,
                         file_id,
                         crate_id,
-- 
2.43.0


From 67a50d590b58f2ed2d650334e5a3c7835eac798a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:42 +0000
Subject: [PATCH 44/66] fix: code after an infinite loop could not be compiled
 without optimisation

---
 .../mir/src/passes/phi_elimination.rs         | 36 ++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/crates/compiler/mir/src/passes/phi_elimination.rs b/crates/compiler/mir/src/passes/phi_elimination.rs
index 55f33cb..d88be7c 100644
--- a/crates/compiler/mir/src/passes/phi_elimination.rs
+++ b/crates/compiler/mir/src/passes/phi_elimination.rs
@@ -20,7 +20,8 @@ use std::collections::{HashSet, VecDeque};
 use rustc_hash::FxHashMap;
 
 use crate::{
-    BasicBlockId, Instruction, InstructionKind, MirFunction, MirPass, MirType, Value, ValueId, cfg,
+    BasicBlockId, Instruction, InstructionKind, MirFunction, MirPass, MirType, Terminator, Value,
+    ValueId, cfg,
 };
 
 /// Statistics for phi elimination
@@ -76,6 +77,36 @@ impl PhiElimination {
         }
     }
 
+    /// Empty the unreachable blocks if a phi node lacks sources.
+    ///
+    /// A block without predecessors (e.g. the code after an infinite loop) has nothing to merge:
+    /// once its phi nodes are gone, the values they stand for would be used without a definition.
+    fn clear_undefined_blocks(&self, function: &mut MirFunction) {
+        let lacks_sources = function.basic_blocks.iter().any(|block| {
+            block.phi_instructions().any(|instruction| {
+                matches!(&instruction.kind, InstructionKind::Phi { sources, .. } if sources.is_empty())
+            })
+        });
+        if !lacks_sources {
+            return;
+        }
+
+        let unreachable: HashSet<BasicBlockId> =
+            function.unreachable_blocks().into_iter().collect();
+        for (block_id, block) in function.basic_blocks.iter_mut_enumerated() {
+            if unreachable.contains(&block_id) {
+                block.instructions.clear();
+                block.set_terminator(Terminator::Unreachable);
+            }
+            block.preds.retain(|pred| !unreachable.contains(pred));
+            for phi in block.phi_instructions_mut() {
+                if let InstructionKind::Phi { sources, .. } = &mut phi.kind {
+                    sources.retain(|(pred, _)| !unreachable.contains(pred));
+                }
+            }
+        }
+    }
+
     /// Collect all phi nodes and determine where to insert copies
     fn collect_phi_copies(
         &self,
@@ -439,6 +470,9 @@ impl MirPass for PhiElimination {
             );
         }
 
+        // Phase 0: Drop code that merges values from nowhere
+        self.clear_undefined_blocks(function);
+
         // Phase 1: Split critical edges
         self.split_critical_edges(function);
 
-- 
2.43.0


From d7e94f10651fd3fabb13b33db47de850ed335f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:57 +0000
Subject: [PATCH 45/66] fix: arithmetic on plain literals was compiled for felt
 where u32 was meant

---
 crates/compiler/mir/src/lowering/builder.rs |   5 +-
 crates/compiler/mir/src/lowering/expr.rs    | 152 +++++++++++++++-----
 2 files changed, 117 insertions(+), 40 deletions(-)

diff --git a/crates/compiler/mir/src/lowering/builder.rs b/crates/compiler/mir/src/lowering/builder.rs
index f98d3fd..d9b9e2e 100644
--- a/crates/compiler/mir/src/lowering/builder.rs
+++ b/crates/compiler/mir/src/lowering/builder.rs
@@ -15,7 +15,7 @@ use cairo_m_compiler_semantic::semantic_index::{
 use cairo_m_compiler_semantic::type_resolution::{
     definition_semantic_type, expression_semantic_type, resolve_ast_type,
 };
-use cairo_m_compiler_semantic::types::TypeData;
+use cairo_m_compiler_semantic::types::{TypeData, TypeId};
 use cairo_m_compiler_semantic::{File, SemanticDb, module_semantic_index};
 use rustc_hash::FxHashMap;
 
@@ -69,6 +69,8 @@ pub struct MirState<'db> {
     pub(super) loop_stack: Vec<(BasicBlockId, BasicBlockId)>,
     /// True while lowering the body of a semantic `const` value
     pub(super) in_const_context: bool,
+    /// The type that the context of the expression about to be lowered gives to the literals in it
+    pub(super) expected_type: Option<TypeId<'db>>,
 }
 
 /// A builder that constructs a `MirFunction` from a semantic AST function definition
@@ -189,6 +191,7 @@ impl<'a, 'db> MirBuilder<'a, 'db> {
             is_terminated: false,
             loop_stack: Vec::new(),
             in_const_context: false,
+            expected_type: None,
         };
 
         Self { ctx, state }
diff --git a/crates/compiler/mir/src/lowering/expr.rs b/crates/compiler/mir/src/lowering/expr.rs
index c60004e..a6f4c75 100644
--- a/crates/compiler/mir/src/lowering/expr.rs
+++ b/crates/compiler/mir/src/lowering/expr.rs
@@ -9,7 +9,7 @@ use cairo_m_compiler_semantic::definition::DefinitionKind;
 use cairo_m_compiler_semantic::place::FileScopeId;
 use cairo_m_compiler_semantic::semantic_index::{DefinitionId, ExpressionId};
 use cairo_m_compiler_semantic::type_resolution::expression_semantic_type;
-use cairo_m_compiler_semantic::types::TypeData;
+use cairo_m_compiler_semantic::types::{TypeData, TypeId};
 
 use super::builder::{CallResult, MirBuilder};
 use crate::instruction::CalleeSignature;
@@ -63,6 +63,9 @@ impl From<Value> for LoweredExpr {
 
 impl<'a, 'db> LowerExpr<'a> for MirBuilder<'a, 'db> {
     fn lower_expression(&mut self, expr: &Spanned<Expression>) -> Result<LoweredExpr, String> {
+        // The context concerns this expression only, unless passed on below
+        let expected = self.state.expected_type.take();
+
         // First, get the ExpressionId and its associated info
         let expr_id = self.expr_id(expr.span())?;
 
@@ -135,11 +138,14 @@ impl<'a, 'db> LowerExpr<'a> for MirBuilder<'a, 'db> {
                 Ok(LoweredExpr::new(Value::operand(dest)))
             }
             Expression::Identifier(name) => self.lower_identifier(name, current_scope_id),
-            Expression::UnaryOp { op, expr } => self.lower_unary_op(*op, expr, expr_id),
+            Expression::UnaryOp { op, expr } => self.lower_unary_op(*op, expr, expr_id, expected),
             Expression::BinaryOp { op, left, right } => {
-                self.lower_binary_op(*op, left, right, expr_id)
+                self.lower_binary_op(*op, left, right, expr_id, expected)
+            }
+            Expression::Parenthesized(inner) => {
+                let expected = self.expr_type_in(expr_id, expected);
+                self.lower_expression_as(inner, Some(expected))
             }
-            Expression::Parenthesized(inner) => self.lower_expression(inner),
             Expression::FunctionCall { callee, args } => {
                 self.lower_function_call_expr(callee, args, expr_id)
             }
@@ -152,11 +158,13 @@ impl<'a, 'db> LowerExpr<'a> for MirBuilder<'a, 'db> {
             Expression::StructLiteral { name: _, fields } => {
                 self.lower_struct_literal(fields, expr_id)
             }
-            Expression::Tuple(elements) => self.lower_tuple_literal(elements, expr_id),
+            Expression::Tuple(elements) => self.lower_tuple_literal(elements, expr_id, expected),
             Expression::TupleIndex { tuple, index } => self.lower_tuple_index(tuple, *index),
-            Expression::ArrayLiteral(elements) => self.lower_array_literal(elements, expr_id),
+            Expression::ArrayLiteral(elements) => {
+                self.lower_array_literal(elements, expr_id, expected)
+            }
             Expression::ArrayRepeat { element, count } => {
-                self.lower_array_repeat(element, *count.value() as usize, expr_id)
+                self.lower_array_repeat(element, *count.value() as usize, expr_id, expected)
             }
             Expression::Cast {
                 expr,
@@ -168,6 +176,28 @@ impl<'a, 'db> LowerExpr<'a> for MirBuilder<'a, 'db> {
 
 // Individual expression lowering methods
 impl<'a, 'db> MirBuilder<'a, 'db> {
+    /// Lowers an expression whose literals have the type that `expected` gives them, in the way
+    /// the operands of an operator, or the elements of a literal, share the type of the whole.
+    fn lower_expression_as(
+        &mut self,
+        expr: &Spanned<Expression>,
+        expected: Option<TypeId<'db>>,
+    ) -> Result<LoweredExpr, String> {
+        self.state.expected_type = expected;
+        self.lower_expression(expr)
+    }
+
+    /// The semantic type of an expression in its context.
+    fn expr_type_in(&self, expr_id: ExpressionId, expected: Option<TypeId<'db>>) -> TypeId<'db> {
+        expression_semantic_type(
+            self.ctx.db,
+            self.ctx.crate_id,
+            self.ctx.file,
+            expr_id,
+            expected,
+        )
+    }
+
     /// Resolves an identifier by looking up its definition in the semantic index.
     ///
     /// With the value-first approach, most variables are bound to values directly.
@@ -274,11 +304,16 @@ impl<'a, 'db> MirBuilder<'a, 'db> {
         op: UnaryOp,
         expr: &Spanned<Expression>,
         expr_id: ExpressionId,
+        expected: Option<TypeId<'db>>,
     ) -> Result<LoweredExpr, String> {
-        let expr_value = self.lower_expression(expr)?.into_value();
+        // Query semantic type system for result type based on this expression.
+        // The operand has the same type.
+        let semantic_type = self.expr_type_in(expr_id, expected);
+        let result_type = MirType::from_semantic_type(self.ctx.db, semantic_type);
 
-        // Query semantic type system for result type based on this expression
-        let result_type = self.ctx.get_expr_type(expr_id);
+        let expr_value = self
+            .lower_expression_as(expr, Some(semantic_type))?
+            .into_value();
 
         // Use the new unary_op API that allocates its own destination
         let dest = self.instr().unary_op(op, expr_value, result_type);
@@ -294,29 +329,42 @@ impl<'a, 'db> MirBuilder<'a, 'db> {
         left: &Spanned<Expression>,
         right: &Spanned<Expression>,
         expr_id: ExpressionId,
+        expected: Option<TypeId<'db>>,
     ) -> Result<LoweredExpr, String> {
-        let lhs_value = self.lower_expression(left)?.into_value();
-        let rhs_value = self.lower_expression(right)?.into_value();
-
         // Query semantic type system for result type based on this expression
-        let result_type = self.ctx.get_expr_type(expr_id);
-        let dest = self.state.mir_function.new_typed_value_id(result_type);
+        let semantic_type = self.expr_type_in(expr_id, expected);
+        let result_type = MirType::from_semantic_type(self.ctx.db, semantic_type);
 
-        // Register binary op result as a Value
+        // Get the type of the operands to determine the correct binary operation
+        let operand_type = match semantic_type.data(self.ctx.db) {
+            TypeData::Felt | TypeData::U32 => semantic_type,
+            // Comparisons and logical operators: a literal takes the type of the other operand
+            _ => {
+                let is_literal = |e: &Spanned<Expression>| {
+                    matches!(e.value(), Expression::Literal(_, None))
+                };
+                let is_equality = matches!(op, BinaryOp::Eq | BinaryOp::Neq);
+                let typed = if is_equality && is_literal(left) && !is_literal(right) {
+                    right
+                } else {
+                    left
+                };
+                self.expr_type_in(self.expr_id(typed.span())?, None)
+            }
+        };
 
-        // Get the type of the left operand to determine the correct binary operation
-        let left_expr_id = self.expr_id(left.span())?;
+        let lhs_value = self
+            .lower_expression_as(left, Some(operand_type))?
+            .into_value();
+        let rhs_value = self
+            .lower_expression_as(right, Some(operand_type))?
+            .into_value();
 
-        let left_type = expression_semantic_type(
-            self.ctx.db,
-            self.ctx.crate_id,
-            self.ctx.file,
-            left_expr_id,
-            None,
-        );
-        let left_type_data = left_type.data(self.ctx.db);
+        let dest = self.state.mir_function.new_typed_value_id(result_type);
+
+        // Register binary op result as a Value
 
-        let typed_op = crate::BinaryOp::from_parser(op, &left_type_data)?;
+        let typed_op = crate::BinaryOp::from_parser(op, &operand_type.data(self.ctx.db))?;
         self.instr()
             .binary_op_to(typed_op, dest, lhs_value, rhs_value);
         Ok(LoweredExpr::new(Value::operand(dest)))
@@ -493,6 +541,7 @@ impl<'a, 'db> MirBuilder<'a, 'db> {
         &mut self,
         elements: &[Spanned<Expression>],
         expr_id: ExpressionId,
+        expected: Option<TypeId<'db>>,
     ) -> Result<LoweredExpr, String> {
         // NEW: Value-based tuple creation
         if elements.is_empty() {
@@ -500,16 +549,23 @@ impl<'a, 'db> MirBuilder<'a, 'db> {
             return Ok(LoweredExpr::new(Value::unit()));
         }
 
+        // Query semantic type system for the tuple type
+        let semantic_type = self.expr_type_in(expr_id, expected);
+        let tuple_type = MirType::from_semantic_type(self.ctx.db, semantic_type);
+        let element_types = match semantic_type.data(self.ctx.db) {
+            TypeData::Tuple(types) => types,
+            _ => vec![],
+        };
+
         // Lower each element to a value
         let mut element_values = Vec::new();
-        for element_expr in elements {
-            let element_val = self.lower_expression(element_expr)?.into_value();
+        for (i, element_expr) in elements.iter().enumerate() {
+            let element_val = self
+                .lower_expression_as(element_expr, element_types.get(i).copied())?
+                .into_value();
             element_values.push(element_val);
         }
 
-        // Query semantic type system for the tuple type
-        let tuple_type = self.ctx.get_expr_type(expr_id);
-
         // Create the tuple using a single MakeTuple instruction
         let tuple_dest = self.make_tuple(element_values, tuple_type);
 
@@ -556,21 +612,33 @@ impl<'a, 'db> MirBuilder<'a, 'db> {
         }
     }
 
+    fn array_element_type(&self, array_type: TypeId<'db>) -> Option<TypeId<'db>> {
+        match array_type.data(self.ctx.db) {
+            TypeData::FixedArray { element_type, .. } => Some(element_type),
+            _ => None,
+        }
+    }
+
     fn lower_array_literal(
         &mut self,
         elements: &[Spanned<Expression>],
         expr_id: ExpressionId,
+        expected: Option<TypeId<'db>>,
     ) -> Result<LoweredExpr, String> {
+        // Query semantic type system for the array type
+        let semantic_type = self.expr_type_in(expr_id, expected);
+        let array_type = MirType::from_semantic_type(self.ctx.db, semantic_type);
+
         // Lower each element to a value
+        let element_type = self.array_element_type(semantic_type);
         let mut element_values = Vec::new();
         for element_expr in elements {
-            let element_val = self.lower_expression(element_expr)?.into_value();
+            let element_val = self
+                .lower_expression_as(element_expr, element_type)?
+                .into_value();
             element_values.push(element_val);
         }
 
-        // Query semantic type system for the array type
-        let array_type = self.ctx.get_expr_type(expr_id);
-
         // Get element type from the array type
         let element_mir_type = match &array_type {
             MirType::FixedArray { element_type, .. } => (**element_type).clone(),
@@ -588,12 +656,18 @@ impl<'a, 'db> MirBuilder<'a, 'db> {
         element: &Spanned<Expression>,
         count: usize,
         expr_id: ExpressionId,
+        expected: Option<TypeId<'db>>,
     ) -> Result<LoweredExpr, String> {
+        // Query semantic array type to obtain element MIR type
+        let semantic_type = self.expr_type_in(expr_id, expected);
+        let array_type = MirType::from_semantic_type(self.ctx.db, semantic_type);
+
         // Lower the element expression once
-        let elem_value = self.lower_expression(element)?.into_value();
+        let element_type = self.array_element_type(semantic_type);
+        let elem_value = self
+            .lower_expression_as(element, element_type)?
+            .into_value();
 
-        // Query semantic array type to obtain element MIR type
-        let array_type = self.ctx.get_expr_type(expr_id);
         let element_mir_type = match &array_type {
             MirType::FixedArray { element_type, .. } => (**element_type).clone(),
             _ => return Err("ArrayRepeat does not have array type".to_string()),
-- 
2.43.0


From ef0284ab90c9719208a11dc008ed70ba2fe7edd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:00 +0000
Subject: [PATCH 46/66] fix: plain literals assigned to a u32 were compiled for
 felt

---
 crates/compiler/mir/src/lowering/expr.rs |  8 ++++++--
 crates/compiler/mir/src/lowering/stmt.rs | 10 ++++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/crates/compiler/mir/src/lowering/expr.rs b/crates/compiler/mir/src/lowering/expr.rs
index a6f4c75..4ae7e4e 100644
--- a/crates/compiler/mir/src/lowering/expr.rs
+++ b/crates/compiler/mir/src/lowering/expr.rs
@@ -178,7 +178,7 @@ impl<'a, 'db> LowerExpr<'a> for MirBuilder<'a, 'db> {
 impl<'a, 'db> MirBuilder<'a, 'db> {
     /// Lowers an expression whose literals have the type that `expected` gives them, in the way
     /// the operands of an operator, or the elements of a literal, share the type of the whole.
-    fn lower_expression_as(
+    pub(super) fn lower_expression_as(
         &mut self,
         expr: &Spanned<Expression>,
         expected: Option<TypeId<'db>>,
@@ -188,7 +188,11 @@ impl<'a, 'db> MirBuilder<'a, 'db> {
     }
 
     /// The semantic type of an expression in its context.
-    fn expr_type_in(&self, expr_id: ExpressionId, expected: Option<TypeId<'db>>) -> TypeId<'db> {
+    pub(super) fn expr_type_in(
+        &self,
+        expr_id: ExpressionId,
+        expected: Option<TypeId<'db>>,
+    ) -> TypeId<'db> {
         expression_semantic_type(
             self.ctx.db,
             self.ctx.crate_id,
diff --git a/crates/compiler/mir/src/lowering/stmt.rs b/crates/compiler/mir/src/lowering/stmt.rs
index 88c96b7..56a8703 100644
--- a/crates/compiler/mir/src/lowering/stmt.rs
+++ b/crates/compiler/mir/src/lowering/stmt.rs
@@ -205,10 +205,14 @@ impl<'a, 'db> MirBuilder<'a, 'db> {
             .semantic_index
             .expression(lhs_expr_id)
             .ok_or_else(|| format!("MIR: No ExpressionInfo for LHS ID {lhs_expr_id:?}"))?;
+        // Literals on the right have the type of what is assigned to
+        let lhs_type = self.expr_type_in(lhs_expr_id, None);
 
         // Simple identifier assignment
         if let Expression::Identifier(_name) = &lhs_expr_info.ast_node {
-            let rhs_value = self.lower_expression(rhs)?.into_value();
+            let rhs_value = self
+                .lower_expression_as(rhs, Some(lhs_type))?
+                .into_value();
             let (def_idx, _def) = self
                 .ctx
                 .semantic_index
@@ -227,7 +231,9 @@ impl<'a, 'db> MirBuilder<'a, 'db> {
         let (base_expr, steps) = self.decompose_lhs_path(lhs);
 
         // Lower RHS once
-        let mut updated_val: Value = self.lower_expression(rhs)?.into_value();
+        let mut updated_val: Value = self
+            .lower_expression_as(rhs, Some(lhs_type))?
+            .into_value();
 
         // Lower base once (get both value and potential place)
         let base_lowered = self.lower_expression(&base_expr)?;
-- 
2.43.0


From b9b135d4a14503f6ae279ca340c81e25724bb05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:00 +0000
Subject: [PATCH 47/66] fix: -x of a u32 was compiled as a felt negation of its
 low half

---
 crates/compiler/mir/src/lowering/expr.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/compiler/mir/src/lowering/expr.rs b/crates/compiler/mir/src/lowering/expr.rs
index 4ae7e4e..81286cb 100644
--- a/crates/compiler/mir/src/lowering/expr.rs
+++ b/crates/compiler/mir/src/lowering/expr.rs
@@ -319,6 +319,18 @@ impl<'a, 'db> MirBuilder<'a, 'db> {
             .lower_expression_as(expr, Some(semantic_type))?
             .into_value();
 
+        // The machine negates felts only: -x is 0 - x for the other numbers
+        if op == UnaryOp::Neg && result_type == MirType::U32 {
+            let dest = self.state.mir_function.new_typed_value_id(result_type);
+            self.instr().binary_op_to(
+                crate::BinaryOp::U32Sub,
+                dest,
+                Value::integer(0),
+                expr_value,
+            );
+            return Ok(LoweredExpr::new(Value::operand(dest)));
+        }
+
         // Use the new unary_op API that allocates its own destination
         let dest = self.instr().unary_op(op, expr_value, result_type);
 
-- 
2.43.0


From c7d9fbfb627bf7805956488d330b1d5d22fdbdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:41 +0000
Subject: [PATCH 48/66] fix: u32 &, | and ^ of a value with itself must not
 read a cell twice

The pass that keeps an instruction from reading a cell twice, which the
constraint system cannot account for, left out the bitwise instructions.
---
 crates/compiler/codegen/src/passes/mod.rs | 35 ++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/crates/compiler/codegen/src/passes/mod.rs b/crates/compiler/codegen/src/passes/mod.rs
index a2be7ff..c45f980 100644
--- a/crates/compiler/codegen/src/passes/mod.rs
+++ b/crates/compiler/codegen/src/passes/mod.rs
@@ -218,7 +218,7 @@ fn rewrite_instruction(
             dst_off,
         } => rewrite_felt_fp_fp(builder, instr, *src0_off, *src1_off, *dst_off),
 
-        // u32 fp+fp arithmetic
+        // u32 fp+fp arithmetic and bitwise
         CasmInstr::U32StoreAddFpFp {
             src0_off,
             src1_off,
@@ -233,6 +233,21 @@ fn rewrite_instruction(
             src0_off,
             src1_off,
             dst_off,
+        }
+        | CasmInstr::U32StoreAndFpFp {
+            src0_off,
+            src1_off,
+            dst_off,
+        }
+        | CasmInstr::U32StoreOrFpFp {
+            src0_off,
+            src1_off,
+            dst_off,
+        }
+        | CasmInstr::U32StoreXorFpFp {
+            src0_off,
+            src1_off,
+            dst_off,
         } => rewrite_u32_fp_fp(builder, instr, *src0_off, *src1_off, *dst_off, None, false),
         CasmInstr::U32StoreDivRemFpFp {
             src0_off,
@@ -318,6 +333,21 @@ fn rebuild_u32_fp_fp(
             src1_off: b,
             dst_off: d,
         },
+        CasmInstr::U32StoreAndFpFp { .. } => CasmInstr::U32StoreAndFpFp {
+            src0_off: a,
+            src1_off: b,
+            dst_off: d,
+        },
+        CasmInstr::U32StoreOrFpFp { .. } => CasmInstr::U32StoreOrFpFp {
+            src0_off: a,
+            src1_off: b,
+            dst_off: d,
+        },
+        CasmInstr::U32StoreXorFpFp { .. } => CasmInstr::U32StoreXorFpFp {
+            src0_off: a,
+            src1_off: b,
+            dst_off: d,
+        },
         CasmInstr::U32StoreDivRemFpFp { .. } => CasmInstr::U32StoreDivRemFpFp {
             src0_off: a,
             src1_off: b,
@@ -347,6 +377,9 @@ const fn u32_fp_fp_op_name(orig: &CasmInstr) -> Option<&'static str> {
         CasmInstr::U32StoreAddFpFp { .. } => Some("U32Add"),
         CasmInstr::U32StoreSubFpFp { .. } => Some("U32Sub"),
         CasmInstr::U32StoreMulFpFp { .. } => Some("U32Mul"),
+        CasmInstr::U32StoreAndFpFp { .. } => Some("U32And"),
+        CasmInstr::U32StoreOrFpFp { .. } => Some("U32Or"),
+        CasmInstr::U32StoreXorFpFp { .. } => Some("U32Xor"),
         CasmInstr::U32StoreDivRemFpFp { .. } => Some("U32Div"),
         CasmInstr::U32StoreEqFpFp { .. } => Some("U32Eq"),
         CasmInstr::U32StoreLtFpFp { .. } => Some("U32Less"),
-- 
2.43.0


From 155abfc7b623bf5c1a53eedac224d1951e84c7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:54 +0000
Subject: [PATCH 49/66] fix: a segment's initial memory must hold the cells the
 segment reaches first

finalize_segment recorded the memory as it was when the segment began.  Cells
beyond its end were missing, so the adapter put them into the initial memory
with the value first written to them: the initial root of a segment was not
the final root of the one before, and the root of the first segment depended
on the execution.
---
 crates/runner/src/vm/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/runner/src/vm/mod.rs b/crates/runner/src/vm/mod.rs
index 66f96e1..e7dcde5 100644
--- a/crates/runner/src/vm/mod.rs
+++ b/crates/runner/src/vm/mod.rs
@@ -188,7 +188,7 @@ impl VM {
     /// * `is_last_segment` - If true, this is the last segment and we can move all data without cloning. If false, we need to clone memory for the next segment.
     pub fn finalize_segment(&mut self, is_last_segment: bool) {
         // Extract memory data based on whether it's the last segment
-        let (locals, heap) = if is_last_segment {
+        let (mut locals, mut heap) = if is_last_segment {
             // For the last segment, move data without cloning
             (
                 std::mem::take(&mut self.initial_memory_locals),
@@ -206,6 +206,15 @@ impl VM {
             (old_locals, old_heap)
         };
 
+        // The memory only grows, and a cell the segment was the first to reach held zero until
+        // then: this is also what the state the previous segment ended in says about it.
+        if locals.len() < self.memory.locals.len() {
+            locals.resize(self.memory.locals.len(), QM31::zero());
+        }
+        if heap.len() < self.memory.heap.len() {
+            heap.resize(self.memory.heap.len(), QM31::zero());
+        }
+
         // Create merged initial memory HashMap
         let initial_memory = HashMap::from_iter(
             // Locals: index i maps to address i
-- 
2.43.0


From bda74c5c83877fee2470ffb2dad8b6a9016472cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:54 +0000
Subject: [PATCH 50/66] fix: clock updates carry the previous value and stop
 before the access

They carried the value of the initial memory, whatever had been written
since, and a gap of a multiple of the limit led to an access at the very clock
of the last update.
---
 crates/prover/src/adapter/memory.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/crates/prover/src/adapter/memory.rs b/crates/prover/src/adapter/memory.rs
index 5f458fd..9cde26d 100644
--- a/crates/prover/src/adapter/memory.rs
+++ b/crates/prover/src/adapter/memory.rs
@@ -502,23 +502,21 @@ impl Memory {
             }
         };
 
-        // Because of sparse memory cases (output example mentioned), we need to use the initial memory entry updated as above.
-        // Indeed when writing the output, memory_entry.value is the output but initial_memory.get(addr) is 0 (filled by VM).
-        // The clock update must consume 0 (emitted by the initial memory) and emit 0. The store opcode will be the one consuming
-        // 0 and emitting the actual output.
-        let initial_memory_entry = self.initial_memory.get(&memory_entry.address);
+        // The clock update consumes the previous entry of the cell and emits it again at a later clock: it carries the previous
+        // value, not the one written now. For example when writing the output, memory_entry.value is the output but the previous
+        // value is 0 (filled by VM). The store opcode will be the one consuming 0 and emitting the actual output.
         // Check for large clock deltas and generate clock update data if needed
         if current_clk.0 > prev_clk.0 {
             let delta = current_clk.0 - prev_clk.0;
             if delta > RC20_LIMIT {
-                // Generate clock update entries for this large delta
-                let num_steps = delta / RC20_LIMIT;
+                // Generate clock update entries for this large delta, the last of them strictly before the current clock
+                let num_steps = (delta - 1) / RC20_LIMIT;
 
                 for _ in 0..num_steps {
                     self.clock_update_data.push((
                         memory_entry.address,
                         prev_clk,
-                        initial_memory_entry.unwrap().0,
+                        prev_memory_entry.0,
                     ));
                     prev_clk += M31::from(RC20_LIMIT);
                 }
-- 
2.43.0


From 008d109acf5216bd6b7f53ea375913d06b4bd88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:48 +0000
Subject: [PATCH 51/66] fix: an array argument of the wrong length made the
 runner panic

encode_value_for_call reports it as a type mismatch, but the size of the
arguments was computed first, with an assertion.
---
 crates/runner/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/runner/src/lib.rs b/crates/runner/src/lib.rs
index 7c5aa35..5c7d8a4 100644
--- a/crates/runner/src/lib.rs
+++ b/crates/runner/src/lib.rs
@@ -101,8 +101,8 @@ fn calculate_array_materialization_size(ty: &AbiType) -> usize {
 fn calculate_array_materialization_size_with_value(ty: &AbiType, val: &InputValue) -> usize {
     match (ty, val) {
         // Static arrays: compute based on declared size and recurse into element type for nested arrays
-        (AbiType::FixedSizeArray { element, size }, InputValue::List(values)) => {
-            assert_eq!(*size, values.len() as u32);
+        (AbiType::FixedSizeArray { element, size }, InputValue::List(_)) => {
+            // A list of another length is refused when it is encoded
             let element_call_size = AbiType::call_slot_size(element);
             let nested_array_size = calculate_array_materialization_size(element);
             (*size as usize) * (element_call_size + nested_array_size)
-- 
2.43.0


From d2088ca85ea9cb5218094a4a8ef07b85e1bfe283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:48 +0000
Subject: [PATCH 52/66] fix: public input and output cells were off when arrays
 were passed

The arrays passed to the entry point lie between the program and the argument
slots.  They were not counted, so the public input was the start of the arrays
and the public output lay among the arguments.
---
 crates/runner/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/runner/src/lib.rs b/crates/runner/src/lib.rs
index 5c7d8a4..543ece6 100644
--- a/crates/runner/src/lib.rs
+++ b/crates/runner/src/lib.rs
@@ -470,10 +470,11 @@ pub fn run_cairo_program(
     let decoded_returns =
         decode_all_return_values(&entrypoint_info.returns, &raw_return_frame, &vm)?;
 
-    // Create public address ranges for proof generation
+    // Create public address ranges for proof generation. The input holds the materialized arrays
+    // followed by the argument slots.
     let public_address_ranges = PublicAddressRanges::new(
         vm.program_length.0,
-        encoded_arguments.len(),
+        array_materialization_size + encoded_arguments.len(),
         return_slot_count,
     );
 
-- 
2.43.0


From bdcb481fad070ad697e97fbb80fcc9c2fbe64117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:17 +0000
Subject: [PATCH 53/66] fix: trace files went astray when a directory of their
 path had a dot in its name

---
 crates/runner/src/vm/mod.rs | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/crates/runner/src/vm/mod.rs b/crates/runner/src/vm/mod.rs
index e7dcde5..5e76fd7 100644
--- a/crates/runner/src/vm/mod.rs
+++ b/crates/runner/src/vm/mod.rs
@@ -4,7 +4,7 @@ pub mod state;
 use std::collections::HashMap;
 use std::fs::File;
 use std::io::{self, Write};
-use std::path::Path;
+use std::path::{Path, PathBuf};
 
 use cairo_m_common::execution::Segment;
 use cairo_m_common::instruction::InstructionError;
@@ -40,6 +40,17 @@ pub enum VmError {
     Io(#[from] io::Error),
 }
 
+/// The file of a segment: `<base_path>_segment_<index>.<extension>`, in the directory of `path`.
+fn segment_path(path: &Path, index: usize) -> PathBuf {
+    let mut name = path.file_stem().unwrap_or_default().to_os_string();
+    name.push(format!("_segment_{}", index));
+    if let Some(extension) = path.extension() {
+        name.push(".");
+        name.push(extension);
+    }
+    path.with_file_name(name)
+}
+
 /// The Cairo M Virtual Machine.
 ///
 /// ## Fields
@@ -319,17 +330,10 @@ impl VM {
     /// - Writing to any file fails
     pub fn write_binary_trace<P: AsRef<Path>>(&self, path: P) -> Result<(), VmError> {
         let path = path.as_ref();
-        let path_str = path.to_string_lossy();
-
-        // Extract base name and extension
-        let (base, ext) = path_str.rfind('.').map_or_else(
-            || (path_str.as_ref(), ""),
-            |dot_pos| (&path_str[..dot_pos], &path_str[dot_pos..]),
-        );
 
         // Write each segment's trace
         for (i, segment) in self.segments.iter().enumerate() {
-            let segment_path = format!("{}_segment_{}{}", base, i, ext);
+            let segment_path = segment_path(path, i);
             let serialized_trace = segment.serialize_segment_trace();
             let mut file = File::create(&segment_path)?;
             file.write_all(&serialized_trace)?;
@@ -362,17 +366,10 @@ impl VM {
     /// - Writing to any file fails
     pub fn write_binary_memory_trace<P: AsRef<Path>>(&self, path: P) -> Result<(), VmError> {
         let path = path.as_ref();
-        let path_str = path.to_string_lossy();
-
-        // Extract base name and extension
-        let (base, ext) = path_str.rfind('.').map_or_else(
-            || (path_str.as_ref(), ""),
-            |dot_pos| (&path_str[..dot_pos], &path_str[dot_pos..]),
-        );
 
         // Write each segment's memory trace
         for (i, segment) in self.segments.iter().enumerate() {
-            let segment_path = format!("{}_segment_{}{}", base, i, ext);
+            let segment_path = segment_path(path, i);
             let mut file = File::create(&segment_path)?;
 
             // Write program length
-- 
2.43.0


From dd2e8b262cc13707a0a23b918507d67d4e507e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:25 +0000
Subject: [PATCH 54/66] fix: a manifest the user is editing does not stop the
 language server's diagnostics

to_semantic_crate read the manifest again for each analysis and panicked when it could not be
parsed, which ended the task that computes diagnostics. The crate's root already tells where its
modules are.
---
 crates/cairo-m-ls/src/db/mod.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/crates/cairo-m-ls/src/db/mod.rs b/crates/cairo-m-ls/src/db/mod.rs
index 63c92aa..ef43df8 100644
--- a/crates/cairo-m-ls/src/db/mod.rs
+++ b/crates/cairo-m-ls/src/db/mod.rs
@@ -10,7 +10,7 @@ use std::path::PathBuf;
 
 use cairo_m_compiler_parser::{Db as ParserDb, SourceFile, Upcast};
 use cairo_m_compiler_semantic::SemanticDb;
-use cairo_m_project::discover_project;
+use cairo_m_project::{Project, ProjectManifest, SourceLayout};
 pub use swapper::AnalysisDatabaseSwapper;
 
 /// The unified project crate representation used by the language server.
@@ -94,9 +94,18 @@ impl ProjectCrateExt for ProjectCrate {
 
         let mut modules = HashMap::new();
 
-        let project = discover_project(&root_dir)
-            .expect("Error discovering project")
-            .expect("Failed to discover project");
+        // The crate's root is the entry point that was found when its project was loaded. The
+        // manifest is not read again here: the user may be editing it.
+        let project = Project {
+            config: ProjectManifest {
+                name: main_module.clone(),
+                version: String::new(),
+                entry_point: root_dir.to_string_lossy().into_owned(),
+            },
+            root_directory: root_dir.clone(),
+            name: main_module.clone(),
+            source_layout: SourceLayout::default(),
+        };
 
         // Convert PathBuf keys to module names with proper nesting
         for (path, source_file) in files {
-- 
2.43.0


From c635fc743405111410182d351ec0e04d8dc8158c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:25 +0000
Subject: [PATCH 55/66] fix: the language server applies changes of documents
 in the order of their messages

Messages are handled concurrently: a change that arrived while its document was still being opened
was dropped, two changes could be applied the wrong way round, and a project that was being loaded
could put the text on disk in the place of an open document's.
---
 crates/cairo-m-ls/src/backend.rs       | 13 +++++++++++++
 crates/cairo-m-ls/src/project/model.rs |  5 +++++
 2 files changed, 18 insertions(+)

diff --git a/crates/cairo-m-ls/src/backend.rs b/crates/cairo-m-ls/src/backend.rs
index 4751b21..77b1c0a 100644
--- a/crates/cairo-m-ls/src/backend.rs
+++ b/crates/cairo-m-ls/src/backend.rs
@@ -153,6 +153,8 @@ impl Backend {
                         let crate_info_for_later = crate_info.clone();
 
                         // Load the project into the model
+                        let session = project_model_clone.session.write().await;
+
                         // First, handle database operations in a blocking context
                         let _project_model_clone_for_db = Arc::clone(&project_model_clone);
                         let db_clone_for_db = Arc::clone(&db_clone);
@@ -233,6 +235,7 @@ impl Backend {
                         };
 
                         // Process result after releasing the lock
+                        drop(session);
                         match load_result {
                             Ok(moved_files) => {
                                 // Clear diagnostics for files that moved between projects
@@ -274,6 +277,8 @@ impl Backend {
                     }
                     ProjectUpdate::Standalone(file_path) => {
                         // Load the standalone file
+                        let session = project_model_clone.session.write().await;
+
                         // First prepare the source file synchronously
                         let db_clone_for_standalone = Arc::clone(&db_clone);
                         let source_files_clone_for_standalone = Arc::clone(&source_files_clone);
@@ -363,6 +368,7 @@ impl Backend {
                         };
 
                         // Process result after releasing the lock
+                        drop(session);
                         match load_result {
                             Ok(moved_files) => {
                                 // Clear diagnostics for files that moved
@@ -659,6 +665,9 @@ impl LanguageServer for Backend {
             Err(_) => return,
         };
 
+        // Nothing may be awaited before this: it decides the order of the changes.
+        let session = self.project_model.session.write().await;
+
         // Create a new SourceFile for the opened file. This requires a mutable
         // database lock because it allocates a new entity.
         let uri_string = uri.to_string();
@@ -683,6 +692,7 @@ impl LanguageServer for Backend {
 
         // Update reverse lookup map
         self.path_to_uri.insert(path.clone(), uri.clone());
+        drop(session);
 
         // Request project update from the controller
         if let Some(controller) = &self.project_controller {
@@ -701,6 +711,9 @@ impl LanguageServer for Backend {
         let uri = params.text_document.uri;
         let version = params.text_document.version;
 
+        // Nothing may be awaited before this: it decides the order of the changes.
+        let _session = self.project_model.session.write().await;
+
         if let Some(change) = params.content_changes.into_iter().next() {
             // Update the SourceFile with new content. This is the key to
             // incremental compilation.
diff --git a/crates/cairo-m-ls/src/project/model.rs b/crates/cairo-m-ls/src/project/model.rs
index 218cb40..3d1d448 100644
--- a/crates/cairo-m-ls/src/project/model.rs
+++ b/crates/cairo-m-ls/src/project/model.rs
@@ -61,6 +61,10 @@ pub struct ProjectModel {
     pub limits: ProjectResourceLimits,
     /// Approximate total memory usage tracking
     total_memory_usage: Arc<RwLock<usize>>,
+    /// Held exclusively by whoever changes documents or loads projects. The lock is fair: changes
+    /// take effect in the order in which their messages arrived, even though messages are handled
+    /// concurrently.
+    pub session: RwLock<()>,
 }
 
 impl ProjectModel {
@@ -75,6 +79,7 @@ impl ProjectModel {
             project_crate_ids: Arc::new(RwLock::new(HashMap::new())),
             limits,
             total_memory_usage: Arc::new(RwLock::new(0)),
+            session: RwLock::new(()),
         }
     }
 
-- 
2.43.0


From f98a47591633441bd94384c0c0c1713a7ec09870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:09 +0000
Subject: [PATCH 56/66] fix: the language server counts characters as the
 protocol does, in UTF-16 code units

Everything to the right of an emoji, and the emoji itself, was off by one.
---
 crates/cairo-m-ls/src/backend.rs                | 7 ++++---
 crates/cairo-m-ls/src/diagnostics/controller.rs | 3 ++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/cairo-m-ls/src/backend.rs b/crates/cairo-m-ls/src/backend.rs
index 77b1c0a..821472e 100644
--- a/crates/cairo-m-ls/src/backend.rs
+++ b/crates/cairo-m-ls/src/backend.rs
@@ -491,7 +491,8 @@ impl Backend {
                 line += 1;
                 character = 0;
             } else {
-                character += 1;
+                // The protocol counts UTF-16 code units
+                character += ch.len_utf16();
             }
         }
 
@@ -518,7 +519,7 @@ impl Backend {
 
         for (i, ch) in source.char_indices() {
             if current_line == position.line as usize
-                && current_character == position.character as usize
+                && current_character >= position.character as usize
             {
                 return i;
             }
@@ -532,7 +533,7 @@ impl Backend {
                     return source.len();
                 }
             } else {
-                current_character += 1;
+                current_character += ch.len_utf16();
             }
         }
 
diff --git a/crates/cairo-m-ls/src/diagnostics/controller.rs b/crates/cairo-m-ls/src/diagnostics/controller.rs
index 51d2ddf..4ec7853 100644
--- a/crates/cairo-m-ls/src/diagnostics/controller.rs
+++ b/crates/cairo-m-ls/src/diagnostics/controller.rs
@@ -424,7 +424,8 @@ fn offset_to_position(source: &str, offset: usize) -> Position {
             line += 1;
             character = 0;
         } else {
-            character += 1;
+            // The protocol counts UTF-16 code units
+            character += ch.len_utf16();
         }
     }
 
-- 
2.43.0


From 35a80ab5fe57bada929187975d437fb9dd16c19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:10 +0000
Subject: [PATCH 57/66] fix: the language server's database can be replaced
 while documents are open

Every five minutes the database is replaced to bound memory. The ids of open documents were not
carried over: the next edit or question panicked or touched another file. Edits made while the
database was being replaced were lost, and ids looked up just before were used just after.
---
 crates/cairo-m-ls/src/backend.rs              |  47 +++---
 crates/cairo-m-ls/src/db/swapper.rs           | 147 +++++++-----------
 .../cairo-m-ls/src/diagnostics/controller.rs  |  31 ++--
 crates/cairo-m-ls/src/project/model.rs        |   6 +-
 4 files changed, 108 insertions(+), 123 deletions(-)

diff --git a/crates/cairo-m-ls/src/backend.rs b/crates/cairo-m-ls/src/backend.rs
index 821472e..6bffa74 100644
--- a/crates/cairo-m-ls/src/backend.rs
+++ b/crates/cairo-m-ls/src/backend.rs
@@ -91,6 +91,7 @@ impl Backend {
         let db_swapper = AnalysisDatabaseSwapper::new(
             Arc::clone(&db),
             Arc::clone(&project_model),
+            Arc::clone(&source_files),
             std::time::Duration::from_secs(300),
         );
 
@@ -250,18 +251,13 @@ impl Backend {
                                 }
 
                                 // Trigger diagnostics for the loaded project
-                                if let Some(project_crate) = project_model_clone
-                                    .get_project_crate_for_root(&crate_info_for_later.root)
-                                    .await
+                                if let Err(e) = diagnostics_sender_clone
+                                    .send(DiagnosticsRequest::ProjectChanged { root: crate_info_for_later.root })
                                 {
-                                    if let Err(e) = diagnostics_sender_clone
-                                        .send(DiagnosticsRequest::ProjectChanged { project_crate })
-                                    {
-                                        tracing::debug!(
-                                            "Failed to send project changed diagnostics request: {}",
-                                            e
-                                        );
-                                    }
+                                    tracing::debug!(
+                                        "Failed to send project changed diagnostics request: {}",
+                                        e
+                                    );
                                 }
                             }
                             Err(e) => {
@@ -383,18 +379,13 @@ impl Backend {
                                 }
 
                                 // Trigger diagnostics for the loaded project
-                                if let Some(project_crate) = project_model_clone
-                                    .get_project_crate_for_root(&file_path)
-                                    .await
+                                if let Err(e) = diagnostics_sender_clone
+                                    .send(DiagnosticsRequest::ProjectChanged { root: file_path })
                                 {
-                                    if let Err(e) = diagnostics_sender_clone
-                                        .send(DiagnosticsRequest::ProjectChanged { project_crate })
-                                    {
-                                        tracing::debug!(
-                                            "Failed to send project changed diagnostics request: {}",
-                                            e
-                                        );
-                                    }
+                                    tracing::debug!(
+                                        "Failed to send project changed diagnostics request: {}",
+                                        e
+                                    );
                                 }
                             }
                             Err(e) => {
@@ -751,6 +742,9 @@ impl LanguageServer for Backend {
         let uri = params.text_document_position_params.text_document.uri;
         let position = params.text_document_position_params.position;
 
+        // The ids must stay valid until they have been used
+        let _session = self.project_model.session.read().await;
+
         // Get crate for cross-file analysis
         let crate_id = match self.get_semantic_crate_for_file(&uri).await {
             Some(crate_id) => crate_id,
@@ -894,6 +888,9 @@ impl LanguageServer for Backend {
         let uri = params.text_document_position_params.text_document.uri;
         let position = params.text_document_position_params.position;
 
+        // The ids must stay valid until they have been used
+        let _session = self.project_model.session.read().await;
+
         // Get crate for cross-file analysis
         let crate_id = match self.get_semantic_crate_for_file(&uri).await {
             Some(crate_id) => crate_id,
@@ -981,6 +978,9 @@ impl LanguageServer for Backend {
         let uri = params.text_document_position.text_document.uri;
         let position = params.text_document_position.position;
 
+        // The ids must stay valid until they have been used
+        let _session = self.project_model.session.read().await;
+
         // Get crate for cross-file analysis
         let crate_id = match self.get_semantic_crate_for_file(&uri).await {
             Some(crate_id) => crate_id,
@@ -1117,6 +1117,9 @@ impl LanguageServer for Backend {
     async fn formatting(&self, params: DocumentFormattingParams) -> Result<Option<Vec<TextEdit>>> {
         let uri = params.text_document.uri;
 
+        // The ids must stay valid until they have been used
+        let _session = self.project_model.session.read().await;
+
         // Get the source file
         let source = match self.source_files.get(&uri) {
             Some(entry) => *entry.value(),
diff --git a/crates/cairo-m-ls/src/db/swapper.rs b/crates/cairo-m-ls/src/db/swapper.rs
index e8c0ba0..8d87e3e 100644
--- a/crates/cairo-m-ls/src/db/swapper.rs
+++ b/crates/cairo-m-ls/src/db/swapper.rs
@@ -1,13 +1,16 @@
+use std::collections::HashMap;
 use std::sync::{Arc, Mutex};
 use std::time::Duration;
 
+use cairo_m_compiler_parser::SourceFile;
+use dashmap::DashMap;
 use tokio::sync::mpsc;
 use tokio::task::JoinHandle;
 use tokio::time::interval;
 use tower_lsp::lsp_types::Url;
 use tracing::debug;
 
-use crate::db::AnalysisDatabase;
+use crate::db::{AnalysisDatabase, ProjectCrate};
 use crate::project::ProjectModel;
 use crate::project::model::Crate;
 
@@ -27,6 +30,7 @@ impl AnalysisDatabaseSwapper {
     pub fn new(
         db: Arc<Mutex<AnalysisDatabase>>,
         project_model: Arc<ProjectModel>,
+        source_files: Arc<DashMap<Url, SourceFile>>,
         interval_duration: Duration,
     ) -> Self {
         let (shutdown_tx, mut shutdown_rx) = mpsc::unbounded_channel();
@@ -42,7 +46,7 @@ impl AnalysisDatabaseSwapper {
                         break;
                     }
                     _ = timer.tick() => {
-                        Self::perform_swap(&db, &project_model).await;
+                        Self::perform_swap(&db, &project_model, &source_files).await;
                     }
                 }
             }
@@ -55,103 +59,72 @@ impl AnalysisDatabaseSwapper {
     }
 
     /// Perform the actual database swap
-    async fn perform_swap(db: &Arc<Mutex<AnalysisDatabase>>, project_model: &Arc<ProjectModel>) {
+    ///
+    /// Nothing else may hold or look up an id while it goes on: each id belongs to one database.
+    async fn perform_swap(
+        db: &Arc<Mutex<AnalysisDatabase>>,
+        project_model: &Arc<ProjectModel>,
+        source_files: &DashMap<Url, SourceFile>,
+    ) {
         debug!("Starting database swap");
         let start = std::time::Instant::now();
-
-        // Step 1: Get all crates first (async call outside lock)
+        let session = project_model.session.write().await;
         let all_crates = project_model.all_crates().await;
 
-        // Step 2: Snapshot live state with minimal lock time.
-        // We get the current text of every file.
-        let files_content_map = {
-            let mut content_map = std::collections::HashMap::new();
-            {
-                let old_db = match db.lock() {
-                    Ok(guard) => guard,
-                    Err(_) => {
-                        debug!("Failed to lock database for swap snapshot");
-                        return;
-                    }
+        let mut new_project_crate_ids = HashMap::new();
+        let mut new_crates = HashMap::new();
+        {
+            let mut db = db.lock().unwrap_or_else(|poisoned| poisoned.into_inner());
+            let new_db = AnalysisDatabase::new();
+
+            // Each file is carried over once, with its current text
+            let mut carried_over = HashMap::new();
+            let mut carry_over = |old: SourceFile| {
+                *carried_over.entry(old).or_insert_with(|| {
+                    let text = old.text(&*db).to_string();
+                    SourceFile::new(&new_db, text, old.file_path(&*db).to_string())
+                })
+            };
+
+            for mut source_file in source_files.iter_mut() {
+                let old = *source_file.value();
+                *source_file.value_mut() = carry_over(old);
+            }
+            for krate in all_crates {
+                let files: HashMap<_, _> = krate
+                    .files
+                    .into_iter()
+                    .map(|(path, old)| (path, carry_over(old)))
+                    .collect();
+
+                let main_module_name = krate
+                    .main_file
+                    .as_ref()
+                    .and_then(|p| p.file_stem())
+                    .and_then(|s| s.to_str())
+                    .unwrap_or("main")
+                    .to_string();
+                let root = krate.info.root.clone();
+                let project_crate =
+                    ProjectCrate::new(&new_db, root.clone(), main_module_name, files.clone());
+                new_project_crate_ids.insert(root.clone(), project_crate);
+
+                let new_crate = Crate {
+                    info: krate.info,
+                    main_file: krate.main_file,
+                    files,
                 };
-                for krate in &all_crates {
-                    for (path, sf) in &krate.files {
-                        if let Ok(uri) = Url::from_file_path(path) {
-                            let content = sf.text(&*old_db).to_string();
-                            content_map.insert(uri, content);
-                        }
-                    }
-                }
-                drop(old_db);
-            } // Lock on old_db is released here.
-            content_map
-        };
-
-        // Step 3: Build the new database and project state offline.
-        // This part is computationally expensive but doesn't block the language server.
-        let new_db = AnalysisDatabase::new();
-        let mut new_project_crate_ids = std::collections::HashMap::new();
-        let mut new_crates = std::collections::HashMap::new();
-
-        for krate in all_crates {
-            let mut new_files_in_crate = std::collections::HashMap::new();
-            for path in krate.files.keys() {
-                if let Ok(uri) = Url::from_file_path(path) {
-                    if let Some(content) = files_content_map.get(&uri) {
-                        let new_sf = cairo_m_compiler_parser::SourceFile::new(
-                            &new_db,
-                            content.clone(),
-                            uri.to_string(),
-                        );
-                        new_files_in_crate.insert(path.clone(), new_sf);
-                    }
-                }
+                new_crates.insert(root, new_crate);
             }
-
-            let main_module_name = krate
-                .main_file
-                .as_ref()
-                .and_then(|p| p.file_stem())
-                .and_then(|s| s.to_str())
-                .unwrap_or("main")
-                .to_string();
-
-            let new_project_crate = crate::db::ProjectCrate::new(
-                &new_db,
-                krate.info.root.clone(),
-                main_module_name,
-                new_files_in_crate.clone(),
-            );
-            new_project_crate_ids.insert(krate.info.root.clone(), new_project_crate);
-
-            // Create new Crate object with fresh SourceFile IDs
-            let new_crate = Crate {
-                info: krate.info.clone(),
-                main_file: krate.main_file.clone(),
-                files: new_files_in_crate,
-            };
-            new_crates.insert(krate.info.root.clone(), new_crate);
+            *db = new_db;
         }
 
-        // Step 4: Update the project model first (async call)
-        // CRITICAL: Must update both project_crate_ids AND crates to avoid stale Salsa IDs
         project_model
             .replace_project_crate_ids(new_project_crate_ids)
             .await;
         project_model.replace_crates(new_crates).await;
-
-        // Step 5: Perform the atomic database swap.
-        // We acquire the DB lock and swap the database.
-        match db.lock() {
-            Ok(mut old_db) => {
-                *old_db = new_db;
-                let elapsed = start.elapsed();
-                debug!("Database swap completed in {:?}", elapsed);
-            }
-            Err(_) => {
-                debug!("Failed to lock database for final swap");
-            }
-        }
+        drop(session);
+        debug!("Database swap completed in {:?}", start.elapsed());
     }
 
     /// Request shutdown of the swapper
diff --git a/crates/cairo-m-ls/src/diagnostics/controller.rs b/crates/cairo-m-ls/src/diagnostics/controller.rs
index 4ec7853..c11c4e4 100644
--- a/crates/cairo-m-ls/src/diagnostics/controller.rs
+++ b/crates/cairo-m-ls/src/diagnostics/controller.rs
@@ -21,7 +21,7 @@ pub enum DiagnosticsRequest {
     FileChanged { uri: Url, version: Option<i32> },
 
     /// Recompute diagnostics for an entire project
-    ProjectChanged { project_crate: ProjectCrate },
+    ProjectChanged { root: PathBuf },
 
     /// Shutdown the controller
     Shutdown,
@@ -85,18 +85,24 @@ impl DiagnosticsController {
                         }
                     }
 
-                    DiagnosticsRequest::ProjectChanged { project_crate } => {
+                    DiagnosticsRequest::ProjectChanged { root } => {
                         debug!("Processing diagnostics for entire project using delta tracking");
                         let start = Instant::now();
-                        Self::compute_project_diagnostics_delta(
-                            &db,
-                            &diagnostics_state,
-                            project_crate,
-                            &response_sender,
-                            None,
-                            &mut delta_tracker,
-                        )
-                        .await;
+                        let session = project_model.session.read().await;
+                        if let Some(project_crate) =
+                            project_model.get_project_crate_for_root(&root).await
+                        {
+                            Self::compute_project_diagnostics_delta(
+                                &db,
+                                &diagnostics_state,
+                                project_crate,
+                                &response_sender,
+                                None,
+                                &mut delta_tracker,
+                            )
+                            .await;
+                        }
+                        drop(session);
                         debug!("Project diagnostics completed in {:?}", start.elapsed());
 
                         // Signal completion of work
@@ -141,6 +147,9 @@ impl DiagnosticsController {
         response_sender: &UnboundedSender<DiagnosticsResponse>,
         delta_tracker: &mut DeltaDiagnosticsTracker,
     ) {
+        // The ids must stay valid until they have been used
+        let _session = project_model.session.read().await;
+
         // First try to get the ProjectCrate for this file (async call)
         if let Some(project_crate) = project_model.get_project_crate_for_file(&uri).await {
             // We have a project, run delta project diagnostics
diff --git a/crates/cairo-m-ls/src/project/model.rs b/crates/cairo-m-ls/src/project/model.rs
index 3d1d448..28df970 100644
--- a/crates/cairo-m-ls/src/project/model.rs
+++ b/crates/cairo-m-ls/src/project/model.rs
@@ -61,9 +61,9 @@ pub struct ProjectModel {
     pub limits: ProjectResourceLimits,
     /// Approximate total memory usage tracking
     total_memory_usage: Arc<RwLock<usize>>,
-    /// Held exclusively by whoever changes documents or loads projects. The lock is fair: changes
-    /// take effect in the order in which their messages arrived, even though messages are handled
-    /// concurrently.
+    /// Held exclusively by whoever changes documents, loads projects or replaces the database, and
+    /// shared by whoever uses ids of the current database. The lock is fair: changes take effect
+    /// in the order in which their messages arrived, even though messages are handled concurrently.
     pub session: RwLock<()>,
 }
 
-- 
2.43.0


From ce0d43354d1a15446b693426080fa7160770e2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:10 +0000
Subject: [PATCH 58/66] fix: the language server notices files that are created
 in a project it has loaded

The cached list of a project's files was used as long as the project was in use: a new file had no
diagnostics and the modules that import it kept reporting it as missing.
---
 crates/cairo-m-ls/src/project/controller.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/cairo-m-ls/src/project/controller.rs b/crates/cairo-m-ls/src/project/controller.rs
index 9850804..dfd13df 100644
--- a/crates/cairo-m-ls/src/project/controller.rs
+++ b/crates/cairo-m-ls/src/project/controller.rs
@@ -213,7 +213,10 @@ impl ProjectController {
                         let cache_hit = {
                             let cache = manifest_cache.lock().unwrap();
                             cache.get(&manifest_path).and_then(|entry| {
-                                if entry.last_accessed.elapsed() < CACHE_EXPIRY {
+                                // A file that is not listed was created after the listing
+                                if entry.last_accessed.elapsed() < CACHE_EXPIRY
+                                    && entry.files.contains(&file_path)
+                                {
                                     debug!("Cache hit for manifest: {:?}", manifest_path);
                                     Some(entry.clone())
                                 } else {
-- 
2.43.0


From 511a194122cb0b0a141a825ac796c9705c027560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:48 +0000
Subject: [PATCH 59/66] fix: the language server loads a project again when its
 manifest is repaired

The watcher looked for a source file next to the manifest only, where projects have none: files
opened while the manifest was broken stayed on their own for the rest of the session.
---
 crates/cairo-m-ls/src/project/controller.rs | 34 ++++++++++-----------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/crates/cairo-m-ls/src/project/controller.rs b/crates/cairo-m-ls/src/project/controller.rs
index dfd13df..60cdeeb 100644
--- a/crates/cairo-m-ls/src/project/controller.rs
+++ b/crates/cairo-m-ls/src/project/controller.rs
@@ -75,24 +75,22 @@ impl ProjectController {
                             // Trigger project reload for any file in the project directory
                             if let Some(project_root) = path.parent() {
                                 // Try to find any .cm file in the project to trigger reload
-                                if let Ok(entries) = std::fs::read_dir(project_root) {
-                                    for entry in entries.flatten() {
-                                        let entry_path = entry.path();
-                                        if entry_path.extension().and_then(|e| e.to_str())
-                                            == Some("cm")
-                                        {
-                                            if let Err(e) = watcher_sender.send(
-                                                ProjectUpdateRequest::UpdateForFile {
-                                                    file_path: entry_path,
-                                                },
-                                            ) {
-                                                debug!(
-                                                    "Failed to send project update request from watcher: {}",
-                                                    e
-                                                );
-                                            }
-                                            break; // Only need to trigger once per project
-                                        }
+                                let any_source_file =
+                                    [project_root.join("src"), project_root.to_path_buf()]
+                                        .iter()
+                                        .filter_map(|dir| std::fs::read_dir(dir).ok())
+                                        .flat_map(|entries| entries.flatten())
+                                        .map(|entry| entry.path())
+                                        .find(|path| path.extension().is_some_and(|e| e == "cm"));
+                                // Only need to trigger once per project
+                                if let Some(file_path) = any_source_file {
+                                    if let Err(e) = watcher_sender
+                                        .send(ProjectUpdateRequest::UpdateForFile { file_path })
+                                    {
+                                        debug!(
+                                            "Failed to send project update request from watcher: {}",
+                                            e
+                                        );
                                     }
                                 }
                             }
-- 
2.43.0


From 28e74da250c3baa288aa14f400e743b9a70c0956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:48 +0000
Subject: [PATCH 60/66] fix: the language server answers questions about
 modules in subdirectories

Hover, go to definition and completion took the name of the file for the name of the module.
---
 crates/cairo-m-ls/src/backend.rs | 29 +++++------------------------
 1 file changed, 5 insertions(+), 24 deletions(-)

diff --git a/crates/cairo-m-ls/src/backend.rs b/crates/cairo-m-ls/src/backend.rs
index 6bffa74..a81c546 100644
--- a/crates/cairo-m-ls/src/backend.rs
+++ b/crates/cairo-m-ls/src/backend.rs
@@ -6,7 +6,7 @@ use std::time::Duration;
 
 use cairo_m_compiler_parser::{SourceFile, Upcast};
 use cairo_m_compiler_semantic::DefinitionKind;
-use cairo_m_compiler_semantic::db::module_semantic_index;
+use cairo_m_compiler_semantic::db::{module_name_for_file, module_semantic_index};
 use cairo_m_compiler_semantic::semantic_index::DefinitionId;
 use cairo_m_compiler_semantic::type_resolution::definition_semantic_type;
 use cairo_m_compiler_semantic::types::TypeId;
@@ -762,12 +762,7 @@ impl LanguageServer for Backend {
             let offset = self.position_to_offset(content, position);
 
             // Determine which module this file belongs to in the project
-            let file_path = uri.to_file_path().ok();
-            let module_name = file_path
-                .as_ref()
-                .and_then(|p| p.file_stem())
-                .and_then(|stem| stem.to_str())
-                .map(|s| s.to_string())?;
+            let module_name = module_name_for_file(db.upcast(), crate_id, source)?;
 
             // Run semantic analysis query. Salsa will compute it incrementally.
             let index = module_semantic_index(db.upcast(), crate_id, module_name).ok()?;
@@ -908,12 +903,7 @@ impl LanguageServer for Backend {
             let offset = self.position_to_offset(content, position);
 
             // Determine which module this file belongs to in the project
-            let file_path = uri.to_file_path().ok();
-            let module_name = file_path
-                .as_ref()
-                .and_then(|p| p.file_stem())
-                .and_then(|stem| stem.to_str())
-                .map(|s| s.to_string())?;
+            let module_name = module_name_for_file(db.upcast(), crate_id, source)?;
 
             // Run semantic analysis query incrementally.
             let index = module_semantic_index(db.upcast(), crate_id, module_name).ok()?;
@@ -945,11 +935,7 @@ impl LanguageServer for Backend {
                     // Add module information if it's from a different file
                     if def_file != source {
                         if let Some(module_name) =
-                            cairo_m_compiler_semantic::db::module_name_for_file(
-                                db.upcast(),
-                                crate_id,
-                                def_file,
-                            )
+                            module_name_for_file(db.upcast(), crate_id, def_file)
                         {
                             hover_text.push_str(&format!("\n\n*From module: {}*", module_name));
                         }
@@ -998,12 +984,7 @@ impl LanguageServer for Backend {
             let offset = self.position_to_offset(content, position);
 
             // Determine which module this file belongs to in the project
-            let file_path = uri.to_file_path().ok();
-            let module_name = file_path
-                .as_ref()
-                .and_then(|p| p.file_stem())
-                .and_then(|stem| stem.to_str())
-                .map(|s| s.to_string())?;
+            let module_name = module_name_for_file(db.upcast(), crate_id, source)?;
 
             let index = module_semantic_index(db.upcast(), crate_id, module_name).ok()?;
 
-- 
2.43.0


From 770388a4618fa0f9fb144d094ed2440942cf3bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:48 +0000
Subject: [PATCH 61/66] fix: formatting in the editor replaces the whole
 document

The range left out the line break at the end of the document, which formatting then doubled, and
counted its last line in bytes.
---
 crates/cairo-m-ls/src/backend.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/crates/cairo-m-ls/src/backend.rs b/crates/cairo-m-ls/src/backend.rs
index a81c546..2481c35 100644
--- a/crates/cairo-m-ls/src/backend.rs
+++ b/crates/cairo-m-ls/src/backend.rs
@@ -1126,18 +1126,12 @@ impl LanguageServer for Backend {
         };
 
         // Calculate the range that covers the entire document
-        let line_count = current.lines().count();
-        let last_line_len = current.lines().last().map(|l| l.len()).unwrap_or(0);
-
         let range = Range {
             start: Position {
                 line: 0,
                 character: 0,
             },
-            end: Position {
-                line: (line_count.saturating_sub(1)) as u32,
-                character: last_line_len as u32,
-            },
+            end: self.offset_to_position(&current, current.len()),
         };
 
         // Return a single text edit that replaces the entire document
-- 
2.43.0


From e26fcfb5420068afb1d7c56a6553bced28da5032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:48 +0000
Subject: [PATCH 62/66] fix: the last of several changes of a document is the
 one that counts

Each change carries the whole document; the protocol has them applied in their order.
---
 crates/cairo-m-ls/src/backend.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cairo-m-ls/src/backend.rs b/crates/cairo-m-ls/src/backend.rs
index 2481c35..39d435b 100644
--- a/crates/cairo-m-ls/src/backend.rs
+++ b/crates/cairo-m-ls/src/backend.rs
@@ -706,7 +706,7 @@ impl LanguageServer for Backend {
         // Nothing may be awaited before this: it decides the order of the changes.
         let _session = self.project_model.session.write().await;
 
-        if let Some(change) = params.content_changes.into_iter().next() {
+        if let Some(change) = params.content_changes.into_iter().last() {
             // Update the SourceFile with new content. This is the key to
             // incremental compilation.
             if let Some(source) = self.source_files.get(&uri).map(|s| *s.value()) {
-- 
2.43.0


From 4514a2037f03cca03e8d264d7d011c4622f44fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:59 +0000
Subject: [PATCH 63/66] fix: opening a file of a loaded project does not detach
 it from the project

---
 crates/cairo-m-ls/src/backend.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/crates/cairo-m-ls/src/backend.rs b/crates/cairo-m-ls/src/backend.rs
index 39d435b..c36a253 100644
--- a/crates/cairo-m-ls/src/backend.rs
+++ b/crates/cairo-m-ls/src/backend.rs
@@ -660,11 +660,18 @@ impl LanguageServer for Backend {
         // Nothing may be awaited before this: it decides the order of the changes.
         let session = self.project_model.session.write().await;
 
-        // Create a new SourceFile for the opened file. This requires a mutable
-        // database lock because it allocates a new entity.
+        // A file of a project that has been loaded keeps its SourceFile, which is the one the
+        // project knows it by. Otherwise create one. This requires a mutable database lock
+        // because it allocates a new entity.
         let uri_string = uri.to_string();
-        let join_handle =
-            self.safe_db_access_mut(move |db| SourceFile::new(db, content, uri_string));
+        let loaded = self.source_files.get(&uri).map(|s| *s.value());
+        let join_handle = self.safe_db_access_mut(move |db| match loaded {
+            Some(source) => {
+                source.set_text(db).to(content);
+                source
+            }
+            None => SourceFile::new(db, content, uri_string),
+        });
 
         let source = match join_handle.await {
             Ok(source) => source,
-- 
2.43.0


From 4f634f563173af322c2aab248f8ec4d193143a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:59 +0000
Subject: [PATCH 64/66] fix: a store through a pointer did not read its value
 apart from its index

---
 crates/compiler/codegen/src/passes/mod.rs | 44 +++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/crates/compiler/codegen/src/passes/mod.rs b/crates/compiler/codegen/src/passes/mod.rs
index c45f980..9a55e99 100644
--- a/crates/compiler/codegen/src/passes/mod.rs
+++ b/crates/compiler/codegen/src/passes/mod.rs
@@ -276,10 +276,54 @@ fn rewrite_instruction(
             dst_off,
         } => rewrite_u32_fp_fp(builder, instr, *src0_off, *src1_off, *dst_off, None, true),
 
+        // Stores through a pointer read the value as well as the address
+        CasmInstr::StoreToDoubleDerefFpImm {
+            base_off,
+            imm,
+            src_off,
+        } if src_off == base_off => Ok(copy_stored_value(builder, *src_off, |src_off| {
+            CasmInstr::StoreToDoubleDerefFpImm {
+                base_off: *base_off,
+                imm: *imm,
+                src_off,
+            }
+        })),
+        CasmInstr::StoreToDoubleDerefFpFp {
+            base_off,
+            offset_off,
+            src_off,
+        } if src_off == base_off || src_off == offset_off => {
+            Ok(copy_stored_value(builder, *src_off, |src_off| {
+                CasmInstr::StoreToDoubleDerefFpFp {
+                    base_off: *base_off,
+                    offset_off: *offset_off,
+                    src_off,
+                }
+            }))
+        }
+
         _ => Ok(vec![instr.clone()]),
     }
 }
 
+/// The value to store is also part of the address: store a copy of it.
+fn copy_stored_value(
+    builder: &mut CasmBuilder,
+    src: M31,
+    store: impl FnOnce(M31) -> CasmInstr,
+) -> Vec<InstructionBuilder> {
+    let t0 = builder.layout_mut().reserve_stack(1);
+    let copy = InstructionBuilder::from(CasmInstr::StoreAddFpImm {
+        src_off: src,
+        imm: M31::from(0),
+        dst_off: M31::from(t0),
+    })
+    .with_comment(format!("[fp + {t0}] = [fp + {}] + 0", src.0));
+    let op = InstructionBuilder::from(store(M31::from(t0)))
+        .with_comment(format!("store [fp + {t0}] through a pointer"));
+    vec![copy, op]
+}
+
 fn rebuild_felt_fp_fp(orig: &CasmInstr, a: M31, b: M31, d: M31) -> CodegenResult<CasmInstr> {
     Ok(match orig {
         CasmInstr::StoreAddFpFp { .. } => CasmInstr::StoreAddFpFp {
-- 
2.43.0


From 8e29be0dda97f734f9c04fbcd1e5e1e9fbbda40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:38 +0000
Subject: [PATCH 65/66] fix: a pattern nested more than two deep was not
 checked against its value

---
 .../semantic/src/validation/type_validator.rs | 87 ++++++++++++-------
 1 file changed, 55 insertions(+), 32 deletions(-)

diff --git a/crates/compiler/semantic/src/validation/type_validator.rs b/crates/compiler/semantic/src/validation/type_validator.rs
index a63ff5a..20d34e0 100644
--- a/crates/compiler/semantic/src/validation/type_validator.rs
+++ b/crates/compiler/semantic/src/validation/type_validator.rs
@@ -1673,38 +1673,14 @@ impl TypeValidator {
 
                         // Recursively check nested patterns
                         for (pattern, elem_type) in patterns.iter().zip(element_types.iter()) {
-                            if let Pattern::Tuple(nested_patterns) = pattern {
-                                // Check nested tuple pattern matches nested tuple type
-                                match elem_type.data(db) {
-                                    TypeData::Tuple(nested_types) => {
-                                        if nested_types.len() != nested_patterns.len() {
-                                            sink.push(
-                                                Diagnostic::error(
-                                                    DiagnosticCode::TypeMismatch,
-                                                    format!(
-                                                        "Nested tuple pattern has {} elements but value has {} elements",
-                                                        nested_patterns.len(),
-                                                        nested_types.len()
-                                                    ),
-                                                )
-                                                .with_location(file.file_path(db).to_string(), value.span()),
-                                            );
-                                        }
-                                    }
-                                    _ => {
-                                        sink.push(
-                                            Diagnostic::error(
-                                                DiagnosticCode::TypeMismatch,
-                                                format!(
-                                                    "Expected tuple type for nested tuple pattern, found `{}`",
-                                                    elem_type.data(db).display_name(db)
-                                                ),
-                                            )
-                                            .with_location(file.file_path(db).to_string(), value.span()),
-                                        );
-                                    }
-                                }
-                            }
+                            Self::check_nested_pattern(
+                                db,
+                                file,
+                                pattern,
+                                *elem_type,
+                                value.span(),
+                                sink,
+                            );
                         }
 
                         // If a type annotation is provided, it should be a tuple type
@@ -1747,6 +1723,53 @@ impl TypeValidator {
         }
     }
 
+    /// Check that a pattern nested within a tuple pattern, and the patterns nested within it,
+    /// match the structure of the type they destructure
+    fn check_nested_pattern(
+        db: &dyn SemanticDb,
+        file: File,
+        pattern: &Pattern,
+        value_type: TypeId,
+        value_span: SimpleSpan<usize>,
+        sink: &dyn DiagnosticSink,
+    ) {
+        let Pattern::Tuple(patterns) = pattern else {
+            return;
+        };
+        match value_type.data(db) {
+            TypeData::Tuple(element_types) => {
+                if element_types.len() != patterns.len() {
+                    sink.push(
+                        Diagnostic::error(
+                            DiagnosticCode::TypeMismatch,
+                            format!(
+                                "Nested tuple pattern has {} elements but value has {} elements",
+                                patterns.len(),
+                                element_types.len()
+                            ),
+                        )
+                        .with_location(file.file_path(db).to_string(), value_span),
+                    );
+                }
+                for (pattern, elem_type) in patterns.iter().zip(element_types.iter()) {
+                    Self::check_nested_pattern(db, file, pattern, *elem_type, value_span, sink);
+                }
+            }
+            _ => {
+                sink.push(
+                    Diagnostic::error(
+                        DiagnosticCode::TypeMismatch,
+                        format!(
+                            "Expected tuple type for nested tuple pattern, found `{}`",
+                            value_type.data(db).display_name(db)
+                        ),
+                    )
+                    .with_location(file.file_path(db).to_string(), value_span),
+                );
+            }
+        }
+    }
+
     /// Check types for assignment statements
     fn check_assignment_types(
         &self,
-- 
2.43.0


From 35a439deea67691f9261dfdaedf0a2514dd31581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:37 +0000
Subject: [PATCH 66/66] fix: nested arrays were refused only where written as
 literals or in signatures

---
 .../semantic/src/validation/type_validator.rs | 31 ++++++++++++++++---
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/crates/compiler/semantic/src/validation/type_validator.rs b/crates/compiler/semantic/src/validation/type_validator.rs
index 20d34e0..faa857b 100644
--- a/crates/compiler/semantic/src/validation/type_validator.rs
+++ b/crates/compiler/semantic/src/validation/type_validator.rs
@@ -99,6 +99,7 @@ impl Validator for TypeValidator {
         for (def_idx, definition) in index.all_definitions() {
             if let DefinitionKind::Struct(struct_ref) = &definition.kind {
                 for (field_name, field_type) in &struct_ref.fields_ast {
+                    Self::check_for_nested_arrays(db, file, field_type, sink);
                     if type_expr_mentions_struct(index, definition.scope_id, field_type, def_idx) {
                         sink.push(
                             Diagnostic::error(
@@ -150,6 +151,7 @@ impl TypeValidator {
         let Some(type_ast) = const_def.ty.as_ref() else {
             return;
         };
+        Self::check_for_nested_arrays(db, file, type_ast, sink);
         let Some(value_expr_id) = index.expression_id_by_span(const_def.value.span()) else {
             return;
         };
@@ -289,8 +291,11 @@ impl TypeValidator {
                         )
                         .with_location(file.file_path(db).to_string(), type_expr.span()),
                     );
+                } else {
+                    Self::check_for_nested_arrays(db, file, element_type, sink);
                 }
             }
+            TypeExpr::Pointer(inner) => Self::check_for_nested_arrays(db, file, inner, sink),
             TypeExpr::Tuple(elements) => {
                 // Recursively check tuple elements
                 for elem in elements {
@@ -361,6 +366,8 @@ impl TypeValidator {
     ) {
         match &expr_info.ast_node {
             Expression::New { elem_type, count } => {
+                Self::check_for_nested_arrays(db, file, elem_type, sink);
+
                 // Element type must resolve; diagnostics for undeclared will be produced elsewhere
                 let _ = resolve_ast_type(db, crate_id, file, elem_type.clone(), expr_info.scope_id);
 
@@ -976,6 +983,16 @@ impl TypeValidator {
             return;
         };
         let first_type = expression_semantic_type(db, crate_id, file, first_elem_id, None);
+        if matches!(first_type.data(db), TypeData::FixedArray { .. }) {
+            sink.push(
+                Diagnostic::error(
+                    DiagnosticCode::InvalidTypeDefinition,
+                    "Nested arrays are not supported yet".to_string(),
+                )
+                .with_location(file.file_path(db).to_string(), expr_info.ast_span),
+            );
+            return; // No need to check further
+        }
 
         // Check if all elements have the same type
         for (idx, elem) in elements.iter().enumerate().skip(1) {
@@ -1013,10 +1030,16 @@ impl TypeValidator {
         sink: &dyn DiagnosticSink,
     ) {
         // Nested arrays not supported
-        if matches!(
-            element.value(),
-            Expression::ArrayLiteral(_) | Expression::ArrayRepeat { .. }
-        ) {
+        let element_is_array = index
+            .expression_id_by_span(element.span())
+            .map(|id| expression_semantic_type(db, crate_id, file, id, None))
+            .is_some_and(|ty| matches!(ty.data(db), TypeData::FixedArray { .. }));
+        if element_is_array
+            || matches!(
+                element.value(),
+                Expression::ArrayLiteral(_) | Expression::ArrayRepeat { .. }
+            )
+        {
             sink.push(
                 Diagnostic::error(
                     DiagnosticCode::InvalidTypeDefinition,
-- 
2.43.0

