From 48dbc0745976521051548ffa432c5d02b62500bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:08 +0000
Subject: [PATCH 01/23] fix: decode a surrogate pair that follows another
 unicode escape in a string

---
 bluejay-parser/src/lexer/logos_lexer/string_lexer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bluejay-parser/src/lexer/logos_lexer/string_lexer.rs b/bluejay-parser/src/lexer/logos_lexer/string_lexer.rs
index cb4575b..fe66545 100644
--- a/bluejay-parser/src/lexer/logos_lexer/string_lexer.rs
+++ b/bluejay-parser/src/lexer/logos_lexer/string_lexer.rs
@@ -9,6 +9,7 @@ use std::borrow::Cow;
 #[derive(Logos, Debug)]
 #[logos(subpattern hexdigit = r"[0-9A-Fa-f]")]
 #[logos(subpattern fixedunicode = r"\\u[0-9A-Fa-f]{4}")]
+#[logos(subpattern surrogate = r"\\u[Dd][89A-Fa-f][0-9A-Fa-f]{2}")]
 pub(super) enum Token<'a> {
     #[regex(r#"[^\\"\n\r]+"#)]
     SourceCharacters(&'a str),
@@ -17,7 +18,7 @@ pub(super) enum Token<'a> {
     FixedWidthEscapedUnicode(Option<char>),
 
     #[regex(
-        r"(?&fixedunicode)(?&fixedunicode)",
+        r"(?&surrogate)(?&fixedunicode)",
         parse_surrogate_pair_escaped_unicode
     )]
     SurrogatePairEscapedUnicode(Result<(char, Option<char>), Span>),
-- 
2.43.0


From 1f30817d0134bb36138d9ff83f15687d5c8977d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:08 +0000
Subject: [PATCH 02/23] fix: report float literals too large for a 64-bit float
 instead of reading them as infinity

---
 bluejay-parser/src/lexer/logos_lexer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bluejay-parser/src/lexer/logos_lexer.rs b/bluejay-parser/src/lexer/logos_lexer.rs
index 9d8e1fa..2e24e71 100644
--- a/bluejay-parser/src/lexer/logos_lexer.rs
+++ b/bluejay-parser/src/lexer/logos_lexer.rs
@@ -119,7 +119,9 @@ fn parse_float<'a>(lexer: &mut logos::Lexer<'a, Token<'a>>) -> Result<f64, LexEr
         lexer
             .slice()
             .parse()
-            .map_err(|_| LexError::FloatValueTooLarge)
+            .ok()
+            .filter(|value: &f64| value.is_finite())
+            .ok_or(LexError::FloatValueTooLarge)
     })
 }
 
-- 
2.43.0


From 34ce0ca9d36108f57986b2c7b2b8a2573dffaf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:13 +0000
Subject: [PATCH 03/23] fix: print the directives of fragment definitions

---
 bluejay-printer/src/executable/fragment_definition.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bluejay-printer/src/executable/fragment_definition.rs b/bluejay-printer/src/executable/fragment_definition.rs
index f5542b7..e331233 100644
--- a/bluejay-printer/src/executable/fragment_definition.rs
+++ b/bluejay-printer/src/executable/fragment_definition.rs
@@ -1,4 +1,4 @@
-use crate::executable::SelectionSetPrinter;
+use crate::{directive::DirectivesPrinter, executable::SelectionSetPrinter};
 use bluejay_core::executable::FragmentDefinition;
 use std::fmt::{Display, Formatter, Result};
 
@@ -21,9 +21,16 @@ impl<'a, T: FragmentDefinition> Display for FragmentDefinitionPrinter<'a, T> {
         } = *self;
         write!(
             f,
-            "fragment {} on {} {}",
+            "fragment {} on {}",
             fragment_definition.name(),
             fragment_definition.type_condition(),
+        )?;
+        if let Some(directives) = fragment_definition.directives() {
+            write!(f, "{}", DirectivesPrinter::new(directives))?;
+        }
+        write!(
+            f,
+            " {}",
             SelectionSetPrinter::new(fragment_definition.selection_set(), 0),
         )
     }
-- 
2.43.0


From 149dcf6631bfb1f228f0f68b03b29ab4d2703b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:14 +0000
Subject: [PATCH 04/23] fix: print float values without losing precision

---
 bluejay-printer/src/value.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/bluejay-printer/src/value.rs b/bluejay-printer/src/value.rs
index 26a2ae3..0e53b5b 100644
--- a/bluejay-printer/src/value.rs
+++ b/bluejay-printer/src/value.rs
@@ -20,13 +20,7 @@ impl<'a, const CONST: bool, V: Value<CONST>> Display for ValuePrinter<'a, CONST,
         match value.as_ref() {
             ValueReference::Boolean(b) => write!(f, "{}", b),
             ValueReference::Enum(e) => write!(f, "{}", e),
-            ValueReference::Float(fl) => {
-                if fl.fract().abs() < 1e-10 {
-                    write!(f, "{fl:.1}")
-                } else {
-                    write!(f, "{fl}")
-                }
-            }
+            ValueReference::Float(fl) => write!(f, "{fl:?}"),
             ValueReference::Integer(i) => write!(f, "{}", i),
             ValueReference::List(l) => {
                 write!(f, "[")?;
-- 
2.43.0


From d38f45fc94e68d95627e344eb1b5cd02fffc2fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:14 +0000
Subject: [PATCH 05/23] fix: print the schema definition when a non-root type
 has a default root type name

---
 bluejay-printer/src/definition/schema_definition.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/bluejay-printer/src/definition/schema_definition.rs b/bluejay-printer/src/definition/schema_definition.rs
index 570fdfd..609b49f 100644
--- a/bluejay-printer/src/definition/schema_definition.rs
+++ b/bluejay-printer/src/definition/schema_definition.rs
@@ -36,11 +36,19 @@ impl<'a, S: SchemaDefinition> SchemaDefinitionPrinter<'a, S> {
             && schema_definition
                 .mutation()
                 .map(|mutation| mutation.name() == "Mutation")
-                .unwrap_or(true)
+                .unwrap_or_else(|| {
+                    schema_definition
+                        .get_type_definition("Mutation")
+                        .is_none()
+                })
             && schema_definition
                 .subscription()
                 .map(|subscription| subscription.name() == "Subscription")
-                .unwrap_or(true)
+                .unwrap_or_else(|| {
+                    schema_definition
+                        .get_type_definition("Subscription")
+                        .is_none()
+                })
             && schema_definition
                 .directives()
                 .map(AsIter::is_empty)
-- 
2.43.0


From 86253dad334d4fa948679d43e61fa55633f6b022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:57 +0000
Subject: [PATCH 06/23] fix: print descriptions that a block string cannot hold
 as quoted strings

---
 bluejay-printer/src/string_value.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/bluejay-printer/src/string_value.rs b/bluejay-printer/src/string_value.rs
index a5aba3f..caf2bd2 100644
--- a/bluejay-printer/src/string_value.rs
+++ b/bluejay-printer/src/string_value.rs
@@ -35,12 +35,36 @@ impl<'a> BlockStringValuePrinter<'a> {
     pub(crate) fn new(value: &'a str, indentation: usize) -> Self {
         Self { value, indentation }
     }
+
+    /// Whether a block string can denote exactly the value: it removes indentation common to all
+    /// lines and blank first and last lines, normalizes line terminators, and has no escape sequence
+    /// for control characters
+    fn is_representable(value: &str) -> bool {
+        let is_blank = |line: &str| line.trim_start_matches([' ', '\t']).is_empty();
+        let is_indented = |line: &str| line.starts_with([' ', '\t']);
+
+        value.is_empty()
+            || (!value
+                .chars()
+                .any(|c| c.is_ascii_control() && !matches!(c, '\n' | '\t'))
+                && !value.split('\n').next().is_some_and(is_blank)
+                && !value.split('\n').next_back().is_some_and(is_blank)
+                && !value
+                    .split('\n')
+                    .filter(|line| !is_blank(line))
+                    .all(is_indented))
+    }
 }
 
 impl<'a> Display for BlockStringValuePrinter<'a> {
     fn fmt(&self, f: &mut Formatter<'_>) -> Result {
         let Self { value, indentation } = *self;
         write_indent(f, indentation)?;
+
+        if !Self::is_representable(value) {
+            return writeln!(f, "{}", StringValuePrinter::new(value));
+        }
+
         writeln!(f, "\"\"\"")?;
 
         let escaped = value.replace("\"\"\"", "\\\"\"\"");
-- 
2.43.0


From a0074980b5ed7be2715761569997762ecee8a08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:26 +0000
Subject: [PATCH 07/23] fix: check variable usages in input objects nested in
 lists

---
 .../document/rules/all_variable_usages_allowed.rs    | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/bluejay-validator/src/executable/document/rules/all_variable_usages_allowed.rs b/bluejay-validator/src/executable/document/rules/all_variable_usages_allowed.rs
index f5de1fa..3189e63 100644
--- a/bluejay-validator/src/executable/document/rules/all_variable_usages_allowed.rs
+++ b/bluejay-validator/src/executable/document/rules/all_variable_usages_allowed.rs
@@ -84,13 +84,11 @@ impl<'a, E: ExecutableDocument, S: SchemaDefinition> AllVariableUsagesAllowed<'a
                 }
             }),
             ValueReference::Object(o) => o.iter().for_each(|(key, value)| {
-                if let Some(ivd) = location.input_value_definition() {
-                    if let BaseInputTypeReference::InputObject(iotd) =
-                        ivd.r#type().base(self.schema_definition)
-                    {
-                        if let Some(ivd) = iotd.input_field_definitions().get(key.as_ref()) {
-                            self.visit_value(value, root, VariableUsageLocation::ObjectField(ivd));
-                        }
+                if let BaseInputTypeReference::InputObject(iotd) =
+                    location.r#type().base(self.schema_definition)
+                {
+                    if let Some(ivd) = iotd.input_field_definitions().get(key.as_ref()) {
+                        self.visit_value(value, root, VariableUsageLocation::ObjectField(ivd));
                     }
                 }
             }),
-- 
2.43.0


From f62b156df51768d623f77fdda4109b223fa74fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:26 +0000
Subject: [PATCH 08/23] fix: check the fields of a fragment against the
 fragment's own type when merging

---
 .../src/executable/document/rules/field_selection_merging.rs    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bluejay-validator/src/executable/document/rules/field_selection_merging.rs b/bluejay-validator/src/executable/document/rules/field_selection_merging.rs
index 939ba56..41fe9fc 100644
--- a/bluejay-validator/src/executable/document/rules/field_selection_merging.rs
+++ b/bluejay-validator/src/executable/document/rules/field_selection_merging.rs
@@ -299,7 +299,7 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
                         {
                             if self.selection_set_valid(
                                 fragment_definition.selection_set(),
-                                parent_type,
+                                scoped_type,
                             ) {
                                 let mut new_parent_fragments = HashSet::new();
                                 new_parent_fragments.clone_from(parent_fragments);
-- 
2.43.0


From 78bd09a80f241767e707c959d502b9dd378df4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:26 +0000
Subject: [PATCH 09/23] fix: compare selections on unions with selections on
 their members when merging

---
 .../src/executable/document/rules/field_selection_merging.rs   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bluejay-validator/src/executable/document/rules/field_selection_merging.rs b/bluejay-validator/src/executable/document/rules/field_selection_merging.rs
index 41fe9fc..d0569df 100644
--- a/bluejay-validator/src/executable/document/rules/field_selection_merging.rs
+++ b/bluejay-validator/src/executable/document/rules/field_selection_merging.rs
@@ -151,7 +151,8 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
                             .entry(otd.name())
                             .or_default()
                             .push(field_context),
-                        TypeDefinitionReference::Interface(_) => abstract_group.push(field_context),
+                        TypeDefinitionReference::Interface(_)
+                        | TypeDefinitionReference::Union(_) => abstract_group.push(field_context),
                         _ => {}
                     }
                     (abstract_group, concrete_groups)
-- 
2.43.0


From 50068dacad6841936b1f42b96c6c6772af60cf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:52 +0000
Subject: [PATCH 10/23] fix: add the introspection fields to the explicit query
 root only

---
 bluejay-parser/src/ast/definition/definition_document.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bluejay-parser/src/ast/definition/definition_document.rs b/bluejay-parser/src/ast/definition/definition_document.rs
index ae337c0..eded682 100644
--- a/bluejay-parser/src/ast/definition/definition_document.rs
+++ b/bluejay-parser/src/ast/definition/definition_document.rs
@@ -239,7 +239,9 @@ impl<'a, C: Context> DefinitionDocument<'a, C> {
             .for_each(|type_definition| {
                 if let TypeDefinition::Object(otd) = type_definition {
                     let name = otd.name().as_ref();
-                    if name == "Query" || explicit_query_roots.contains(name) {
+                    if (self.schema_definitions.is_empty() && name == "Query")
+                        || explicit_query_roots.contains(name)
+                    {
                         otd.add_query_root_fields();
                     }
                 }
-- 
2.43.0


From 310d03afd9d55d304ddfa6b770483b8da80d695f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:01 +0000
Subject: [PATCH 11/23] fix: count the response names a subscription selects at
 its root, through all fragments

---
 ...ubscription_operation_single_root_field.rs | 65 +++++++++++++------
 1 file changed, 46 insertions(+), 19 deletions(-)

diff --git a/bluejay-validator/src/executable/document/rules/subscription_operation_single_root_field.rs b/bluejay-validator/src/executable/document/rules/subscription_operation_single_root_field.rs
index d1093fb..51410e8 100644
--- a/bluejay-validator/src/executable/document/rules/subscription_operation_single_root_field.rs
+++ b/bluejay-validator/src/executable/document/rules/subscription_operation_single_root_field.rs
@@ -4,10 +4,11 @@ use crate::executable::{
 };
 use bluejay_core::definition::SchemaDefinition;
 use bluejay_core::executable::{
-    ExecutableDocument, FragmentDefinition, FragmentSpread, InlineFragment, OperationDefinition,
-    Selection, SelectionReference,
+    ExecutableDocument, Field, FragmentDefinition, FragmentSpread, InlineFragment,
+    OperationDefinition, Selection, SelectionReference,
 };
 use bluejay_core::{AsIter, OperationType};
+use std::collections::HashSet;
 
 pub struct SubscriptionOperationSingleRootField<'a, E: ExecutableDocument> {
     invalid_operation_definitions: Vec<&'a E::OperationDefinition>,
@@ -32,29 +33,55 @@ impl<'a, E: ExecutableDocument, S: SchemaDefinition> Visitor<'a, E, S>
         ) {
             return;
         }
-        let selection_set = core_operation_definition.selection_set();
-        if selection_set.len() != 1 {
+        let mut response_names = HashSet::new();
+        self.collect_response_names(
+            core_operation_definition.selection_set(),
+            &mut response_names,
+            &mut HashSet::new(),
+        );
+        if response_names.len() > 1 {
             self.invalid_operation_definitions
                 .push(operation_definition);
-        } else if let Some(first_selection) = selection_set.iter().next() {
-            let fields_count = match first_selection.as_ref() {
-                SelectionReference::Field(_) => Some(1),
+        }
+    }
+}
+
+impl<'a, E: ExecutableDocument> SubscriptionOperationSingleRootField<'a, E> {
+    fn collect_response_names(
+        &self,
+        selection_set: &'a E::SelectionSet,
+        response_names: &mut HashSet<&'a str>,
+        visited_fragments: &mut HashSet<&'a str>,
+    ) {
+        selection_set
+            .iter()
+            .for_each(|selection| match selection.as_ref() {
+                SelectionReference::Field(f) => {
+                    response_names.insert(f.response_name());
+                }
                 SelectionReference::FragmentSpread(fs) => {
-                    let fragment_definition = self
-                        .executable_document
-                        .fragment_definitions()
-                        .find(|fd| fd.name() == fs.name());
-                    fragment_definition.map(|fd| fd.selection_set().len())
+                    if visited_fragments.insert(fs.name()) {
+                        let fragment_definition = self
+                            .executable_document
+                            .fragment_definitions()
+                            .find(|fd| fd.name() == fs.name());
+                        if let Some(fragment_definition) = fragment_definition {
+                            self.collect_response_names(
+                                fragment_definition.selection_set(),
+                                response_names,
+                                visited_fragments,
+                            );
+                        }
+                    }
                 }
                 SelectionReference::InlineFragment(inline_fragment) => {
-                    Some(inline_fragment.selection_set().len())
+                    self.collect_response_names(
+                        inline_fragment.selection_set(),
+                        response_names,
+                        visited_fragments,
+                    );
                 }
-            };
-            if matches!(fields_count, Some(fc) if fc != 1) {
-                self.invalid_operation_definitions
-                    .push(operation_definition);
-            }
-        }
+            });
     }
 }
 
-- 
2.43.0


From 4cddb97919744907c095beabba6de109647dfe98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:02 +0000
Subject: [PATCH 12/23] fix: compare the directives of input fields, not of the
 input object containing them

---
 bluejay-schema-comparator/src/diff/input_field.rs       | 7 ++-----
 bluejay-schema-comparator/src/diff/input_object_type.rs | 1 -
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/bluejay-schema-comparator/src/diff/input_field.rs b/bluejay-schema-comparator/src/diff/input_field.rs
index 2e2606a..2d71c03 100644
--- a/bluejay-schema-comparator/src/diff/input_field.rs
+++ b/bluejay-schema-comparator/src/diff/input_field.rs
@@ -7,7 +7,6 @@ use bluejay_core::Value;
 
 pub struct InputFieldDiff<'a, S: SchemaDefinition> {
     old_type_definition: &'a S::InputObjectTypeDefinition,
-    new_type_definition: &'a S::InputObjectTypeDefinition,
     old_field_definition: &'a S::InputValueDefinition,
     new_field_definition: &'a S::InputValueDefinition,
 }
@@ -15,13 +14,11 @@ pub struct InputFieldDiff<'a, S: SchemaDefinition> {
 impl<'a, S: SchemaDefinition + 'a> InputFieldDiff<'a, S> {
     pub fn new(
         old_type_definition: &'a S::InputObjectTypeDefinition,
-        new_type_definition: &'a S::InputObjectTypeDefinition,
         old_field_definition: &'a S::InputValueDefinition,
         new_field_definition: &'a S::InputValueDefinition,
     ) -> Self {
         Self {
             old_type_definition,
-            new_type_definition,
             old_field_definition,
             new_field_definition,
         }
@@ -79,7 +76,7 @@ impl<'a, S: SchemaDefinition + 'a> InputFieldDiff<'a, S> {
         }
 
         changes.extend(
-            directive_additions::<S, _>(self.old_type_definition, self.new_type_definition).map(
+            directive_additions::<S, _>(self.old_field_definition, self.new_field_definition).map(
                 |directive| Change::DirectiveAdded {
                     directive,
                     location: DirectiveLocation::InputFieldDefinition,
@@ -89,7 +86,7 @@ impl<'a, S: SchemaDefinition + 'a> InputFieldDiff<'a, S> {
         );
 
         changes.extend(
-            directive_removals::<S, _>(self.old_type_definition, self.new_type_definition).map(
+            directive_removals::<S, _>(self.old_field_definition, self.new_field_definition).map(
                 |directive| Change::DirectiveRemoved {
                     directive,
                     location: DirectiveLocation::InputFieldDefinition,
diff --git a/bluejay-schema-comparator/src/diff/input_object_type.rs b/bluejay-schema-comparator/src/diff/input_object_type.rs
index 79e5c46..9cad065 100644
--- a/bluejay-schema-comparator/src/diff/input_object_type.rs
+++ b/bluejay-schema-comparator/src/diff/input_object_type.rs
@@ -74,7 +74,6 @@ impl<'a, S: SchemaDefinition + 'a> InputObjectTypeDiff<'a, S> {
                         changes.extend(
                             InputFieldDiff::new(
                                 self.old_type_definition,
-                                self.new_type_definition,
                                 old_field,
                                 new_field,
                             )
-- 
2.43.0


From 15f20406b434bbfef540d4785ea47da3815b60d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:02 +0000
Subject: [PATCH 13/23] fix: report arguments removed from a directive that has
 none left

---
 bluejay-schema-comparator/src/diff/directive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bluejay-schema-comparator/src/diff/directive.rs b/bluejay-schema-comparator/src/diff/directive.rs
index d17bda3..1bedf3c 100644
--- a/bluejay-schema-comparator/src/diff/directive.rs
+++ b/bluejay-schema-comparator/src/diff/directive.rs
@@ -91,7 +91,7 @@ impl<'a, S: SchemaDefinition + 'a> DirectiveDiff<'a, S> {
             .into_iter()
             .flatten()
             .filter(|old_arg| {
-                self.new_directive.arguments().map_or(false, |args| {
+                self.new_directive.arguments().map_or(true, |args| {
                     !args.iter().any(|new_arg| old_arg.name() == new_arg.name())
                 })
             })
-- 
2.43.0


From 10b7d634946396b21d6a841991ff42ee2411d834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:02 +0000
Subject: [PATCH 14/23] fix: report arguments added to or removed from a
 directive definition without others

---
 bluejay-schema-comparator/src/diff/directive_definition.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bluejay-schema-comparator/src/diff/directive_definition.rs b/bluejay-schema-comparator/src/diff/directive_definition.rs
index c99d6ff..e96562b 100644
--- a/bluejay-schema-comparator/src/diff/directive_definition.rs
+++ b/bluejay-schema-comparator/src/diff/directive_definition.rs
@@ -126,7 +126,7 @@ impl<'a, S: SchemaDefinition + 'a> DirectiveDefinitionDiff<'a, S> {
             .filter(|old_argument| {
                 self.new_directive_definition
                     .arguments_definition()
-                    .map_or(false, |args| {
+                    .map_or(true, |args| {
                         !args
                             .iter()
                             .any(|new_argument| old_argument.name() == new_argument.name())
@@ -143,7 +143,7 @@ impl<'a, S: SchemaDefinition + 'a> DirectiveDefinitionDiff<'a, S> {
             .filter(|new_argument| {
                 self.old_directive_definition
                     .arguments_definition()
-                    .map_or(false, |args| {
+                    .map_or(true, |args| {
                         !args
                             .iter()
                             .any(|old_argument| old_argument.name() == new_argument.name())
-- 
2.43.0


From ece8645ab498d8d2919d379440c12ee82f7c57b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:20 +0000
Subject: [PATCH 15/23] fix: report changed arguments of directives applied to
 the schema

---
 bluejay-schema-comparator/src/diff/schema.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bluejay-schema-comparator/src/diff/schema.rs b/bluejay-schema-comparator/src/diff/schema.rs
index df2e272..459a6b7 100644
--- a/bluejay-schema-comparator/src/diff/schema.rs
+++ b/bluejay-schema-comparator/src/diff/schema.rs
@@ -1,5 +1,5 @@
 use crate::changes::Change;
-use crate::diff::directive::{directive_additions, directive_removals};
+use crate::diff::directive::{common_directive_changes, directive_additions, directive_removals};
 use crate::diff::directive_definition::DirectiveDefinitionDiff;
 use crate::diff::enum_type::EnumTypeDiff;
 use crate::diff::input_object_type::InputObjectTypeDiff;
@@ -82,6 +82,11 @@ impl<'a, S: SchemaDefinition> SchemaDiff<'a, S> {
                 }),
         );
 
+        changes.extend(common_directive_changes(
+            self.old_schema_definition,
+            self.new_schema_definition,
+        ));
+
         self.old_schema_definition
             .directive_definitions()
             .for_each(|old_directive| {
-- 
2.43.0


From a051d3df11a23634fb650471440e6faf4c7a6651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:20 +0000
Subject: [PATCH 16/23] fix: compare the directives of custom scalars

---
 bluejay-schema-comparator/src/diff/schema.rs | 33 +++++++++++++++++---
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/bluejay-schema-comparator/src/diff/schema.rs b/bluejay-schema-comparator/src/diff/schema.rs
index 459a6b7..edad5b2 100644
--- a/bluejay-schema-comparator/src/diff/schema.rs
+++ b/bluejay-schema-comparator/src/diff/schema.rs
@@ -7,7 +7,8 @@ use crate::diff::interface_type::InterfaceTypeDiff;
 use crate::diff::object_type::ObjectTypeDiff;
 use crate::diff::union_type::UnionTypeDiff;
 use bluejay_core::definition::{
-    DirectiveDefinition as _, DirectiveLocation, SchemaDefinition, TypeDefinitionReference,
+    DirectiveDefinition as _, DirectiveLocation, ScalarTypeDefinition, SchemaDefinition,
+    TypeDefinitionReference,
 };
 
 pub struct SchemaDiff<'a, S: SchemaDefinition> {
@@ -141,11 +142,33 @@ impl<'a, S: SchemaDefinition> SchemaDiff<'a, S> {
             (
                 TypeDefinitionReference::BuiltinScalar(_),
                 TypeDefinitionReference::BuiltinScalar(_),
-            )
-            | (
-                TypeDefinitionReference::CustomScalar(_),
-                TypeDefinitionReference::CustomScalar(_),
             ) => {}
+            (
+                TypeDefinitionReference::CustomScalar(old_type),
+                TypeDefinitionReference::CustomScalar(new_type),
+            ) => {
+                changes.extend(
+                    directive_additions::<S, _>(old_type, new_type).map(|directive| {
+                        Change::DirectiveAdded {
+                            directive,
+                            location: DirectiveLocation::Scalar,
+                            member_name: old_type.name(),
+                        }
+                    }),
+                );
+
+                changes.extend(
+                    directive_removals::<S, _>(old_type, new_type).map(|directive| {
+                        Change::DirectiveRemoved {
+                            directive,
+                            location: DirectiveLocation::Scalar,
+                            member_name: old_type.name(),
+                        }
+                    }),
+                );
+
+                changes.extend(common_directive_changes(old_type, new_type));
+            }
             _ => {
                 changes.push(Change::TypeKindChanged {
                     old_type_definition: old_type,
-- 
2.43.0


From 723d55ab2c2151eb3ebec3adff1ea6ff77723ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:28 +0000
Subject: [PATCH 17/23] fix: compare the directives of the arguments of
 directive definitions

---
 .../src/diff/directive_definition_argument.rs | 28 ++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/bluejay-schema-comparator/src/diff/directive_definition_argument.rs b/bluejay-schema-comparator/src/diff/directive_definition_argument.rs
index d60e75c..95edd03 100644
--- a/bluejay-schema-comparator/src/diff/directive_definition_argument.rs
+++ b/bluejay-schema-comparator/src/diff/directive_definition_argument.rs
@@ -1,5 +1,8 @@
 use crate::changes::Change;
-use bluejay_core::definition::{InputType, InputValueDefinition, SchemaDefinition};
+use crate::diff::directive::{common_directive_changes, directive_additions, directive_removals};
+use bluejay_core::definition::{
+    DirectiveLocation, InputType, InputValueDefinition, SchemaDefinition,
+};
 use bluejay_core::Value;
 
 pub struct DirectiveDefinitionArgumentDiff<'a, S: SchemaDefinition> {
@@ -66,6 +69,29 @@ impl<'a, S: SchemaDefinition + 'a> DirectiveDefinitionArgumentDiff<'a, S> {
             _ => {}
         }
 
+        changes.extend(
+            directive_additions::<S, _>(self.old_argument_definition, self.new_argument_definition)
+                .map(|directive| Change::DirectiveAdded {
+                    directive,
+                    location: DirectiveLocation::ArgumentDefinition,
+                    member_name: self.old_argument_definition.name(),
+                }),
+        );
+
+        changes.extend(
+            directive_removals::<S, _>(self.old_argument_definition, self.new_argument_definition)
+                .map(|directive| Change::DirectiveRemoved {
+                    directive,
+                    location: DirectiveLocation::ArgumentDefinition,
+                    member_name: self.old_argument_definition.name(),
+                }),
+        );
+
+        changes.extend(common_directive_changes(
+            self.old_argument_definition,
+            self.new_argument_definition,
+        ));
+
         changes
     }
 }
-- 
2.43.0


From d02ef8531b799e4f035dccead7946061ce856d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:58 +0000
Subject: [PATCH 18/23] fix: find a variable's default by the variable's name
 in InputSize

---
 .../src/executable/operation/analyzers/input_size.rs            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bluejay-validator/src/executable/operation/analyzers/input_size.rs b/bluejay-validator/src/executable/operation/analyzers/input_size.rs
index d288a17..1a1c15f 100644
--- a/bluejay-validator/src/executable/operation/analyzers/input_size.rs
+++ b/bluejay-validator/src/executable/operation/analyzers/input_size.rs
@@ -128,7 +128,7 @@ fn find_input_size_offenders_arguments<
                 let variable_definition = variable_definitions.map(|variable_definitions| {
                     variable_definitions
                         .iter()
-                        .find(|def| def.variable() == argument_name)
+                        .find(|def| def.variable() == name)
                 });
                 if let Some(Some(var_def)) = variable_definition {
                     let default_value = var_def.default_value();
-- 
2.43.0


From 6c81780e1a18143e4e8e846cbe0b8bf45b17367d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:58 +0000
Subject: [PATCH 19/23] fix: saturate complexity cost arithmetic instead of
 overflowing

---
 .../src/executable/operation/analyzers/complexity_cost.rs   | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bluejay-validator/src/executable/operation/analyzers/complexity_cost.rs b/bluejay-validator/src/executable/operation/analyzers/complexity_cost.rs
index c6b5fbb..50f3b5b 100644
--- a/bluejay-validator/src/executable/operation/analyzers/complexity_cost.rs
+++ b/bluejay-validator/src/executable/operation/analyzers/complexity_cost.rs
@@ -277,9 +277,11 @@ impl<
 
                 let children_cost = self.merged_max_complexity_for_scopes(&composite_scopes);
 
-                (base_cost + children_cost) * multiplier
+                base_cost
+                    .saturating_add(children_cost)
+                    .saturating_mul(multiplier)
             })
-            .sum()
+            .fold(0, usize::saturating_add)
     }
 
     fn possible_type_names(
-- 
2.43.0


From 4c64f4ba48f70b1fe702261a6842254d345d5175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:43 +0000
Subject: [PATCH 20/23] fix: reject schema definitions whose directives are not
 defined

---
 .../src/ast/definition/definition_document.rs         | 11 +++++++++++
 .../src/ast/definition/explicit_schema_definition.rs  | 10 +++++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/bluejay-parser/src/ast/definition/definition_document.rs b/bluejay-parser/src/ast/definition/definition_document.rs
index eded682..3272633 100644
--- a/bluejay-parser/src/ast/definition/definition_document.rs
+++ b/bluejay-parser/src/ast/definition/definition_document.rs
@@ -718,6 +718,17 @@ impl<'a, C: Context> TryFrom<&'a DefinitionDocument<'a, C>> for SchemaDefinition
             &mut errors,
         );
 
+        definition_document
+            .schema_definitions
+            .iter()
+            .for_each(|schema_definition| {
+                DefinitionDocument::resolve_directive_definitions(
+                    &indexed_directive_definitions,
+                    schema_definition,
+                    &mut errors,
+                )
+            });
+
         if !errors.is_empty() {
             return Err(errors);
         }
diff --git a/bluejay-parser/src/ast/definition/explicit_schema_definition.rs b/bluejay-parser/src/ast/definition/explicit_schema_definition.rs
index 0b59a90..55cfe6d 100644
--- a/bluejay-parser/src/ast/definition/explicit_schema_definition.rs
+++ b/bluejay-parser/src/ast/definition/explicit_schema_definition.rs
@@ -4,7 +4,7 @@ use crate::ast::{
 };
 use crate::lexical_token::{Name, PunctuatorType, StringValue};
 use crate::Span;
-use bluejay_core::OperationType;
+use bluejay_core::{definition::HasDirectives, OperationType};
 use std::str::FromStr;
 
 #[derive(Debug)]
@@ -40,6 +40,14 @@ impl<'a, C: Context> ExplicitSchemaDefinition<'a, C> {
     }
 }
 
+impl<'a, C: Context> HasDirectives for ExplicitSchemaDefinition<'a, C> {
+    type Directives = Directives<'a, C>;
+
+    fn directives(&self) -> Option<&Self::Directives> {
+        self.directives.as_ref()
+    }
+}
+
 impl<'a, C: Context> FromTokens<'a> for ExplicitSchemaDefinition<'a, C> {
     fn from_tokens(tokens: &mut impl Tokens<'a>) -> Result<Self, ParseError> {
         let description = tokens.next_if_string_value();
-- 
2.43.0


From 08856f98e09af2948b15e85234e9cb96cbbfc29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:28 +0000
Subject: [PATCH 21/23] fix: include directives in the span of a fragment
 spread

---
 bluejay-parser/src/ast/executable/fragment_spread.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bluejay-parser/src/ast/executable/fragment_spread.rs b/bluejay-parser/src/ast/executable/fragment_spread.rs
index e3a3e56..3ddb437 100644
--- a/bluejay-parser/src/ast/executable/fragment_spread.rs
+++ b/bluejay-parser/src/ast/executable/fragment_spread.rs
@@ -18,7 +18,8 @@ impl<'a> FromTokens<'a> for FragmentSpread<'a> {
         let name = tokens.expect_name()?;
         assert_ne!(TypeCondition::ON, name.as_ref());
         let directives = VariableDirectives::try_from_tokens(tokens).transpose()?;
-        let span = ellipse_span.merge(name.span());
+        let directives_span = directives.as_ref().and_then(|directives| directives.span());
+        let span = ellipse_span.merge(directives_span.unwrap_or_else(|| name.span()));
         Ok(Self {
             name,
             directives,
-- 
2.43.0


From a9b4ab4e43f0013ce99d91732f0fa9dcd9ec4438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:28 +0000
Subject: [PATCH 22/23] fix: include the trailing bang in the span of a list
 type in definitions

---
 bluejay-parser/src/ast/definition/input_type.rs  | 2 +-
 bluejay-parser/src/ast/definition/output_type.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bluejay-parser/src/ast/definition/input_type.rs b/bluejay-parser/src/ast/definition/input_type.rs
index aa6d060..73310f0 100644
--- a/bluejay-parser/src/ast/definition/input_type.rs
+++ b/bluejay-parser/src/ast/definition/input_type.rs
@@ -100,7 +100,7 @@ impl<'a, C: Context + 'a> FromTokens<'a> for InputType<'a, C> {
             let inner = Self::from_tokens(tokens).map(Box::new)?;
             let close_span = tokens.expect_punctuator(PunctuatorType::CloseSquareBracket)?;
             let bang_span = tokens.next_if_punctuator(PunctuatorType::Bang);
-            let span = open_span.merge(&close_span);
+            let span = open_span.merge(bang_span.as_ref().unwrap_or(&close_span));
             Ok(InputType::List(inner, bang_span.is_some(), span))
         } else if let Some(base_name) = tokens.next_if_name() {
             let bang_span = tokens.next_if_punctuator(PunctuatorType::Bang);
diff --git a/bluejay-parser/src/ast/definition/output_type.rs b/bluejay-parser/src/ast/definition/output_type.rs
index c651b9d..0f4fb5a 100644
--- a/bluejay-parser/src/ast/definition/output_type.rs
+++ b/bluejay-parser/src/ast/definition/output_type.rs
@@ -112,7 +112,7 @@ impl<'a, C: Context + 'a> FromTokens<'a> for OutputType<'a, C> {
             let inner = Self::from_tokens(tokens).map(Box::new)?;
             let close_span = tokens.expect_punctuator(PunctuatorType::CloseSquareBracket)?;
             let bang_span = tokens.next_if_punctuator(PunctuatorType::Bang);
-            let span = open_span.merge(&close_span);
+            let span = open_span.merge(bang_span.as_ref().unwrap_or(&close_span));
             Ok(Self::List(inner, bang_span.is_some(), span))
         } else if let Some(base_name) = tokens.next_if_name() {
             let bang_span = tokens.next_if_punctuator(PunctuatorType::Bang);
-- 
2.43.0


From e8586e84e6d924cae834ad660659c2848f547b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:05 +0000
Subject: [PATCH 23/23] fix: scoped schemas list the directive definitions
 applied to the schema itself

---
 bluejay-visibility/src/schema_definition.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bluejay-visibility/src/schema_definition.rs b/bluejay-visibility/src/schema_definition.rs
index a937691..d783aaf 100644
--- a/bluejay-visibility/src/schema_definition.rs
+++ b/bluejay-visibility/src/schema_definition.rs
@@ -291,6 +291,8 @@ impl<'a, 'b, S: definition::SchemaDefinition, W: Warden<SchemaDefinition = S>>
                 }
             });
 
+        instance.visit_directives(schema_definition.directives.as_ref());
+
         instance.visit_type_definition(TypeDefinitionReference::Object(schema_definition.query));
 
         if let Some(mutation) = schema_definition.mutation {
@@ -407,7 +409,7 @@ impl<'a, 'b, S: definition::SchemaDefinition, W: Warden<SchemaDefinition = S>>
             })
     }
 
-    fn visit_directives(&mut self, directives: Option<&'a Directives<'a, S, W>>) {
+    fn visit_directives(&mut self, directives: Option<&Directives<'a, S, W>>) {
         if let Some(directives) = directives {
             directives.iter().for_each(|directive| {
                 // if this is `None` it means that the schema is invalid, but that is not the responsibility of this visitor
-- 
2.43.0

