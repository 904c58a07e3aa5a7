From e6ff99fda5870caec5eca62af3058e7bdad9daff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:23 +0000
Subject: [PATCH 01/51] fix: report an unknown language, a missing link target
 or frame id as an error instead of panicking

---
 semantics/oca-bundle/src/build.rs | 50 ++++++++++++++++++++++++-------
 1 file changed, 40 insertions(+), 10 deletions(-)

diff --git a/semantics/oca-bundle/src/build.rs b/semantics/oca-bundle/src/build.rs
index b6e5ea5..f26644d 100644
--- a/semantics/oca-bundle/src/build.rs
+++ b/semantics/oca-bundle/src/build.rs
@@ -166,7 +166,14 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
 
                         for (prop_name, prop_value) in mut_properties {
                             if let ast::NestedValue::Value(value) = prop_value {
-                                oca.add_meta(lang_iso.unwrap(), prop_name.clone(), value.clone());
+                                oca.add_meta(
+                                    lang_iso.ok_or_else(|| {
+                                        errors.push("Undefined or unknown language".to_string());
+                                        errors.clone()
+                                    })?,
+                                    prop_name.clone(),
+                                    value.clone(),
+                                );
                             }
                         }
                     }
@@ -191,7 +198,13 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                                 })?
                                 .clone();
                             if let ast::NestedValue::Value(attr_label) = attr_type_value {
-                                attribute.set_label(lang_iso.unwrap(), attr_label.clone());
+                                attribute.set_label(
+                                    lang_iso.ok_or_else(|| {
+                                        errors.push("Undefined or unknown language".to_string());
+                                        errors.clone()
+                                    })?,
+                                    attr_label.clone(),
+                                );
                             }
                             oca.add_attribute(attribute);
                         }
@@ -217,7 +230,13 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                                 })?
                                 .clone();
                             if let ast::NestedValue::Value(attr_info) = attr_type_value {
-                                attribute.set_information(lang_iso.unwrap(), attr_info.clone());
+                                attribute.set_information(
+                                    lang_iso.ok_or_else(|| {
+                                        errors.push("Undefined or unknown language".to_string());
+                                        errors.clone()
+                                    })?,
+                                    attr_info.clone(),
+                                );
                             }
                             oca.add_attribute(attribute);
                         }
@@ -421,7 +440,11 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                             match attr_type_value {
                                 ast::NestedValue::Value(attr_entries) => {
                                     attribute.set_entry(
-                                        lang_iso.unwrap(),
+                                        lang_iso.ok_or_else(|| {
+                                            errors
+                                                .push("Undefined or unknown language".to_string());
+                                            errors.clone()
+                                        })?,
                                         EntriesElement::Sai(attr_entries.clone()),
                                     );
                                 }
@@ -438,7 +461,11 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                                         }
                                     }
                                     attribute.set_entry(
-                                        lang_iso.unwrap(),
+                                        lang_iso.ok_or_else(|| {
+                                            errors
+                                                .push("Undefined or unknown language".to_string());
+                                            errors.clone()
+                                        })?,
                                         EntriesElement::Object(entries),
                                     );
                                 }
@@ -471,9 +498,10 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                                     errors.clone()
                                 })?
                                 .clone();
-                            if let ast::NestedValue::Value(linked_attr) = attr_type_value {
-                                attribute
-                                    .set_link(target_bundle.clone().unwrap(), linked_attr.clone());
+                            if let (Some(target_bundle), ast::NestedValue::Value(linked_attr)) =
+                                (&target_bundle, attr_type_value)
+                            {
+                                attribute.set_link(target_bundle.clone(), linked_attr.clone());
                             }
                             oca.add_attribute(attribute);
                         }
@@ -508,7 +536,9 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                                     errors.clone()
                                 })?
                                 .clone();
-                            if let ast::NestedValue::Object(attr_framing) = attr_framing_value {
+                            if let (Some(frame_id), ast::NestedValue::Object(attr_framing)) =
+                                (&frame_id, attr_framing_value)
+                            {
                                 let mut framing = HashMap::new();
                                 for (framing_key, framing_value) in attr_framing {
                                     if let ast::NestedValue::Object(framing_value) = framing_value {
@@ -530,7 +560,7 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                                         }
                                     }
                                 }
-                                attribute.set_framing(frame_id.clone().unwrap(), framing.clone());
+                                attribute.set_framing(frame_id.clone(), framing.clone());
                             }
                             oca.add_attribute(attribute);
                         }
-- 
2.43.0


From c08748f304e663d4438adbfa74349e9a4ea28ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:40 +0000
Subject: [PATCH 02/51] fix: re-declared unit, entry codes, entry code mapping
 and flag are no longer dropped by Attribute::merge

---
 semantics/oca-bundle/src/state/attribute.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/semantics/oca-bundle/src/state/attribute.rs b/semantics/oca-bundle/src/state/attribute.rs
index 33ab18c..52197a4 100644
--- a/semantics/oca-bundle/src/state/attribute.rs
+++ b/semantics/oca-bundle/src/state/attribute.rs
@@ -81,6 +81,10 @@ impl Attribute {
         if self.name != other.name {
             panic!("Cannot merge attributes with different names");
         } else {
+            if other.is_flagged {
+                self.set_flagged();
+            }
+
             if other.attribute_type.is_some() {
                 self.attribute_type.clone_from(&other.attribute_type);
             }
@@ -102,17 +106,17 @@ impl Attribute {
                 self.format.clone_from(&other.format);
             }
 
-            if self.unit.is_none() {
+            if other.unit.is_some() {
                 self.unit.clone_from(&other.unit);
             }
 
-            if self.entry_codes.is_none() {
+            if other.entry_codes.is_some() {
                 self.entry_codes.clone_from(&other.entry_codes);
             }
 
             self.merge_entries(other);
 
-            if self.entry_codes_mapping.is_none() {
+            if other.entry_codes_mapping.is_some() {
                 self.entry_codes_mapping
                     .clone_from(&other.entry_codes_mapping);
             }
-- 
2.43.0


From 17ac01184effce309292356101f1b3dd26c41e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:19 +0000
Subject: [PATCH 03/51] fix: report unsupported ADD, REMOVE and MODIFY commands
 as errors instead of panicking

---
 semantics/oca-bundle/src/build.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/semantics/oca-bundle/src/build.rs b/semantics/oca-bundle/src/build.rs
index f26644d..68faa9d 100644
--- a/semantics/oca-bundle/src/build.rs
+++ b/semantics/oca-bundle/src/build.rs
@@ -569,7 +569,9 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                 _ => (),
             }
         }
-        (ast::CommandType::Add, ast::ObjectKind::OCABundle(_)) => todo!(),
+        (ast::CommandType::Add, ast::ObjectKind::OCABundle(_)) => {
+            errors.push("Unsupported ADD command: bundle".to_string());
+        }
         (ast::CommandType::Remove, ast::ObjectKind::CaptureBase(content)) => {
             if let Some(ref attributes) = content.attributes {
                 for (attr_name, _) in attributes {
@@ -584,11 +586,15 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                 }
             }
         }
-        (ast::CommandType::Remove, ast::ObjectKind::OCABundle(_)) => todo!(),
-        (ast::CommandType::Remove, ast::ObjectKind::Overlay(_, _)) => todo!(),
-        (ast::CommandType::Modify, ast::ObjectKind::CaptureBase(_)) => todo!(),
-        (ast::CommandType::Modify, ast::ObjectKind::OCABundle(_)) => todo!(),
-        (ast::CommandType::Modify, ast::ObjectKind::Overlay(_, _)) => todo!(),
+        (ast::CommandType::Remove, ast::ObjectKind::OCABundle(_)) => {
+            errors.push("Unsupported REMOVE command: bundle".to_string());
+        }
+        (ast::CommandType::Remove, ast::ObjectKind::Overlay(overlay_type, _)) => {
+            errors.push(format!("Unsupported REMOVE command: {overlay_type} overlay"));
+        }
+        (ast::CommandType::Modify, _) => {
+            errors.push("Unsupported MODIFY command".to_string());
+        }
     }
 
     if errors.is_empty() {
-- 
2.43.0


From 8ffedfd6637287967d2df9878136366ef388c472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:39 +0000
Subject: [PATCH 04/51] fix: an OCAFILE without commands is reported as an
 error instead of panicking

---
 semantics/oca-bundle/src/build.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/semantics/oca-bundle/src/build.rs b/semantics/oca-bundle/src/build.rs
index 68faa9d..b1503af 100644
--- a/semantics/oca-bundle/src/build.rs
+++ b/semantics/oca-bundle/src/build.rs
@@ -110,13 +110,17 @@ pub fn from_ast(
             }
         }
     }
-    if errors.is_empty() {
-        Ok(OCABuild {
-            oca_bundle: base.unwrap().generate_bundle(),
+    match base {
+        Some(mut oca_box) if errors.is_empty() => Ok(OCABuild {
+            oca_bundle: oca_box.generate_bundle(),
             steps,
-        })
-    } else {
-        Err(errors)
+        }),
+        None if errors.is_empty() => Err(vec![Error::FromASTError {
+            line_number: default_command_meta.line_number,
+            raw_line: default_command_meta.raw_line.clone(),
+            message: "No commands to build a bundle from".to_string(),
+        }]),
+        _ => Err(errors),
     }
 }
 
-- 
2.43.0


From ce48d2f28b0cac4c55ca71aeb1aef5b21fd2145f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:05 +0000
Subject: [PATCH 05/51] fix: attributes listed in FLAGGED_ATTRIBUTES are
 flagged in the bundle

---
 semantics/oca-bundle/src/build.rs                      | 8 ++++++++
 semantics/oca-file/src/ocafile/instructions/helpers.rs | 4 +++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/semantics/oca-bundle/src/build.rs b/semantics/oca-bundle/src/build.rs
index b1503af..eab8ae6 100644
--- a/semantics/oca-bundle/src/build.rs
+++ b/semantics/oca-bundle/src/build.rs
@@ -156,6 +156,14 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                     }
                 }
             }
+            if let Some(ref flagged_attributes) = content.flagged_attributes {
+                for attr_name in flagged_attributes {
+                    match oca.attributes.get_mut(attr_name) {
+                        Some(attribute) => attribute.set_flagged(),
+                        None => errors.push(format!("Undefined attribute: {attr_name}")),
+                    }
+                }
+            }
         }
         (ast::CommandType::Add, ast::ObjectKind::Overlay(overlay_type, content)) => {
             match overlay_type {
diff --git a/semantics/oca-file/src/ocafile/instructions/helpers.rs b/semantics/oca-file/src/ocafile/instructions/helpers.rs
index 7188edc..e5e3425 100644
--- a/semantics/oca-file/src/ocafile/instructions/helpers.rs
+++ b/semantics/oca-file/src/ocafile/instructions/helpers.rs
@@ -482,7 +482,9 @@ pub(crate) fn extract_flagged_attrs(object: pest::iterators::Pair<'_, Rule>) ->
     for attr in object.into_inner() {
         match attr.as_rule() {
             Rule::list_value => {
-                flagged_attrs.push(attr.as_str().to_string());
+                for name in attr.into_inner() {
+                    flagged_attrs.push(name.as_str().to_string());
+                }
             }
             _ => {
                 debug!(
-- 
2.43.0


From 624f110595201949db52be4648c305a7a238ad8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:25 +0000
Subject: [PATCH 06/51] fix: links, attribute framings and flagged attributes
 are kept when a bundle is turned into an AST

---
 semantics/oca-bundle/src/state/oca.rs | 72 ++++++++++++++++++++++++++-
 1 file changed, 71 insertions(+), 1 deletion(-)

diff --git a/semantics/oca-bundle/src/state/oca.rs b/semantics/oca-bundle/src/state/oca.rs
index 241336f..699f52b 100644
--- a/semantics/oca-bundle/src/state/oca.rs
+++ b/semantics/oca-bundle/src/state/oca.rs
@@ -28,6 +28,7 @@ use convert_case::{Case, Casing};
 use isolang::Language;
 use oca_ast_semantics::ast::{
     CaptureContent, Command, CommandType, Content, NestedValue, OCAAst, ObjectKind, OverlayType,
+    RefValue,
 };
 /// Internal representation of OCA objects in split between non-attributes values and attributes.
 /// It is used to build dynamically objects without knowing yet whole structure of the object.
@@ -951,7 +952,8 @@ impl OCABundle {
                 // TODO find out if we can use indexmap in capture base to simplify stuff
                 attributes: Some(self.capture_base.attributes.clone().into_iter().collect()),
                 properties,
-                flagged_attributes: None,
+                flagged_attributes: (!self.capture_base.flagged_attributes.is_empty())
+                    .then(|| self.capture_base.flagged_attributes.clone()),
             }),
         };
         ast.commands.push(command);
@@ -1287,6 +1289,74 @@ impl OCABundle {
                     };
                     ast.commands.push(command);
                 }
+                OverlayType::Link(_) => {
+                    let link = overlay.as_any().downcast_ref::<overlay::Link>().unwrap();
+                    let mut properties = IndexMap::new();
+                    if let Ok(target) = link.target_bundle.parse() {
+                        properties.insert(
+                            "target".to_string(),
+                            NestedValue::Reference(RefValue::Said(target)),
+                        );
+                    }
+                    let mut attributes = IndexMap::new();
+                    for (attr_name, linked_attr) in link.attribute_mapping.iter() {
+                        attributes
+                            .insert(attr_name.clone(), NestedValue::Value(linked_attr.clone()));
+                    }
+                    let command = Command {
+                        kind: CommandType::Add,
+                        object_kind: ObjectKind::Overlay(
+                            overlay.overlay_type().clone(),
+                            Content {
+                                attributes: Some(attributes),
+                                properties: Some(properties),
+                            },
+                        ),
+                    };
+                    ast.commands.push(command);
+                }
+                OverlayType::AttributeFraming(_) => {
+                    let framing = overlay
+                        .as_any()
+                        .downcast_ref::<overlay::AttributeFraming>()
+                        .unwrap();
+                    let mut properties = IndexMap::new();
+                    for (meta_name, meta_value) in framing.metadata.iter() {
+                        let prop_name = meta_name.strip_prefix("frame_").unwrap_or(meta_name);
+                        properties.insert(
+                            prop_name.to_string(),
+                            NestedValue::Value(meta_value.clone()),
+                        );
+                    }
+                    let mut attributes = IndexMap::new();
+                    for (attr_name, attr_framing) in framing.attribute_framing.iter() {
+                        let mut scopes = IndexMap::new();
+                        for (term, scope) in attr_framing.iter() {
+                            let mut values = IndexMap::new();
+                            values.insert(
+                                "predicate_id".to_string(),
+                                NestedValue::Value(scope.predicate_id.clone()),
+                            );
+                            values.insert(
+                                "framing_justification".to_string(),
+                                NestedValue::Value(scope.framing_justification.clone()),
+                            );
+                            scopes.insert(term.clone(), NestedValue::Object(values));
+                        }
+                        attributes.insert(attr_name.clone(), NestedValue::Object(scopes));
+                    }
+                    let command = Command {
+                        kind: CommandType::Add,
+                        object_kind: ObjectKind::Overlay(
+                            overlay.overlay_type().clone(),
+                            Content {
+                                attributes: Some(attributes),
+                                properties: Some(properties),
+                            },
+                        ),
+                    };
+                    ast.commands.push(command);
+                }
                 _ => {}
             }
         });
-- 
2.43.0


From 943f10645c7a3a3aa0afb60a1d645300afe2f95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:19 +0000
Subject: [PATCH 07/51] fix: classification and flagged attributes are written
 as OCAFILE commands of their own

---
 semantics/oca-file/src/ocafile/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/semantics/oca-file/src/ocafile/mod.rs b/semantics/oca-file/src/ocafile/mod.rs
index 027bdf8..3688b93 100644
--- a/semantics/oca-file/src/ocafile/mod.rs
+++ b/semantics/oca-file/src/ocafile/mod.rs
@@ -180,11 +180,23 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                             for (prop_name, prop_value) in properties {
                                 if prop_name.eq("classification") {
                                     if let ast::NestedValue::Value(value) = prop_value {
+                                        if !line.ends_with("ADD ") {
+                                            line.push_str("\nADD ");
+                                        }
                                         line.push_str(format!("CLASSIFICATION {}", value).as_str());
                                     }
                                 }
                             }
                         }
+                        if let Some(flagged_attributes) = &content.flagged_attributes {
+                            if !line.ends_with("ADD ") {
+                                line.push_str("\nADD ");
+                            }
+                            line.push_str("FLAGGED_ATTRIBUTES");
+                            for name in flagged_attributes {
+                                line.push_str(&format!(" {}", name));
+                            }
+                        }
                     }
                     ast::ObjectKind::Overlay(o_type, _) => match o_type {
                         ast::OverlayType::Meta(_) => {
-- 
2.43.0


From 4ffc220996d94e7417d24b9ad879be874dc86ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:33 +0000
Subject: [PATCH 08/51] fix: a generated OCAFILE names the bundle its FROM
 command starts from

---
 semantics/oca-file/src/ocafile/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/semantics/oca-file/src/ocafile/mod.rs b/semantics/oca-file/src/ocafile/mod.rs
index 3688b93..ea7e6a1 100644
--- a/semantics/oca-file/src/ocafile/mod.rs
+++ b/semantics/oca-file/src/ocafile/mod.rs
@@ -524,6 +524,12 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
             },
             ast::CommandType::From => {
                 line.push_str("FROM ");
+                if let ast::ObjectKind::OCABundle(content) = &command.object_kind {
+                    let ast::ReferenceAttrType::Reference(said) = &content.said;
+                    if let RefValue::Said(said) = said {
+                        line.push_str(&said.to_string());
+                    }
+                }
             }
             ast::CommandType::Modify => todo!(),
         }
-- 
2.43.0


From ecf55b594e39fc0ade6aac33455941868c15700d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:11 +0000
Subject: [PATCH 09/51] fix: an empty array as attribute type is a
 deserialization error instead of a panic

---
 semantics/oca-ast/src/ast/attributes.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/semantics/oca-ast/src/ast/attributes.rs b/semantics/oca-ast/src/ast/attributes.rs
index ae49b7c..57341ec 100644
--- a/semantics/oca-ast/src/ast/attributes.rs
+++ b/semantics/oca-ast/src/ast/attributes.rs
@@ -94,7 +94,9 @@ impl<'de> Deserialize<'de> for NestedAttrType {
                     }
                 }
             },
-            serde_json::Value::Array(arr) => NestedAttrTypeFrame::Array(arr[0].clone()).into(),
+            serde_json::Value::Array(arr) if !arr.is_empty() => {
+                NestedAttrTypeFrame::Array(arr[0].clone()).into()
+            }
             value => {
                 AttributeError::ConvertingFailure(serde_json::to_string(&value).unwrap()).into()
             }
-- 
2.43.0


From 31c77ec0ee035895f1f79bda8a28ccdceb7bb555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:17 +0000
Subject: [PATCH 10/51] fix: serialise the attributes of the standard overlay
 in a stable order

---
 .../src/state/oca/overlay/standard.rs         | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/semantics/oca-bundle/src/state/oca/overlay/standard.rs b/semantics/oca-bundle/src/state/oca/overlay/standard.rs
index 1779023..b2e77ef 100644
--- a/semantics/oca-bundle/src/state/oca/overlay/standard.rs
+++ b/semantics/oca-bundle/src/state/oca/overlay/standard.rs
@@ -3,7 +3,7 @@ use crate::state::{attribute::Attribute, oca::Overlay};
 use oca_ast_semantics::ast::OverlayType;
 use said::derivation::HashFunctionCode;
 use said::{sad::SerializationFormats, sad::SAD};
-use serde::{Deserialize, Serialize};
+use serde::{ser::SerializeMap, Deserialize, Serialize, Serializer};
 use std::any::Any;
 use std::collections::HashMap;
 
@@ -25,6 +25,23 @@ impl StandardAttribute for Attribute {
     }
 }
 
+pub fn serialize_attributes<S>(
+    attributes: &HashMap<String, Standard>,
+    s: S,
+) -> Result<S::Ok, S::Error>
+where
+    S: Serializer,
+{
+    use std::collections::BTreeMap;
+
+    let mut ser = s.serialize_map(Some(attributes.len()))?;
+    let sorted_attributes: BTreeMap<_, _> = attributes.iter().collect();
+    for (k, v) in sorted_attributes {
+        ser.serialize_entry(k, v)?;
+    }
+    ser.end()
+}
+
 #[derive(SAD, Serialize, Deserialize, Clone)]
 pub struct StandardOverlay {
     #[said]
@@ -33,6 +50,7 @@ pub struct StandardOverlay {
     capture_base: Option<said::SelfAddressingIdentifier>,
     #[serde(rename = "type")]
     overlay_type: OverlayType,
+    #[serde(serialize_with = "serialize_attributes")]
     pub attribute_standards: HashMap<String, Standard>,
 }
 
-- 
2.43.0


From 768e0d325289285181a3f4616282b5d30537c135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:51 +0000
Subject: [PATCH 11/51] fix: read back commands on attribute mapping overlays

---
 semantics/oca-ast/src/ast/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantics/oca-ast/src/ast/mod.rs b/semantics/oca-ast/src/ast/mod.rs
index e04a503..5fa8089 100644
--- a/semantics/oca-ast/src/ast/mod.rs
+++ b/semantics/oca-ast/src/ast/mod.rs
@@ -271,7 +271,7 @@ impl FromStr for OverlayType {
             "EntryCode" => Ok(OverlayType::EntryCode(v)),
             "Entry" => Ok(OverlayType::Entry(v)),
             "Unit" => Ok(OverlayType::Unit(v)),
-            "Mapping" => Ok(OverlayType::AttributeMapping(v)),
+            "Mapping" | "AttributeMapping" => Ok(OverlayType::AttributeMapping(v)),
             "EntryCodeMapping" => Ok(OverlayType::EntryCodeMapping(v)),
             "Subset" => Ok(OverlayType::Subset(v)),
             "UnitMapping" => Ok(OverlayType::UnitMapping(v)),
-- 
2.43.0


From 8b63dab33609416c554c9d5e7fcad1c82f633aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:51 +0000
Subject: [PATCH 12/51] fix: report malformed overlays when reading a bundle
 instead of panicking

---
 semantics/oca-bundle/src/state/oca.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/semantics/oca-bundle/src/state/oca.rs b/semantics/oca-bundle/src/state/oca.rs
index 699f52b..5f575d2 100644
--- a/semantics/oca-bundle/src/state/oca.rs
+++ b/semantics/oca-bundle/src/state/oca.rs
@@ -643,10 +643,10 @@ where
             while let Some((_, value)) = map.next_entry::<String, serde_value::Value>()? {
                 if let serde_value::Value::Seq(ov) = value {
                     for o in ov {
-                        overlays.push(o.deserialize_into().unwrap());
+                        overlays.push(o.deserialize_into().map_err(serde::de::Error::custom)?);
                     }
                 } else if let serde_value::Value::Map(_) = value {
-                    overlays.push(value.deserialize_into().unwrap());
+                    overlays.push(value.deserialize_into().map_err(serde::de::Error::custom)?);
                 }
             }
 
-- 
2.43.0


From 5d3a322eb22cce16c42ad02ec90e9502ab5d37a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:15 +0000
Subject: [PATCH 13/51] fix: keep the first recorded derivation of a bundle, so
 that its history never loops

---
 oca/src/facade/build.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/oca/src/facade/build.rs b/oca/src/facade/build.rs
index d7d6d7a..c3a4b7c 100644
--- a/oca/src/facade/build.rs
+++ b/oca/src/facade/build.rs
@@ -299,13 +299,19 @@ impl Facade {
         let command_str = serde_json::to_string(&step.command).unwrap();
         input.extend(command_str.as_bytes());
         let result_bundle = step.result.clone();
-        self.db
-            .insert(
-                Namespace::OCA,
-                &format!("oca.{}.operation", result_bundle.said.clone().unwrap()),
-                &input,
-            )
-            .unwrap();
+        // The same bundle can be reached again (a command without effect, or one undoing another).
+        // Its first derivation is kept: overwriting it would make the bundle its own ancestor.
+        let operation_key = format!("oca.{}.operation", result_bundle.said.clone().unwrap());
+        if self
+            .db
+            .get(Namespace::OCA, &operation_key)
+            .unwrap()
+            .is_none()
+        {
+            self.db
+                .insert(Namespace::OCA, &operation_key, &input)
+                .unwrap();
+        }
 
         let code = HashFunctionCode::Blake3_256;
         let format = SerializationFormats::JSON;
-- 
2.43.0


From 28050ed50fa1ae1d41e036163025ce770a076930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:14 +0000
Subject: [PATCH 14/51] fix: record the kind of the objects of every step, so
 that get_oca_objects does not panic on them

---
 oca/src/facade/build.rs   | 2 ++
 oca/src/facade/explore.rs | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/oca/src/facade/build.rs b/oca/src/facade/build.rs
index c3a4b7c..563443b 100644
--- a/oca/src/facade/build.rs
+++ b/oca/src/facade/build.rs
@@ -340,6 +340,8 @@ impl Facade {
                 )
                 .unwrap();
         });
+        // The objects of every step can be asked for, not only those of the final bundle
+        self.insert_oca_objects_metadata(result_bundle).unwrap();
     }
 
     fn build_models(&mut self, oca_build: &OCABuild) {
diff --git a/oca/src/facade/explore.rs b/oca/src/facade/explore.rs
index 096669c..82e4382 100644
--- a/oca/src/facade/explore.rs
+++ b/oca/src/facade/explore.rs
@@ -22,7 +22,7 @@ impl Facade {
         }
     }
 
-    fn insert_oca_objects_metadata(&mut self, oca_bundle: OCABundle) -> Result<(), String> {
+    pub(super) fn insert_oca_objects_metadata(&mut self, oca_bundle: OCABundle) -> Result<(), String> {
         self.db.insert(
             Namespace::OCARelations,
             &format!("{}.metadata", oca_bundle.said.clone().unwrap()),
-- 
2.43.0


From 031f9917f6335b78fb5e9d7231bf3b1c9afe50a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:09 +0000
Subject: [PATCH 15/51] fix: look for the precompiler only in meta comment
 lines, so that -- inside an instruction is not an error

---
 oca-file/src/ocafile.pest | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/oca-file/src/ocafile.pest b/oca-file/src/ocafile.pest
index 626ef22..6fdbf27 100644
--- a/oca-file/src/ocafile.pest
+++ b/oca-file/src/ocafile.pest
@@ -54,8 +54,11 @@ TELUGU | THAANA | THAI | TIBETAN | TIFINAGH | TIRHUTA | TOTO | UGARITIC | VAI |
 VITHKUQI | WANCHO | WARANG_CITI | YEZIDI | YI | ZANABAZAR_SQUARE }
 char = { LETTER | NUMBER | "." | "-" | "_" | "/" | ":" | SCRIPTS }
 
+// any other line, up to and including its end: instructions are not looked into here
+any_line = _{ (!NEWLINE ~ ANY)+ ~ NEWLINE? }
+
 file = {
   SOI ~
-  (empty_line | meta_comment_line | comment_line | ANY)*
+  (empty_line | meta_comment_line | comment_line | any_line)*
   ~ EOI
 }
-- 
2.43.0


From f8c16eec448c297d273daaaaa9b7d01baad68b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:09 +0000
Subject: [PATCH 16/51] fix: write references by name as refn: in generated
 OCAFILE instead of panicking or dropping them

---
 semantics/oca-file/src/ocafile/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/semantics/oca-file/src/ocafile/mod.rs b/semantics/oca-file/src/ocafile/mod.rs
index ea7e6a1..6d611f5 100644
--- a/semantics/oca-file/src/ocafile/mod.rs
+++ b/semantics/oca-file/src/ocafile/mod.rs
@@ -130,7 +130,7 @@ pub fn parse_from_string(unparsed_file: String) -> Result<OCAAst, ParseError> {
 fn format_reference(ref_value: RefValue) -> String {
     match ref_value {
         RefValue::Said(said) => format!("refs:{}", said),
-        _ => panic!("Unsupported reference type: {:?}", ref_value),
+        RefValue::Name(name) => format!("refn:{}", name),
     }
 }
 
@@ -389,9 +389,9 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                             if let Some(content) = command.object_kind.overlay_content() {
                                 if let Some(ref properties) = content.properties {
                                     let target = properties.get("target");
-                                    if let Some(ast::NestedValue::Reference(RefValue::Said(target_said))) = target {
+                                    if let Some(ast::NestedValue::Reference(target)) = target {
                                         line.push_str(
-                                            format!("refs:{} ", target_said).as_str(),
+                                            format!("{} ", format_reference(target.clone())).as_str(),
                                         );
                                     }
                                 }
-- 
2.43.0


From 420ea0088b370bb0f7fd3a285260599343237eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:09 +0000
Subject: [PATCH 17/51] fix: report the line an instruction starts at, also
 after instructions that span lines

---
 semantics/oca-file/src/ocafile/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/semantics/oca-file/src/ocafile/mod.rs b/semantics/oca-file/src/ocafile/mod.rs
index 6d611f5..b34bfc0 100644
--- a/semantics/oca-file/src/ocafile/mod.rs
+++ b/semantics/oca-file/src/ocafile/mod.rs
@@ -63,7 +63,7 @@ pub fn parse_from_string(unparsed_file: String) -> Result<OCAAst, ParseError> {
 
     let validator = OCAValidator {};
 
-    for (n, line) in file.into_inner().enumerate() {
+    for line in file.into_inner() {
         if let Rule::EOI = line.as_rule() {
             continue;
         }
@@ -106,7 +106,7 @@ pub fn parse_from_string(unparsed_file: String) -> Result<OCAAst, ParseError> {
                     oca_ast.commands_meta.insert(
                         oca_ast.commands.len() - 1,
                         CommandMeta {
-                            line_number: n + 1,
+                            line_number: line.line_col().0,
                             raw_line: line.as_str().to_string(),
                         },
                     );
-- 
2.43.0


From 4fdce1f6e6b47c874f809295aeabefc7092d0963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:09 +0000
Subject: [PATCH 18/51] fix: resolve and follow references in arrays of any
 depth

---
 oca/src/facade/fetch.rs     | 17 ++++++-----------
 oca/src/local_references.rs | 32 ++++++++++----------------------
 2 files changed, 16 insertions(+), 33 deletions(-)

diff --git a/oca/src/facade/fetch.rs b/oca/src/facade/fetch.rs
index f588588..033506f 100644
--- a/oca/src/facade/fetch.rs
+++ b/oca/src/facade/fetch.rs
@@ -409,17 +409,12 @@ fn retrive_all_references(bundle: OCABundle) -> Vec<SelfAddressingIdentifier> {
     let mut refs: Vec<SelfAddressingIdentifier> = vec![];
 
     for (_, value) in bundle.capture_base.attributes {
-        match value {
-            ast::NestedAttrType::Reference(RefValue::Said(said)) => {
-                refs.push(said);
-            }
-            // TODO(recursion) handle nested arrays
-            ast::NestedAttrType::Array(box_attr_type) => {
-                if let ast::NestedAttrType::Reference(RefValue::Said(said)) = &*box_attr_type {
-                    refs.push(said.clone());
-                }
-            }
-            _ => {}
+        let mut item_type = &value;
+        while let ast::NestedAttrType::Array(box_attr_type) = item_type {
+            item_type = box_attr_type;
+        }
+        if let ast::NestedAttrType::Reference(RefValue::Said(said)) = item_type {
+            refs.push(said.clone());
         }
     }
     refs
diff --git a/oca/src/local_references.rs b/oca/src/local_references.rs
index 0a34b37..bb88b30 100644
--- a/oca/src/local_references.rs
+++ b/oca/src/local_references.rs
@@ -23,29 +23,17 @@ pub fn replace_refn_with_refs<R: References>(
         {
             if let Some(attributes) = &mut content.attributes {
                 for (_, attr_type) in attributes {
-                    match attr_type {
-                        NestedAttrType::Reference(RefValue::Name(refn)) => {
-                            if let Some(said) = references.find(refn) {
-                                let said = SelfAddressingIdentifier::from_str(&said).unwrap(); // todo
-                                *attr_type = NestedAttrType::Reference(RefValue::Said(said));
-                            } else {
-                                return Err(ValidationError::UnknownRefn(refn.clone()));
-                            }
-                        }
-                        NestedAttrType::Array(box_attr_type) => {
-                            if let NestedAttrType::Reference(RefValue::Name(refn)) =
-                                &**box_attr_type
-                            {
-                                if let Some(said) = references.find(refn) {
-                                    let said = SelfAddressingIdentifier::from_str(&said).unwrap(); // todo
-                                    **box_attr_type =
-                                        NestedAttrType::Reference(RefValue::Said(said));
-                                } else {
-                                    return Err(ValidationError::UnknownRefn(refn.clone()));
-                                }
-                            }
+                    let mut item_type = attr_type;
+                    while let NestedAttrType::Array(box_attr_type) = item_type {
+                        item_type = &mut **box_attr_type;
+                    }
+                    if let NestedAttrType::Reference(RefValue::Name(refn)) = item_type {
+                        if let Some(said) = references.find(refn) {
+                            let said = SelfAddressingIdentifier::from_str(&said).unwrap(); // todo
+                            *item_type = NestedAttrType::Reference(RefValue::Said(said));
+                        } else {
+                            return Err(ValidationError::UnknownRefn(refn.clone()));
                         }
-                        _ => (),
                     }
                 }
             }
-- 
2.43.0


From 42945cfd1332173fffe2b5ee2e9121f747144e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:47 +0000
Subject: [PATCH 19/51] fix: leave the quotes out of quoted values of meta
 comments

---
 oca-file/src/ocafile/mod.rs                | 9 ++++++++-
 semantics/oca-file/src/ocafile/mod.rs      | 9 ++++++++-
 transformation/oca-file/src/ocafile/mod.rs | 9 ++++++++-
 3 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/oca-file/src/ocafile/mod.rs b/oca-file/src/ocafile/mod.rs
index 877518d..862e2ae 100644
--- a/oca-file/src/ocafile/mod.rs
+++ b/oca-file/src/ocafile/mod.rs
@@ -58,7 +58,14 @@ pub fn parse_from_string(unparsed_file: String) -> Result<OCAAst, ParseError> {
                         key = attr.as_str().to_string();
                     }
                     Rule::meta_attr_value => {
-                        value = attr.as_str().to_string();
+                        let content = match attr.clone().into_inner().next() {
+                            // without the quotes
+                            Some(string) if string.as_rule() == Rule::string => {
+                                string.into_inner().next_back().unwrap_or(attr)
+                            }
+                            _ => attr,
+                        };
+                        value = content.as_str().to_string();
                     }
                     _ => {
                         return Err(ParseError::MetaError(attr.as_str().to_string()));
diff --git a/semantics/oca-file/src/ocafile/mod.rs b/semantics/oca-file/src/ocafile/mod.rs
index b34bfc0..791e0bd 100644
--- a/semantics/oca-file/src/ocafile/mod.rs
+++ b/semantics/oca-file/src/ocafile/mod.rs
@@ -79,7 +79,14 @@ pub fn parse_from_string(unparsed_file: String) -> Result<OCAAst, ParseError> {
                         key = attr.as_str().to_string();
                     }
                     Rule::meta_attr_value => {
-                        value = attr.as_str().to_string();
+                        let content = match attr.clone().into_inner().next() {
+                            // without the quotes
+                            Some(string) if string.as_rule() == Rule::string => {
+                                string.into_inner().next_back().unwrap_or(attr)
+                            }
+                            _ => attr,
+                        };
+                        value = content.as_str().to_string();
                     }
                     _ => {
                         return Err(ParseError::MetaError(attr.as_str().to_string()));
diff --git a/transformation/oca-file/src/ocafile/mod.rs b/transformation/oca-file/src/ocafile/mod.rs
index bc08e84..9853e34 100644
--- a/transformation/oca-file/src/ocafile/mod.rs
+++ b/transformation/oca-file/src/ocafile/mod.rs
@@ -73,7 +73,14 @@ pub fn parse_from_string(unparsed_file: String) -> Result<TransformationAST, Par
                         key = attr.as_str().to_string();
                     }
                     Rule::meta_attr_value => {
-                        value = attr.as_str().to_string();
+                        let content = match attr.clone().into_inner().next() {
+                            // without the quotes
+                            Some(string) if string.as_rule() == Rule::string => {
+                                string.into_inner().next_back().unwrap_or(attr)
+                            }
+                            _ => attr,
+                        };
+                        value = content.as_str().to_string();
                     }
                     _ => {
                         return Err(ParseError::MetaError(attr.as_str().to_string()));
-- 
2.43.0


From e44339d48c089f0ebad188f7f1710028536704f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:56 +0000
Subject: [PATCH 20/51] fix: report the line a transformation starts at, also
 after instructions that span lines

---
 transformation/oca-file/src/ocafile/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/transformation/oca-file/src/ocafile/mod.rs b/transformation/oca-file/src/ocafile/mod.rs
index 9853e34..4739bc7 100644
--- a/transformation/oca-file/src/ocafile/mod.rs
+++ b/transformation/oca-file/src/ocafile/mod.rs
@@ -57,7 +57,7 @@ pub fn parse_from_string(unparsed_file: String) -> Result<TransformationAST, Par
 
     let validator = OCAValidator {};
 
-    for (n, line) in file.into_inner().enumerate() {
+    for line in file.into_inner() {
         if let Rule::EOI = line.as_rule() {
             continue;
         }
@@ -107,7 +107,7 @@ pub fn parse_from_string(unparsed_file: String) -> Result<TransformationAST, Par
                     oca_ast.commands_meta.insert(
                         oca_ast.commands.len() - 1,
                         CommandMeta {
-                            line_number: n + 1,
+                            line_number: line.line_col().0,
                             raw_line: line.as_str().to_string(),
                         },
                     );
-- 
2.43.0


From aa09cfab9b4c90ed273b075a95b9dc43f83f7e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:56 +0000
Subject: [PATCH 21/51] fix: read quoted classifications without the quotes and
 write them quoted

---
 semantics/oca-file/src/ocafile/instructions/add.rs | 10 ++++++++--
 semantics/oca-file/src/ocafile/mod.rs              |  2 +-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/semantics/oca-file/src/ocafile/instructions/add.rs b/semantics/oca-file/src/ocafile/instructions/add.rs
index b08fdf9..eb2cd93 100644
--- a/semantics/oca-file/src/ocafile/instructions/add.rs
+++ b/semantics/oca-file/src/ocafile/instructions/add.rs
@@ -54,8 +54,14 @@ impl AddInstruction {
                 Rule::comment => continue,
                 Rule::classification => {
                     let mut properties: IndexMap<String, NestedValue> = IndexMap::new();
-                    let classification = object.into_inner().next().unwrap();
-                    print!("Classification: {:?}", classification.as_rule());
+                    let value = object.into_inner().next().unwrap();
+                    let classification = match value.clone().into_inner().next() {
+                        // without the quotes
+                        Some(string) if string.as_rule() == Rule::string => {
+                            string.into_inner().next_back().unwrap_or(value)
+                        }
+                        _ => value,
+                    };
                     properties.insert(
                         "classification".to_string(),
                         NestedValue::Value(classification.as_str().to_string()),
diff --git a/semantics/oca-file/src/ocafile/mod.rs b/semantics/oca-file/src/ocafile/mod.rs
index 791e0bd..b210179 100644
--- a/semantics/oca-file/src/ocafile/mod.rs
+++ b/semantics/oca-file/src/ocafile/mod.rs
@@ -190,7 +190,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                         if !line.ends_with("ADD ") {
                                             line.push_str("\nADD ");
                                         }
-                                        line.push_str(format!("CLASSIFICATION {}", value).as_str());
+                                        line.push_str(format!("CLASSIFICATION \"{}\"", value).as_str());
                                     }
                                 }
                             }
-- 
2.43.0


From 896a8707c0fe439ef31a3b548f7deea1aa845c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:07 +0000
Subject: [PATCH 22/51] fix: a comment or an empty line inside an instruction
 is not part of it

After a line continuation the grammar allows comments and empty lines, but each
of them was left in the parse tree and read as an attribute with no name (or
panicked next to an equals sign).
---
 oca-file/src/ocafile.pest                | 6 +++++-
 semantics/oca-file/src/ocafile.pest      | 8 ++++++--
 transformation/oca-file/src/ocafile.pest | 8 ++++++--
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/oca-file/src/ocafile.pest b/oca-file/src/ocafile.pest
index 6fdbf27..39edc4e 100644
--- a/oca-file/src/ocafile.pest
+++ b/oca-file/src/ocafile.pest
@@ -2,7 +2,11 @@
 
 // insignificant whitespace, not repeated
 ws = _{ " " | "\t" }
-arg_ws = _{ (ws | line_continuation ~ (comment_line | empty_line)*)+ }
+// a comment or an empty line between the parts of one instruction; unlike those
+// between instructions it leaves nothing in the parse tree
+skipped_line = _{ ws* ~ ("#" ~ (!NEWLINE ~ ANY)* ~ NEWLINE? | NEWLINE) }
+
+arg_ws = _{ (ws | line_continuation ~ skipped_line*)+ }
 // a line continuation, allowing an instruction to continue onto a new line
 line_continuation = _{ "\\" ~ ws* ~ NEWLINE }
 comment = @{ "#" ~ (!NEWLINE ~ ANY)* }
diff --git a/semantics/oca-file/src/ocafile.pest b/semantics/oca-file/src/ocafile.pest
index 6924889..d0f187a 100644
--- a/semantics/oca-file/src/ocafile.pest
+++ b/semantics/oca-file/src/ocafile.pest
@@ -27,12 +27,16 @@ string = ${ single_quoted_string | double_quoted_string }
 // a line continuation, allowing an instruction to continue onto a new line
 line_continuation = _{ "\\" ~ ws* ~ NEWLINE }
 
+// a comment or an empty line between the parts of one instruction; unlike those
+// between instructions it leaves nothing in the parse tree
+skipped_line = _{ ws* ~ ("#" ~ (!NEWLINE ~ ANY)* ~ NEWLINE? | NEWLINE) }
+
 // whitespace that may appear between instruction arguments
 // this allows instructions to expand past a newline if escaped
-arg_ws = _{ (ws | line_continuation ~ (comment_line | empty_line)*)+ }
+arg_ws = _{ (ws | line_continuation ~ skipped_line*)+ }
 
 // like arg_ws, but where whitespace is optional
-arg_ws_maybe = _{ (ws | line_continuation ~ (comment_line | empty_line)*)* }
+arg_ws_maybe = _{ (ws | line_continuation ~ skipped_line*)* }
 
 // continues consuming input beyond a newline, if the newline is preceeded by an
 // escape (\)
diff --git a/transformation/oca-file/src/ocafile.pest b/transformation/oca-file/src/ocafile.pest
index 2a7119e..7709b59 100644
--- a/transformation/oca-file/src/ocafile.pest
+++ b/transformation/oca-file/src/ocafile.pest
@@ -27,12 +27,16 @@ string = ${ single_quoted_string | double_quoted_string }
 // a line continuation, allowing an instruction to continue onto a new line
 line_continuation = _{ "\\" ~ ws* ~ NEWLINE }
 
+// a comment or an empty line between the parts of one instruction; unlike those
+// between instructions it leaves nothing in the parse tree
+skipped_line = _{ ws* ~ ("#" ~ (!NEWLINE ~ ANY)* ~ NEWLINE? | NEWLINE) }
+
 // whitespace that may appear between instruction arguments
 // this allows instructions to expand past a newline if escaped
-arg_ws = _{ (ws | line_continuation ~ (comment_line | empty_line)*)+ }
+arg_ws = _{ (ws | line_continuation ~ skipped_line*)+ }
 
 // like arg_ws, but where whitespace is optional
-arg_ws_maybe = _{ (ws | line_continuation ~ (comment_line | empty_line)*)* }
+arg_ws_maybe = _{ (ws | line_continuation ~ skipped_line*)* }
 
 // continues consuming input beyond a newline, if the newline is preceeded by an
 // escape (\)
-- 
2.43.0


From ecb7c8c1e035ef893bc015fb07bf8e2adcf5193a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:25 +0000
Subject: [PATCH 23/51] fix: write a text with double quotes of its own between
 single quotes

generate_from_ast put every text between double quotes, so a text read from
between single quotes (or a unit like 5") could be written to a file which
could not be read back.
---
 semantics/oca-file/src/ocafile/mod.rs | 51 ++++++++++++++++-----------
 1 file changed, 31 insertions(+), 20 deletions(-)

diff --git a/semantics/oca-file/src/ocafile/mod.rs b/semantics/oca-file/src/ocafile/mod.rs
index b210179..c030b1b 100644
--- a/semantics/oca-file/src/ocafile/mod.rs
+++ b/semantics/oca-file/src/ocafile/mod.rs
@@ -156,6 +156,17 @@ fn oca_file_format(nested: NestedAttrType) -> String {
     })
 }
 
+// A text between the quotes it can be read from: the parser keeps texts as they are
+// written, so one with a double quote of its own comes from between single quotes
+fn quoted(text: &str) -> String {
+    let unescaped = text.replace("\\\\", "").replace("\\\"", "");
+    if unescaped.contains('"') {
+        format!("'{}'", text)
+    } else {
+        format!("\"{}\"", text)
+    }
+}
+
 /// Generate OCA file from AST
 ///
 /// # Arguments
@@ -190,7 +201,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                         if !line.ends_with("ADD ") {
                                             line.push_str("\nADD ");
                                         }
-                                        line.push_str(format!("CLASSIFICATION \"{}\"", value).as_str());
+                                        line.push_str(format!("CLASSIFICATION {}", quoted(value)).as_str());
                                     }
                                 }
                             }
@@ -221,7 +232,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                         properties.iter().for_each(|(key, value)| {
                                             if let ast::NestedValue::Value(value) = value {
                                                 line.push_str(
-                                                    format!(" {}=\"{}\"", key, value).as_str(),
+                                                    format!(" {}={}", key, quoted(value)).as_str(),
                                                 );
                                             }
                                         });
@@ -237,7 +248,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                     attributes.iter().for_each(|(key, value)| {
                                         if let ast::NestedValue::Value(value) = value {
                                             line.push_str(
-                                                format!(" {}=\"{}\"", key, value).as_str(),
+                                                format!(" {}={}", key, quoted(value)).as_str(),
                                             );
                                         }
                                     });
@@ -267,7 +278,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                                 .iter()
                                                 .filter_map(|value| {
                                                     if let ast::NestedValue::Value(value) = value {
-                                                        Some(format!("\"{}\"", value))
+                                                        Some(quoted(value))
                                                     } else {
                                                         None
                                                     }
@@ -285,14 +296,14 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                                 .iter()
                                                 .filter_map(|value| {
                                                     if let ast::NestedValue::Value(value) = value {
-                                                        Some(format!("\"{}\"", value))
+                                                        Some(quoted(value))
                                                     } else {
                                                         None
                                                     }
                                                 })
                                                 .collect::<Vec<String>>()
                                                 .join(", ");
-                                                    Some(format!("\"{}\": [{}]", group, codes))
+                                                    Some(format!("{}: [{}]", quoted(group), codes))
                                                     } else {
                                                         None
                                                     }
@@ -302,7 +313,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                             line.push_str(format!(" {}={{{}}}", key, group_codes).as_str());
                                         } else if let ast::NestedValue::Value(said) = value {
                                             line.push_str(
-                                                format!(" {}=\"{}\"", key, said).as_str(),
+                                                format!(" {}={}", key, quoted(said)).as_str(),
                                             );
                                         }
                                     });
@@ -342,8 +353,8 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                                             label
                                                         {
                                                             Some(format!(
-                                                                "\"{}\": \"{}\"",
-                                                                code, label
+                                                                "{}: {}",
+                                                                quoted(code), quoted(label)
                                                             ))
                                                         } else {
                                                             None
@@ -356,7 +367,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                                 );
                                             } else if let ast::NestedValue::Value(value) = value {
                                                 line.push_str(
-                                                    format!(" {}=\"{}\"", key, value).as_str(),
+                                                    format!(" {}={}", key, quoted(value)).as_str(),
                                                 );
                                             }
                                         });
@@ -384,7 +395,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                     attributes.iter().for_each(|(key, value)| {
                                         if let ast::NestedValue::Value(value) = value {
                                             line.push_str(
-                                                format!(" {}=\"{}\"", key, value).as_str(),
+                                                format!(" {}={}", key, quoted(value)).as_str(),
                                             );
                                         }
                                     });
@@ -407,7 +418,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                     attributes.iter().for_each(|(key, value)| {
                                         if let ast::NestedValue::Value(value) = value {
                                             line.push_str(
-                                                format!(" {}=\"{}\"", key, value).as_str(),
+                                                format!(" {}={}", key, quoted(value)).as_str(),
                                             );
                                         }
                                     });
@@ -421,7 +432,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                     for (prop_name, prop_value) in properties {
                                         let key = prop_name.replace("frame_", "");
                                         if let ast::NestedValue::Value(value) = prop_value {
-                                            line.push_str(format!("        {}=\"{}\" \\\n", key, value).as_str());
+                                            line.push_str(format!("        {}={} \\\n", key, quoted(value)).as_str());
                                         }
                                     }
                                 }
@@ -434,8 +445,8 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                                 let mut frame_str = "\n            ".to_string();
                                                 frame_str.push_str(
                                                     format!(
-                                                        "\"{}\": {{",
-                                                        f_key
+                                                        "{}: {{",
+                                                        quoted(f_key)
                                                     ).as_str()
                                                 );
 
@@ -444,9 +455,9 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                                         if let ast::NestedValue::Value(frame_value) = frame_value {
                                                             frame_str.push_str(
                                                                 format!(
-                                                                    "\n                \"{}\": \"{}\",",
-                                                                    frame_key,
-                                                                    frame_value
+                                                                    "\n                {}: {},",
+                                                                    quoted(frame_key),
+                                                                    quoted(frame_value)
                                                                 ).as_str()
                                                             );
                                                         }
@@ -485,7 +496,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                         properties.iter().for_each(|(key, value)| {
                                             if let ast::NestedValue::Value(value) = value {
                                                 line.push_str(
-                                                    format!(" {}=\"{}\"", key, value).as_str(),
+                                                    format!(" {}={}", key, quoted(value)).as_str(),
                                                 );
                                             }
                                         });
@@ -496,7 +507,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                     attributes.iter().for_each(|(key, value)| {
                                         if let ast::NestedValue::Value(value) = value {
                                             line.push_str(
-                                                format!(" {}=\"{}\"", key, value).as_str(),
+                                                format!(" {}={}", key, quoted(value)).as_str(),
                                             );
                                         }
                                     });
-- 
2.43.0


From 54baac46d94bc7e6d312c156cbf68ead8a53f404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:56 +0000
Subject: [PATCH 24/51] fix: a transformation without source, target or
 commands is an error

from_ast of transformations panicked on them, e.g. for a transformation file
with a name but no source.
---
 .../transformation-file/src/build.rs          | 47 ++++++++++++-------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/transformation/transformation-file/src/build.rs b/transformation/transformation-file/src/build.rs
index 2d7ce1a..1425446 100644
--- a/transformation/transformation-file/src/build.rs
+++ b/transformation/transformation-file/src/build.rs
@@ -25,22 +25,30 @@ pub enum Error {
 pub fn from_ast(ast: &ast::TransformationAST) -> Result<Transformation, Vec<Error>> {
     let mut errors = vec![];
 
-    let mut base: Option<Transformation> = None;
-    if !ast.meta.is_empty() {
-        let source = ast.meta.get("source").expect("missing source meta");
-        let source_said = source.replace("refs:", "");
-        let target = ast.meta.get("target").expect("missing target meta");
-        let target_said = target.replace("refs:", "");
-        let mut transformation = Transformation::new();
-        transformation.set_source(source_said);
-        transformation.set_target(target_said);
-        base = Some(transformation)
-    }
-
     let default_command_meta = ast::CommandMeta {
         line_number: 0,
         raw_line: "unknown".to_string(),
     };
+    let missing = |what: &str| Error::FromASTError {
+        line_number: default_command_meta.line_number,
+        raw_line: default_command_meta.raw_line.clone(),
+        message: format!("missing {}", what),
+    };
+
+    let mut base: Option<Transformation> = None;
+    if !ast.meta.is_empty() {
+        match (ast.meta.get("source"), ast.meta.get("target")) {
+            (Some(source), Some(target)) => {
+                let mut transformation = Transformation::new();
+                transformation.set_source(source.replace("refs:", ""));
+                transformation.set_target(target.replace("refs:", ""));
+                base = Some(transformation)
+            }
+            (None, _) => errors.push(missing("source meta")),
+            (_, None) => errors.push(missing("target meta")),
+        }
+    }
+
     for (i, command) in ast.commands.iter().enumerate() {
         let command_index = i;
         // todo pass the references
@@ -61,12 +69,15 @@ pub fn from_ast(ast: &ast::TransformationAST) -> Result<Transformation, Vec<Erro
             }
         }
     }
-    if errors.is_empty() {
-        let mut transformation = base.unwrap().clone();
-        transformation.fill_said();
-        Ok(transformation)
-    } else {
-        Err(errors)
+    if !errors.is_empty() {
+        return Err(errors);
+    }
+    match base {
+        Some(mut transformation) => {
+            transformation.fill_said();
+            Ok(transformation)
+        }
+        None => Err(vec![missing("commands")]),
     }
 }
 
-- 
2.43.0


From 0786ca54524f15fedf6cd97375c3229d2415e497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:23 +0000
Subject: [PATCH 25/51] fix: keep what REMOVE META and REMOVE LABEL name

The language ended the reading of their parts, so nothing that followed was kept,
and several names were only accepted when written without blanks between them.
---
 semantics/oca-file/src/ocafile.pest                  |  4 ++--
 .../oca-file/src/ocafile/instructions/remove.rs      | 12 +++++++-----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/semantics/oca-file/src/ocafile.pest b/semantics/oca-file/src/ocafile.pest
index d0f187a..755064c 100644
--- a/semantics/oca-file/src/ocafile.pest
+++ b/semantics/oca-file/src/ocafile.pest
@@ -202,8 +202,8 @@ classification_value = { string | char+}
 //overlay_args = { ws* ~ ANY* }
 attribute = { ^"attribute" ~ attr_pairs+ }
 remove_attribute = { ^"attribute" ~ (arg_ws ~ attr_key)* }
-remove_meta = { ^"meta" ~ arg_ws ~ lang ~ (arg_ws ~ props_key ~ prop_key+)? }
-remove_label = { ^"label" ~ arg_ws ~ lang ~ (arg_ws ~ attrs_key ~ attr_key+)? }
+remove_meta = { ^"meta" ~ arg_ws ~ lang ~ (arg_ws ~ props_key ~ prop_key ~ (arg_ws ~ prop_key)*)? }
+remove_label = { ^"label" ~ arg_ws ~ lang ~ (arg_ws ~ attrs_key ~ attr_key ~ (arg_ws ~ attr_key)*)? }
 
 attr_key = ${ (ASCII_ALPHANUMERIC | "-" | "_" | ".")+ }
 prop_key = ${ (ASCII_ALPHANUMERIC | "-" | "_")+ }
diff --git a/semantics/oca-file/src/ocafile/instructions/remove.rs b/semantics/oca-file/src/ocafile/instructions/remove.rs
index 8373d41..bc001ec 100644
--- a/semantics/oca-file/src/ocafile/instructions/remove.rs
+++ b/semantics/oca-file/src/ocafile/instructions/remove.rs
@@ -87,9 +87,13 @@ fn extract_properties_pairs(object: Pair) -> IndexMap<String, NestedValue> {
                     NestedValue::Value("".to_string()),
                 );
             }
-            _ => {
-                return properties;
+            Rule::lang => {
+                properties.insert(
+                    "lang".to_string(),
+                    NestedValue::Value(attr_pairs.as_str().to_string()),
+                );
             }
+            _ => {}
         }
     }
     properties
@@ -107,9 +111,7 @@ fn extract_attribute_pairs(object: Pair) -> IndexMap<String, NestedValue> {
                     NestedValue::Value("".to_string()),
                 );
             }
-            _ => {
-                return attributes;
-            }
+            _ => {}
         }
     }
     attributes
-- 
2.43.0


From 87ae4b9b55c9ed2016148a1ebab171b4abcea8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:28 +0000
Subject: [PATCH 26/51] fix: an ill-formed identifier as link target is
 reported instead of leaving the target out

---
 semantics/oca-file/src/ocafile/instructions/add.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/semantics/oca-file/src/ocafile/instructions/add.rs b/semantics/oca-file/src/ocafile/instructions/add.rs
index eb2cd93..1210e73 100644
--- a/semantics/oca-file/src/ocafile/instructions/add.rs
+++ b/semantics/oca-file/src/ocafile/instructions/add.rs
@@ -139,9 +139,16 @@ impl AddInstruction {
                     ));
                 }
                 Rule::link => {
+                    let content = helpers::extract_content(object);
+                    let target = content.properties.as_ref().and_then(|p| p.get("target"));
+                    if target.is_none() {
+                        return Err(InstructionError::UnexpectedToken(
+                            "Invalid target in LINK instruction".to_string(),
+                        ));
+                    }
                     object_kind = Some(ObjectKind::Overlay(
                         OverlayType::Link(overlay_version),
-                        helpers::extract_content(object),
+                        content,
                     ));
                 }
                 Rule::attribute_framing => {
-- 
2.43.0


From b5d9ecab460117aea19b19525b58c1ab7d59e7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:32 +0000
Subject: [PATCH 27/51] fix: a name that stands for no identifier is an unknown
 reference, not a panic

---
 oca/src/local_references.rs | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/oca/src/local_references.rs b/oca/src/local_references.rs
index bb88b30..caae444 100644
--- a/oca/src/local_references.rs
+++ b/oca/src/local_references.rs
@@ -12,6 +12,17 @@ pub trait References {
     fn save(&mut self, refn: &str, value: String);
 }
 
+// Identifier of the bundle a name stands for
+fn dereference<R: References>(
+    references: &R,
+    refn: &str,
+) -> Result<SelfAddressingIdentifier, ValidationError> {
+    references
+        .find(refn)
+        .and_then(|said| SelfAddressingIdentifier::from_str(&said).ok())
+        .ok_or_else(|| ValidationError::UnknownRefn(refn.to_string()))
+}
+
 // Iterate over all commands and dereference all attribute references
 pub fn replace_refn_with_refs<R: References>(
     oca_ast: &mut OCAAst,
@@ -28,12 +39,8 @@ pub fn replace_refn_with_refs<R: References>(
                         item_type = &mut **box_attr_type;
                     }
                     if let NestedAttrType::Reference(RefValue::Name(refn)) = item_type {
-                        if let Some(said) = references.find(refn) {
-                            let said = SelfAddressingIdentifier::from_str(&said).unwrap(); // todo
-                            *item_type = NestedAttrType::Reference(RefValue::Said(said));
-                        } else {
-                            return Err(ValidationError::UnknownRefn(refn.clone()));
-                        }
+                        let said = dereference(references, refn)?;
+                        *item_type = NestedAttrType::Reference(RefValue::Said(said));
                     }
                 }
             }
@@ -45,16 +52,12 @@ pub fn replace_refn_with_refs<R: References>(
             if let Some(properties) = &mut content.properties {
                 if let Some(NestedValue::Reference(RefValue::Name(refn))) = properties.get("target")
                 {
-                    if let Some(said) = references.find(refn) {
-                        let said = SelfAddressingIdentifier::from_str(&said).unwrap(); // todo
-                        properties.insert(
-                            "target".to_string(),
-                            NestedValue::Reference(RefValue::Said(said)),
-                        );
-                        *properties = properties.clone();
-                    } else {
-                        return Err(ValidationError::UnknownRefn(refn.clone()));
-                    }
+                    let said = dereference(references, refn)?;
+                    properties.insert(
+                        "target".to_string(),
+                        NestedValue::Reference(RefValue::Said(said)),
+                    );
+                    *properties = properties.clone();
                 }
             }
         }
-- 
2.43.0


From 6ed04025d610cf40b0f54fee6d02c999ec832a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:03 +0000
Subject: [PATCH 28/51] fix: a framing term without predicate or justification
 is an error, not dropped

---
 semantics/oca-bundle/src/build.rs | 39 +++++++++++++++++--------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/semantics/oca-bundle/src/build.rs b/semantics/oca-bundle/src/build.rs
index eab8ae6..47d0747 100644
--- a/semantics/oca-bundle/src/build.rs
+++ b/semantics/oca-bundle/src/build.rs
@@ -553,23 +553,28 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                             {
                                 let mut framing = HashMap::new();
                                 for (framing_key, framing_value) in attr_framing {
-                                    if let ast::NestedValue::Object(framing_value) = framing_value {
-                                        if let Some(ast::NestedValue::Value(predicate_id)) =
-                                            framing_value.get("predicate_id")
-                                        {
-                                            if let Some(ast::NestedValue::Value(
-                                                framing_justification,
-                                            )) = framing_value.get("framing_justification")
-                                            {
-                                                let framing_scope = FramingScope {
-                                                    predicate_id: predicate_id.to_string(),
-                                                    framing_justification: framing_justification
-                                                        .to_string(),
-                                                    frame_meta: frame_meta.clone(),
-                                                };
-                                                framing.insert(framing_key.clone(), framing_scope);
-                                            }
-                                        }
+                                    let scope = match framing_value {
+                                        ast::NestedValue::Object(values) => (
+                                            values.get("predicate_id"),
+                                            values.get("framing_justification"),
+                                        ),
+                                        _ => (None, None),
+                                    };
+                                    if let (
+                                        Some(ast::NestedValue::Value(predicate_id)),
+                                        Some(ast::NestedValue::Value(framing_justification)),
+                                    ) = scope
+                                    {
+                                        let framing_scope = FramingScope {
+                                            predicate_id: predicate_id.to_string(),
+                                            framing_justification: framing_justification
+                                                .to_string(),
+                                            frame_meta: frame_meta.clone(),
+                                        };
+                                        framing.insert(framing_key.clone(), framing_scope);
+                                    } else {
+                                        // Nothing of the term could be kept
+                                        errors.push(format!("Framing of {attr_name} by {framing_key} needs predicate_id and framing_justification"));
                                     }
                                 }
                                 attribute.set_framing(frame_id.clone(), framing.clone());
-- 
2.43.0


From 653d23af8379a5ee2a33a3ec5c8b7110cc090729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:02 +0000
Subject: [PATCH 29/51] fix: a condition on an unknown attribute is a
 validation error, not a panic, and hides no other error

---
 semantics/oca-bundle/src/state/validator.rs | 101 +++++++++++---------
 1 file changed, 56 insertions(+), 45 deletions(-)

diff --git a/semantics/oca-bundle/src/state/validator.rs b/semantics/oca-bundle/src/state/validator.rs
index ba94b05..4820fe5 100644
--- a/semantics/oca-bundle/src/state/validator.rs
+++ b/semantics/oca-bundle/src/state/validator.rs
@@ -4,7 +4,7 @@ use indexmap::IndexMap;
 use isolang::Language;
 use oca_ast_semantics::ast::{AttributeType, NestedAttrType, OverlayType};
 use std::{
-    collections::{HashMap, HashSet},
+    collections::HashSet,
     error::Error as StdError,
 };
 
@@ -127,16 +127,17 @@ impl Validator {
             }
         }
 
-        let conditional_overlay = oca_bundle
+        let conditional_overlays = oca_bundle
             .overlays
             .iter()
-            .find_map(|x| x.as_any().downcast_ref::<overlay::Conditional>());
+            .filter_map(|x| x.as_any().downcast_ref::<overlay::Conditional>());
 
-        if let Some(conditional_overlay) = conditional_overlay {
-            self.validate_conditional(
-                oca_bundle.capture_base.attributes.clone(),
-                conditional_overlay,
-            )?;
+        for conditional_overlay in conditional_overlays {
+            if let Err(condition_errors) =
+                self.validate_conditional(&oca_bundle.capture_base.attributes, conditional_overlay)
+            {
+                errors.extend(condition_errors);
+            }
         }
 
         if !enforced_langs.is_empty() {
@@ -221,17 +222,18 @@ impl Validator {
 
     fn validate_conditional(
         &self,
-        attr_types: IndexMap<String, NestedAttrType>,
+        attr_types: &IndexMap<String, NestedAttrType>,
         overlay: &overlay::Conditional,
     ) -> Result<(), Vec<Error>> {
         let mut errors: Vec<Error> = vec![];
 
-        let conditions = overlay.attribute_conditions.clone();
-        let dependencies = overlay.attribute_dependencies.clone();
         let re = regex::Regex::new(r"\$\{(\d+)\}").unwrap();
-        for &attr in overlay.attributes().iter() {
-            let condition = conditions.get(attr).unwrap(); // todo
-            let condition_dependencies = dependencies.get(attr).unwrap(); // todo
+        for (attr, condition) in &overlay.attribute_conditions {
+            let no_dependencies = vec![];
+            let condition_dependencies = overlay
+                .attribute_dependencies
+                .get(attr)
+                .unwrap_or(&no_dependencies);
             if condition_dependencies.contains(attr) {
                 errors.push(Error::Custom(format!(
                     "Attribute '{attr}' cannot be a dependency of itself"
@@ -239,40 +241,32 @@ impl Validator {
                 continue;
             }
 
-            let mut attr_mocks: HashMap<String, String> = HashMap::new();
-            condition_dependencies.iter().for_each(|dep| {
-                let dep_type = attr_types.get(dep).unwrap(); // todo
-                let value = match dep_type {
-                    NestedAttrType::Null => "null".to_string(),
-                    NestedAttrType::Value(base_type) => match base_type {
-                        AttributeType::Text => "'test'".to_string(),
-                        AttributeType::Numeric => "0".to_string(),
-                        AttributeType::DateTime => "'2020-01-01'".to_string(),
-                        AttributeType::Binary => "test".to_string(),
-                        AttributeType::Boolean => "true".to_string(),
-                    },
-                    // TODO validate nested objects
-                    NestedAttrType::Array(boxed_type) => match **boxed_type {
-                        NestedAttrType::Value(base_type) => match base_type {
-                            AttributeType::Text => "['test']".to_string(),
-                            AttributeType::Numeric => "[0]".to_string(),
-                            AttributeType::DateTime => "['2020-01-01']".to_string(),
-                            AttributeType::Binary => "[test]".to_string(),
-                            AttributeType::Boolean => "[true]".to_string(),
-                        },
-                        _ => panic!("Invalid or not supported array type"),
-                    },
-                    NestedAttrType::Reference(ref_value) => ref_value.to_string(),
-                };
-                attr_mocks.insert(dep.to_string(), value);
-            });
+            let known_errors = errors.len();
+            let mut attr_mocks: Vec<String> = vec![];
+            for dep in condition_dependencies {
+                match attr_types.get(dep) {
+                    Some(dep_type) => attr_mocks.push(mock_value(dep_type)),
+                    None => errors.push(Error::Custom(format!(
+                        "Attribute '{attr}' has condition on unknown attribute '{dep}'"
+                    ))),
+                }
+            }
+            for caps in re.captures_iter(condition) {
+                let index = caps[1].parse::<usize>().ok();
+                if !index.is_some_and(|i| i < condition_dependencies.len()) {
+                    errors.push(Error::Custom(format!(
+                        "Attribute '{attr}' has condition on unknown dependency '{}'",
+                        &caps[0]
+                    )));
+                }
+            }
+            if errors.len() > known_errors {
+                continue;
+            }
 
             let script = re
                 .replace_all(condition, |caps: &regex::Captures| {
-                    attr_mocks
-                        .get(&condition_dependencies[caps[1].parse::<usize>().unwrap()].clone())
-                        .unwrap()
-                        .to_string()
+                    attr_mocks[caps[1].parse::<usize>().unwrap()].clone()
                 })
                 .to_string();
 
@@ -397,6 +391,23 @@ impl Validator {
     }
 }
 
+/// Sample of a value of given type, written the way it is used in a condition
+fn mock_value(attr_type: &NestedAttrType) -> String {
+    match attr_type {
+        NestedAttrType::Null => "null".to_string(),
+        NestedAttrType::Value(base_type) => match base_type {
+            AttributeType::Text => "'test'".to_string(),
+            AttributeType::Numeric => "0".to_string(),
+            AttributeType::DateTime => "'2020-01-01'".to_string(),
+            AttributeType::Binary => "test".to_string(),
+            AttributeType::Boolean => "true".to_string(),
+        },
+        // TODO validate nested objects
+        NestedAttrType::Array(boxed_type) => format!("[{}]", mock_value(boxed_type)),
+        NestedAttrType::Reference(ref_value) => ref_value.to_string(),
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 16981b6d6fc3b130daa0d939d52be213b4f503e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:55 +0000
Subject: [PATCH 30/51] fix: page 0 or a very large page or limit is not a
 panic

---
 oca/src/repositories/capture_base_cache_repo.rs | 2 +-
 oca/src/repositories/mod.rs                     | 9 +++++++++
 oca/src/repositories/oca_bundle_cache_repo.rs   | 2 +-
 oca/src/repositories/oca_bundle_fts_repo.rs     | 2 +-
 4 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/oca/src/repositories/capture_base_cache_repo.rs b/oca/src/repositories/capture_base_cache_repo.rs
index e313e5b..047d669 100644
--- a/oca/src/repositories/capture_base_cache_repo.rs
+++ b/oca/src/repositories/capture_base_cache_repo.rs
@@ -49,7 +49,7 @@ impl CaptureBaseCacheRepo {
     }
 
     pub fn fetch_all(&self, limit: usize, page: usize) -> Vec<AllCaptureBaseRecord> {
-        let offset = (page - 1) * limit;
+        let (limit, offset) = super::page_range(limit, page);
         let mut results = vec![];
         let query = "
         SELECT results.*, count.total
diff --git a/oca/src/repositories/mod.rs b/oca/src/repositories/mod.rs
index bbd565a..9e9f617 100644
--- a/oca/src/repositories/mod.rs
+++ b/oca/src/repositories/mod.rs
@@ -38,3 +38,12 @@ impl SQLiteConfigBuilder {
         self.finalize().unwrap()
     }
 }
+
+/// Largest number of records a query can ask for or skip
+const MAX_RECORDS: usize = i64::MAX as usize;
+
+/// Limit and offset of the records on given page (the first one is 1)
+fn page_range(limit: usize, page: usize) -> (usize, usize) {
+    let offset = page.saturating_sub(1).saturating_mul(limit);
+    (limit.min(MAX_RECORDS), offset.min(MAX_RECORDS))
+}
diff --git a/oca/src/repositories/oca_bundle_cache_repo.rs b/oca/src/repositories/oca_bundle_cache_repo.rs
index 85ce2f1..0f58ef4 100644
--- a/oca/src/repositories/oca_bundle_cache_repo.rs
+++ b/oca/src/repositories/oca_bundle_cache_repo.rs
@@ -52,7 +52,7 @@ impl OCABundleCacheRepo {
     }
 
     pub fn fetch_all(&self, limit: usize, page: usize) -> Vec<AllOCABundleRecord> {
-        let offset = (page - 1) * limit;
+        let (limit, offset) = super::page_range(limit, page);
         let mut results = vec![];
         let query = "
         SELECT results.*, count.total
diff --git a/oca/src/repositories/oca_bundle_fts_repo.rs b/oca/src/repositories/oca_bundle_fts_repo.rs
index 7d63b15..0d4a3ff 100644
--- a/oca/src/repositories/oca_bundle_fts_repo.rs
+++ b/oca/src/repositories/oca_bundle_fts_repo.rs
@@ -77,7 +77,7 @@ impl OCABundleFTSRepo {
         limit: usize,
         page: usize,
     ) -> SearchResult {
-        let offset = (page - 1) * limit;
+        let (limit, offset) = super::page_range(limit, page);
         let query = match language {
             Some(lang) => {
                 let lang_code = isolang::Language::to_639_3(&lang).to_string();
-- 
2.43.0


From 0ee46d197b334dc829e2c90953c8e2c69ecd3c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:55 +0000
Subject: [PATCH 31/51] fix: search a text with regex metacharacters without a
 panic

---
 oca/src/repositories/oca_bundle_fts_repo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oca/src/repositories/oca_bundle_fts_repo.rs b/oca/src/repositories/oca_bundle_fts_repo.rs
index 0d4a3ff..1ec2178 100644
--- a/oca/src/repositories/oca_bundle_fts_repo.rs
+++ b/oca/src/repositories/oca_bundle_fts_repo.rs
@@ -133,7 +133,7 @@ impl OCABundleFTSRepo {
                 snippet_regex = snippet_regex.replace("<mark>", "");
                 snippet_regex = snippet_regex.replace("</mark>", "");
                 let mut v: Vec<String> =
-                    snippet_regex.split("...").map(|x| x.to_string()).collect();
+                    snippet_regex.split("...").map(regex::escape).collect();
                 if v.first().unwrap().is_empty() {
                     v.remove(0);
                     if let Some(x) = v.first_mut() {
-- 
2.43.0


From a6c5be07e790c4ce19e5d33f61adefafcfe5bf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:14 +0000
Subject: [PATCH 32/51] fix: a malformed search expression finds nothing
 instead of a panic that blocks every later query

---
 oca/src/repositories/oca_bundle_fts_repo.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oca/src/repositories/oca_bundle_fts_repo.rs b/oca/src/repositories/oca_bundle_fts_repo.rs
index 1ec2178..6e21b97 100644
--- a/oca/src/repositories/oca_bundle_fts_repo.rs
+++ b/oca/src/repositories/oca_bundle_fts_repo.rs
@@ -186,8 +186,8 @@ meta_overlay:{}
         let mut records = vec![];
         let mut total: usize = 0;
 
-        for row in rows {
-            let record = row.unwrap();
+        // a malformed search expression gives an error instead of the first row
+        for record in rows.map_while(Result::ok) {
             if total == 0 {
                 total = record.total as usize;
             }
-- 
2.43.0


From e76dda1860a8ce8dde5285f9021de3829acaaeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:41 +0000
Subject: [PATCH 33/51] fix: file system storage keeps every key in a file of
 its own inside the storage directory

---
 oca/src/data_storage.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/oca/src/data_storage.rs b/oca/src/data_storage.rs
index 7bf0970..d2a6857 100644
--- a/oca/src/data_storage.rs
+++ b/oca/src/data_storage.rs
@@ -194,6 +194,20 @@ pub struct FileSystemStorage {
     dir: Option<PathBuf>,
 }
 
+// Name of the file a key is stored in: whatever the key, it is a file of its own in the directory of the namespace
+fn file_name(key: &str) -> String {
+    let name = key
+        .replace('%', "%25")
+        .replace('/', "%2F")
+        .replace('\\', "%5C")
+        .replace('\0', "%00");
+    match name.strip_prefix('.') {
+        Some(rest) => format!("%2E{rest}"),
+        None if name.is_empty() => "%".to_string(),
+        None => name,
+    }
+}
+
 #[derive(Clone)]
 pub struct FileSystemStorageConfig {
     pub path: String,
@@ -256,7 +270,7 @@ impl DataStorage for FileSystemStorage {
             let mut path = dir.clone();
             path.push(namespace.as_str());
             if path.try_exists().unwrap() {
-                path.push(key);
+                path.push(file_name(key));
                 Ok(std::fs::read(path.clone()).ok())
             } else {
                 Ok(None)
@@ -278,7 +292,7 @@ impl DataStorage for FileSystemStorage {
                 std::fs::create_dir_all(path.clone()).unwrap();
             }
 
-            path.push(key);
+            path.push(file_name(key));
             std::fs::write(path.clone(), value).map_err(|e| e.to_string())
         } else {
             Err("File path is required".to_string())
-- 
2.43.0


From 1bbf97ed0f41bf758a12ee5bc22a238f41a3c54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:41 +0000
Subject: [PATCH 34/51] fix: file system storage lists what it stores instead
 of failing

---
 oca/src/data_storage.rs | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/oca/src/data_storage.rs b/oca/src/data_storage.rs
index d2a6857..df1078d 100644
--- a/oca/src/data_storage.rs
+++ b/oca/src/data_storage.rs
@@ -208,6 +208,18 @@ fn file_name(key: &str) -> String {
     }
 }
 
+// The key stored in the file of this name
+fn key_of(name: &str) -> String {
+    if name == "%" {
+        return String::new();
+    }
+    name.replace("%2E", ".")
+        .replace("%00", "\0")
+        .replace("%5C", "\\")
+        .replace("%2F", "/")
+        .replace("%25", "%")
+}
+
 #[derive(Clone)]
 pub struct FileSystemStorageConfig {
     pub path: String,
@@ -280,8 +292,24 @@ impl DataStorage for FileSystemStorage {
         }
     }
 
-    fn get_all(&self, _namespace: Namespace) -> Result<HashMap<String, Vec<u8>>, String> {
-        Err("Not implemented".to_string())
+    fn get_all(&self, namespace: Namespace) -> Result<HashMap<String, Vec<u8>>, String> {
+        if let Some(ref dir) = self.dir {
+            let mut all = HashMap::new();
+            let mut path = dir.clone();
+            path.push(namespace.as_str());
+            if path.try_exists().unwrap() {
+                for entry in std::fs::read_dir(path).map_err(|e| e.to_string())? {
+                    let path = entry.map_err(|e| e.to_string())?.path();
+                    if let (true, Some(name)) = (path.is_file(), path.file_name()) {
+                        let value = std::fs::read(&path).map_err(|e| e.to_string())?;
+                        all.insert(key_of(&name.to_string_lossy()), value);
+                    }
+                }
+            }
+            Ok(all)
+        } else {
+            Err("File path is required".to_string())
+        }
     }
 
     fn insert(&mut self, namespace: Namespace, key: &str, value: &[u8]) -> Result<(), String> {
-- 
2.43.0


From bd4f201c97aa23fbd07c0b57eb3fc479210ec0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:41 +0000
Subject: [PATCH 35/51] fix: read indented instructions and a last line of
 spaces

---
 semantics/oca-file/src/ocafile.pest | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/semantics/oca-file/src/ocafile.pest b/semantics/oca-file/src/ocafile.pest
index 755064c..d57a5d7 100644
--- a/semantics/oca-file/src/ocafile.pest
+++ b/semantics/oca-file/src/ocafile.pest
@@ -4,14 +4,17 @@
 // insignificant whitespace, not repeated
 ws = _{ " " | "\t" }
 
+// the end of a line and the indentation of the next one
+line_end = _{ NEWLINE ~ ws* }
+
 meta_attr_key = ${ "name" | "version" | "precompiler" }
 meta_attr_value = ${ string | char+}
 meta_key_pair = @{ meta_attr_key ~ arg_ws? ~ "=" ~ arg_ws?  ~ meta_attr_value }
 meta_comment = @{ "--" ~ ws* ~ (!NEWLINE ~ meta_key_pair)* }
-meta_comment_line = _{ ws* ~ meta_comment ~ NEWLINE? }
+meta_comment_line = _{ ws* ~ meta_comment ~ line_end? }
 
 comment = @{ "#" ~ (!NEWLINE ~ ANY)* }
-comment_line = _{ ws* ~ comment ~ NEWLINE? }
+comment_line = _{ ws* ~ comment ~ line_end? }
 empty_line = @{ ws* ~ NEWLINE }
 
 double_quoted_string  = _{ "\"" ~ inner ~ "\"" }
@@ -80,7 +83,7 @@ commands = _{
     add |
     modify |
     remove
-  ) ~ NEWLINE?
+  ) ~ line_end?
 }
 
 
@@ -258,7 +261,7 @@ attr_pairs = ${ (arg_ws ~ attr_pair)+}
 lang = ${ ASCII_ALPHA{2} ~ ("-" ~ ASCII_ALPHA{2})? }
 
 file = {
-  SOI ~
-  (empty_line | meta_comment_line | comment_line | commands)*
-  ~ EOI
+  SOI ~ ws* ~
+  (empty_line ~ ws* | meta_comment_line | comment_line | commands)*
+  ~ ws* ~ EOI
 }
-- 
2.43.0


From 8d2fd44b7a78cc357a7818acec2c5a32969fcbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:41 +0000
Subject: [PATCH 36/51] fix: a tab ends a unit as a space does

---
 semantics/oca-file/src/ocafile.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantics/oca-file/src/ocafile.pest b/semantics/oca-file/src/ocafile.pest
index d57a5d7..17a1770 100644
--- a/semantics/oca-file/src/ocafile.pest
+++ b/semantics/oca-file/src/ocafile.pest
@@ -215,7 +215,7 @@ key_pair = @{ attr_key ~ arg_ws? ~ "=" ~ arg_ws? ~ key_value }
 attr_key_pairs = ${ (arg_ws? ~ key_pair ~ arg_ws?)+ }
 prop_key_pairs = ${ (arg_ws? ~ key_pair ~ arg_ws?)+ }
 
-unit_char = ${ !" " ~ !NEWLINE ~ ANY }
+unit_char = ${ !ws ~ !NEWLINE ~ ANY }
 unit_value = ${ string | unit_char+ }
 unit_key_pair = @{ attr_key ~ arg_ws? ~ "=" ~ arg_ws? ~ unit_value }
 unit_attr_key_pairs = ${ (arg_ws? ~ unit_key_pair ~ arg_ws?)+ }
-- 
2.43.0


From 10c643ba90d5e923dbe6b3eb08559275e6534df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:46 +0000
Subject: [PATCH 37/51] fix: read quoted flagged attributes without the quotes

---
 semantics/oca-file/src/ocafile/instructions/helpers.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/semantics/oca-file/src/ocafile/instructions/helpers.rs b/semantics/oca-file/src/ocafile/instructions/helpers.rs
index e5e3425..a97b60a 100644
--- a/semantics/oca-file/src/ocafile/instructions/helpers.rs
+++ b/semantics/oca-file/src/ocafile/instructions/helpers.rs
@@ -482,7 +482,14 @@ pub(crate) fn extract_flagged_attrs(object: pest::iterators::Pair<'_, Rule>) ->
     for attr in object.into_inner() {
         match attr.as_rule() {
             Rule::list_value => {
-                for name in attr.into_inner() {
+                for value in attr.into_inner() {
+                    let name = match value.clone().into_inner().next() {
+                        // without the quotes
+                        Some(string) if string.as_rule() == Rule::string => {
+                            string.into_inner().next_back().unwrap_or(value)
+                        }
+                        _ => value,
+                    };
                     flagged_attrs.push(name.as_str().to_string());
                 }
             }
-- 
2.43.0


From f0211684b3da491b6818f12020b4ef5bdb4a60ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:48 +0000
Subject: [PATCH 38/51] fix: read indented instructions and a last line of
 spaces in transformations

---
 transformation/oca-file/src/ocafile.pest | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/transformation/oca-file/src/ocafile.pest b/transformation/oca-file/src/ocafile.pest
index 7709b59..770a0f9 100644
--- a/transformation/oca-file/src/ocafile.pest
+++ b/transformation/oca-file/src/ocafile.pest
@@ -4,14 +4,17 @@
 // insignificant whitespace, not repeated
 ws = _{ " " | "\t" }
 
+// the end of a line and the indentation of the next one
+line_end = _{ NEWLINE ~ ws* }
+
 meta_attr_key = ${ "name" | "version" | "precompiler" | "source" | "target" }
 meta_attr_value = ${ string | char+}
 meta_key_pair = @{ meta_attr_key ~ arg_ws? ~ "=" ~ arg_ws?  ~ meta_attr_value }
 meta_comment = @{ "--" ~ ws* ~ (!NEWLINE ~ meta_key_pair)* }
-meta_comment_line = _{ ws* ~ meta_comment ~ NEWLINE? }
+meta_comment_line = _{ ws* ~ meta_comment ~ line_end? }
 
 comment = @{ "#" ~ (!NEWLINE ~ ANY)* }
-comment_line = _{ ws* ~ comment ~ NEWLINE? }
+comment_line = _{ ws* ~ comment ~ line_end? }
 empty_line = @{ ws* ~ NEWLINE }
 
 double_quoted_string  = _{ "\"" ~ inner ~ "\"" }
@@ -79,7 +82,7 @@ commands = _{
     from |
     rename |
     link
-  ) ~ NEWLINE?
+  ) ~ line_end?
 }
 
 
@@ -141,7 +144,7 @@ ref_alias = _{ refn ~ alias }
 lang = ${ ASCII_ALPHA{2} ~ ("-" ~ ASCII_ALPHA{2})? }
 
 file = {
-  SOI ~
-  (empty_line | meta_comment_line | comment_line | commands)*
-  ~ EOI
+  SOI ~ ws* ~
+  (empty_line ~ ws* | meta_comment_line | comment_line | commands)*
+  ~ ws* ~ EOI
 }
-- 
2.43.0


From 7f740701691959993c90485a066a19f072026f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:54 +0000
Subject: [PATCH 39/51] fix: a transformation can name every attribute, and its
 arrow needs no blanks

---
 transformation/oca-file/src/ocafile.pest | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/transformation/oca-file/src/ocafile.pest b/transformation/oca-file/src/ocafile.pest
index 770a0f9..b897516 100644
--- a/transformation/oca-file/src/ocafile.pest
+++ b/transformation/oca-file/src/ocafile.pest
@@ -127,7 +127,8 @@ link_attributes = { ^"attribute" ~ link_attr_pairs+ }
 link_attr_pair = @{attr_key ~ arg_ws? ~ "->" ~ arg_ws?  ~ attr_key}
 link_attr_pairs = ${ (arg_ws ~ link_attr_pair)+}
 
-attr_key = ${ (ASCII_ALPHANUMERIC | "-" | "_" )+ }
+// the names of attributes as in an OCAFILE; an arrow ends a name
+attr_key = ${ (ASCII_ALPHANUMERIC | !"->" ~ "-" | "_" | ".")+ }
 key_value = ${ string | char+}
 key_pair = @{ attr_key ~ arg_ws? ~ "=" ~ arg_ws? ~ key_value }
 attr_key_pairs = ${ (arg_ws? ~ key_pair ~ arg_ws?)+ }
-- 
2.43.0


From b991adebb5f0bdfcd7f42433e697ef384972f958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:24 +0000
Subject: [PATCH 40/51] fix: a line continuation ends a unit

---
 semantics/oca-file/src/ocafile.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantics/oca-file/src/ocafile.pest b/semantics/oca-file/src/ocafile.pest
index 17a1770..4267c96 100644
--- a/semantics/oca-file/src/ocafile.pest
+++ b/semantics/oca-file/src/ocafile.pest
@@ -215,7 +215,7 @@ key_pair = @{ attr_key ~ arg_ws? ~ "=" ~ arg_ws? ~ key_value }
 attr_key_pairs = ${ (arg_ws? ~ key_pair ~ arg_ws?)+ }
 prop_key_pairs = ${ (arg_ws? ~ key_pair ~ arg_ws?)+ }
 
-unit_char = ${ !ws ~ !NEWLINE ~ ANY }
+unit_char = ${ !arg_ws ~ !NEWLINE ~ ANY }
 unit_value = ${ string | unit_char+ }
 unit_key_pair = @{ attr_key ~ arg_ws? ~ "=" ~ arg_ws? ~ unit_value }
 unit_attr_key_pairs = ${ (arg_ws? ~ unit_key_pair ~ arg_ws?)+ }
-- 
2.43.0


From f152204322aaf2d6f0b17b5c9e3e4d558021e6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:25 +0000
Subject: [PATCH 41/51] fix: continuation lines and texts with -- are not meta
 comments that choose the precompiler

---
 oca-file/src/ocafile.pest | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/oca-file/src/ocafile.pest b/oca-file/src/ocafile.pest
index 39edc4e..9c0ac50 100644
--- a/oca-file/src/ocafile.pest
+++ b/oca-file/src/ocafile.pest
@@ -59,7 +59,10 @@ VITHKUQI | WANCHO | WARANG_CITI | YEZIDI | YI | ZANABAZAR_SQUARE }
 char = { LETTER | NUMBER | "." | "-" | "_" | "/" | ":" | SCRIPTS }
 
 // any other line, up to and including its end: instructions are not looked into here
-any_line = _{ (!NEWLINE ~ ANY)+ ~ NEWLINE? }
+// the rest of a word, a quote within is not the start of a text
+word = _{ (!(ws | NEWLINE | "\\" | "=" | ":" | "," | "[" | "{") ~ ANY)+ }
+// an instruction with its continuation lines and texts, which may look like meta comments
+any_line = @{ (line_continuation ~ skipped_line* | string | word | !NEWLINE ~ ANY)+ ~ NEWLINE? }
 
 file = {
   SOI ~
-- 
2.43.0


From ed9ceee8d618c83d395d72daae64fda2b96edfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:06 +0000
Subject: [PATCH 42/51] fix: a container without a bundle is written (m is
 null) instead of a panic

---
 oca/src/facade/bundle.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/oca/src/facade/bundle.rs b/oca/src/facade/bundle.rs
index 7ce3fab..33841b4 100644
--- a/oca/src/facade/bundle.rs
+++ b/oca/src/facade/bundle.rs
@@ -67,8 +67,12 @@ impl Bundle {
         let code = HashFunctionCode::Blake3_256;
         let format = SerializationFormats::JSON;
 
-        let structural = self.structural.as_ref().unwrap();
-        let structural_str = String::from_utf8(structural.encode(&code, &format).unwrap()).unwrap();
+        let structural_str = match &self.structural {
+            Some(structural) => {
+                String::from_utf8(structural.encode(&code, &format).unwrap()).unwrap()
+            }
+            None => String::from("null"),
+        };
 
         let mut transformations_str = String::new();
         let mut transformations_iter = self.transformations.iter().peekable();
-- 
2.43.0


From 10c5e6e699018d55e7583b84a5784c2081a7a934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:06 +0000
Subject: [PATCH 43/51] fix: the record of a LINK or FRAMING names the overlay
 of its target or frame, not the first of its kind

---
 semantics/oca-dag/src/lib.rs | 41 ++++++++++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/semantics/oca-dag/src/lib.rs b/semantics/oca-dag/src/lib.rs
index 64b402b..6e1f646 100644
--- a/semantics/oca-dag/src/lib.rs
+++ b/semantics/oca-dag/src/lib.rs
@@ -2,6 +2,7 @@ pub mod data_storage;
 pub mod versioning;
 
 use oca_ast_semantics::ast;
+use oca_bundle_semantics::state::oca::overlay::{AttributeFraming, Link, Overlay};
 use said::{derivation::HashFunction, SelfAddressingIdentifier};
 use std::collections::HashMap;
 use std::str::FromStr;
@@ -123,8 +124,12 @@ fn apply_step(
                 }
             }
 
+            let target = command_target(overlay_type, content);
+
             let overlay = step.result.overlays.iter().find(|overlay| {
-                overlay.overlay_type().eq(overlay_type) && overlay.language() == lang.as_ref()
+                overlay.overlay_type().eq(overlay_type)
+                    && overlay.language() == lang.as_ref()
+                    && overlay_target(overlay.as_ref()) == target.as_ref()
             });
 
             if let Some(overlay) = overlay {
@@ -132,7 +137,10 @@ fn apply_step(
                     Some(lang) => {
                         format!("{}-{}", &overlay.overlay_type(), lang.to_639_1().unwrap())
                     }
-                    None => format!("{}", overlay.overlay_type()),
+                    None => match &target {
+                        Some(target) => format!("{}-{}", overlay.overlay_type(), target),
+                        None => format!("{}", overlay.overlay_type()),
+                    },
                 };
                 let parent_overlay = state.overlays.get(&overlay_key);
                 let overlay_model = OverlayModel {
@@ -168,6 +176,35 @@ fn apply_step(
     (current_state, result)
 }
 
+/// The bundle a link overlay points to or the frame a framing overlay is for:
+/// a bundle can have many overlays of these types.
+fn overlay_target(overlay: &dyn Overlay) -> Option<&String> {
+    let overlay = overlay.as_any();
+    if let Some(link) = overlay.downcast_ref::<Link>() {
+        Some(&link.target_bundle)
+    } else if let Some(framing) = overlay.downcast_ref::<AttributeFraming>() {
+        framing.metadata.get("frame_id")
+    } else {
+        None
+    }
+}
+
+/// The target of the overlay that a command is about
+fn command_target(overlay_type: &ast::OverlayType, content: &ast::Content) -> Option<String> {
+    let properties = content.properties.as_ref()?;
+    match overlay_type {
+        ast::OverlayType::Link(_) => match properties.get("target") {
+            Some(ast::NestedValue::Reference(ast::RefValue::Said(said))) => Some(said.to_string()),
+            _ => None,
+        },
+        ast::OverlayType::AttributeFraming(_) => match properties.get("id") {
+            Some(ast::NestedValue::Value(frame_id)) => Some(frame_id.clone()),
+            _ => None,
+        },
+        _ => None,
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 01adb94b6e5f825979e98750d61b315bf26d2dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:06 +0000
Subject: [PATCH 44/51] fix: the first record of a continued build names the
 bundle it continues

---
 semantics/oca-dag/src/lib.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/semantics/oca-dag/src/lib.rs b/semantics/oca-dag/src/lib.rs
index 6e1f646..1fa8060 100644
--- a/semantics/oca-dag/src/lib.rs
+++ b/semantics/oca-dag/src/lib.rs
@@ -51,14 +51,12 @@ pub struct OCABundleModel {
 
 #[derive(Debug, Clone)]
 struct State {
-    oca_bundle: Option<SelfAddressingIdentifier>,
     capture_base: Option<SelfAddressingIdentifier>,
     overlays: HashMap<String, SelfAddressingIdentifier>,
 }
 impl State {
     fn new() -> Self {
         Self {
-            oca_bundle: None,
             capture_base: None,
             overlays: HashMap::new(),
         }
@@ -161,7 +159,7 @@ fn apply_step(
 
     let oca_bundle_model = OCABundleModel {
         oca_bundle_said: step.result.said.clone().unwrap(),
-        parent: state.oca_bundle,
+        parent: step.parent_said.clone(),
         capture_base_said: step.result.capture_base.said.clone().unwrap(),
         overlays_said: step
             .result
@@ -170,8 +168,7 @@ fn apply_step(
             .map(|overlay| overlay.said().clone().unwrap())
             .collect(),
     };
-    result.oca_bundle = Some(oca_bundle_model.clone());
-    current_state.oca_bundle = Some(oca_bundle_model.oca_bundle_said.clone());
+    result.oca_bundle = Some(oca_bundle_model);
 
     (current_state, result)
 }
-- 
2.43.0


From c3f869edc82c05abc6b3973214e191b00efaa69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:06 +0000
Subject: [PATCH 45/51] fix: the record of a version that is reached again is
 kept, it was overwritten with one that names itself as its origin

---
 oca/src/facade/build.rs | 33 ++++++++++++---------------------
 1 file changed, 12 insertions(+), 21 deletions(-)

diff --git a/oca/src/facade/build.rs b/oca/src/facade/build.rs
index 563443b..24e8f3d 100644
--- a/oca/src/facade/build.rs
+++ b/oca/src/facade/build.rs
@@ -18,6 +18,7 @@ use oca_bundle_semantics::Encode;
 use oca_dag_semantics::build_core_db_model;
 use said::derivation::HashFunctionCode;
 use said::sad::SerializationFormats;
+use said::SelfAddressingIdentifier;
 
 #[derive(thiserror::Error, Debug, serde::Serialize)]
 #[serde(untagged)]
@@ -379,13 +380,7 @@ impl Facade {
                 );
                 input.extend(capture_base_model.command_digest.to_string().as_bytes());
 
-                self.db
-                    .insert(
-                        Namespace::CoreModel,
-                        &format!("core_model.{}", capture_base_model.capture_base_said),
-                        &input,
-                    )
-                    .unwrap();
+                self.insert_version_model(&capture_base_model.capture_base_said, &input);
             }
 
             if let Some(overlay_model) = &model.overlay {
@@ -410,13 +405,7 @@ impl Facade {
                 );
                 input.extend(overlay_model.command_digest.to_string().as_bytes());
 
-                self.db
-                    .insert(
-                        Namespace::CoreModel,
-                        &format!("core_model.{}", overlay_model.overlay_said),
-                        &input,
-                    )
-                    .unwrap();
+                self.insert_version_model(&overlay_model.overlay_said, &input);
             }
 
             if let Some(oca_bundle_model) = &model.oca_bundle {
@@ -446,14 +435,16 @@ impl Facade {
                     input.extend(said.to_string().as_bytes());
                 }
 
-                self.db
-                    .insert(
-                        Namespace::CoreModel,
-                        &format!("core_model.{}", oca_bundle_model.oca_bundle_said),
-                        &input,
-                    )
-                    .unwrap();
+                self.insert_version_model(&oca_bundle_model.oca_bundle_said, &input);
             }
         });
     }
+
+    // The same version can be reached again (see `build_step`): the record of its first derivation is kept.
+    fn insert_version_model(&mut self, said: &SelfAddressingIdentifier, input: &[u8]) {
+        let key = format!("core_model.{}", said);
+        if self.db.get(Namespace::CoreModel, &key).unwrap().is_none() {
+            self.db.insert(Namespace::CoreModel, &key, input).unwrap();
+        }
+    }
 }
-- 
2.43.0


From 79af271952ccbcd7190891ce6ab19b7dc7f0dc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:10:41 +0000
Subject: [PATCH 46/51] fix: a digest too long for the version graph is an
 error instead of a panic

---
 semantics/oca-dag/src/versioning/mod.rs | 28 ++++++++++++++++++-------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/semantics/oca-dag/src/versioning/mod.rs b/semantics/oca-dag/src/versioning/mod.rs
index 8db25d3..1ff933c 100644
--- a/semantics/oca-dag/src/versioning/mod.rs
+++ b/semantics/oca-dag/src/versioning/mod.rs
@@ -15,7 +15,7 @@ impl Graph {
     pub fn add(&self, new: &str, to: Option<&str>) -> Result<(), String> {
         self.db.insert(
             &format!("{}.upscending", new),
-            &self.generate_parents_digests(to),
+            &self.generate_parents_digests(to)?,
         )?;
 
         if let Some(to) = to {
@@ -23,30 +23,42 @@ impl Graph {
             let children_digests: Option<Vec<u8>> = self.db.get(k)?;
             self.db.insert(
                 &format!("{}.downscending", to),
-                &self.update_children_digests(children_digests.as_deref(), new),
+                &self.update_children_digests(children_digests.as_deref(), new)?,
             )?;
         }
 
         Ok(())
     }
 
-    fn generate_parents_digests(&self, parent_said: Option<&str>) -> Vec<u8> {
+    fn generate_parents_digests(&self, parent_said: Option<&str>) -> Result<Vec<u8>, String> {
         let mut digests: Vec<u8> = Vec::new();
         if let Some(to) = parent_said {
-            digests.push(to.len().try_into().unwrap());
+            digests.push(Self::digest_len(to)?);
             digests.extend(to.as_bytes());
         }
-        digests
+        Ok(digests)
     }
 
-    fn update_children_digests(&self, children_digest: Option<&[u8]>, new: &str) -> Vec<u8> {
+    fn update_children_digests(
+        &self,
+        children_digest: Option<&[u8]>,
+        new: &str,
+    ) -> Result<Vec<u8>, String> {
         let mut digests: Vec<u8> = Vec::new();
         if let Some(children_digest) = children_digest {
             digests.extend(children_digest);
         }
-        digests.push(new.len().try_into().unwrap());
+        digests.push(Self::digest_len(new)?);
         digests.extend(new.as_bytes());
-        digests
+        Ok(digests)
+    }
+
+    /// The length of a digest is kept in one byte
+    fn digest_len(digest: &str) -> Result<u8, String> {
+        digest
+            .len()
+            .try_into()
+            .map_err(|_| format!("Digest is too long: {digest}"))
     }
 }
 
-- 
2.43.0


From ce3902d126945841feec0e1e5ee19d697fb8a167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:10:41 +0000
Subject: [PATCH 47/51] fix: a command that cannot be applied is an error of
 build_oca, it dropped everything built before

---
 semantics/oca-dag/src/versioning/ocafile.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/semantics/oca-dag/src/versioning/ocafile.rs b/semantics/oca-dag/src/versioning/ocafile.rs
index 6a84079..22016bc 100644
--- a/semantics/oca-dag/src/versioning/ocafile.rs
+++ b/semantics/oca-dag/src/versioning/ocafile.rs
@@ -26,16 +26,9 @@ pub fn build_oca(
             let oca_b = serde_json::from_str::<OCABundle>(&oca_bundle_str).unwrap();
             base = Some(oca_b.into());
         } else {
-            let result = oca_bundle_semantics::build::apply_command(base.clone(), command.clone());
-            let mut oca_box: OCABox = OCABox::new();
-            match result {
-                Ok(oca) => {
-                    oca_box = oca;
-                }
-                Err(errors) => {
-                    println!("{:?}", errors);
-                }
-            };
+            let mut oca_box: OCABox =
+                oca_bundle_semantics::build::apply_command(base.clone(), command.clone())
+                    .map_err(|errors| errors.join(", "))?;
             let oca_bundle = oca_box.generate_bundle();
             let command_str = serde_json::to_string(&command).unwrap();
 
-- 
2.43.0


From afbcf7c6f5973b7fd0b2831fc35630758c393a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:10:41 +0000
Subject: [PATCH 48/51] fix: build_oca without commands is an error instead of
 a panic

---
 semantics/oca-dag/src/versioning/ocafile.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/semantics/oca-dag/src/versioning/ocafile.rs b/semantics/oca-dag/src/versioning/ocafile.rs
index 22016bc..3b3c480 100644
--- a/semantics/oca-dag/src/versioning/ocafile.rs
+++ b/semantics/oca-dag/src/versioning/ocafile.rs
@@ -60,7 +60,10 @@ pub fn build_oca(
         }
     }
 
-    Ok(base.unwrap().generate_bundle())
+    match base {
+        Some(mut base) => Ok(base.generate_bundle()),
+        None => Err("No commands to build from".to_string()),
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 855ec580ec0036a4de98f4d1b721b047eb418ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:10:41 +0000
Subject: [PATCH 49/51] fix: build_oca records commands longer than 255 bytes,
 they were a panic

---
 semantics/oca-dag/src/versioning/ocafile.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantics/oca-dag/src/versioning/ocafile.rs b/semantics/oca-dag/src/versioning/ocafile.rs
index 3b3c480..eb7e9eb 100644
--- a/semantics/oca-dag/src/versioning/ocafile.rs
+++ b/semantics/oca-dag/src/versioning/ocafile.rs
@@ -43,7 +43,7 @@ pub fn build_oca(
                     input.push(0);
                 }
             }
-            input.push(command_str.len().try_into().unwrap());
+            // The command is the rest of the record: it can be longer than 255 bytes
             input.extend(command_str.as_bytes());
             db.insert(
                 &format!("oca.{}.operation", oca_bundle.clone().said.unwrap()),
-- 
2.43.0


From c26a347afe57c3b4717d92bbfd0a7a7e8eb48d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:10:41 +0000
Subject: [PATCH 50/51] fix: build_oca keeps the record of a version that is
 reached again

---
 semantics/oca-dag/src/versioning/ocafile.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/semantics/oca-dag/src/versioning/ocafile.rs b/semantics/oca-dag/src/versioning/ocafile.rs
index eb7e9eb..05b82e9 100644
--- a/semantics/oca-dag/src/versioning/ocafile.rs
+++ b/semantics/oca-dag/src/versioning/ocafile.rs
@@ -45,10 +45,11 @@ pub fn build_oca(
             }
             // The command is the rest of the record: it can be longer than 255 bytes
             input.extend(command_str.as_bytes());
-            db.insert(
-                &format!("oca.{}.operation", oca_bundle.clone().said.unwrap()),
-                &input,
-            )?;
+            let key = format!("oca.{}.operation", oca_bundle.clone().said.unwrap());
+            // A version that is reached again keeps its history: it would become its own ancestor
+            if db.get(&key)?.is_none() {
+                db.insert(&key, &input)?;
+            }
             let code = HashFunctionCode::Blake3_256;
             let format = SerializationFormats::JSON;
             db.insert(
-- 
2.43.0


From 24f32780c20893cb172f91e0cc08c65c0693846b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:47:59 +0000
Subject: [PATCH 51/51] fix: checking a condition whose dependencies are not
 listed is an error, not a panic

---
 .../oca-bundle/src/state/oca/overlay/conditional.rs  | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/semantics/oca-bundle/src/state/oca/overlay/conditional.rs b/semantics/oca-bundle/src/state/oca/overlay/conditional.rs
index 404e95c..fab15b8 100644
--- a/semantics/oca-bundle/src/state/oca/overlay/conditional.rs
+++ b/semantics/oca-bundle/src/state/oca/overlay/conditional.rs
@@ -51,7 +51,7 @@ impl Conditionals for Attribute {
         let condition = &self.condition.clone().ok_or(vec![Error::Custom(
             "Attribute has no condition".to_string(),
         )])?;
-        let condition_dependencies = &self.dependencies.clone().unwrap();
+        let condition_dependencies = &self.dependencies.clone().unwrap_or_default();
         let re = regex::Regex::new(r"\$\{(\d+)\}").unwrap();
         let attr = &self.name;
         if condition_dependencies.contains(attr) {
@@ -59,6 +59,16 @@ impl Conditionals for Attribute {
                 "Attribute '{attr}' cannot be a dependency of itself"
             )));
         }
+        // A condition that was read, not set, may refer to dependencies it does not have
+        for caps in re.captures_iter(condition) {
+            let index = caps[1].parse::<usize>().ok();
+            if index.and_then(|i| condition_dependencies.get(i)).is_none() {
+                errors.push(Error::Custom(format!(
+                    "Attribute '{attr}' has no dependency '{}'",
+                    &caps[0]
+                )));
+            }
+        }
         condition_dependencies.iter().for_each(|d| {
             if !dependency_values.contains_key(d) {
                 errors.push(Error::Custom(format!("Missing dependency '{d}' value",)));
-- 
2.43.0

