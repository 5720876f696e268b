From 97e3cf35c95842f2343409f5815a84cb0eccb53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:52 +0000
Subject: [PATCH 01/16] fix: use the minItems and maxItems names for the array
 schema bounds

---
 src/thing.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/thing.rs b/src/thing.rs
index 9e41789..3d1f1b8 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -783,6 +783,7 @@ impl<DS, AS, OS> Default for DataSchemaSubtype<DS, AS, OS> {
     deserialize = "DS: Deserialize<'de>, AS: Deserialize<'de>, OS: Deserialize<'de>",
     serialize = "DS: Serialize, AS: Serialize, OS: Serialize"
 ))]
+#[serde(rename_all = "camelCase")]
 pub struct ArraySchema<DS, AS, OS> {
     /// The characteristics of the JSON array.
     ///
-- 
2.43.0


From 9790873cdad90c55ced2f0c1ae01eedd96ac9fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:52 +0000
Subject: [PATCH 02/16] fix: do not emit a null model in the version
 information

---
 src/thing.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/thing.rs b/src/thing.rs
index 3d1f1b8..495ee2b 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -644,6 +644,7 @@ where
 }
 
 /// Metadata of a `Thing` that provides version information about the _Thing Description_ document.
+#[skip_serializing_none]
 #[derive(Debug, Clone, Default, PartialEq, Eq, Hash, Deserialize, Serialize)]
 pub struct VersionInfo {
     /// The version indicator of this _Thing Description_ instance.
-- 
2.43.0


From 3814df2cc12b38d9503539fd52a45d006a14f785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:52 +0000
Subject: [PATCH 03/16] fix: default qop to auth when parsing a digest security
 scheme

---
 src/thing.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/thing.rs b/src/thing.rs
index 495ee2b..b395301 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -1271,6 +1271,7 @@ impl SecurityAuthenticationLocation {
 #[derive(Clone, Debug, PartialEq, Eq, Hash, Deserialize, Serialize)]
 pub struct DigestSecurityScheme {
     /// Quality of protection.
+    #[serde(default)]
     pub qop: QualityOfProtection,
 
     /// The location of security authentication information.
-- 
2.43.0


From a71281211e5cd7f02f6180a4cce5b1a03d6a34a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:52 +0000
Subject: [PATCH 04/16] fix: accept HTTP responses without headers

---
 src/protocol/http.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/http.rs b/src/protocol/http.rs
index 23c953e..5ce8f77 100644
--- a/src/protocol/http.rs
+++ b/src/protocol/http.rs
@@ -32,7 +32,7 @@ pub struct MessageHeader {
 #[derive(Debug, Clone, Deserialize, Serialize, Default, PartialEq, Eq, Hash)]
 pub struct Response {
     #[serde(rename = "htv:headers")]
-    #[serde(skip_serializing_if = "Vec::is_empty")]
+    #[serde(default, skip_serializing_if = "Vec::is_empty")]
     pub headers: Vec<MessageHeader>,
     #[serde(rename = "htv:statusCodeValue")]
     pub status_code_value: Option<usize>,
-- 
2.43.0


From 4a957aabaf18c2214d668d1203d33d8a12154d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:52 +0000
Subject: [PATCH 05/16] fix: keep null const and default values when parsing a
 data schema

---
 src/thing.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/thing.rs b/src/thing.rs
index b395301..172dba6 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -691,10 +691,11 @@ pub struct DataSchema<DS, AS, OS> {
     pub descriptions: Option<MultiLanguage>,
 
     /// A constant value for the data schema.
-    #[serde(rename = "const")]
+    #[serde(rename = "const", default, deserialize_with = "deserialize_present")]
     pub constant: Option<Value>,
 
     /// A default value for the data schema.
+    #[serde(default, deserialize_with = "deserialize_present")]
     pub default: Option<Value>,
 
     /// Unit information used for the data schema (e.g. Km, g, m/s^2)
@@ -727,6 +728,15 @@ pub struct DataSchema<DS, AS, OS> {
     pub other: DS,
 }
 
+/// Deserializes a value that is present, in order to distinguish an explicit `null` from a missing
+/// field.
+fn deserialize_present<'de, D>(deserializer: D) -> Result<Option<Value>, D::Error>
+where
+    D: Deserializer<'de>,
+{
+    Value::deserialize(deserializer).map(Some)
+}
+
 pub(crate) type DataSchemaFromOther<Other> = DataSchema<
     <Other as ExtendableThing>::DataSchema,
     <Other as ExtendableThing>::ArraySchema,
-- 
2.43.0


From 03d650ecba876d956a1717c563a58b9ce3fbff11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:32 +0000
Subject: [PATCH 06/16] fix: serialize the fields shared by the parts of a
 property affordance once

---
 src/thing.rs | 87 ++++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 85 insertions(+), 2 deletions(-)

diff --git a/src/thing.rs b/src/thing.rs
index 172dba6..b363a1b 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -391,8 +391,7 @@ where
 }
 
 /// An affordance that exposes the state of a `Thing`
-#[skip_serializing_none]
-#[derive(Deserialize, Serialize)]
+#[derive(Deserialize)]
 pub struct PropertyAffordance<Other: ExtendableThing> {
     /// The interaction affordance.
     #[serde(flatten)]
@@ -464,6 +463,90 @@ where
     }
 }
 
+/// The JSON members of a [`PropertyAffordance`].
+///
+/// The interaction affordance and the data schema of a property share some of their fields, which
+/// must be serialized only once.
+#[serde_as]
+#[skip_serializing_none]
+#[derive(Serialize)]
+#[serde(rename_all = "camelCase", bound = "")]
+struct PropertyAffordanceMembers<'a, Other: ExtendableThing> {
+    #[serde(rename = "@type")]
+    #[serde_as(as = "Option<&OneOrMany<Same>>")]
+    attype: Option<&'a Vec<String>>,
+    title: Option<&'a String>,
+    titles: Option<&'a MultiLanguage>,
+    description: Option<&'a String>,
+    descriptions: Option<&'a MultiLanguage>,
+    forms: &'a [Form<Other>],
+    uri_variables: Option<&'a DataSchemaMap<Other>>,
+    #[serde(flatten)]
+    interaction_other: &'a Other::InteractionAffordance,
+    #[serde(rename = "const")]
+    constant: Option<&'a Value>,
+    default: Option<&'a Value>,
+    unit: Option<&'a String>,
+    one_of: Option<&'a [DataSchemaFromOther<Other>]>,
+    #[serde(rename = "enum")]
+    enumeration: Option<&'a [Value]>,
+    read_only: bool,
+    write_only: bool,
+    format: Option<&'a String>,
+    #[serde(flatten)]
+    subtype:
+        Option<&'a DataSchemaSubtype<Other::DataSchema, Other::ArraySchema, Other::ObjectSchema>>,
+    #[serde(flatten)]
+    data_schema_other: &'a Other::DataSchema,
+    observable: Option<bool>,
+    #[serde(flatten)]
+    other: &'a Other::PropertyAffordance,
+}
+
+impl<Other: ExtendableThing> Serialize for PropertyAffordance<Other> {
+    fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
+    where
+        S: Serializer,
+    {
+        let Self {
+            interaction,
+            data_schema,
+            observable,
+            other,
+        } = self;
+
+        PropertyAffordanceMembers::<Other> {
+            attype: interaction.attype.as_ref().or(data_schema.attype.as_ref()),
+            title: interaction.title.as_ref().or(data_schema.title.as_ref()),
+            titles: interaction.titles.as_ref().or(data_schema.titles.as_ref()),
+            description: interaction
+                .description
+                .as_ref()
+                .or(data_schema.description.as_ref()),
+            descriptions: interaction
+                .descriptions
+                .as_ref()
+                .or(data_schema.descriptions.as_ref()),
+            forms: &interaction.forms,
+            uri_variables: interaction.uri_variables.as_ref(),
+            interaction_other: &interaction.other,
+            constant: data_schema.constant.as_ref(),
+            default: data_schema.default.as_ref(),
+            unit: data_schema.unit.as_ref(),
+            one_of: data_schema.one_of.as_deref(),
+            enumeration: data_schema.enumeration.as_deref(),
+            read_only: data_schema.read_only,
+            write_only: data_schema.write_only,
+            format: data_schema.format.as_ref(),
+            subtype: data_schema.subtype.as_ref(),
+            data_schema_other: &data_schema.other,
+            observable: *observable,
+            other,
+        }
+        .serialize(serializer)
+    }
+}
+
 /// An affordance that allows to inkvoke a function of the `Thing`.
 #[skip_serializing_none]
 #[derive(Deserialize, Serialize)]
-- 
2.43.0


From 1e95fcfe0a4c48e493119f875c3780739e187bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:38 +0000
Subject: [PATCH 07/16] fix: accept ranges with an inclusive and an exclusive
 bound

---
 src/builder/data_schema.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/builder/data_schema.rs b/src/builder/data_schema.rs
index 55d3d4a..d9bfda2 100644
--- a/src/builder/data_schema.rs
+++ b/src/builder/data_schema.rs
@@ -3849,9 +3849,7 @@ pub(super) fn check_data_schema_subtype<DS, AS, OS>(
                     match (number.minimum, number.maximum) {
                         (Some(x), _) if x.is_nan() => return Err(Error::NanMinMax),
                         (_, Some(x)) if x.is_nan() => return Err(Error::NanMinMax),
-                        (Some(min), Some(max))
-                            if matches!(min.partial_cmp(&max), None | Some(Ordering::Greater)) =>
-                        {
+                        (Some(min), Some(max)) if is_empty_range(min, max) => {
                             return Err(Error::InvalidMinMax)
                         }
                         _ => {}
@@ -3865,9 +3863,7 @@ pub(super) fn check_data_schema_subtype<DS, AS, OS>(
                     }
                 }
                 Integer(integer) => match (integer.minimum, integer.maximum) {
-                    (Some(min), Some(max))
-                        if matches!(min.partial_cmp(&max), None | Some(Ordering::Greater)) =>
-                    {
+                    (Some(min), Some(max)) if is_empty_range(min, max) => {
                         return Err(Error::InvalidMinMax)
                     }
                     _ => {}
@@ -3893,6 +3889,17 @@ pub(super) fn check_data_schema_subtype<DS, AS, OS>(
     }
 }
 
+/// Returns whether no value can be between a lower and an upper limit.
+fn is_empty_range<T: PartialOrd>(min: Minimum<T>, max: Maximum<T>) -> bool {
+    match (min, max) {
+        (Minimum::Inclusive(min), Maximum::Inclusive(max)) => min > max,
+        (
+            Minimum::Inclusive(min) | Minimum::Exclusive(min),
+            Maximum::Inclusive(max) | Maximum::Exclusive(max),
+        ) => min >= max,
+    }
+}
+
 fn check_one_of_schema<T>(one_of: Option<&[T]>) -> Result<(), Error>
 where
     T: CheckableDataSchema,
-- 
2.43.0


From 2d82c78ab6e7d4d201b2660fa2e67716badad98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:38 +0000
Subject: [PATCH 08/16] fix: reject a NaN multipleOf

---
 src/builder/data_schema.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builder/data_schema.rs b/src/builder/data_schema.rs
index d9bfda2..d0b2959 100644
--- a/src/builder/data_schema.rs
+++ b/src/builder/data_schema.rs
@@ -3856,7 +3856,7 @@ pub(super) fn check_data_schema_subtype<DS, AS, OS>(
                     }
 
                     match number.multiple_of {
-                        Some(multiple_of) if multiple_of <= 0. => {
+                        Some(multiple_of) if multiple_of.is_nan() || multiple_of <= 0. => {
                             return Err(Error::InvalidMultipleOf)
                         }
                         _ => {}
-- 
2.43.0


From d46c80ab87951c10d2fcc54a6e226ecf32ca8d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:40 +0000
Subject: [PATCH 09/16] fix: use an empty object as the default data of a
 custom security scheme

---
 src/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index 69dc9f4..e6f80f3 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -2134,7 +2134,7 @@ pub mod security {
                 name,
                 subtype: UnknownSecuritySchemeSubtype {
                     scheme,
-                    data: Value::Null,
+                    data: Value::Object(Default::default()),
                 },
                 required,
             }
-- 
2.43.0


From e613afc95561f71772f2261391877a4d6fad18b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:26 +0000
Subject: [PATCH 10/16] fix: validate the data schemas of every part of a Thing

---
 src/builder.rs            |  8 ++++++++
 src/builder/affordance.rs | 19 +++++++++++++------
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index e6f80f3..43abd51 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -820,6 +820,9 @@ impl<Other: ExtendableThing, Status> ThingBuilder<Other, Status> {
                     .then_some(())
                     .ok_or_else(|| Error::MissingSchemaDefinition(security_name.to_string()))
             })?;
+        schema_definitions
+            .values()
+            .try_for_each(CheckableDataSchema::check)?;
         let schema_definitions = schema_definitions
             .into_iter()
             .map(|(key, value)| value.try_into().map(|value| (key, value)))
@@ -872,6 +875,10 @@ impl<Other: ExtendableThing, Status> ThingBuilder<Other, Status> {
         if invalid_uri_variables {
             return Err(Error::InvalidUriVariables);
         }
+        uri_variables
+            .iter()
+            .flat_map(|uri_variables| uri_variables.values())
+            .try_for_each(CheckableDataSchema::check)?;
 
         let uri_variables = uri_variables
             .map(|uri_variables| {
@@ -922,6 +929,7 @@ impl<Other: ExtendableThing, Status> ThingBuilder<Other, Status> {
                     event.subscription.as_ref(),
                     event.data.as_ref(),
                     event.cancellation.as_ref(),
+                    event.data_response.as_ref(),
                 ]
             },
             |op| {
diff --git a/src/builder/affordance.rs b/src/builder/affordance.rs
index a594013..9436f7a 100644
--- a/src/builder/affordance.rs
+++ b/src/builder/affordance.rs
@@ -23,12 +23,12 @@ use super::{
         impl_inner_delegate_schema_builder_like_number,
         impl_inner_delegate_schema_builder_like_object,
         impl_inner_delegate_schema_builder_like_tuple, impl_inner_delegate_schema_builder_like_vec,
-        uri_variables_contains_arrays_objects, BuildableDataSchema, DataSchemaBuilder,
-        EnumerableDataSchema, IntegerDataSchemaBuilderLike, NumberDataSchemaBuilderLike,
-        ObjectDataSchemaBuilderLike, PartialDataSchema, PartialDataSchemaBuilder,
-        ReadableWriteableDataSchema, SpecializableDataSchema, TupleDataSchemaBuilderLike,
-        UncheckedDataSchemaFromOther, UncheckedDataSchemaMap, UnionDataSchema,
-        VecDataSchemaBuilderLike,
+        uri_variables_contains_arrays_objects, BuildableDataSchema, CheckableDataSchema,
+        DataSchemaBuilder, EnumerableDataSchema, IntegerDataSchemaBuilderLike,
+        NumberDataSchemaBuilderLike, ObjectDataSchemaBuilderLike, PartialDataSchema,
+        PartialDataSchemaBuilder, ReadableWriteableDataSchema, SpecializableDataSchema,
+        TupleDataSchemaBuilderLike, UncheckedDataSchemaFromOther, UncheckedDataSchemaMap,
+        UnionDataSchema, VecDataSchemaBuilderLike,
     },
     human_readable_info::{
         impl_delegate_buildable_hr_info, BuildableHumanReadableInfo, HumanReadableInfo,
@@ -2459,6 +2459,9 @@ impl<Other: ExtendableThing> CheckableInteractionAffordanceBuilder
         if uri_variables_contains_arrays_objects::<Other>(&self.uri_variables) {
             return Err(Error::InvalidUriVariables);
         }
+        self.uri_variables
+            .values()
+            .try_for_each(CheckableDataSchema::check)?;
 
         Ok(())
     }
@@ -2485,6 +2488,10 @@ impl<Other: ExtendableThing> CheckableInteractionAffordanceBuilder
         if uri_variables_contains_arrays_objects::<Other>(&self.partial.uri_variables) {
             return Err(Error::InvalidUriVariables);
         }
+        self.partial
+            .uri_variables
+            .values()
+            .try_for_each(CheckableDataSchema::check)?;
 
         Ok(())
     }
-- 
2.43.0


From 03a54f891986d578862164ec0b45b0f0343cb2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:52 +0000
Subject: [PATCH 11/16] fix: check the schemas named by the additional
 responses of affordance forms

---
 src/builder.rs            | 13 ++++++++++++-
 src/builder/affordance.rs | 29 ++++++++++++++++++++++++-----
 2 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 43abd51..399bc5c 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -889,6 +889,11 @@ impl<Other: ExtendableThing, Status> ThingBuilder<Other, Status> {
             })
             .transpose()?;
 
+        let is_schema_defined = |name: &str| {
+            schema_definitions
+                .as_ref()
+                .map_or(false, |schemas| schemas.contains_key(name))
+        };
         let properties = try_build_affordance(
             properties,
             AffordanceType::Property,
@@ -904,6 +909,7 @@ impl<Other: ExtendableThing, Status> ThingBuilder<Other, Status> {
                 )
             },
             &security_definitions,
+            is_schema_defined,
         )?;
         let actions = try_build_affordance(
             actions,
@@ -919,6 +925,7 @@ impl<Other: ExtendableThing, Status> ThingBuilder<Other, Status> {
                 )
             },
             &security_definitions,
+            is_schema_defined,
         )?;
         let events = try_build_affordance(
             events,
@@ -939,6 +946,7 @@ impl<Other: ExtendableThing, Status> ThingBuilder<Other, Status> {
                 )
             },
             &security_definitions,
+            is_schema_defined,
         )?;
         let links = links
             .map(|links| links.into_iter().map(TryInto::try_into).collect())
@@ -1688,13 +1696,14 @@ where
     }
 }
 
-fn try_build_affordance<A, F, IA, G, DS, T, H, const N: usize>(
+fn try_build_affordance<A, F, IA, G, DS, T, H, S, const N: usize>(
     affordances: Vec<AffordanceBuilder<A>>,
     affordance_type: AffordanceType,
     mut get_interaction: F,
     mut get_data_schemas: G,
     is_allowed_op: H,
     security_definitions: &HashMap<String, SecurityScheme>,
+    is_schema_defined: S,
 ) -> Result<Option<HashMap<String, T>>, Error>
 where
     F: FnMut(&A) -> &IA,
@@ -1703,6 +1712,7 @@ where
     DS: CheckableDataSchema,
     A: BuildableAffordance<Target = T>,
     H: Fn(FormOperation) -> bool,
+    S: Fn(&str) -> bool,
 {
     use std::collections::hash_map::Entry;
 
@@ -1720,6 +1730,7 @@ where
                         security_definitions,
                         affordance_type,
                         &is_allowed_op,
+                        &is_schema_defined,
                     )?;
                     get_data_schemas(&affordance)
                         .into_iter()
diff --git a/src/builder/affordance.rs b/src/builder/affordance.rs
index 9436f7a..d6fd86e 100644
--- a/src/builder/affordance.rs
+++ b/src/builder/affordance.rs
@@ -2428,33 +2428,38 @@ where
 }
 
 pub(super) trait CheckableInteractionAffordanceBuilder {
-    fn check<F>(
+    fn check<F, S>(
         &self,
         security_definitions: &HashMap<String, SecurityScheme>,
         affordance_type: AffordanceType,
         is_allowed_op: F,
+        is_schema_defined: S,
     ) -> Result<(), Error>
     where
-        F: Fn(FormOperation) -> bool;
+        F: Fn(FormOperation) -> bool,
+        S: Fn(&str) -> bool;
 }
 
 impl<Other: ExtendableThing> CheckableInteractionAffordanceBuilder
     for PartialInteractionAffordanceBuilder<Other, Other::InteractionAffordance>
 {
-    fn check<F>(
+    fn check<F, S>(
         &self,
         security_definitions: &HashMap<String, SecurityScheme>,
         affordance_type: AffordanceType,
         is_allowed_op: F,
+        is_schema_defined: S,
     ) -> Result<(), Error>
     where
         F: Fn(FormOperation) -> bool,
+        S: Fn(&str) -> bool,
     {
         check_form_builders(
             &self.forms,
             security_definitions,
             affordance_type,
             is_allowed_op,
+            is_schema_defined,
         )?;
         if uri_variables_contains_arrays_objects::<Other>(&self.uri_variables) {
             return Err(Error::InvalidUriVariables);
@@ -2470,20 +2475,23 @@ impl<Other: ExtendableThing> CheckableInteractionAffordanceBuilder
 impl<Other: ExtendableThing> CheckableInteractionAffordanceBuilder
     for InteractionAffordanceBuilder<Other, Other::InteractionAffordance>
 {
-    fn check<F>(
+    fn check<F, S>(
         &self,
         security_definitions: &HashMap<String, SecurityScheme>,
         affordance_type: AffordanceType,
         is_allowed_op: F,
+        is_schema_defined: S,
     ) -> Result<(), Error>
     where
         F: Fn(FormOperation) -> bool,
+        S: Fn(&str) -> bool,
     {
         check_form_builders(
             &self.partial.forms,
             security_definitions,
             affordance_type,
             is_allowed_op,
+            is_schema_defined,
         )?;
         if uri_variables_contains_arrays_objects::<Other>(&self.partial.uri_variables) {
             return Err(Error::InvalidUriVariables);
@@ -2497,15 +2505,17 @@ impl<Other: ExtendableThing> CheckableInteractionAffordanceBuilder
     }
 }
 
-pub(super) fn check_form_builders<Other, F>(
+pub(super) fn check_form_builders<Other, F, S>(
     forms: &[FormBuilder<Other, String, Other::Form>],
     security_definitions: &HashMap<String, SecurityScheme>,
     affordance_type: AffordanceType,
     is_allowed_op: F,
+    is_schema_defined: S,
 ) -> Result<(), Error>
 where
     Other: ExtendableThing,
     F: Fn(FormOperation) -> bool,
+    S: Fn(&str) -> bool,
 {
     for form in forms {
         if let DefaultedFormOperations::Custom(ops) = &form.op {
@@ -2530,6 +2540,15 @@ where
                 })
             })
             .transpose()?;
+
+        form.additional_responses
+            .iter()
+            .flat_map(|additional_response| additional_response.schema.as_ref())
+            .try_for_each(|schema| {
+                is_schema_defined(schema)
+                    .then_some(())
+                    .ok_or_else(|| Error::MissingSchemaDefinition(schema.clone()))
+            })?;
     }
 
     Ok(())
-- 
2.43.0


From e26a1b8cba13a6b7cb8ad6efca4c039ed3006df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:27 +0000
Subject: [PATCH 12/16] fix: serialize an empty list of form operations as an
 empty list

---
 src/thing.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/thing.rs b/src/thing.rs
index b363a1b..9f2ef64 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -1768,7 +1768,6 @@ impl Serialize for DefaultedFormOperations {
     {
         match self {
             Self::Default => serializer.serialize_none(),
-            Self::Custom(ops) if ops.is_empty() => serializer.serialize_none(),
             Self::Custom(ops) => ops.serialize(serializer),
         }
     }
-- 
2.43.0


From f8134a59ab828c06f63571359ccde33bccc91f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:21 +0000
Subject: [PATCH 13/16] fix: reject malformed limits of numeric schemas and
 keep the stricter of two

---
 src/thing.rs | 66 ++++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 62 insertions(+), 4 deletions(-)

diff --git a/src/thing.rs b/src/thing.rs
index 9f2ef64..e96e64d 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -1087,17 +1087,75 @@ macro_rules! impl_minmax_float {
 
 impl_minmax_float!(f32, f64);
 
+/// Deserializes the upper limit of a value.
+///
+/// The stricter limit is used when both the inclusive and the exclusive ones are available.
+fn deserialize_maximum<'de, D, T>(deserializer: D) -> Result<Option<Maximum<T>>, D::Error>
+where
+    D: Deserializer<'de>,
+    T: Deserialize<'de> + PartialOrd,
+{
+    #[derive(Deserialize)]
+    #[serde(rename_all = "camelCase")]
+    struct UpperLimits<T> {
+        maximum: Option<T>,
+        exclusive_maximum: Option<T>,
+    }
+
+    let UpperLimits {
+        maximum,
+        exclusive_maximum,
+    } = UpperLimits::deserialize(deserializer)?;
+
+    Ok(match (maximum, exclusive_maximum) {
+        (Some(inclusive), Some(exclusive)) if inclusive < exclusive => {
+            Some(Maximum::Inclusive(inclusive))
+        }
+        (_, Some(exclusive)) => Some(Maximum::Exclusive(exclusive)),
+        (inclusive, None) => inclusive.map(Maximum::Inclusive),
+    })
+}
+
+/// Deserializes the lower limit of a value.
+///
+/// The stricter limit is used when both the inclusive and the exclusive ones are available.
+fn deserialize_minimum<'de, D, T>(deserializer: D) -> Result<Option<Minimum<T>>, D::Error>
+where
+    D: Deserializer<'de>,
+    T: Deserialize<'de> + PartialOrd,
+{
+    #[derive(Deserialize)]
+    #[serde(rename_all = "camelCase")]
+    struct LowerLimits<T> {
+        minimum: Option<T>,
+        exclusive_minimum: Option<T>,
+    }
+
+    let LowerLimits {
+        minimum,
+        exclusive_minimum,
+    } = LowerLimits::deserialize(deserializer)?;
+
+    Ok(match (minimum, exclusive_minimum) {
+        (Some(inclusive), Some(exclusive)) if inclusive > exclusive => {
+            Some(Minimum::Inclusive(inclusive))
+        }
+        (_, Some(exclusive)) => Some(Minimum::Exclusive(exclusive)),
+        (inclusive, None) => inclusive.map(Minimum::Inclusive),
+    })
+}
+
 /// A number metadata.
 #[skip_serializing_none]
 #[derive(Clone, Debug, Default, PartialEq, Deserialize, Serialize)]
 #[serde(rename_all = "camelCase")]
 pub struct NumberSchema {
     /// The higher limit of the value.
-    #[serde(flatten)]
+    #[serde(flatten, deserialize_with = "deserialize_maximum")]
     pub maximum: Option<Maximum<f64>>,
 
     /// The lower limit of the value.
-    #[serde(flatten)]
+    #[serde(flatten, deserialize_with = "deserialize_minimum")]
     pub minimum: Option<Minimum<f64>>,
 
     /// It adds the requirement that the numeric value must be a multiple of this.
@@ -1111,11 +1169,11 @@ pub struct NumberSchema {
 // FIXME: we should probably use a Decimal type
 pub struct IntegerSchema {
     /// The higher limit of the value.
-    #[serde(flatten)]
+    #[serde(flatten, deserialize_with = "deserialize_maximum")]
     pub maximum: Option<Maximum<i64>>,
 
     /// The lower limit of the value.
-    #[serde(flatten)]
+    #[serde(flatten, deserialize_with = "deserialize_minimum")]
     pub minimum: Option<Minimum<i64>>,
 
     /// It adds the requirement that the numeric value must be a multiple of this.
-- 
2.43.0


From 953e87c46e319946fc299b0c6d8f3c4951acb8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:03 +0000
Subject: [PATCH 14/16] fix: reject malformed data schema subtypes instead of
 dropping them

---
 src/thing.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/thing.rs b/src/thing.rs
index e96e64d..352577a 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -16,7 +16,7 @@ use std::{
 };
 
 use oxilangtag::LanguageTag;
-use serde::{Deserialize, Deserializer, Serialize, Serializer};
+use serde::{de::Error, Deserialize, Deserializer, Serialize, Serializer};
 use serde_json::Value;
 use serde_with::{serde_as, skip_serializing_none, DeserializeAs, OneOrMany, Same};
 use time::OffsetDateTime;
@@ -803,7 +803,7 @@ pub struct DataSchema<DS, AS, OS> {
     pub format: Option<String>,
 
     /// The JSON-based subtype of the data schema.
-    #[serde(flatten)]
+    #[serde(flatten, deserialize_with = "deserialize_subtype")]
     pub subtype: Option<DataSchemaSubtype<DS, AS, OS>>,
 
     /// Data schema extension.
@@ -820,6 +820,21 @@ where
     Value::deserialize(deserializer).map(Some)
 }
 
+/// Deserializes the subtype of a data schema, which is absent only if the type is not specified.
+fn deserialize_subtype<'de, D, T>(deserializer: D) -> Result<Option<T>, D::Error>
+where
+    D: Deserializer<'de>,
+    T: Deserialize<'de>,
+{
+    let members = serde_json::Map::deserialize(deserializer)?;
+    match members.get("type") {
+        None | Some(Value::Null) => Ok(None),
+        Some(_) => T::deserialize(Value::Object(members))
+            .map(Some)
+            .map_err(D::Error::custom),
+    }
+}
+
 pub(crate) type DataSchemaFromOther<Other> = DataSchema<
     <Other as ExtendableThing>::DataSchema,
     <Other as ExtendableThing>::ArraySchema,
-- 
2.43.0


From 7707933553cca88048b3649cb8a086d4f8bf465f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:19 +0000
Subject: [PATCH 15/16] fix: parse the dataResponse member of event affordances

---
 src/thing.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/thing.rs b/src/thing.rs
index 352577a..2dae636 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -661,6 +661,7 @@ pub struct EventAffordance<Other: ExtendableThing> {
     pub data: Option<DataSchemaFromOther<Other>>,
 
     /// Data schema of the responsed messages sent by the consumer in a response to a data message.
+    #[serde(alias = "dataResponse")]
     pub data_response: Option<DataSchemaFromOther<Other>>,
 
     /// Data that needs to be passed to cancel a subscription.
-- 
2.43.0


From 5df596c9012a01c20aceca8f464dfba7dbb2293a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:02 +0000
Subject: [PATCH 16/16] fix: reject data schema types and security schemes that
 are not strings

---
 src/thing.rs | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/thing.rs b/src/thing.rs
index 2dae636..e7299f0 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -830,9 +830,21 @@ where
     let members = serde_json::Map::deserialize(deserializer)?;
     match members.get("type") {
         None | Some(Value::Null) => Ok(None),
-        Some(_) => T::deserialize(Value::Object(members))
-            .map(Some)
-            .map_err(D::Error::custom),
+        Some(_) => deserialize_tagged(members, "type").map(Some),
+    }
+}
+
+/// Deserializes a value tagged by the specified member, which must be a string.
+fn deserialize_tagged<'de, T, E>(members: serde_json::Map<String, Value>, tag: &str) -> Result<T, E>
+where
+    T: Deserialize<'de>,
+    E: Error,
+{
+    match members.get(tag) {
+        None | Some(Value::String(_)) => T::deserialize(Value::Object(members)).map_err(E::custom),
+        Some(other) => Err(E::custom(format!(
+            "invalid value {other} for the field `{tag}`, expected a string"
+        ))),
     }
 }
 
@@ -1294,10 +1306,18 @@ pub struct SecurityScheme {
     pub proxy: Option<String>,
 
     /// The security scheme subtype.
-    #[serde(flatten)]
+    #[serde(flatten, deserialize_with = "deserialize_scheme")]
     pub subtype: SecuritySchemeSubtype,
 }
 
+/// Deserializes the subtype of a security scheme, whose name must be a string.
+fn deserialize_scheme<'de, D>(deserializer: D) -> Result<SecuritySchemeSubtype, D::Error>
+where
+    D: Deserializer<'de>,
+{
+    deserialize_tagged(serde_json::Map::deserialize(deserializer)?, "scheme")
+}
+
 /// A pre-defined security scheme subtype.
 #[derive(Clone, Debug, Default, PartialEq, Eq, Hash, Deserialize, Serialize)]
 #[serde(tag = "scheme", rename_all = "lowercase")]
-- 
2.43.0

