From 99eef910d388520fdbeb74a5c5dfc73da52069b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:12 +0000
Subject: [PATCH 01/17] fix: leave params out of a resources/list request that
 has none

---
 src/generated_schema/2024_11_05/schema_utils.rs | 6 +++++-
 src/generated_schema/2025_03_26/schema_utils.rs | 6 +++++-
 src/generated_schema/2025_06_18/schema_utils.rs | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/generated_schema/2024_11_05/schema_utils.rs b/src/generated_schema/2024_11_05/schema_utils.rs
index 0563fd6..692a8c0 100644
--- a/src/generated_schema/2024_11_05/schema_utils.rs
+++ b/src/generated_schema/2024_11_05/schema_utils.rs
@@ -1818,7 +1818,11 @@ impl ::serde::Serialize for ClientJsonrpcRequest {
                         state.serialize_field("params", params)?
                     }
                 }
-                ListResourcesRequest(msg) => state.serialize_field("params", &msg.params)?,
+                ListResourcesRequest(msg) => {
+                    if let Some(params) = &msg.params {
+                        state.serialize_field("params", params)?
+                    }
+                }
                 ListResourceTemplatesRequest(msg) => {
                     if let Some(params) = &msg.params {
                         state.serialize_field("params", params)?
diff --git a/src/generated_schema/2025_03_26/schema_utils.rs b/src/generated_schema/2025_03_26/schema_utils.rs
index 9d7b6de..9cb690f 100644
--- a/src/generated_schema/2025_03_26/schema_utils.rs
+++ b/src/generated_schema/2025_03_26/schema_utils.rs
@@ -1817,7 +1817,11 @@ impl ::serde::Serialize for ClientJsonrpcRequest {
                         state.serialize_field("params", params)?
                     }
                 }
-                ListResourcesRequest(msg) => state.serialize_field("params", &msg.params)?,
+                ListResourcesRequest(msg) => {
+                    if let Some(params) = &msg.params {
+                        state.serialize_field("params", params)?
+                    }
+                }
                 ListResourceTemplatesRequest(msg) => {
                     if let Some(params) = &msg.params {
                         state.serialize_field("params", params)?
diff --git a/src/generated_schema/2025_06_18/schema_utils.rs b/src/generated_schema/2025_06_18/schema_utils.rs
index f265ca4..ca4810a 100644
--- a/src/generated_schema/2025_06_18/schema_utils.rs
+++ b/src/generated_schema/2025_06_18/schema_utils.rs
@@ -1939,7 +1939,11 @@ impl ::serde::Serialize for ClientJsonrpcRequest {
                         state.serialize_field("params", params)?
                     }
                 }
-                ListResourcesRequest(msg) => state.serialize_field("params", &msg.params)?,
+                ListResourcesRequest(msg) => {
+                    if let Some(params) = &msg.params {
+                        state.serialize_field("params", params)?
+                    }
+                }
                 ListResourceTemplatesRequest(msg) => {
                     if let Some(params) = &msg.params {
                         state.serialize_field("params", params)?
-- 
2.43.0


From 00b5600ad7e2a373ba639ef1ca64ad6515473ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:33 +0000
Subject: [PATCH 02/17] fix: give SdkError::bad_request its own message

---
 src/generated_schema/2024_11_05/schema_utils.rs | 2 +-
 src/generated_schema/2025_03_26/schema_utils.rs | 2 +-
 src/generated_schema/2025_06_18/schema_utils.rs | 2 +-
 src/generated_schema/2025_11_25/schema_utils.rs | 2 +-
 src/generated_schema/2026_07_28/schema_utils.rs | 2 +-
 src/generated_schema/draft/schema_utils.rs      | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/generated_schema/2024_11_05/schema_utils.rs b/src/generated_schema/2024_11_05/schema_utils.rs
index 692a8c0..1fb95a5 100644
--- a/src/generated_schema/2024_11_05/schema_utils.rs
+++ b/src/generated_schema/2024_11_05/schema_utils.rs
@@ -2608,7 +2608,7 @@ impl SdkError {
         Self {
             code: SdkErrorCodes::BAD_REQUEST.into(),
             data: None,
-            message: SdkErrorCodes::RESOURCE_NOT_FOUND.to_string(),
+            message: SdkErrorCodes::BAD_REQUEST.to_string(),
         }
     }
     pub fn with_message(mut self, message: &str) -> Self {
diff --git a/src/generated_schema/2025_03_26/schema_utils.rs b/src/generated_schema/2025_03_26/schema_utils.rs
index 9cb690f..4337050 100644
--- a/src/generated_schema/2025_03_26/schema_utils.rs
+++ b/src/generated_schema/2025_03_26/schema_utils.rs
@@ -2607,7 +2607,7 @@ impl SdkError {
         Self {
             code: SdkErrorCodes::BAD_REQUEST.into(),
             data: None,
-            message: SdkErrorCodes::RESOURCE_NOT_FOUND.to_string(),
+            message: SdkErrorCodes::BAD_REQUEST.to_string(),
         }
     }
     pub fn with_message(mut self, message: &str) -> Self {
diff --git a/src/generated_schema/2025_06_18/schema_utils.rs b/src/generated_schema/2025_06_18/schema_utils.rs
index ca4810a..a6e1bf0 100644
--- a/src/generated_schema/2025_06_18/schema_utils.rs
+++ b/src/generated_schema/2025_06_18/schema_utils.rs
@@ -2740,7 +2740,7 @@ impl SdkError {
         Self {
             code: SdkErrorCodes::BAD_REQUEST.into(),
             data: None,
-            message: SdkErrorCodes::RESOURCE_NOT_FOUND.to_string(),
+            message: SdkErrorCodes::BAD_REQUEST.to_string(),
         }
     }
     pub fn with_message(mut self, message: &str) -> Self {
diff --git a/src/generated_schema/2025_11_25/schema_utils.rs b/src/generated_schema/2025_11_25/schema_utils.rs
index 120421f..e289a28 100644
--- a/src/generated_schema/2025_11_25/schema_utils.rs
+++ b/src/generated_schema/2025_11_25/schema_utils.rs
@@ -3545,7 +3545,7 @@ impl SdkError {
         Self {
             code: SdkErrorCodes::BAD_REQUEST.into(),
             data: None,
-            message: SdkErrorCodes::RESOURCE_NOT_FOUND.to_string(),
+            message: SdkErrorCodes::BAD_REQUEST.to_string(),
         }
     }
     pub fn with_message(mut self, message: &str) -> Self {
diff --git a/src/generated_schema/2026_07_28/schema_utils.rs b/src/generated_schema/2026_07_28/schema_utils.rs
index 6eb1cfe..b81f639 100644
--- a/src/generated_schema/2026_07_28/schema_utils.rs
+++ b/src/generated_schema/2026_07_28/schema_utils.rs
@@ -2911,7 +2911,7 @@ impl SdkError {
         Self {
             code: SdkErrorCodes::BAD_REQUEST.into(),
             data: None,
-            message: SdkErrorCodes::RESOURCE_NOT_FOUND.to_string(),
+            message: SdkErrorCodes::BAD_REQUEST.to_string(),
         }
     }
     pub fn with_message(mut self, message: &str) -> Self {
diff --git a/src/generated_schema/draft/schema_utils.rs b/src/generated_schema/draft/schema_utils.rs
index 6eb1cfe..b81f639 100644
--- a/src/generated_schema/draft/schema_utils.rs
+++ b/src/generated_schema/draft/schema_utils.rs
@@ -2911,7 +2911,7 @@ impl SdkError {
         Self {
             code: SdkErrorCodes::BAD_REQUEST.into(),
             data: None,
-            message: SdkErrorCodes::RESOURCE_NOT_FOUND.to_string(),
+            message: SdkErrorCodes::BAD_REQUEST.to_string(),
         }
     }
     pub fn with_message(mut self, message: &str) -> Self {
-- 
2.43.0


From 0ec2074aa4cf316ce9892c23adf17f0d539df679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:33 +0000
Subject: [PATCH 03/17] fix: keep the options of enum schemas read as
 PrimitiveSchemaDefinition

---
 src/generated_schema/2025_06_18/mcp_schema.rs |  3 ++-
 src/generated_schema/2025_11_25/mcp_schema.rs | 21 +++++++++++++++----
 src/generated_schema/2026_07_28/mcp_schema.rs | 21 +++++++++++++++----
 src/generated_schema/draft/mcp_schema.rs      | 21 +++++++++++++++----
 4 files changed, 53 insertions(+), 13 deletions(-)

diff --git a/src/generated_schema/2025_06_18/mcp_schema.rs b/src/generated_schema/2025_06_18/mcp_schema.rs
index 1f2431a..1003310 100644
--- a/src/generated_schema/2025_06_18/mcp_schema.rs
+++ b/src/generated_schema/2025_06_18/mcp_schema.rs
@@ -4271,10 +4271,11 @@ without nested objects or arrays.*/
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum PrimitiveSchemaDefinition {
+    // first: an enum is a string schema with more members
+    EnumSchema(EnumSchema),
     StringSchema(StringSchema),
     NumberSchema(NumberSchema),
     BooleanSchema(BooleanSchema),
-    EnumSchema(EnumSchema),
 }
 impl ::std::convert::From<StringSchema> for PrimitiveSchemaDefinition {
     fn from(value: StringSchema) -> Self {
diff --git a/src/generated_schema/2025_11_25/mcp_schema.rs b/src/generated_schema/2025_11_25/mcp_schema.rs
index 05e85d6..2e7e43c 100644
--- a/src/generated_schema/2025_11_25/mcp_schema.rs
+++ b/src/generated_schema/2025_11_25/mcp_schema.rs
@@ -5902,14 +5902,27 @@ without nested objects or arrays.*/
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum PrimitiveSchemaDefinition {
-    StringSchema(StringSchema),
-    NumberSchema(NumberSchema),
-    BooleanSchema(BooleanSchema),
+    // the most specific forms first: every enum is also a string schema with more members
+    #[serde(deserialize_with = "deserialize_legacy_titled_enum")]
+    LegacyTitledEnumSchema(LegacyTitledEnumSchema),
     UntitledSingleSelectEnumSchema(UntitledSingleSelectEnumSchema),
     TitledSingleSelectEnumSchema(TitledSingleSelectEnumSchema),
     UntitledMultiSelectEnumSchema(UntitledMultiSelectEnumSchema),
     TitledMultiSelectEnumSchema(TitledMultiSelectEnumSchema),
-    LegacyTitledEnumSchema(LegacyTitledEnumSchema),
+    StringSchema(StringSchema),
+    NumberSchema(NumberSchema),
+    BooleanSchema(BooleanSchema),
+}
+/// A legacy titled enum differs from an untitled one by its display names.
+fn deserialize_legacy_titled_enum<'de, D>(deserializer: D) -> ::std::result::Result<LegacyTitledEnumSchema, D::Error>
+where
+    D: ::serde::Deserializer<'de>,
+{
+    let schema: LegacyTitledEnumSchema = ::serde::Deserialize::deserialize(deserializer)?;
+    if schema.enum_names.is_empty() {
+        return Err(::serde::de::Error::missing_field("enumNames"));
+    }
+    Ok(schema)
 }
 impl ::std::convert::From<StringSchema> for PrimitiveSchemaDefinition {
     fn from(value: StringSchema) -> Self {
diff --git a/src/generated_schema/2026_07_28/mcp_schema.rs b/src/generated_schema/2026_07_28/mcp_schema.rs
index b2b0748..9b92412 100644
--- a/src/generated_schema/2026_07_28/mcp_schema.rs
+++ b/src/generated_schema/2026_07_28/mcp_schema.rs
@@ -6178,14 +6178,27 @@ without nested objects or arrays.*/
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum PrimitiveSchemaDefinition {
-    StringSchema(StringSchema),
-    NumberSchema(NumberSchema),
-    BooleanSchema(BooleanSchema),
+    // the most specific forms first: every enum is also a string schema with more members
+    #[serde(deserialize_with = "deserialize_legacy_titled_enum")]
+    LegacyTitledEnumSchema(LegacyTitledEnumSchema),
     UntitledSingleSelectEnumSchema(UntitledSingleSelectEnumSchema),
     TitledSingleSelectEnumSchema(TitledSingleSelectEnumSchema),
     UntitledMultiSelectEnumSchema(UntitledMultiSelectEnumSchema),
     TitledMultiSelectEnumSchema(TitledMultiSelectEnumSchema),
-    LegacyTitledEnumSchema(LegacyTitledEnumSchema),
+    StringSchema(StringSchema),
+    NumberSchema(NumberSchema),
+    BooleanSchema(BooleanSchema),
+}
+/// A legacy titled enum differs from an untitled one by its display names.
+fn deserialize_legacy_titled_enum<'de, D>(deserializer: D) -> ::std::result::Result<LegacyTitledEnumSchema, D::Error>
+where
+    D: ::serde::Deserializer<'de>,
+{
+    let schema: LegacyTitledEnumSchema = ::serde::Deserialize::deserialize(deserializer)?;
+    if schema.enum_names.is_empty() {
+        return Err(::serde::de::Error::missing_field("enumNames"));
+    }
+    Ok(schema)
 }
 impl ::std::convert::From<StringSchema> for PrimitiveSchemaDefinition {
     fn from(value: StringSchema) -> Self {
diff --git a/src/generated_schema/draft/mcp_schema.rs b/src/generated_schema/draft/mcp_schema.rs
index 3db865d..d69aea6 100644
--- a/src/generated_schema/draft/mcp_schema.rs
+++ b/src/generated_schema/draft/mcp_schema.rs
@@ -6178,14 +6178,27 @@ without nested objects or arrays.*/
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum PrimitiveSchemaDefinition {
-    StringSchema(StringSchema),
-    NumberSchema(NumberSchema),
-    BooleanSchema(BooleanSchema),
+    // the most specific forms first: every enum is also a string schema with more members
+    #[serde(deserialize_with = "deserialize_legacy_titled_enum")]
+    LegacyTitledEnumSchema(LegacyTitledEnumSchema),
     UntitledSingleSelectEnumSchema(UntitledSingleSelectEnumSchema),
     TitledSingleSelectEnumSchema(TitledSingleSelectEnumSchema),
     UntitledMultiSelectEnumSchema(UntitledMultiSelectEnumSchema),
     TitledMultiSelectEnumSchema(TitledMultiSelectEnumSchema),
-    LegacyTitledEnumSchema(LegacyTitledEnumSchema),
+    StringSchema(StringSchema),
+    NumberSchema(NumberSchema),
+    BooleanSchema(BooleanSchema),
+}
+/// A legacy titled enum differs from an untitled one by its display names.
+fn deserialize_legacy_titled_enum<'de, D>(deserializer: D) -> ::std::result::Result<LegacyTitledEnumSchema, D::Error>
+where
+    D: ::serde::Deserializer<'de>,
+{
+    let schema: LegacyTitledEnumSchema = ::serde::Deserialize::deserialize(deserializer)?;
+    if schema.enum_names.is_empty() {
+        return Err(::serde::de::Error::missing_field("enumNames"));
+    }
+    Ok(schema)
 }
 impl ::std::convert::From<StringSchema> for PrimitiveSchemaDefinition {
     fn from(value: StringSchema) -> Self {
-- 
2.43.0


From 4557f44e879383461437b75df84e0387b8ff56f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:33 +0000
Subject: [PATCH 04/17] fix: keep the display names of a legacy enum read as
 EnumSchema

---
 src/generated_schema/2025_11_25/mcp_schema.rs | 4 +++-
 src/generated_schema/2026_07_28/mcp_schema.rs | 4 +++-
 src/generated_schema/draft/mcp_schema.rs      | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/generated_schema/2025_11_25/mcp_schema.rs b/src/generated_schema/2025_11_25/mcp_schema.rs
index 2e7e43c..cdda1e6 100644
--- a/src/generated_schema/2025_11_25/mcp_schema.rs
+++ b/src/generated_schema/2025_11_25/mcp_schema.rs
@@ -3114,11 +3114,13 @@ pub struct EmptyResult(pub Result);
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum EnumSchema {
+    // first: it is an untitled enum with display names
+    #[serde(deserialize_with = "deserialize_legacy_titled_enum")]
+    LegacyTitledEnumSchema(LegacyTitledEnumSchema),
     UntitledSingleSelectEnumSchema(UntitledSingleSelectEnumSchema),
     TitledSingleSelectEnumSchema(TitledSingleSelectEnumSchema),
     UntitledMultiSelectEnumSchema(UntitledMultiSelectEnumSchema),
     TitledMultiSelectEnumSchema(TitledMultiSelectEnumSchema),
-    LegacyTitledEnumSchema(LegacyTitledEnumSchema),
 }
 impl ::std::convert::From<UntitledSingleSelectEnumSchema> for EnumSchema {
     fn from(value: UntitledSingleSelectEnumSchema) -> Self {
diff --git a/src/generated_schema/2026_07_28/mcp_schema.rs b/src/generated_schema/2026_07_28/mcp_schema.rs
index 9b92412..3a29926 100644
--- a/src/generated_schema/2026_07_28/mcp_schema.rs
+++ b/src/generated_schema/2026_07_28/mcp_schema.rs
@@ -2748,11 +2748,13 @@ pub struct EmptyResult(pub Result);
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum EnumSchema {
+    // first: it is an untitled enum with display names
+    #[serde(deserialize_with = "deserialize_legacy_titled_enum")]
+    LegacyTitledEnumSchema(LegacyTitledEnumSchema),
     UntitledSingleSelectEnumSchema(UntitledSingleSelectEnumSchema),
     TitledSingleSelectEnumSchema(TitledSingleSelectEnumSchema),
     UntitledMultiSelectEnumSchema(UntitledMultiSelectEnumSchema),
     TitledMultiSelectEnumSchema(TitledMultiSelectEnumSchema),
-    LegacyTitledEnumSchema(LegacyTitledEnumSchema),
 }
 impl ::std::convert::From<UntitledSingleSelectEnumSchema> for EnumSchema {
     fn from(value: UntitledSingleSelectEnumSchema) -> Self {
diff --git a/src/generated_schema/draft/mcp_schema.rs b/src/generated_schema/draft/mcp_schema.rs
index d69aea6..584d9fa 100644
--- a/src/generated_schema/draft/mcp_schema.rs
+++ b/src/generated_schema/draft/mcp_schema.rs
@@ -2748,11 +2748,13 @@ pub struct EmptyResult(pub Result);
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum EnumSchema {
+    // first: it is an untitled enum with display names
+    #[serde(deserialize_with = "deserialize_legacy_titled_enum")]
+    LegacyTitledEnumSchema(LegacyTitledEnumSchema),
     UntitledSingleSelectEnumSchema(UntitledSingleSelectEnumSchema),
     TitledSingleSelectEnumSchema(TitledSingleSelectEnumSchema),
     UntitledMultiSelectEnumSchema(UntitledMultiSelectEnumSchema),
     TitledMultiSelectEnumSchema(TitledMultiSelectEnumSchema),
-    LegacyTitledEnumSchema(LegacyTitledEnumSchema),
 }
 impl ::std::convert::From<UntitledSingleSelectEnumSchema> for EnumSchema {
     fn from(value: UntitledSingleSelectEnumSchema) -> Self {
-- 
2.43.0


From 3e85b728e59d1fddca7d4bcbd7e19d7b5f486bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:33 +0000
Subject: [PATCH 05/17] fix: read the result of a tool, prompt or resource
 response by its resultType

---
 src/generated_schema/2026_07_28/mcp_schema.rs | 14 ++++++++++++++
 src/generated_schema/draft/mcp_schema.rs      | 14 ++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/src/generated_schema/2026_07_28/mcp_schema.rs b/src/generated_schema/2026_07_28/mcp_schema.rs
index 3a29926..41efbdc 100644
--- a/src/generated_schema/2026_07_28/mcp_schema.rs
+++ b/src/generated_schema/2026_07_28/mcp_schema.rs
@@ -673,6 +673,7 @@ impl CallToolResultResponse {
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum CallToolResultResponseResult {
+    #[serde(deserialize_with = "deserialize_input_required_result")]
     InputRequiredResult(InputRequiredResult),
     CallToolResult(CallToolResult),
 }
@@ -3023,6 +3024,7 @@ impl GetPromptResultResponse {
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum GetPromptResultResponseResult {
+    #[serde(deserialize_with = "deserialize_input_required_result")]
     InputRequiredResult(InputRequiredResult),
     GetPromptResult(GetPromptResult),
 }
@@ -6993,6 +6995,7 @@ impl ReadResourceResultResponse {
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum ReadResourceResultResponseResult {
+    #[serde(deserialize_with = "deserialize_input_required_result")]
     InputRequiredResult(InputRequiredResult),
     ReadResourceResult(ReadResourceResult),
 }
@@ -10887,3 +10890,14 @@ pub type CreateMessageResultContent = CreateMessageContent;
 pub type ElicitResultContentValue = ElicitResultContent;
 #[deprecated(since = "0.8.0", note = "Use `ReadResourceContent` instead.")]
 pub type ReadResourceResultContentsItem = ReadResourceContent;
+/// `resultType` decides whether a result asks for input.
+fn deserialize_input_required_result<'de, D>(deserializer: D) -> ::std::result::Result<InputRequiredResult, D::Error>
+where
+    D: serde::Deserializer<'de>,
+{
+    let result: InputRequiredResult = serde::Deserialize::deserialize(deserializer)?;
+    if result.result_type != "input_required" {
+        return Err(serde::de::Error::custom("not an input_required result"));
+    }
+    Ok(result)
+}
diff --git a/src/generated_schema/draft/mcp_schema.rs b/src/generated_schema/draft/mcp_schema.rs
index 584d9fa..7db281a 100644
--- a/src/generated_schema/draft/mcp_schema.rs
+++ b/src/generated_schema/draft/mcp_schema.rs
@@ -673,6 +673,7 @@ impl CallToolResultResponse {
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum CallToolResultResponseResult {
+    #[serde(deserialize_with = "deserialize_input_required_result")]
     InputRequiredResult(InputRequiredResult),
     CallToolResult(CallToolResult),
 }
@@ -3023,6 +3024,7 @@ impl GetPromptResultResponse {
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum GetPromptResultResponseResult {
+    #[serde(deserialize_with = "deserialize_input_required_result")]
     InputRequiredResult(InputRequiredResult),
     GetPromptResult(GetPromptResult),
 }
@@ -6993,6 +6995,7 @@ impl ReadResourceResultResponse {
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum ReadResourceResultResponseResult {
+    #[serde(deserialize_with = "deserialize_input_required_result")]
     InputRequiredResult(InputRequiredResult),
     ReadResourceResult(ReadResourceResult),
 }
@@ -10887,3 +10890,14 @@ pub type CreateMessageResultContent = CreateMessageContent;
 pub type ElicitResultContentValue = ElicitResultContent;
 #[deprecated(since = "0.8.0", note = "Use `ReadResourceContent` instead.")]
 pub type ReadResourceResultContentsItem = ReadResourceContent;
+/// `resultType` decides whether a result asks for input.
+fn deserialize_input_required_result<'de, D>(deserializer: D) -> ::std::result::Result<InputRequiredResult, D::Error>
+where
+    D: serde::Deserializer<'de>,
+{
+    let result: InputRequiredResult = serde::Deserialize::deserialize(deserializer)?;
+    if result.result_type != "input_required" {
+        return Err(serde::de::Error::custom("not an input_required result"));
+    }
+    Ok(result)
+}
-- 
2.43.0


From c30a4d7d8bc0d0b4d0bdb6ed14aec6a6963cda82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:33 +0000
Subject: [PATCH 06/17] fix: read the related task id from where it is written

---
 src/generated_schema/2025_11_25/schema_utils.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/generated_schema/2025_11_25/schema_utils.rs b/src/generated_schema/2025_11_25/schema_utils.rs
index e289a28..8045da7 100644
--- a/src/generated_schema/2025_11_25/schema_utils.rs
+++ b/src/generated_schema/2025_11_25/schema_utils.rs
@@ -2909,6 +2909,7 @@ impl GetTaskPayloadResult {
         self.meta
             .as_ref()
             .and_then(|v| v.get(RELATED_TASK_META_KEY))
+            .and_then(|v| v.get("taskId"))
             .and_then(|v| v.as_str())
     }
 
@@ -2994,7 +2995,9 @@ pub trait McpMetaEx {
 
 impl McpMetaEx for serde_json::Map<String, Value> {
     fn related_task_id(&self) -> Option<&str> {
-        self.get(RELATED_TASK_META_KEY).and_then(|v| v.as_str())
+        self.get(RELATED_TASK_META_KEY)
+            .and_then(|v| v.get("taskId"))
+            .and_then(|v| v.as_str())
     }
 
     fn set_related_task_id<T>(&mut self, task_id: T)
-- 
2.43.0


From 773d5ccdf17758c6a95d6c1e46f6390a4e84051f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:33 +0000
Subject: [PATCH 07/17] fix: keep the null ttl of a task without time limit

---
 src/generated_schema/2025_11_25/mcp_schema.rs | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/generated_schema/2025_11_25/mcp_schema.rs b/src/generated_schema/2025_11_25/mcp_schema.rs
index cdda1e6..4af3220 100644
--- a/src/generated_schema/2025_11_25/mcp_schema.rs
+++ b/src/generated_schema/2025_11_25/mcp_schema.rs
@@ -8882,7 +8882,11 @@ pub struct Task {
     #[serde(rename = "taskId")]
     pub task_id: ::std::string::String,
     ///Actual retention duration from creation in milliseconds, null for unlimited.
-    #[serde(default, skip_serializing_if = "::std::option::Option::is_none")]
+    #[serde(
+        default,
+        deserialize_with = "deserialize_nullable",
+        skip_serializing_if = "::std::option::Option::is_none"
+    )]
     pub ttl: ::std::option::Option<::std::option::Option<i64>>,
 }
 ///See [General fields: _meta](https://modelcontextprotocol.io/specification/2025-11-25/basic/index#meta) for notes on _meta usage.
@@ -9121,7 +9125,11 @@ pub struct TaskStatusNotificationParams {
     #[serde(rename = "taskId")]
     pub task_id: ::std::string::String,
     ///Actual retention duration from creation in milliseconds, null for unlimited.
-    #[serde(default, skip_serializing_if = "::std::option::Option::is_none")]
+    #[serde(
+        default,
+        deserialize_with = "deserialize_nullable",
+        skip_serializing_if = "::std::option::Option::is_none"
+    )]
     pub ttl: ::std::option::Option<::std::option::Option<i64>>,
 }
 ///Text provided to or from an LLM.
@@ -11306,3 +11314,12 @@ pub type ElicitResultContentValue = ElicitResultContent;
 pub type ClientCapabilitiesRoots = ClientRoots;
 #[deprecated(since = "0.8.0", note = "Use `ReadResourceContent` instead.")]
 pub type ReadResourceResultContentsItem = ReadResourceContent;
+/// Keeps an explicit `null` apart from an absent member.
+fn deserialize_nullable<'de, D>(
+    deserializer: D,
+) -> ::std::result::Result<::std::option::Option<::std::option::Option<i64>>, D::Error>
+where
+    D: serde::Deserializer<'de>,
+{
+    serde::Deserialize::deserialize(deserializer).map(Some)
+}
-- 
2.43.0


From b7074f98e8f029aa5b0b97c40e951a378dc61f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:33 +0000
Subject: [PATCH 08/17] fix: refuse task listing and cancellation for a client
 without the tasks capability

---
 src/generated_schema/2025_11_25/schema_utils.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/generated_schema/2025_11_25/schema_utils.rs b/src/generated_schema/2025_11_25/schema_utils.rs
index 8045da7..27994e4 100644
--- a/src/generated_schema/2025_11_25/schema_utils.rs
+++ b/src/generated_schema/2025_11_25/schema_utils.rs
@@ -2773,17 +2773,13 @@ impl ClientCapabilities {
                 }
             }
             ServerJsonrpcRequest::CancelTaskRequest(_) => {
-                if let Some(tasks) = self.tasks.as_ref() {
-                    if !tasks.can_cancel_tasks() {
-                        return Err(create_error("task cancellation", request_method));
-                    }
+                if !self.tasks.as_ref().is_some_and(|tasks| tasks.can_cancel_tasks()) {
+                    return Err(create_error("task cancellation", request_method));
                 }
             }
             ServerJsonrpcRequest::ListTasksRequest(_) => {
-                if let Some(tasks) = self.tasks.as_ref() {
-                    if !tasks.can_list_tasks() {
-                        return Err(create_error("listing tasks", request_method));
-                    }
+                if !self.tasks.as_ref().is_some_and(|tasks| tasks.can_list_tasks()) {
+                    return Err(create_error("listing tasks", request_method));
                 }
             }
 
-- 
2.43.0


From 0e7fb7d4a01fe9680f2d61aa1e672b9b883cd05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:02 +0000
Subject: [PATCH 09/17] fix: wrap the elicitations of url_elicit_required as
 UrlElicitErrorData

---
 src/generated_schema/2025_11_25/schema_utils.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/generated_schema/2025_11_25/schema_utils.rs b/src/generated_schema/2025_11_25/schema_utils.rs
index 27994e4..0fb2d3f 100644
--- a/src/generated_schema/2025_11_25/schema_utils.rs
+++ b/src/generated_schema/2025_11_25/schema_utils.rs
@@ -3524,12 +3524,7 @@ impl SdkError {
     pub fn url_elicit_required(elicit_url_params: Vec<ElicitRequestUrlParams>) -> Self {
         Self {
             code: UrlElicitError::code_value(),
-            data: Some(serde_json::to_value(elicit_url_params).unwrap_or_else(|_| {
-                json!(
-                    { "elicitations" : [], "error" :
-                    "failed to UrlElicitError data" }
-                )
-            })),
+            data: Some(json!({ "elicitations" : elicit_url_params })),
             message: "URL required. Please provide a URL.".to_string(),
         }
     }
@@ -3625,12 +3620,7 @@ impl RpcError {
     pub fn url_elicit_required(elicit_url_params: Vec<ElicitRequestUrlParams>) -> Self {
         Self {
             code: UrlElicitError::code_value(),
-            data: Some(serde_json::to_value(elicit_url_params).unwrap_or_else(|_| {
-                json!(
-                    { "elicitations" : [], "error" :
-                    "failed to UrlElicitError data" }
-                )
-            })),
+            data: Some(json!({ "elicitations" : elicit_url_params })),
             message: "URL required. Please provide a URL.".to_string(),
         }
     }
-- 
2.43.0


From 9a0a7231f93006eed68f3052bc93a038b648efbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:02 +0000
Subject: [PATCH 10/17] fix: return an error for an unsupported primitive
 schema type instead of panicking

---
 src/generated_schema/2025_06_18/schema_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generated_schema/2025_06_18/schema_utils.rs b/src/generated_schema/2025_06_18/schema_utils.rs
index a6e1bf0..3dd6d45 100644
--- a/src/generated_schema/2025_06_18/schema_utils.rs
+++ b/src/generated_schema/2025_06_18/schema_utils.rs
@@ -1907,7 +1907,7 @@ impl TryFrom<&serde_json::Map<String, Value>> for PrimitiveSchemaDefinition {
                 PrimitiveSchemaDefinition::EnumSchema(EnumSchema::new(enum_values, enum_names, description, title))
             }
             other => {
-                panic!("'{other}' type is not currently supported");
+                return Err(RpcError::parse_error().with_message(format!("'{other}' type is not currently supported")));
             }
         };
 
-- 
2.43.0


From 6b63ab85ca866fbef90704fbcb31791ac06eb45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:02 +0000
Subject: [PATCH 11/17] fix: keep the options of an enum schema parsed from a
 map

---
 src/generated_schema/2025_06_18/schema_utils.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/generated_schema/2025_06_18/schema_utils.rs b/src/generated_schema/2025_06_18/schema_utils.rs
index 3dd6d45..68c05ca 100644
--- a/src/generated_schema/2025_06_18/schema_utils.rs
+++ b/src/generated_schema/2025_06_18/schema_utils.rs
@@ -1844,6 +1844,11 @@ impl TryFrom<&serde_json::Map<String, Value>> for PrimitiveSchemaDefinition {
         let title = value.get("title").and_then(|v| v.as_str().map(|s| s.to_string()));
 
         let schema_definition: PrimitiveSchemaDefinition = match input_type {
+            "string" if value.contains_key("enum") => {
+                let schema: EnumSchema = serde_json::from_value(Value::Object(value.clone()))
+                    .map_err(|e| RpcError::parse_error().with_message(format!("Failed to parse EnumSchema: {e}")))?;
+                PrimitiveSchemaDefinition::EnumSchema(schema)
+            }
             "string" => {
                 let max_length = value.get("maxLength").and_then(|v| v.as_number().and_then(|n| n.as_i64()));
                 let min_length = value.get("minLength").and_then(|v| v.as_number().and_then(|n| n.as_i64()));
-- 
2.43.0


From d4702e20e0120461a9900a890dd72b4b0b9423fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:02 +0000
Subject: [PATCH 12/17] fix: reject a result whose resultType is not a string
 instead of overwriting it

---
 src/generated_schema/2026_07_28/mcp_schema.rs | 2 +-
 src/generated_schema/draft/mcp_schema.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/generated_schema/2026_07_28/mcp_schema.rs b/src/generated_schema/2026_07_28/mcp_schema.rs
index 41efbdc..19c3aba 100644
--- a/src/generated_schema/2026_07_28/mcp_schema.rs
+++ b/src/generated_schema/2026_07_28/mcp_schema.rs
@@ -10723,7 +10723,7 @@ impl<'de> serde::Deserialize<'de> for ServerResult {
         let value = match result_type {
             Some(_) => value,
             None => match value {
-                serde_json::Value::Object(mut map) => {
+                serde_json::Value::Object(mut map) if !map.contains_key("resultType") => {
                     map.insert("resultType".to_string(), serde_json::Value::String("complete".to_string()));
                     serde_json::Value::Object(map)
                 }
diff --git a/src/generated_schema/draft/mcp_schema.rs b/src/generated_schema/draft/mcp_schema.rs
index 7db281a..6fb47fa 100644
--- a/src/generated_schema/draft/mcp_schema.rs
+++ b/src/generated_schema/draft/mcp_schema.rs
@@ -10723,7 +10723,7 @@ impl<'de> serde::Deserialize<'de> for ServerResult {
         let value = match result_type {
             Some(_) => value,
             None => match value {
-                serde_json::Value::Object(mut map) => {
+                serde_json::Value::Object(mut map) if !map.contains_key("resultType") => {
                     map.insert("resultType".to_string(), serde_json::Value::String("complete".to_string()));
                     serde_json::Value::Object(map)
                 }
-- 
2.43.0


From f236b05d62891e4431f57042fe3973b5438f4454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:02 +0000
Subject: [PATCH 13/17] fix: reject standard error objects whose code is not
 the one their schema fixes

---
 src/generated_schema/2026_07_28/mcp_schema.rs | 5 +++++
 src/generated_schema/2026_07_28/validators.rs | 9 ++++++---
 src/generated_schema/draft/mcp_schema.rs      | 5 +++++
 src/generated_schema/draft/validators.rs      | 9 ++++++---
 4 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/generated_schema/2026_07_28/mcp_schema.rs b/src/generated_schema/2026_07_28/mcp_schema.rs
index 19c3aba..80c461c 100644
--- a/src/generated_schema/2026_07_28/mcp_schema.rs
+++ b/src/generated_schema/2026_07_28/mcp_schema.rs
@@ -3662,6 +3662,7 @@ pub struct InputResponses(pub std::collections::BTreeMap<::std::string::String,
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 pub struct InternalError {
     ///The error type that occurred.
+    #[serde(deserialize_with = "validate::internal_error_code")]
     pub code: i64,
     ///Additional information about the error. The value of this member is defined by the sender (e.g. detailed error information, nested errors etc.).
     #[serde(default, skip_serializing_if = "::std::option::Option::is_none")]
@@ -3708,6 +3709,7 @@ In MCP, this error is returned in various contexts when request parameters fail
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 pub struct InvalidParamsError {
     ///The error type that occurred.
+    #[serde(deserialize_with = "validate::invalid_params_error_code")]
     pub code: i64,
     ///Additional information about the error. The value of this member is defined by the sender (e.g. detailed error information, nested errors etc.).
     #[serde(default, skip_serializing_if = "::std::option::Option::is_none")]
@@ -3747,6 +3749,7 @@ pub struct InvalidParamsError {
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 pub struct InvalidRequestError {
     ///The error type that occurred.
+    #[serde(deserialize_with = "validate::invalid_request_error_code")]
     pub code: i64,
     ///Additional information about the error. The value of this member is defined by the sender (e.g. detailed error information, nested errors etc.).
     #[serde(default, skip_serializing_if = "::std::option::Option::is_none")]
@@ -5524,6 +5527,7 @@ A request that requires a client capability the client did not declare is signal
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 pub struct MethodNotFoundError {
     ///The error type that occurred.
+    #[serde(deserialize_with = "validate::method_not_found_error_code")]
     pub code: i64,
     ///Additional information about the error. The value of this member is defined by the sender (e.g. detailed error information, nested errors etc.).
     #[serde(default, skip_serializing_if = "::std::option::Option::is_none")]
@@ -6135,6 +6139,7 @@ pub struct PaginatedResult {
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 pub struct ParseError {
     ///The error type that occurred.
+    #[serde(deserialize_with = "validate::parse_error_code")]
     pub code: i64,
     ///Additional information about the error. The value of this member is defined by the sender (e.g. detailed error information, nested errors etc.).
     #[serde(default, skip_serializing_if = "::std::option::Option::is_none")]
diff --git a/src/generated_schema/2026_07_28/validators.rs b/src/generated_schema/2026_07_28/validators.rs
index 698c66f..30ca281 100644
--- a/src/generated_schema/2026_07_28/validators.rs
+++ b/src/generated_schema/2026_07_28/validators.rs
@@ -57,9 +57,7 @@ where
     }
 }
 
-// Used only by the `i64` arm of `validate!`; some schema versions (e.g. 2026-07-28) have no
-// integer const properties, so it would otherwise be flagged as dead code there.
-#[allow(dead_code)]
+// Used only by the `i64` arm of `validate!`.
 fn i64_validator<'de, D>(
     struct_name: &'static str,
     field_name: &'static str,
@@ -112,6 +110,11 @@ macro_rules! validate {
 }
 
 //* Validator Functions *//
+validate!(internal_error_code, "InternalError", "code", -32603i64, i64);
+validate!(invalid_params_error_code, "InvalidParamsError", "code", -32602i64, i64);
+validate!(invalid_request_error_code, "InvalidRequestError", "code", -32600i64, i64);
+validate!(method_not_found_error_code, "MethodNotFoundError", "code", -32601i64, i64);
+validate!(parse_error_code, "ParseError", "code", -32700i64, i64);
 validate!(audio_content_type_, "AudioContent", "type_", "audio");
 validate!(boolean_schema_type_, "BooleanSchema", "type_", "boolean");
 validate!(call_tool_request_jsonrpc, "CallToolRequest", "jsonrpc", "2.0");
diff --git a/src/generated_schema/draft/mcp_schema.rs b/src/generated_schema/draft/mcp_schema.rs
index 6fb47fa..db07d03 100644
--- a/src/generated_schema/draft/mcp_schema.rs
+++ b/src/generated_schema/draft/mcp_schema.rs
@@ -3662,6 +3662,7 @@ pub struct InputResponses(pub std::collections::BTreeMap<::std::string::String,
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 pub struct InternalError {
     ///The error type that occurred.
+    #[serde(deserialize_with = "validate::internal_error_code")]
     pub code: i64,
     ///Additional information about the error. The value of this member is defined by the sender (e.g. detailed error information, nested errors etc.).
     #[serde(default, skip_serializing_if = "::std::option::Option::is_none")]
@@ -3708,6 +3709,7 @@ In MCP, this error is returned in various contexts when request parameters fail
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 pub struct InvalidParamsError {
     ///The error type that occurred.
+    #[serde(deserialize_with = "validate::invalid_params_error_code")]
     pub code: i64,
     ///Additional information about the error. The value of this member is defined by the sender (e.g. detailed error information, nested errors etc.).
     #[serde(default, skip_serializing_if = "::std::option::Option::is_none")]
@@ -3747,6 +3749,7 @@ pub struct InvalidParamsError {
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 pub struct InvalidRequestError {
     ///The error type that occurred.
+    #[serde(deserialize_with = "validate::invalid_request_error_code")]
     pub code: i64,
     ///Additional information about the error. The value of this member is defined by the sender (e.g. detailed error information, nested errors etc.).
     #[serde(default, skip_serializing_if = "::std::option::Option::is_none")]
@@ -5524,6 +5527,7 @@ A request that requires a client capability the client did not declare is signal
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 pub struct MethodNotFoundError {
     ///The error type that occurred.
+    #[serde(deserialize_with = "validate::method_not_found_error_code")]
     pub code: i64,
     ///Additional information about the error. The value of this member is defined by the sender (e.g. detailed error information, nested errors etc.).
     #[serde(default, skip_serializing_if = "::std::option::Option::is_none")]
@@ -6135,6 +6139,7 @@ pub struct PaginatedResult {
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 pub struct ParseError {
     ///The error type that occurred.
+    #[serde(deserialize_with = "validate::parse_error_code")]
     pub code: i64,
     ///Additional information about the error. The value of this member is defined by the sender (e.g. detailed error information, nested errors etc.).
     #[serde(default, skip_serializing_if = "::std::option::Option::is_none")]
diff --git a/src/generated_schema/draft/validators.rs b/src/generated_schema/draft/validators.rs
index 698c66f..30ca281 100644
--- a/src/generated_schema/draft/validators.rs
+++ b/src/generated_schema/draft/validators.rs
@@ -57,9 +57,7 @@ where
     }
 }
 
-// Used only by the `i64` arm of `validate!`; some schema versions (e.g. 2026-07-28) have no
-// integer const properties, so it would otherwise be flagged as dead code there.
-#[allow(dead_code)]
+// Used only by the `i64` arm of `validate!`.
 fn i64_validator<'de, D>(
     struct_name: &'static str,
     field_name: &'static str,
@@ -112,6 +110,11 @@ macro_rules! validate {
 }
 
 //* Validator Functions *//
+validate!(internal_error_code, "InternalError", "code", -32603i64, i64);
+validate!(invalid_params_error_code, "InvalidParamsError", "code", -32602i64, i64);
+validate!(invalid_request_error_code, "InvalidRequestError", "code", -32600i64, i64);
+validate!(method_not_found_error_code, "MethodNotFoundError", "code", -32601i64, i64);
+validate!(parse_error_code, "ParseError", "code", -32700i64, i64);
 validate!(audio_content_type_, "AudioContent", "type_", "audio");
 validate!(boolean_schema_type_, "BooleanSchema", "type_", "boolean");
 validate!(call_tool_request_jsonrpc, "CallToolRequest", "jsonrpc", "2.0");
-- 
2.43.0


From e53a33cd4131c4441a5067279e49908e3f8aed47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:58 +0000
Subject: [PATCH 14/17] fix: refuse a sampling request that carries tools for a
 client without sampling.tools

---
 src/generated_schema/2025_11_25/schema_utils.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/generated_schema/2025_11_25/schema_utils.rs b/src/generated_schema/2025_11_25/schema_utils.rs
index 0fb2d3f..3085c64 100644
--- a/src/generated_schema/2025_11_25/schema_utils.rs
+++ b/src/generated_schema/2025_11_25/schema_utils.rs
@@ -2752,6 +2752,10 @@ impl ClientCapabilities {
                         if create_message_request.params.tool_choice.is_some() && samplig_capabilities.tools.is_none() {
                             return Err(create_error("tool choice", request_method));
                         }
+
+                        if !create_message_request.params.tools.is_empty() && samplig_capabilities.tools.is_none() {
+                            return Err(create_error("tool use", request_method));
+                        }
                     }
                     None => {
                         return Err(create_error("sampling capability", request_method));
-- 
2.43.0


From 52e10c8e15fe04185ed1f47d4e414c32a3b3b0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:58 +0000
Subject: [PATCH 15/17] fix: accept includeContext "none" for a client without
 sampling.context

---
 src/generated_schema/2025_11_25/schema_utils.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/generated_schema/2025_11_25/schema_utils.rs b/src/generated_schema/2025_11_25/schema_utils.rs
index 3085c64..e6aae04 100644
--- a/src/generated_schema/2025_11_25/schema_utils.rs
+++ b/src/generated_schema/2025_11_25/schema_utils.rs
@@ -2743,8 +2743,13 @@ impl ClientCapabilities {
             ServerJsonrpcRequest::CreateMessageRequest(create_message_request) => {
                 match self.sampling.as_ref() {
                     Some(samplig_capabilities) => {
-                        //  include_context requested but not supported
-                        if create_message_request.params.include_context.is_some() && samplig_capabilities.context.is_none()
+                        //  include_context requested but not supported ("none" is the default and asks for no context)
+                        if create_message_request
+                            .params
+                            .include_context
+                            .as_ref()
+                            .is_some_and(|include_context| *include_context != IncludeContext::None)
+                            && samplig_capabilities.context.is_none()
                         {
                             return Err(create_error("context inclusion", request_method));
                         }
-- 
2.43.0


From 9ccee79d347a2e1041c82e85c7ddc7f5e895ea5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:30 +0000
Subject: [PATCH 16/17] fix: SdkError::request_timeout no longer panics on a
 timeout beyond u64::MAX

---
 src/generated_schema/2024_11_05/schema_utils.rs | 2 +-
 src/generated_schema/2025_03_26/schema_utils.rs | 2 +-
 src/generated_schema/2025_06_18/schema_utils.rs | 2 +-
 src/generated_schema/2025_11_25/schema_utils.rs | 2 +-
 src/generated_schema/2026_07_28/schema_utils.rs | 2 +-
 src/generated_schema/draft/schema_utils.rs      | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/generated_schema/2024_11_05/schema_utils.rs b/src/generated_schema/2024_11_05/schema_utils.rs
index 1fb95a5..b5669d6 100644
--- a/src/generated_schema/2024_11_05/schema_utils.rs
+++ b/src/generated_schema/2024_11_05/schema_utils.rs
@@ -2551,7 +2551,7 @@ impl SdkError {
     pub fn request_timeout(timeout: u128) -> Self {
         Self {
             code: SdkErrorCodes::REQUEST_TIMEOUT.into(),
-            data: Some(json!({ "timeout" : timeout })),
+            data: Some(json!({ "timeout" : u64::try_from(timeout).unwrap_or(u64::MAX) })),
             message: SdkErrorCodes::REQUEST_TIMEOUT.to_string(),
         }
     }
diff --git a/src/generated_schema/2025_03_26/schema_utils.rs b/src/generated_schema/2025_03_26/schema_utils.rs
index 4337050..c328c48 100644
--- a/src/generated_schema/2025_03_26/schema_utils.rs
+++ b/src/generated_schema/2025_03_26/schema_utils.rs
@@ -2550,7 +2550,7 @@ impl SdkError {
     pub fn request_timeout(timeout: u128) -> Self {
         Self {
             code: SdkErrorCodes::REQUEST_TIMEOUT.into(),
-            data: Some(json!({ "timeout" : timeout })),
+            data: Some(json!({ "timeout" : u64::try_from(timeout).unwrap_or(u64::MAX) })),
             message: SdkErrorCodes::REQUEST_TIMEOUT.to_string(),
         }
     }
diff --git a/src/generated_schema/2025_06_18/schema_utils.rs b/src/generated_schema/2025_06_18/schema_utils.rs
index 68c05ca..c32be84 100644
--- a/src/generated_schema/2025_06_18/schema_utils.rs
+++ b/src/generated_schema/2025_06_18/schema_utils.rs
@@ -2688,7 +2688,7 @@ impl SdkError {
     pub fn request_timeout(timeout: u128) -> Self {
         Self {
             code: SdkErrorCodes::REQUEST_TIMEOUT.into(),
-            data: Some(json!({ "timeout" : timeout })),
+            data: Some(json!({ "timeout" : u64::try_from(timeout).unwrap_or(u64::MAX) })),
             message: SdkErrorCodes::REQUEST_TIMEOUT.to_string(),
         }
     }
diff --git a/src/generated_schema/2025_11_25/schema_utils.rs b/src/generated_schema/2025_11_25/schema_utils.rs
index e6aae04..f3085c8 100644
--- a/src/generated_schema/2025_11_25/schema_utils.rs
+++ b/src/generated_schema/2025_11_25/schema_utils.rs
@@ -3478,7 +3478,7 @@ impl SdkError {
     pub fn request_timeout(timeout: u128) -> Self {
         Self {
             code: SdkErrorCodes::REQUEST_TIMEOUT.into(),
-            data: Some(json!({ "timeout" : timeout })),
+            data: Some(json!({ "timeout" : u64::try_from(timeout).unwrap_or(u64::MAX) })),
             message: SdkErrorCodes::REQUEST_TIMEOUT.to_string(),
         }
     }
diff --git a/src/generated_schema/2026_07_28/schema_utils.rs b/src/generated_schema/2026_07_28/schema_utils.rs
index b81f639..5c1932c 100644
--- a/src/generated_schema/2026_07_28/schema_utils.rs
+++ b/src/generated_schema/2026_07_28/schema_utils.rs
@@ -2854,7 +2854,7 @@ impl SdkError {
     pub fn request_timeout(timeout: u128) -> Self {
         Self {
             code: SdkErrorCodes::REQUEST_TIMEOUT.into(),
-            data: Some(json!({ "timeout" : timeout })),
+            data: Some(json!({ "timeout" : u64::try_from(timeout).unwrap_or(u64::MAX) })),
             message: SdkErrorCodes::REQUEST_TIMEOUT.to_string(),
         }
     }
diff --git a/src/generated_schema/draft/schema_utils.rs b/src/generated_schema/draft/schema_utils.rs
index b81f639..5c1932c 100644
--- a/src/generated_schema/draft/schema_utils.rs
+++ b/src/generated_schema/draft/schema_utils.rs
@@ -2854,7 +2854,7 @@ impl SdkError {
     pub fn request_timeout(timeout: u128) -> Self {
         Self {
             code: SdkErrorCodes::REQUEST_TIMEOUT.into(),
-            data: Some(json!({ "timeout" : timeout })),
+            data: Some(json!({ "timeout" : u64::try_from(timeout).unwrap_or(u64::MAX) })),
             message: SdkErrorCodes::REQUEST_TIMEOUT.to_string(),
         }
     }
-- 
2.43.0


From 2decd812a131e833b1d8addf6c351220e9bdb683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 17/17] fix: read a result by its own members before its
 subscription id

---
 src/generated_schema/2026_07_28/mcp_schema.rs | 6 +++---
 src/generated_schema/draft/mcp_schema.rs      | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/generated_schema/2026_07_28/mcp_schema.rs b/src/generated_schema/2026_07_28/mcp_schema.rs
index 80c461c..3a29bf1 100644
--- a/src/generated_schema/2026_07_28/mcp_schema.rs
+++ b/src/generated_schema/2026_07_28/mcp_schema.rs
@@ -10747,9 +10747,6 @@ impl<'de> serde::Deserialize<'de> for ServerResult {
         if let ::std::result::Result::Ok(v) = serde_json::from_value::<ReadResourceResult>(value.clone()) {
             return ::std::result::Result::Ok(ServerResult::ReadResourceResult(v));
         }
-        if let ::std::result::Result::Ok(v) = serde_json::from_value::<SubscriptionsListenResult>(value.clone()) {
-            return ::std::result::Result::Ok(ServerResult::SubscriptionsListenResult(v));
-        }
         if let ::std::result::Result::Ok(v) = serde_json::from_value::<ListPromptsResult>(value.clone()) {
             return ::std::result::Result::Ok(ServerResult::ListPromptsResult(v));
         }
@@ -10765,6 +10762,9 @@ impl<'de> serde::Deserialize<'de> for ServerResult {
         if let ::std::result::Result::Ok(v) = serde_json::from_value::<CompleteResult>(value.clone()) {
             return ::std::result::Result::Ok(ServerResult::CompleteResult(v));
         }
+        if let ::std::result::Result::Ok(v) = serde_json::from_value::<SubscriptionsListenResult>(value.clone()) {
+            return ::std::result::Result::Ok(ServerResult::SubscriptionsListenResult(v));
+        }
         serde_json::from_value::<Result>(value)
             .map(ServerResult::Result)
             .map_err(serde::de::Error::custom)
diff --git a/src/generated_schema/draft/mcp_schema.rs b/src/generated_schema/draft/mcp_schema.rs
index db07d03..1de6d03 100644
--- a/src/generated_schema/draft/mcp_schema.rs
+++ b/src/generated_schema/draft/mcp_schema.rs
@@ -10747,9 +10747,6 @@ impl<'de> serde::Deserialize<'de> for ServerResult {
         if let ::std::result::Result::Ok(v) = serde_json::from_value::<ReadResourceResult>(value.clone()) {
             return ::std::result::Result::Ok(ServerResult::ReadResourceResult(v));
         }
-        if let ::std::result::Result::Ok(v) = serde_json::from_value::<SubscriptionsListenResult>(value.clone()) {
-            return ::std::result::Result::Ok(ServerResult::SubscriptionsListenResult(v));
-        }
         if let ::std::result::Result::Ok(v) = serde_json::from_value::<ListPromptsResult>(value.clone()) {
             return ::std::result::Result::Ok(ServerResult::ListPromptsResult(v));
         }
@@ -10765,6 +10762,9 @@ impl<'de> serde::Deserialize<'de> for ServerResult {
         if let ::std::result::Result::Ok(v) = serde_json::from_value::<CompleteResult>(value.clone()) {
             return ::std::result::Result::Ok(ServerResult::CompleteResult(v));
         }
+        if let ::std::result::Result::Ok(v) = serde_json::from_value::<SubscriptionsListenResult>(value.clone()) {
+            return ::std::result::Result::Ok(ServerResult::SubscriptionsListenResult(v));
+        }
         serde_json::from_value::<Result>(value)
             .map(ServerResult::Result)
             .map_err(serde::de::Error::custom)
-- 
2.43.0

