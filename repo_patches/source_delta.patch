From 5b5eb8ebf4fcca3e96fcc97c138e0634342a87c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:58 +0000
Subject: [PATCH 01/20] fix: match validation patterns against the whole value

XSD patterns are implicitly anchored; an unanchored search accepted any value
that merely contained a match (e.g. a BIC or currency code with trailing text).
---
 src/validation.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/validation.rs b/src/validation.rs
index 86fd23e..17a6145 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -96,7 +96,8 @@ pub mod helpers {
         // Trim whitespace before validation
         let trimmed_value = value.trim();
 
-        let regex = match Regex::new(pattern) {
+        // ISO 20022 (XSD) patterns describe the whole value, not a part of it
+        let regex = match Regex::new(&format!("^(?:{pattern})$")) {
             Ok(r) => r,
             Err(_) => {
                 collector.add_critical_error(
-- 
2.43.0


From 67dbb5293fb4840005b6b65c912e8353a697e326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:58 +0000
Subject: [PATCH 02/20] fix: do not panic on XML truncated right after '<' in
 message type detection

---
 src/plugin/common.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/plugin/common.rs b/src/plugin/common.rs
index 9a05c5c..ebdc0d2 100644
--- a/src/plugin/common.rs
+++ b/src/plugin/common.rs
@@ -93,7 +93,10 @@ pub fn extract_message_type_from_xml(xml_str: &str) -> Result<String> {
 
             // Find the first element after Document
             if let Some(elem_start) = after_doc.find('<')
-                && after_doc.as_bytes()[elem_start + 1] != b'/'
+                && after_doc
+                    .as_bytes()
+                    .get(elem_start + 1)
+                    .is_some_and(|b| *b != b'/')
             {
                 let elem_name_start = elem_start + 1;
                 // Find the end of the element name (space or >)
-- 
2.43.0


From 06e41975c32ba182409b63f46d48325123699e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:58 +0000
Subject: [PATCH 03/20] fix: parse Document-only pain.002, camt.055, camt.058,
 camt.105 and camt.106

These registered types were missing from the Document-only conversion.
---
 src/xml.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/xml.rs b/src/xml.rs
index a6d2eda..ef5f8ce 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -121,6 +121,11 @@ pub fn xml_to_json_via_document(
             pain_001_001_09::CustomerCreditTransferInitiationV09,
             "pain.001"
         ),
+        "pain.002" => xml_to_json_doc!(
+            inner_xml,
+            pain_002_001_10::CustomerPaymentStatusReportV10,
+            "pain.002"
+        ),
         "pain.008" => xml_to_json_doc!(
             inner_xml,
             pain_008_001_08::CustomerDirectDebitInitiationV08,
@@ -147,6 +152,11 @@ pub fn xml_to_json_via_document(
             camt_054_001_08::BankToCustomerDebitCreditNotificationV08,
             "camt.054"
         ),
+        "camt.055" => xml_to_json_doc!(
+            inner_xml,
+            camt_055_001_08::CustomerPaymentCancellationRequestV08,
+            "camt.055"
+        ),
         "camt.056" => xml_to_json_doc!(
             inner_xml,
             camt_056_001_08::FIToFIPaymentCancellationRequestV08,
@@ -157,11 +167,26 @@ pub fn xml_to_json_via_document(
             camt_057_001_06::NotificationToReceiveV06,
             "camt.057"
         ),
+        "camt.058" => xml_to_json_doc!(
+            inner_xml,
+            camt_058_001_08::NotificationToReceiveCancellationAdviceV08,
+            "camt.058"
+        ),
         "camt.060" => xml_to_json_doc!(
             inner_xml,
             camt_060_001_05::AccountReportingRequestV05,
             "camt.060"
         ),
+        "camt.105" => xml_to_json_doc!(
+            inner_xml,
+            camt_105_001_02::ChargesPaymentNotificationV02,
+            "camt.105"
+        ),
+        "camt.106" => xml_to_json_doc!(
+            inner_xml,
+            camt_106_001_02::ChargesPaymentRequestV02,
+            "camt.106"
+        ),
         "camt.107" => xml_to_json_doc!(
             inner_xml,
             camt_107_001_01::ChequePresentmentNotificationV01,
-- 
2.43.0


From f5259f146cfb9ab3e9171166da78cfc25d8a03e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:58 +0000
Subject: [PATCH 04/20] fix: accept valid Document-only and enveloped XML in
 from_mx_xml_envelope_str

The Document-only branch called MxMessage::from_xml, which always refuses
Document-only XML, and the envelope branch bypassed the envelope parser, so every
message was reported invalid (also through validate_mx).
---
 src/xml.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/xml.rs b/src/xml.rs
index ef5f8ce..5172bcb 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -19,8 +19,8 @@ pub fn from_mx_xml_envelope_str(xml: &str, message_type: &str) -> Result<(), Xml
     let has_envelope = xml.contains("<AppHdr") || xml.contains("<Envelope");
 
     if !has_envelope {
-        // No envelope, validate using MxMessage which handles Document-only
-        MxMessage::from_xml(xml).map_err(|e| {
+        // No envelope, validate the Document against the typed structs of its message type
+        xml_to_json_via_document(xml, message_type).map_err(|e| {
             MxError::XmlDeserialization(format!(
                 "Failed to validate Document (message_type={}): {}",
                 message_type, e
@@ -31,7 +31,7 @@ pub fn from_mx_xml_envelope_str(xml: &str, message_type: &str) -> Result<(), Xml
 
     // Parse as full envelope with AppHdr - validate by attempting deserialization
     // All message types use the same BusinessApplicationHeaderV02
-    xml_from_str::<MxMessage>(xml).map_err(|e| {
+    MxMessage::from_xml(xml).map_err(|e| {
         MxError::XmlDeserialization(format!("Failed to parse {} envelope: {}", message_type, e))
     })?;
 
-- 
2.43.0


From 62e723d01488b999d2758fe4cdad14eb85cc7c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:58 +0000
Subject: [PATCH 05/20] fix: report the previous target value in the change
 records of parse_mx and validate_mx

Both always reported null, unlike publish_mx and generate_mx, so the audit trail
misstated overwrites.
---
 src/plugin/parse.rs    | 8 +++++++-
 src/plugin/validate.rs | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/plugin/parse.rs b/src/plugin/parse.rs
index c6dfa3a..9e2a790 100644
--- a/src/plugin/parse.rs
+++ b/src/plugin/parse.rs
@@ -110,6 +110,12 @@ impl Parse {
 
         debug!(message_type = %message_type, "Successfully parsed XML to JSON");
 
+        let old_value = message
+            .data()
+            .get(target_field)
+            .cloned()
+            .unwrap_or(Value::Null);
+
         // Store the parsed result in message data
         message
             .data_mut()
@@ -138,7 +144,7 @@ impl Parse {
             200,
             vec![Change {
                 path: Arc::from(format!("data.{}", target_field)),
-                old_value: Arc::new(Value::Null),
+                old_value: Arc::new(old_value),
                 new_value: Arc::new(parsed_data),
             }],
         ))
diff --git a/src/plugin/validate.rs b/src/plugin/validate.rs
index a124c8e..41a457e 100644
--- a/src/plugin/validate.rs
+++ b/src/plugin/validate.rs
@@ -55,6 +55,12 @@ impl AsyncFunctionHandler for Validate {
         // Perform XML validation
         let validation_result = self.validate_xml(&xml_content)?;
 
+        let old_value = message
+            .data()
+            .get(target_field)
+            .cloned()
+            .unwrap_or(Value::Null);
+
         // Store validation result
         message
             .data_mut()
@@ -77,7 +83,7 @@ impl AsyncFunctionHandler for Validate {
             200,
             vec![Change {
                 path: Arc::from(format!("data.{}", target_field)),
-                old_value: Arc::new(Value::Null),
+                old_value: Arc::new(old_value),
                 new_value: Arc::new(validation_result),
             }],
         ))
-- 
2.43.0


From cc59e249b7b1a28e127040a9eddaf44c3cd2cfd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:17 +0000
Subject: [PATCH 06/20] fix: return an error from parse_mx and validate_mx when
 message data is not an object

Both panicked; generate_mx already reports a validation error.
---
 src/plugin/parse.rs    | 6 ++++++
 src/plugin/validate.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/plugin/parse.rs b/src/plugin/parse.rs
index 9e2a790..10d438c 100644
--- a/src/plugin/parse.rs
+++ b/src/plugin/parse.rs
@@ -116,6 +116,12 @@ impl Parse {
             .cloned()
             .unwrap_or(Value::Null);
 
+        if !message.data().is_object() || !message.metadata().is_object() {
+            return Err(DataflowError::Validation(
+                "Message data and metadata must be objects".to_string(),
+            ));
+        }
+
         // Store the parsed result in message data
         message
             .data_mut()
diff --git a/src/plugin/validate.rs b/src/plugin/validate.rs
index 41a457e..37af753 100644
--- a/src/plugin/validate.rs
+++ b/src/plugin/validate.rs
@@ -61,6 +61,12 @@ impl AsyncFunctionHandler for Validate {
             .cloned()
             .unwrap_or(Value::Null);
 
+        if !message.data().is_object() || !message.metadata().is_object() {
+            return Err(DataflowError::Validation(
+                "Message data and metadata must be objects".to_string(),
+            ));
+        }
+
         // Store validation result
         message
             .data_mut()
-- 
2.43.0


From bbd84a3131b0bcedd11d821cbd30b39c3488217b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:17 +0000
Subject: [PATCH 07/20] fix: stop validation at the first error when fail_fast
 is set

The flag only changed the severity: every later error was still collected.
---
 src/validation.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/validation.rs b/src/validation.rs
index 17a6145..3ae9942 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -41,6 +41,11 @@ pub mod helpers {
         config: &ParserConfig,
         collector: &mut ErrorCollector,
     ) -> bool {
+        // fail_fast: stop at the first error
+        if config.fail_fast && collector.has_errors() {
+            return false;
+        }
+
         let mut valid = true;
 
         if let Some(min_len) = min
@@ -93,6 +98,11 @@ pub mod helpers {
         config: &ParserConfig,
         collector: &mut ErrorCollector,
     ) -> bool {
+        // fail_fast: stop at the first error
+        if config.fail_fast && collector.has_errors() {
+            return false;
+        }
+
         // Trim whitespace before validation
         let trimmed_value = value.trim();
 
@@ -137,9 +147,14 @@ pub mod helpers {
         value: &Option<T>,
         field_name: &str,
         path: &str,
-        _config: &ParserConfig,
+        config: &ParserConfig,
         collector: &mut ErrorCollector,
     ) -> bool {
+        // fail_fast: stop at the first error
+        if config.fail_fast && collector.has_errors() {
+            return false;
+        }
+
         if value.is_none() {
             let error = ValidationError::new(1003, format!("{field_name} is required"))
                 .with_field(field_name.to_string())
-- 
2.43.0


From 3c67851a9028b9a66263c03da2c7dc655f9cdcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:34 +0000
Subject: [PATCH 08/20] fix: read lists of coded values (card
 reading/verification capabilities) from XML

quick-xml takes the variant of an enum inside a list from the element name, so any
camt.052/053/054 message with CardRdngCpblties or CrdhldrVrfctnCpblties failed to parse.
---
 src/document/camt_052_001_08.rs | 11 +++++++++--
 src/document/camt_053_001_08.rs | 11 +++++++++--
 src/document/camt_054_001_08.rs | 11 +++++++++--
 src/xml.rs                      | 23 +++++++++++++++++++++++
 4 files changed, 50 insertions(+), 6 deletions(-)

diff --git a/src/document/camt_052_001_08.rs b/src/document/camt_052_001_08.rs
index 245aa78..f29d4eb 100644
--- a/src/document/camt_052_001_08.rs
+++ b/src/document/camt_052_001_08.rs
@@ -6959,11 +6959,18 @@ impl Validate for PointOfInteraction11 {
 // PointOfInteractionCapabilities1: Number of columns of the printer component.
 #[derive(Debug, Default, Serialize, Deserialize, Clone, PartialEq)]
 pub struct PointOfInteractionCapabilities1 {
-    #[serde(rename = "CardRdngCpblties", skip_serializing_if = "Option::is_none")]
+    #[serde(
+        rename = "CardRdngCpblties",
+        skip_serializing_if = "Option::is_none",
+        default,
+        deserialize_with = "crate::xml::deserialize_code_list"
+    )]
     pub card_rdng_cpblties: Option<Vec<CardDataReading1Code>>,
     #[serde(
         rename = "CrdhldrVrfctnCpblties",
-        skip_serializing_if = "Option::is_none"
+        skip_serializing_if = "Option::is_none",
+        default,
+        deserialize_with = "crate::xml::deserialize_code_list"
     )]
     pub crdhldr_vrfctn_cpblties: Option<Vec<CardholderVerificationCapability1Code>>,
     #[serde(rename = "OnLineCpblties", skip_serializing_if = "Option::is_none")]
diff --git a/src/document/camt_053_001_08.rs b/src/document/camt_053_001_08.rs
index beb1d60..4be6c67 100644
--- a/src/document/camt_053_001_08.rs
+++ b/src/document/camt_053_001_08.rs
@@ -6328,11 +6328,18 @@ impl Validate for PointOfInteraction12 {
 // PointOfInteractionCapabilities1: Number of columns of the printer component.
 #[derive(Debug, Default, Serialize, Deserialize, Clone, PartialEq)]
 pub struct PointOfInteractionCapabilities1 {
-    #[serde(rename = "CardRdngCpblties", skip_serializing_if = "Option::is_none")]
+    #[serde(
+        rename = "CardRdngCpblties",
+        skip_serializing_if = "Option::is_none",
+        default,
+        deserialize_with = "crate::xml::deserialize_code_list"
+    )]
     pub card_rdng_cpblties: Option<Vec<CardDataReading1Code>>,
     #[serde(
         rename = "CrdhldrVrfctnCpblties",
-        skip_serializing_if = "Option::is_none"
+        skip_serializing_if = "Option::is_none",
+        default,
+        deserialize_with = "crate::xml::deserialize_code_list"
     )]
     pub crdhldr_vrfctn_cpblties: Option<Vec<CardholderVerificationCapability1Code>>,
     #[serde(rename = "OnLineCpblties", skip_serializing_if = "Option::is_none")]
diff --git a/src/document/camt_054_001_08.rs b/src/document/camt_054_001_08.rs
index ee462c0..31a2fe9 100644
--- a/src/document/camt_054_001_08.rs
+++ b/src/document/camt_054_001_08.rs
@@ -7859,11 +7859,18 @@ impl Validate for PointOfInteraction11 {
 // PointOfInteractionCapabilities1: Number of columns of the printer component.
 #[derive(Debug, Default, Serialize, Deserialize, Clone, PartialEq)]
 pub struct PointOfInteractionCapabilities1 {
-    #[serde(rename = "CardRdngCpblties", skip_serializing_if = "Option::is_none")]
+    #[serde(
+        rename = "CardRdngCpblties",
+        skip_serializing_if = "Option::is_none",
+        default,
+        deserialize_with = "crate::xml::deserialize_code_list"
+    )]
     pub card_rdng_cpblties: Option<Vec<CardDataReading1Code>>,
     #[serde(
         rename = "CrdhldrVrfctnCpblties",
-        skip_serializing_if = "Option::is_none"
+        skip_serializing_if = "Option::is_none",
+        default,
+        deserialize_with = "crate::xml::deserialize_code_list"
     )]
     pub crdhldr_vrfctn_cpblties: Option<Vec<CardholderVerificationCapability1Code>>,
     #[serde(rename = "OnLineCpblties", skip_serializing_if = "Option::is_none")]
diff --git a/src/xml.rs b/src/xml.rs
index 5172bcb..a791e14 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -38,6 +38,29 @@ pub fn from_mx_xml_envelope_str(xml: &str, message_type: &str) -> Result<(), Xml
     Ok(())
 }
 
+/// Deserialize an optional list of coded values.
+///
+/// quick-xml resolves the variant of an enum inside a list from the element name, so the codes
+/// are read as text first and mapped to the enum afterwards.
+pub(crate) fn deserialize_code_list<'de, D, T>(deserializer: D) -> Result<Option<Vec<T>>, D::Error>
+where
+    D: serde::Deserializer<'de>,
+    T: serde::de::DeserializeOwned,
+{
+    use serde::Deserialize;
+    use serde::de::IntoDeserializer;
+
+    let codes = Option::<Vec<String>>::deserialize(deserializer)?;
+    codes
+        .map(|codes| {
+            codes
+                .into_iter()
+                .map(|code| T::deserialize(code.into_deserializer()))
+                .collect()
+        })
+        .transpose()
+}
+
 /// Helper function to get the Document element name for a message type
 /// Used internally by xml_to_json_via_document
 fn get_document_element_name(message_type: &str) -> &'static str {
-- 
2.43.0


From 74898a523cd22ca53fc0bcc55493f3466c7e3983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:07 +0000
Subject: [PATCH 09/20] fix: locate AppHdr, Document and namespace attributes
 with the XML reader

They were found by substring search, so tag-like text in comments or CDATA sections,
a comment before the message element, or text such as xmlns=".." in a data field was
taken for markup, and a stray end tag before <Document> made the Document-only parser
panic.
---
 src/mx_envelope.rs   | 85 ++++++++++++++++++++++++++------------------
 src/plugin/common.rs | 46 ++++++++----------------
 src/xml.rs           | 24 ++-----------
 3 files changed, 68 insertions(+), 87 deletions(-)

diff --git a/src/mx_envelope.rs b/src/mx_envelope.rs
index e83f091..7d44f2e 100644
--- a/src/mx_envelope.rs
+++ b/src/mx_envelope.rs
@@ -1,6 +1,9 @@
 // MX Message Envelope Structure for ISO 20022 compliant XML generation
 
+use quick_xml::Reader;
+use quick_xml::events::Event;
 use serde::{Deserialize, Serialize};
+use std::borrow::Cow;
 
 // Re-export AppHdr for convenience
 use crate::error::MxError;
@@ -444,51 +447,65 @@ impl MxMessage {
     }
 
     /// Extract content between XML tags
-    fn extract_section(xml: &str, tag: &str) -> Option<String> {
-        let start_tag = format!("<{}", tag);
-        let end_tag = format!("</{}>", tag);
-
-        let start_idx = xml.find(&start_tag)?;
-        let content_start = xml[start_idx..].find('>')? + start_idx + 1;
-        let end_idx = xml.find(&end_tag)?;
-
-        if content_start < end_idx {
-            Some(xml[content_start..end_idx].to_string())
-        } else {
-            None
+    ///
+    /// The input is read as XML, so that tag-like text in comments, CDATA sections or attribute
+    /// values is not mistaken for markup.
+    pub(crate) fn extract_section<'a>(xml: &'a str, tag: &str) -> Option<Cow<'a, str>> {
+        let mut reader = Reader::from_str(xml);
+        loop {
+            match reader.read_event().ok()? {
+                Event::Start(e) if e.name().as_ref() == tag.as_bytes() => {
+                    return reader.read_text(e.name()).ok();
+                }
+                Event::Eof => return None,
+                _ => {}
+            }
         }
     }
 
-    /// Extract XML attribute value
+    /// Extract XML attribute value from the start tags of the envelope, up to the Document tag
     fn extract_attribute(xml: &str, attr: &str) -> Option<String> {
-        let pattern = format!("{}=\"", attr);
-        let start_idx = xml.find(&pattern)? + pattern.len();
-        let end_idx = xml[start_idx..].find('"')? + start_idx;
-        Some(xml[start_idx..end_idx].to_string())
+        let mut reader = Reader::from_str(xml);
+        loop {
+            match reader.read_event().ok()? {
+                Event::Start(e) => {
+                    if let Some(value) = e.try_get_attribute(attr).ok()? {
+                        return value.unescape_value().ok().map(Cow::into_owned);
+                    }
+                    if e.name().as_ref() == b"Document" {
+                        return None;
+                    }
+                }
+                Event::Eof => return None,
+                _ => {}
+            }
+        }
     }
 
-    /// Detect document type from XML content
-    fn detect_document_type(doc_xml: &str) -> Result<String, MxError> {
-        // Find the first element tag after any whitespace
-        let trimmed = doc_xml.trim();
-        if !trimmed.starts_with('<') {
-            return Err(MxError::XmlDeserialization(
-                "Invalid document XML structure".to_string(),
-            ));
+    /// Name of the first element in an XML fragment, which may start with comments
+    fn first_element_name(xml: &str) -> Option<String> {
+        let mut reader = Reader::from_str(xml);
+        loop {
+            match reader.read_event().ok()? {
+                Event::Start(e) | Event::Empty(e) => {
+                    return String::from_utf8(e.name().as_ref().to_vec()).ok();
+                }
+                Event::Text(text) if !text.iter().all(u8::is_ascii_whitespace) => return None,
+                Event::CData(_) | Event::Eof => return None,
+                _ => {}
+            }
         }
+    }
 
-        let end_idx = trimmed[1..]
-            .find(|c: char| c.is_whitespace() || c == '>')
-            .map(|i| i + 1)
-            .ok_or_else(|| {
-                MxError::XmlDeserialization("Could not find document element".to_string())
-            })?;
-
-        let element_name = &trimmed[1..end_idx];
+    /// Detect document type from XML content
+    fn detect_document_type(doc_xml: &str) -> Result<String, MxError> {
+        let element_name = Self::first_element_name(doc_xml).ok_or_else(|| {
+            MxError::XmlDeserialization("Could not find document element".to_string())
+        })?;
 
         // Map element name to message type using message registry
         let message_type =
-            message_registry::element_to_message_type(element_name).ok_or_else(|| {
+            message_registry::element_to_message_type(&element_name).ok_or_else(|| {
                 MxError::XmlDeserialization(format!("Unknown document type: {}", element_name))
             })?;
 
diff --git a/src/plugin/common.rs b/src/plugin/common.rs
index ebdc0d2..62b9493 100644
--- a/src/plugin/common.rs
+++ b/src/plugin/common.rs
@@ -5,6 +5,8 @@
 
 use crate::message_registry;
 use dataflow_rs::engine::error::{DataflowError, Result};
+use quick_xml::Reader;
+use quick_xml::events::Event;
 use serde_json::Value;
 
 /// Map ISO20022 document element names to message types
@@ -83,38 +85,20 @@ pub fn extract_message_type(data: &Value) -> Result<String> {
 /// * Ok(message_type) - The extracted message type
 /// * Err(error) - If message type cannot be determined
 pub fn extract_message_type_from_xml(xml_str: &str) -> Result<String> {
-    let xml_str = xml_str.trim();
-
-    // Find the Document opening tag
-    if let Some(doc_start) = xml_str.find("<Document") {
-        // Find the end of the opening Document tag
-        if let Some(doc_end) = xml_str[doc_start..].find('>') {
-            let after_doc = &xml_str[doc_start + doc_end + 1..];
-
-            // Find the first element after Document
-            if let Some(elem_start) = after_doc.find('<')
-                && after_doc
-                    .as_bytes()
-                    .get(elem_start + 1)
-                    .is_some_and(|b| *b != b'/')
-            {
-                let elem_name_start = elem_start + 1;
-                // Find the end of the element name (space or >)
-                let elem_name_end = after_doc[elem_name_start..]
-                    .find([' ', '>', '/'])
-                    .map(|i| elem_name_start + i)
-                    .unwrap_or(after_doc.len());
-
-                let element_name = &after_doc[elem_name_start..elem_name_end];
-                // Remove namespace prefix if present
-                let element_name = if let Some(colon_pos) = element_name.rfind(':') {
-                    &element_name[colon_pos + 1..]
-                } else {
-                    element_name
-                };
-
-                return map_document_element_to_message_type(element_name);
+    // Find the first element inside the Document
+    let mut reader = Reader::from_str(xml_str);
+    let mut in_document = false;
+    loop {
+        match reader.read_event() {
+            Ok(Event::Start(e) | Event::Empty(e)) if in_document => {
+                // Local name, i.e. without a namespace prefix
+                let element_name = String::from_utf8_lossy(e.local_name().into_inner()).to_string();
+                return map_document_element_to_message_type(&element_name);
             }
+            Ok(Event::Start(e)) => in_document = e.name().as_ref() == b"Document",
+            Ok(Event::End(_)) if in_document => break,
+            Ok(Event::Eof) | Err(_) => break,
+            Ok(_) => {}
         }
     }
 
diff --git a/src/xml.rs b/src/xml.rs
index a791e14..8b36f77 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -88,28 +88,8 @@ pub fn xml_to_json_via_document(
     use serde_json::json;
 
     // Extract inner XML (strip Document wrapper and XML declaration)
-    let inner_xml = xml
-        .trim()
-        .trim_start_matches("<?xml version=\"1.0\" encoding=\"UTF-8\"?>")
-        .trim();
-
-    // Find the Document wrapper and extract inner content
-    let inner_xml = if let Some(start_idx) = inner_xml.find("<Document") {
-        if let Some(end_bracket) = inner_xml[start_idx..].find('>') {
-            let content_start = start_idx + end_bracket + 1;
-            if let Some(end_idx) = inner_xml.rfind("</Document>") {
-                &inner_xml[content_start..end_idx]
-            } else {
-                inner_xml
-            }
-        } else {
-            inner_xml
-        }
-    } else {
-        inner_xml
-    };
-
-    let inner_xml = inner_xml.trim();
+    let inner_xml = crate::mx_envelope::MxMessage::extract_section(xml, "Document");
+    let inner_xml = inner_xml.as_deref().unwrap_or(xml).trim();
 
     // Deserialize XML to typed struct, then serialize to JSON
     let json_value = match message_type {
-- 
2.43.0


From 12772a306d91ac6f67ae72ee2051b4b0519b520b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:08 +0000
Subject: [PATCH 10/20] fix: write the envelope's namespace declarations in
 to_xml

xmlns and xmlns:xsi are part of the message (set by MxMessage::new and read by
from_xml) but were dropped, so messages did not survive a round trip.
---
 src/mx_envelope.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/mx_envelope.rs b/src/mx_envelope.rs
index 7d44f2e..b0307f4 100644
--- a/src/mx_envelope.rs
+++ b/src/mx_envelope.rs
@@ -1,6 +1,7 @@
 // MX Message Envelope Structure for ISO 20022 compliant XML generation
 
 use quick_xml::Reader;
+use quick_xml::escape::escape;
 use quick_xml::events::Event;
 use serde::{Deserialize, Serialize};
 use std::borrow::Cow;
@@ -239,7 +240,13 @@ impl MxMessage {
             .replace("</BusinessApplicationHeaderV02>", "</AppHdr>");
 
         let mut xml = String::from("<?xml version=\"1.0\" encoding=\"UTF-8\"?>");
-        xml.push_str("<Envelope>");
+        xml.push_str("<Envelope");
+        for (name, value) in [("xmlns", &self.xmlns), ("xmlns:xsi", &self.xmlns_xsi)] {
+            if let Some(value) = value {
+                xml.push_str(&format!(" {}=\"{}\"", name, escape(value.as_str())));
+            }
+        }
+        xml.push('>');
         xml.push_str(&app_hdr_wrapped);
         xml.push_str("<Document>");
         xml.push_str(&doc_xml);
-- 
2.43.0


From 1705b307d0362aa659a5d0a9a302632e1f6e2f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:08 +0000
Subject: [PATCH 11/20] fix: reject excessively nested XML in
 from_mx_xml_to_json

The untyped conversion recurses per nesting level and overflowed the stack, aborting
the process, on a few thousand nested elements.
---
 src/xml.rs | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/xml.rs b/src/xml.rs
index 8b36f77..b84d8d2 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -5,6 +5,7 @@
 use crate::error::MxError;
 use crate::message_registry;
 use quick_xml::de::from_str as xml_from_str;
+use quick_xml::events::Event;
 
 // Re-export MxError as XmlError for backward compatibility
 pub type XmlError = MxError;
@@ -235,6 +236,9 @@ pub fn xml_to_json_via_document(
 ///
 /// Used by mx_envelope for fallback parsing and validate plugin for legacy validation.
 pub fn from_mx_xml_to_json(xml: &str) -> Result<serde_json::Value, XmlError> {
+    // The conversion below recurses once per nesting level
+    check_nesting_depth(xml)?;
+
     // Use quick_xml to deserialize directly to a serde_json::Value
     // This is simpler than manual parsing and handles the XML-to-JSON conversion
     let value: serde_json::Value = quick_xml::de::from_str(xml)
@@ -243,6 +247,32 @@ pub fn from_mx_xml_to_json(xml: &str) -> Result<serde_json::Value, XmlError> {
     Ok(value)
 }
 
+/// Deepest element nesting accepted from untyped XML; ISO 20022 messages stay far below it
+const MAX_NESTING_DEPTH: usize = 128;
+
+/// Reject XML nested so deeply that converting it could exhaust the stack
+fn check_nesting_depth(xml: &str) -> Result<(), XmlError> {
+    let mut reader = quick_xml::Reader::from_str(xml);
+    let mut depth = 0usize;
+    loop {
+        match reader.read_event() {
+            Ok(Event::Start(_)) => {
+                depth += 1;
+                if depth > MAX_NESTING_DEPTH {
+                    return Err(MxError::XmlDeserialization(format!(
+                        "XML parsing error: elements nested deeper than {} levels",
+                        MAX_NESTING_DEPTH
+                    )));
+                }
+            }
+            Ok(Event::End(_)) => depth = depth.saturating_sub(1),
+            // Syntax errors are reported by the conversion itself
+            Ok(Event::Eof) | Err(_) => return Ok(()),
+            Ok(_) => {}
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From a3c4623eab95ed181d39956ec35360b94526ccea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:50 +0000
Subject: [PATCH 12/20] fix: recognise the envelope by its elements, not by
 tag-like text in comments or CDATA

---
 src/mx_envelope.rs     | 20 +++++++++++++++++++-
 src/plugin/parse.rs    |  2 +-
 src/plugin/validate.rs |  2 +-
 src/xml.rs             |  2 +-
 4 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/mx_envelope.rs b/src/mx_envelope.rs
index b0307f4..e7a66a5 100644
--- a/src/mx_envelope.rs
+++ b/src/mx_envelope.rs
@@ -401,7 +401,7 @@ impl MxMessage {
     /// Deserialize from XML string using quick-xml with custom enum handling
     pub fn from_xml(xml: &str) -> Result<Self, MxError> {
         // Check if XML contains full envelope or just Document
-        let has_envelope = xml.contains("<AppHdr") || xml.contains("<Envelope");
+        let has_envelope = Self::has_envelope(xml);
 
         if has_envelope {
             Self::from_xml_with_envelope(xml)
@@ -453,6 +453,24 @@ impl MxMessage {
         ))
     }
 
+    /// Whether the XML is a full envelope rather than just a Document
+    ///
+    /// Only elements count: a comment or CDATA section may mention the tag names as well.
+    pub(crate) fn has_envelope(xml: &str) -> bool {
+        let mut reader = Reader::from_str(xml);
+        loop {
+            match reader.read_event() {
+                Ok(Event::Start(e) | Event::Empty(e))
+                    if matches!(e.name().as_ref(), b"AppHdr" | b"Envelope") =>
+                {
+                    return true;
+                }
+                Ok(Event::Eof) | Err(_) => return false,
+                Ok(_) => {}
+            }
+        }
+    }
+
     /// Extract content between XML tags
     ///
     /// The input is read as XML, so that tag-like text in comments, CDATA sections or attribute
diff --git a/src/plugin/parse.rs b/src/plugin/parse.rs
index 10d438c..252977f 100644
--- a/src/plugin/parse.rs
+++ b/src/plugin/parse.rs
@@ -71,7 +71,7 @@ impl Parse {
         debug!("Parsing XML to JSON using MxMessage API");
 
         // Check if XML has full envelope or just Document
-        let has_envelope = xml_str.contains("<AppHdr") || xml_str.contains("<Envelope");
+        let has_envelope = MxMessage::has_envelope(xml_str);
 
         let parsed_data = if has_envelope {
             debug!("XML has full envelope with AppHdr");
diff --git a/src/plugin/validate.rs b/src/plugin/validate.rs
index 37af753..54824d5 100644
--- a/src/plugin/validate.rs
+++ b/src/plugin/validate.rs
@@ -108,7 +108,7 @@ impl Validate {
         let warnings: Vec<String> = Vec::new();
 
         // Check if XML has full envelope or just Document
-        let has_envelope = xml_content.contains("<AppHdr") || xml_content.contains("<Envelope");
+        let has_envelope = MxMessage::has_envelope(xml_content);
 
         if has_envelope {
             debug!("Validating XML with full envelope using MxMessage");
diff --git a/src/xml.rs b/src/xml.rs
index b84d8d2..b0d3958 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -17,7 +17,7 @@ pub fn from_mx_xml_envelope_str(xml: &str, message_type: &str) -> Result<(), Xml
     use crate::mx_envelope::MxMessage;
 
     // Check if XML contains AppHdr (full envelope) or just Document
-    let has_envelope = xml.contains("<AppHdr") || xml.contains("<Envelope");
+    let has_envelope = MxMessage::has_envelope(xml);
 
     if !has_envelope {
         // No envelope, validate the Document against the typed structs of its message type
-- 
2.43.0


From 3a5576ac72b8edfa987b8c55120808e7cc003544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:45 +0000
Subject: [PATCH 13/20] fix: peek the MsgDefIdr element with the XML reader

---
 src/mx_envelope.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/mx_envelope.rs b/src/mx_envelope.rs
index e7a66a5..29609c3 100644
--- a/src/mx_envelope.rs
+++ b/src/mx_envelope.rs
@@ -708,16 +708,14 @@ impl MxMessage {
 
 /// Extract message type from XML without full deserialization
 pub fn peek_message_type_from_xml(xml: &str) -> Result<String, MxError> {
-    // Simple regex-based extraction for MsgDefIdr
-    use regex::Regex;
-
-    let re = Regex::new(r"<MsgDefIdr>([^<]+)</MsgDefIdr>")
-        .map_err(|e| MxError::XmlDeserialization(format!("Regex error: {}", e)))?;
-
-    if let Some(captures) = re.captures(xml)
-        && let Some(msg_def_idr) = captures.get(1)
-    {
-        return Ok(normalize_message_type(msg_def_idr.as_str()));
+    // Read up to the first MsgDefIdr element
+    if let Some(section) = MxMessage::extract_section(xml, "MsgDefIdr") {
+        let msg_def_idr: String =
+            quick_xml::de::from_str(&format!("<MsgDefIdr>{}</MsgDefIdr>", section))
+                .map_err(|e| MxError::XmlDeserialization(format!("Invalid MsgDefIdr: {}", e)))?;
+        if !msg_def_idr.is_empty() {
+            return Ok(normalize_message_type(&msg_def_idr));
+        }
     }
 
     Err(MxError::XmlDeserialization(
-- 
2.43.0


From 176ebe9e819c36e9762b9410e0be5fefe939d713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:08 +0000
Subject: [PATCH 14/20] fix: refuse to write characters that XML does not allow

---
 src/mx_envelope.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/mx_envelope.rs b/src/mx_envelope.rs
index 29609c3..b70ca5c 100644
--- a/src/mx_envelope.rs
+++ b/src/mx_envelope.rs
@@ -164,6 +164,15 @@ impl MxMessage {
     }
 }
 
+/// Whether XML 1.0 allows the character in a document
+fn is_xml_char(c: char) -> bool {
+    match c {
+        '\t' | '\n' | '\r' => true,
+        '\u{FFFE}' | '\u{FFFF}' => false,
+        _ => c >= ' ',
+    }
+}
+
 /// Get the appropriate namespace for a message type
 /// Delegates to message_registry module
 pub fn get_namespace_for_message_type(message_type: &str) -> String {
@@ -253,6 +262,14 @@ impl MxMessage {
         xml.push_str("</Document>");
         xml.push_str("</Envelope>");
 
+        // Text may hold characters that no XML document can carry, not even as references
+        if let Some(c) = xml.chars().find(|c| !is_xml_char(*c)) {
+            return Err(MxError::XmlSerialization(format!(
+                "Character U+{:04X} is not allowed in XML",
+                c as u32
+            )));
+        }
+
         Ok(xml)
     }
 
-- 
2.43.0


From cf952cc455e6bddcd7351b77ce241d1e6040e8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:08 +0000
Subject: [PATCH 15/20] fix: write carriage returns as character references

---
 src/mx_envelope.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mx_envelope.rs b/src/mx_envelope.rs
index b70ca5c..6b87223 100644
--- a/src/mx_envelope.rs
+++ b/src/mx_envelope.rs
@@ -270,7 +270,8 @@ impl MxMessage {
             )));
         }
 
-        Ok(xml)
+        // A literal carriage return would be read back as a line feed
+        Ok(xml.replace('\r', "&#13;"))
     }
 
     /// Serialize document based on its variant
-- 
2.43.0


From 58c595cad528fdb892d1413694fd9462857442ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:10 +0000
Subject: [PATCH 16/20] fix: do not read a Document of one type as another in
 xml_to_json_via_document

---
 src/mx_envelope.rs |  2 +-
 src/xml.rs         | 12 ++++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/mx_envelope.rs b/src/mx_envelope.rs
index 6b87223..4135a81 100644
--- a/src/mx_envelope.rs
+++ b/src/mx_envelope.rs
@@ -526,7 +526,7 @@ impl MxMessage {
     }
 
     /// Name of the first element in an XML fragment, which may start with comments
-    fn first_element_name(xml: &str) -> Option<String> {
+    pub(crate) fn first_element_name(xml: &str) -> Option<String> {
         let mut reader = Reader::from_str(xml);
         loop {
             match reader.read_event().ok()? {
diff --git a/src/xml.rs b/src/xml.rs
index b0d3958..5dca50f 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -92,6 +92,18 @@ pub fn xml_to_json_via_document(
     let inner_xml = crate::mx_envelope::MxMessage::extract_section(xml, "Document");
     let inner_xml = inner_xml.as_deref().unwrap_or(xml).trim();
 
+    // The typed structs accept any root element: a Document of another type must not be relabelled
+    if let Some(found) = crate::mx_envelope::MxMessage::first_element_name(inner_xml)
+        && let Some(found_type) =
+            message_registry::element_to_message_type(found.rsplit(':').next().unwrap_or(&found))
+        && found_type != message_type
+    {
+        return Err(MxError::XmlDeserialization(format!(
+            "Document holds a {} ({}) instead of a {}",
+            found_type, found, message_type
+        )));
+    }
+
     // Deserialize XML to typed struct, then serialize to JSON
     let json_value = match message_type {
         "pacs.008" => xml_to_json_doc!(
-- 
2.43.0


From 943291ce49a7347ca69d60db78cd49caa9455885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:37 +0000
Subject: [PATCH 17/20] fix: refuse XML that breaks off after the document or
 holds more than one message

---
 src/mx_envelope.rs | 51 ++++++++++++++++++++++++++++++++++++++++++++++
 src/xml.rs         |  2 ++
 2 files changed, 53 insertions(+)

diff --git a/src/mx_envelope.rs b/src/mx_envelope.rs
index 4135a81..9e1d331 100644
--- a/src/mx_envelope.rs
+++ b/src/mx_envelope.rs
@@ -430,6 +430,8 @@ impl MxMessage {
 
     /// Deserialize XML with full envelope (AppHdr + Document)
     fn from_xml_with_envelope(xml: &str) -> Result<Self, MxError> {
+        Self::check_single_message(xml)?;
+
         // Extract AppHdr section
         let app_hdr_xml = Self::extract_section(xml, "AppHdr")
             .ok_or_else(|| MxError::XmlDeserialization("AppHdr not found in XML".to_string()))?;
@@ -489,6 +491,55 @@ impl MxMessage {
         }
     }
 
+    /// Refuse XML that breaks off or that holds more than one message
+    ///
+    /// The header and the document are cut out of the text, so whatever follows them would
+    /// otherwise be dropped without notice.
+    pub(crate) fn check_single_message(xml: &str) -> Result<(), MxError> {
+        let mut reader = Reader::from_str(xml);
+        let mut depth = 0usize;
+        let mut document_depth = None;
+        let (mut roots, mut headers, mut documents, mut messages) = (0, 0, 0, 0);
+        loop {
+            let event = reader
+                .read_event()
+                .map_err(|e| MxError::XmlDeserialization(format!("XML parsing error: {}", e)))?;
+            if let Event::Start(e) | Event::Empty(e) = &event {
+                roots += usize::from(depth == 0);
+                messages += usize::from(document_depth == Some(depth));
+                headers += usize::from(e.name().as_ref() == b"AppHdr");
+                documents += usize::from(e.name().as_ref() == b"Document");
+            }
+            match event {
+                Event::Start(e) => {
+                    depth += 1;
+                    if e.name().as_ref() == b"Document" {
+                        document_depth = Some(depth);
+                    }
+                }
+                Event::End(e) => {
+                    depth = depth.saturating_sub(1);
+                    if e.name().as_ref() == b"Document" {
+                        document_depth = None;
+                    }
+                }
+                Event::Eof if depth > 0 => {
+                    return Err(MxError::XmlDeserialization(
+                        "XML ends before all of its elements are closed".to_string(),
+                    ));
+                }
+                Event::Eof => break,
+                _ => {}
+            }
+        }
+        if headers > 1 || documents > 1 || messages > 1 || (documents == 0 && roots > 1) {
+            return Err(MxError::XmlDeserialization(
+                "XML holds more than one message".to_string(),
+            ));
+        }
+        Ok(())
+    }
+
     /// Extract content between XML tags
     ///
     /// The input is read as XML, so that tag-like text in comments, CDATA sections or attribute
diff --git a/src/xml.rs b/src/xml.rs
index 5dca50f..197c0ef 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -88,6 +88,8 @@ pub fn xml_to_json_via_document(
     use crate::document::*;
     use serde_json::json;
 
+    crate::mx_envelope::MxMessage::check_single_message(xml)?;
+
     // Extract inner XML (strip Document wrapper and XML declaration)
     let inner_xml = crate::mx_envelope::MxMessage::extract_section(xml, "Document");
     let inner_xml = inner_xml.as_deref().unwrap_or(xml).trim();
-- 
2.43.0


From 86e829486cdacef1bd29bacad465740b002c9965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:10 +0000
Subject: [PATCH 18/20] fix: refuse XML that goes on after its root element in
 the untyped conversion

---
 src/xml.rs | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/xml.rs b/src/xml.rs
index 197c0ef..3600e0e 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -250,8 +250,8 @@ pub fn xml_to_json_via_document(
 ///
 /// Used by mx_envelope for fallback parsing and validate plugin for legacy validation.
 pub fn from_mx_xml_to_json(xml: &str) -> Result<serde_json::Value, XmlError> {
-    // The conversion below recurses once per nesting level
-    check_nesting_depth(xml)?;
+    // The conversion below recurses once per nesting level and stops after the root element
+    check_structure(xml)?;
 
     // Use quick_xml to deserialize directly to a serde_json::Value
     // This is simpler than manual parsing and handles the XML-to-JSON conversion
@@ -264,13 +264,26 @@ pub fn from_mx_xml_to_json(xml: &str) -> Result<serde_json::Value, XmlError> {
 /// Deepest element nesting accepted from untyped XML; ISO 20022 messages stay far below it
 const MAX_NESTING_DEPTH: usize = 128;
 
-/// Reject XML nested so deeply that converting it could exhaust the stack
-fn check_nesting_depth(xml: &str) -> Result<(), XmlError> {
+/// Reject XML nested so deeply that converting it could exhaust the stack, and XML that goes on
+/// after its root element
+fn check_structure(xml: &str) -> Result<(), XmlError> {
     let mut reader = quick_xml::Reader::from_str(xml);
     let mut depth = 0usize;
+    let mut roots = 0usize;
     loop {
-        match reader.read_event() {
-            Ok(Event::Start(_)) => {
+        let event = reader
+            .read_event()
+            .map_err(|e| MxError::XmlDeserialization(format!("XML parsing error: {}", e)))?;
+        if depth == 0 && matches!(event, Event::Start(_) | Event::Empty(_)) {
+            roots += 1;
+            if roots > 1 {
+                return Err(MxError::XmlDeserialization(
+                    "XML parsing error: more than one root element".to_string(),
+                ));
+            }
+        }
+        match event {
+            Event::Start(_) => {
                 depth += 1;
                 if depth > MAX_NESTING_DEPTH {
                     return Err(MxError::XmlDeserialization(format!(
@@ -279,10 +292,9 @@ fn check_nesting_depth(xml: &str) -> Result<(), XmlError> {
                     )));
                 }
             }
-            Ok(Event::End(_)) => depth = depth.saturating_sub(1),
-            // Syntax errors are reported by the conversion itself
-            Ok(Event::Eof) | Err(_) => return Ok(()),
-            Ok(_) => {}
+            Event::End(_) => depth = depth.saturating_sub(1),
+            Event::Eof => return Ok(()),
+            _ => {}
         }
     }
 }
-- 
2.43.0


From a8a750670177777392892b38af620b3b859170ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:08 +0000
Subject: [PATCH 19/20] fix: apply-box-wrapping: do not carry nesting depths
 over from one file to the next

---
 apply-box-wrapping.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apply-box-wrapping.py b/apply-box-wrapping.py
index c3f5ea1..84d7c6b 100644
--- a/apply-box-wrapping.py
+++ b/apply-box-wrapping.py
@@ -221,6 +221,7 @@ class StructAnalyzer:
         
         # First pass: analyze all structs
         self.structs = self.parse_file(file_path)
+        self.nesting_depth.clear()  # the same name may be another type in another file
         
         # Second pass: apply boxing
         for struct_name, fields in self.structs.items():
-- 
2.43.0


From 622e1647e66d3c72f93d893de1af2178146489a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:47 +0000
Subject: [PATCH 20/20] fix: peek_message_type_from_json refuses an empty
 MsgDefIdr, as the XML peek does

---
 src/mx_envelope.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mx_envelope.rs b/src/mx_envelope.rs
index 9e1d331..ffdbe3e 100644
--- a/src/mx_envelope.rs
+++ b/src/mx_envelope.rs
@@ -803,6 +803,7 @@ pub fn peek_message_type_from_json(json: &str) -> Result<String, MxError> {
         .or_else(|| value.get("Envelope").and_then(|e| e.get("AppHdr")))
         .and_then(|hdr| hdr.get("MsgDefIdr"))
         .and_then(|v| v.as_str())
+        .filter(|msg_def_idr| !msg_def_idr.is_empty())
     {
         return Ok(normalize_message_type(msg_def_idr));
     }
-- 
2.43.0

