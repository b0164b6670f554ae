From 259bad6600c25a6627c09148ca791433067e5a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:09 +0000
Subject: [PATCH 1/4] fix: reject namespace prefixes ending with '.'

PN_PREFIX ::= PN_CHARS_BASE ((PN_CHARS|'.')* PN_CHARS)? so a '.' may not be
the last character of a prefix; Namespace::from_str accepted e.g. "a.:".
---
 rdftk_iri/src/pname.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rdftk_iri/src/pname.rs b/rdftk_iri/src/pname.rs
index 94427ea..0e25013 100644
--- a/rdftk_iri/src/pname.rs
+++ b/rdftk_iri/src/pname.rs
@@ -252,7 +252,10 @@ impl FromStr for Namespace {
                 Ok(Self(s.to_string()))
             } else {
                 let mut chars = pn_prefix.chars();
-                if is_pn_chars_base(chars.next().unwrap()) && chars.all(is_pn_prefix_local_rest) {
+                if is_pn_chars_base(chars.next().unwrap())
+                    && chars.all(is_pn_prefix_local_rest)
+                    && !pn_prefix.ends_with('.')
+                {
                     Ok(Self(s.to_string()))
                 } else {
                     Err(NameParseError::InvalidCharacter(s.to_string()))
-- 
2.43.0


From c93f55a8c9deb3ef4de00db192e2f0e59b375e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:09 +0000
Subject: [PATCH 2/4] fix: do not panic splitting IRIs without path segments

Iri::split (and namespace, name, IriPrefixMap::compress) unwrapped
path_segments(), which is None for IRIs such as urn:isbn:123 or mailto:a@b.
---
 rdftk_iri/src/iri.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rdftk_iri/src/iri.rs b/rdftk_iri/src/iri.rs
index 37c22a7..593e4a0 100644
--- a/rdftk_iri/src/iri.rs
+++ b/rdftk_iri/src/iri.rs
@@ -317,7 +317,8 @@ impl Iri {
             } else {
                 None
             }
-        } else if !self.0.path().is_empty()
+        } else if !self.0.cannot_be_a_base()
+            && !self.0.path().is_empty()
             && !self.0.path().ends_with("/")
             && self.0.query().is_none()
         {
-- 
2.43.0


From ced2823edf5db3e21ddd877aaf9e841f02fe91bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:09 +0000
Subject: [PATCH 3/4] fix: an IRI with an empty fragment has no name part

Iri::split treated https://example.org/ns# as the name ns in the namespace
https://example.org/#; making that name again gives a different IRI.
---
 rdftk_iri/src/iri.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rdftk_iri/src/iri.rs b/rdftk_iri/src/iri.rs
index 593e4a0..34f2e75 100644
--- a/rdftk_iri/src/iri.rs
+++ b/rdftk_iri/src/iri.rs
@@ -317,7 +317,8 @@ impl Iri {
             } else {
                 None
             }
-        } else if !self.0.cannot_be_a_base()
+        } else if self.0.fragment().is_none()
+            && !self.0.cannot_be_a_base()
             && !self.0.path().is_empty()
             && !self.0.path().ends_with("/")
             && self.0.query().is_none()
-- 
2.43.0


From 75fdb8804733cf9e13c505710d460aba5ea8e13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 4/4] fix: validate names when deserializing

The derived Deserialize for Namespace and Name accepted any string, so
invalid values could be constructed; deserializing "abc" as a Namespace
made Namespace::name_string panic.
---
 rdftk_iri/src/pname.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/rdftk_iri/src/pname.rs b/rdftk_iri/src/pname.rs
index 0e25013..18a07c8 100644
--- a/rdftk_iri/src/pname.rs
+++ b/rdftk_iri/src/pname.rs
@@ -98,6 +98,7 @@ pub enum PrefixedName {
 ///
 #[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
 #[cfg_attr(feature = "serde", derive(Deserialize, Serialize))]
+#[cfg_attr(feature = "serde", serde(try_from = "String", into = "String"))]
 pub struct Namespace(String);
 
 /// The character used to separate a [`Namespace`] prefix from a [`Name`] in a
@@ -145,6 +146,7 @@ pub const NAMESPACE_DEFAULT_STRING: &str = ":";
 ///
 #[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
 #[cfg_attr(feature = "serde", derive(Deserialize, Serialize))]
+#[cfg_attr(feature = "serde", serde(try_from = "String", into = "String"))]
 pub struct Name(String);
 
 ///
@@ -267,6 +269,14 @@ impl FromStr for Namespace {
     }
 }
 
+impl TryFrom<String> for Namespace {
+    type Error = NameParseError;
+
+    fn try_from(value: String) -> Result<Self, Self::Error> {
+        Self::from_str(&value)
+    }
+}
+
 impl AsRef<str> for Namespace {
     fn as_ref(&self) -> &str {
         &self.0
@@ -407,6 +417,14 @@ impl FromStr for Name {
     }
 }
 
+impl TryFrom<String> for Name {
+    type Error = NameParseError;
+
+    fn try_from(value: String) -> Result<Self, Self::Error> {
+        Self::from_str(&value)
+    }
+}
+
 impl AsRef<str> for Name {
     fn as_ref(&self) -> &str {
         &self.0
-- 
2.43.0

