From d95b2b00471ce715450a2a596109e60751cb6a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:35 +0000
Subject: [PATCH 01/27] fix: deserialize arrays without dimIndex

An absent `dimIndex` failed the whole DimElement, so a serialized array
without explicit indexes came back as a single element.
---
 svd-rs/src/dimelement.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/svd-rs/src/dimelement.rs b/svd-rs/src/dimelement.rs
index b351f05..5dfedc6 100644
--- a/svd-rs/src/dimelement.rs
+++ b/svd-rs/src/dimelement.rs
@@ -22,6 +22,7 @@ pub struct DimElement {
     #[cfg_attr(
         feature = "serde",
         serde(
+            default,
             deserialize_with = "ser_de::deserialize_dim_index",
             serialize_with = "ser_de::serialize_dim_index",
             skip_serializing_if = "Option::is_none"
-- 
2.43.0


From 30126bbd6bb24326bf1160d6413a9206d07c049d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:35 +0000
Subject: [PATCH 02/27] fix: reversed offset sorting of high addresses

Keys were truncated to i32 before negation, which misplaced (and could
overflow on) addresses at or above 0x8000_0000.
---
 svd-encoder/src/device.rs     | 6 +++---
 svd-encoder/src/peripheral.rs | 6 +++---
 svd-encoder/src/register.rs   | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/svd-encoder/src/device.rs b/svd-encoder/src/device.rs
index 378e653..bb082a5 100644
--- a/svd-encoder/src/device.rs
+++ b/svd-encoder/src/device.rs
@@ -1,3 +1,5 @@
+use std::cmp::Reverse;
+
 use svd_rs::Peripheral;
 
 use super::{new_node, Config, Element, Encode, EncodeChildren, EncodeError, XMLNode};
@@ -98,9 +100,7 @@ fn sort_peripherals(refs: &mut [&Peripheral], sorting: Option<Sorting>) {
     if let Some(sorting) = sorting {
         match sorting {
             Sorting::Offset => refs.sort_by_key(|p| p.base_address),
-            Sorting::OffsetReversed => {
-                refs.sort_by_key(|p| -(p.base_address as i32));
-            }
+            Sorting::OffsetReversed => refs.sort_by_key(|p| Reverse(p.base_address)),
             Sorting::Name => refs.sort_by_key(|p| &p.name),
         }
     }
diff --git a/svd-encoder/src/peripheral.rs b/svd-encoder/src/peripheral.rs
index f464961..ef65766 100644
--- a/svd-encoder/src/peripheral.rs
+++ b/svd-encoder/src/peripheral.rs
@@ -1,3 +1,5 @@
+use std::cmp::Reverse;
+
 use svd_rs::RegisterCluster;
 
 use super::{
@@ -143,9 +145,7 @@ fn sort_register_cluster(refs: &mut [&RegisterCluster], sorting: Option<Sorting>
     if let Some(sorting) = sorting {
         match sorting {
             Sorting::Offset => refs.sort_by_key(|r| r.address_offset()),
-            Sorting::OffsetReversed => {
-                refs.sort_by_key(|r| -(r.address_offset() as i32));
-            }
+            Sorting::OffsetReversed => refs.sort_by_key(|r| Reverse(r.address_offset())),
             Sorting::Name => refs.sort_by_key(|r| r.name()),
         }
     }
diff --git a/svd-encoder/src/register.rs b/svd-encoder/src/register.rs
index b4b4aa8..3b33694 100644
--- a/svd-encoder/src/register.rs
+++ b/svd-encoder/src/register.rs
@@ -1,3 +1,5 @@
+use std::cmp::Reverse;
+
 use svd_rs::Field;
 
 use super::{
@@ -115,9 +117,7 @@ fn sort_fields(refs: &mut [&Field], sorting: Option<Sorting>) {
     if let Some(sorting) = sorting {
         match sorting {
             Sorting::Offset => refs.sort_by_key(|f| f.bit_offset()),
-            Sorting::OffsetReversed => {
-                refs.sort_by_key(|f| -(f.bit_offset() as i32));
-            }
+            Sorting::OffsetReversed => refs.sort_by_key(|f| Reverse(f.bit_offset())),
             Sorting::Name => refs.sort_by_key(|f| &f.name),
         }
     }
-- 
2.43.0


From 6ab380c3d40d4f754c49e9e2ab856d897d2a1960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:35 +0000
Subject: [PATCH 03/27] fix: FieldInfoBuilder::bit_offset after bit_width

bit_offset took a previously set offset for the width.
---
 svd-rs/src/field.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svd-rs/src/field.rs b/svd-rs/src/field.rs
index 7fe336f..5919969 100644
--- a/svd-rs/src/field.rs
+++ b/svd-rs/src/field.rs
@@ -163,7 +163,7 @@ impl FieldInfoBuilder {
     pub fn bit_offset(mut self, value: u32) -> Self {
         if let Some(bit_range) = self.bit_range.as_mut() {
             bit_range.offset = value;
-        } else if let Some(width) = self.bit_offset {
+        } else if let Some(width) = self.bit_width {
             self.bit_range = Some(BitRange::from_offset_width(value, width));
             self.bit_width = None;
         } else {
-- 
2.43.0


From 300996fe1d7122b21b5539d803be9901acacc322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:35 +0000
Subject: [PATCH 04/27] fix: EnumeratedValues::modify_from ignored derived_from

---
 svd-rs/src/enumeratedvalues.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/svd-rs/src/enumeratedvalues.rs b/svd-rs/src/enumeratedvalues.rs
index aff085f..7446546 100644
--- a/svd-rs/src/enumeratedvalues.rs
+++ b/svd-rs/src/enumeratedvalues.rs
@@ -114,6 +114,7 @@ impl EnumeratedValues {
         lvl: ValidateLevel,
     ) -> Result<(), SvdError> {
         if builder.derived_from.is_some() {
+            self.derived_from = builder.derived_from;
             self.name = None;
             self.usage = None;
             self.values = Vec::new();
-- 
2.43.0


From 2cdb21492691d96818e3336e28a24fa280af1b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:35 +0000
Subject: [PATCH 05/27] fix: report an empty writeConstraint instead of
 panicking

---
 svd-parser/src/writeconstraint.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/svd-parser/src/writeconstraint.rs b/svd-parser/src/writeconstraint.rs
index 38f46ac..6b18dfa 100644
--- a/svd-parser/src/writeconstraint.rs
+++ b/svd-parser/src/writeconstraint.rs
@@ -7,7 +7,9 @@ impl Parse for WriteConstraint {
     type Config = Config;
 
     fn parse(tree: &Node, _config: &Self::Config) -> Result<Self, Self::Error> {
-        let child = tree.first_element_child().unwrap();
+        let child = tree
+            .first_element_child()
+            .ok_or_else(|| SVDError::EmptyTag("writeConstraint".to_string()).at(tree.id()))?;
         if child.next_sibling_element().is_some() {
             return Err(SVDError::MoreThanOneWriteConstraint.at(tree.id()));
         }
-- 
2.43.0


From 3d7a154feb1a919cc7ecd4ac0fc0b8ac6e8d10b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:35 +0000
Subject: [PATCH 06/27] fix: derive dataType of registers

---
 svd-rs/src/derive_from.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/svd-rs/src/derive_from.rs b/svd-rs/src/derive_from.rs
index 9578852..e9b1fd3 100644
--- a/svd-rs/src/derive_from.rs
+++ b/svd-rs/src/derive_from.rs
@@ -71,6 +71,7 @@ impl DeriveFrom for RegisterInfo {
         let mut derived = self.clone();
         derived.description = derived.description.or_else(|| other.description.clone());
         derived.properties = derived.properties.derive_from(&other.properties);
+        derived.datatype = derived.datatype.or(other.datatype);
         derived.fields = derived.fields.or_else(|| other.fields.clone());
         derived.write_constraint = derived.write_constraint.or(other.write_constraint);
         derived.read_action = derived.read_action.or(other.read_action);
-- 
2.43.0


From a4e1a2f4a598222a6f83191c4caa6ebba947b10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:35 +0000
Subject: [PATCH 07/27] fix: report a malformed isDefault instead of dropping
 it

---
 svd-parser/src/enumeratedvalue.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/svd-parser/src/enumeratedvalue.rs b/svd-parser/src/enumeratedvalue.rs
index e83856e..effdb0e 100644
--- a/svd-parser/src/enumeratedvalue.rs
+++ b/svd-parser/src/enumeratedvalue.rs
@@ -1,5 +1,6 @@
 use super::*;
 use crate::svd::EnumeratedValue;
+use crate::types::BoolParse;
 
 impl Parse for EnumeratedValue {
     type Object = Self;
@@ -15,7 +16,7 @@ impl Parse for EnumeratedValue {
             .name(tree.get_child_text("name")?)
             .description(tree.get_child_text_opt("description")?)
             .value(optional::<u64>("value", tree, &())?)
-            .is_default(tree.get_child_bool("isDefault").ok())
+            .is_default(optional::<BoolParse>("isDefault", tree, &())?)
             .build(config.validate_level)
             .map_err(|e| SVDError::from(e).at(tree.id()))
     }
-- 
2.43.0


From b320467221bbcd209aa19f182678dd1d413c2197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:35 +0000
Subject: [PATCH 08/27] fix: accept uppercase don't care bits in 0b literals

---
 svd-parser/src/types.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/svd-parser/src/types.rs b/svd-parser/src/types.rs
index 878897e..6345302 100644
--- a/svd-parser/src/types.rs
+++ b/svd-parser/src/types.rs
@@ -27,7 +27,10 @@ impl Parse for u32 {
             // Handle strings in the binary form of:
             // 0b01101x1
             // along with don't care character x (replaced with 0)
-            u32::from_str_radix(&str::replace(&text["0b".len()..], "x", "0"), 2)
+            u32::from_str_radix(
+                &str::replace(&text.to_lowercase()["0b".len()..], "x", "0"),
+                2,
+            )
         } else {
             text.parse::<u32>()
         })
@@ -57,7 +60,10 @@ impl Parse for u64 {
             // Handle strings in the binary form of:
             // 0b01101x1
             // along with don't care character x (replaced with 0)
-            u64::from_str_radix(&str::replace(&text["0b".len()..], "x", "0"), 2)
+            u64::from_str_radix(
+                &str::replace(&text.to_lowercase()["0b".len()..], "x", "0"),
+                2,
+            )
         } else {
             text.parse::<u64>()
         })
-- 
2.43.0


From 273a105dc16a2504b5642dff759fbfaad9f779e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:35 +0000
Subject: [PATCH 09/27] fix: overflow in DimElement::indexes_as_range

The index list `0,4294967295` overflowed the length computation.
---
 svd-rs/src/dimelement.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svd-rs/src/dimelement.rs b/svd-rs/src/dimelement.rs
index 5dfedc6..7fabccb 100644
--- a/svd-rs/src/dimelement.rs
+++ b/svd-rs/src/dimelement.rs
@@ -179,7 +179,7 @@ impl DimElement {
         }
         let min = *integers.iter().min()?;
         let max = *integers.iter().max()?;
-        if max - min + 1 != self.dim {
+        if (max - min).checked_add(1) != Some(self.dim) {
             return None;
         }
         for (&i, r) in integers.iter().zip(min..=max) {
-- 
2.43.0


From 3bb2faee3491b4dea7657bd2dfcd93047b06bce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:35 +0000
Subject: [PATCH 10/27] fix: word splitting of capitalized identifiers

A boundary between an upper and a lower case letter split the first letter
off every capitalized word (`Mode` became `m_ode`).
---
 svd-encoder/src/config.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/svd-encoder/src/config.rs b/svd-encoder/src/config.rs
index a78dbbb..6ca2984 100644
--- a/svd-encoder/src/config.rs
+++ b/svd-encoder/src/config.rs
@@ -47,7 +47,6 @@ pub fn change_case(s: &str, case: Option<IdentifierFormat>) -> String {
                 Boundary::Hyphen,
                 Boundary::Space,
                 Boundary::LowerUpper,
-                Boundary::UpperLower,
                 Boundary::Acronym,
             ];
 
-- 
2.43.0


From 81f9a3f50f3bcb2171fda41f6b66c1252e5cc62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:56 +0000
Subject: [PATCH 11/27] fix: overflow on a bit range covering all u32 bit
 positions

---
 svd-parser/src/bitrange.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/svd-parser/src/bitrange.rs b/svd-parser/src/bitrange.rs
index 0fb8ec4..f77464e 100644
--- a/svd-parser/src/bitrange.rs
+++ b/svd-parser/src/bitrange.rs
@@ -84,12 +84,13 @@ impl Parse for BitRange {
                 return Err(SVDError::InvalidBitRange(InvalidBitRange::Syntax).at(tree.id()));
             };
 
-        if start > end {
-            return Err(SVDError::InvalidBitRange(InvalidBitRange::Size).at(tree.id()));
-        }
+        let width = end
+            .checked_sub(start)
+            .and_then(|w| w.checked_add(1))
+            .ok_or_else(|| SVDError::InvalidBitRange(InvalidBitRange::Size).at(tree.id()))?;
         Ok(Self {
             offset: start,
-            width: end - start + 1,
+            width,
             range_type,
         })
     }
-- 
2.43.0


From 8551ff93196fafd05b9259b47e5e615239b2c72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:39 +0000
Subject: [PATCH 12/27] fix: reject reversed bit ranges instead of overflowing

BitRange::from_bit_range and deserialization of msb/lsb pairs panicked (or
wrapped) on a msb below lsb.
---
 svd-rs/src/bitrange.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/svd-rs/src/bitrange.rs b/svd-rs/src/bitrange.rs
index 5741899..4a99d68 100644
--- a/svd-rs/src/bitrange.rs
+++ b/svd-rs/src/bitrange.rs
@@ -70,10 +70,15 @@ impl BitRange {
         let lsb = parts.next()?.parse::<u32>().ok()?;
         Some(Self {
             offset: lsb,
-            width: msb - lsb + 1,
+            width: Self::checked_width(msb, lsb)?,
             range_type: BitRangeType::BitRange,
         })
     }
+
+    /// Number of bits between `msb` and `lsb` inclusive
+    fn checked_width(msb: u32, lsb: u32) -> Option<u32> {
+        msb.checked_sub(lsb)?.checked_add(1)
+    }
 }
 
 #[cfg(feature = "serde")]
@@ -139,7 +144,9 @@ mod ser_de {
                     bit_offset,
                     bit_width,
                 } => Ok(BitRange::from_offset_width(bit_offset, bit_width)),
-                SerBitRange::MsbLsb { msb, lsb } => Ok(BitRange::from_msb_lsb(msb, lsb)),
+                SerBitRange::MsbLsb { msb, lsb } => BitRange::checked_width(msb, lsb)
+                    .map(|_| BitRange::from_msb_lsb(msb, lsb))
+                    .ok_or_else(|| serde::de::Error::custom("msb is less than lsb")),
             }
         }
     }
-- 
2.43.0


From bc5c342ad432b4f24c8430567f21713346733b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:39 +0000
Subject: [PATCH 13/27] fix: derivation chains of peripherals, clusters,
 registers and fields

Following a chain forgot where inherited children came from, so their
relative references were looked up in the wrong place, and compared the
name of the first element with references relative to other blocks. Cycles
not passing through the first element overflowed the stack.
---
 svd-parser/src/expand.rs | 166 +++++++++++++++++++--------------------
 1 file changed, 80 insertions(+), 86 deletions(-)

diff --git a/svd-parser/src/expand.rs b/svd-parser/src/expand.rs
index 73f418f..3b4f930 100644
--- a/svd-parser/src/expand.rs
+++ b/svd-parser/src/expand.rs
@@ -388,31 +388,28 @@ pub fn derive_cluster(
     path: &BlockPath,
     index: &Index,
 ) -> Result<Option<BlockPath>> {
-    let (dparent, dname) = BlockPath::parse_str(dpath);
-    let rdpath;
-    let cluster_path;
-    if let Some(dparent) = dparent {
-        cluster_path = dparent.new_cluster(dname);
-        rdpath = dparent;
-    } else {
-        cluster_path = path.new_cluster(dname);
-        rdpath = path.clone();
-    }
-    if &rdpath == path && dname == &c.name {
-        return Err(anyhow!("Cluster {cluster_path} is self-derived"));
-    }
-    let d = index
-        .clusters
-        .get(&cluster_path)
-        .ok_or_else(|| anyhow!("cluster {} not found", dpath))?;
-
     let mut cpath = None;
-    if c.children.is_empty() {
-        cpath = Some(cluster_path);
-    }
-    *c = c.derive_from(d);
-    if let Some(dpath) = d.derived_from.as_ref() {
-        cpath = derive_cluster(c, dpath, &rdpath, index)?;
+    let mut visited = vec![path.new_cluster(&c.name)];
+    let mut path = path.clone();
+    let mut next = Some(dpath);
+    while let Some(dpath) = next {
+        let (dparent, dname) = BlockPath::parse_str(dpath);
+        path = dparent.unwrap_or(path);
+        let cluster_path = path.new_cluster(dname);
+        if visited.contains(&cluster_path) {
+            return Err(anyhow!("Cluster {cluster_path} is self-derived"));
+        }
+        let d = index
+            .clusters
+            .get(&cluster_path)
+            .ok_or_else(|| anyhow!("cluster {} not found", dpath))?;
+
+        if c.children.is_empty() {
+            cpath = Some(cluster_path.clone());
+        }
+        *c = c.derive_from(d);
+        visited.push(cluster_path);
+        next = d.derived_from.as_deref();
     }
     Ok(cpath)
 }
@@ -423,31 +420,28 @@ pub fn derive_register(
     path: &BlockPath,
     index: &Index,
 ) -> Result<Option<RegisterPath>> {
-    let (dblock, dname) = RegisterPath::parse_str(dpath);
-    let rdpath;
-    let reg_path;
-    if let Some(dblock) = dblock {
-        reg_path = dblock.new_register(dname);
-        rdpath = dblock;
-    } else {
-        reg_path = path.new_register(dname);
-        rdpath = path.clone();
-    }
-    if &rdpath == path && dname == &r.name {
-        return Err(anyhow!("Register {reg_path} is self-derived"));
-    }
-    let d = index
-        .registers
-        .get(&reg_path)
-        .ok_or_else(|| anyhow!("register {} not found", dpath))?;
-
     let mut rpath = None;
-    if r.fields.is_none() {
-        rpath = Some(reg_path);
-    }
-    *r = r.derive_from(d);
-    if let Some(dpath) = d.derived_from.as_ref() {
-        rpath = derive_register(r, dpath, &rdpath, index)?;
+    let mut visited = vec![path.new_register(&r.name)];
+    let mut path = path.clone();
+    let mut next = Some(dpath);
+    while let Some(dpath) = next {
+        let (dblock, dname) = RegisterPath::parse_str(dpath);
+        path = dblock.unwrap_or(path);
+        let reg_path = path.new_register(dname);
+        if visited.contains(&reg_path) {
+            return Err(anyhow!("Register {reg_path} is self-derived"));
+        }
+        let d = index
+            .registers
+            .get(&reg_path)
+            .ok_or_else(|| anyhow!("register {} not found", dpath))?;
+
+        if r.fields.is_none() {
+            rpath = Some(reg_path.clone());
+        }
+        *r = r.derive_from(d);
+        visited.push(reg_path);
+        next = d.derived_from.as_deref();
     }
     Ok(rpath)
 }
@@ -458,31 +452,28 @@ pub fn derive_field(
     rpath: &RegisterPath,
     index: &Index,
 ) -> Result<Option<FieldPath>> {
-    let (dregister, dname) = FieldPath::parse_str(dpath);
-    let rdpath;
-    let field_path;
-    if let Some(dregister) = dregister {
-        field_path = dregister.new_field(dname);
-        rdpath = dregister;
-    } else {
-        field_path = rpath.new_field(dname);
-        rdpath = rpath.clone();
-    }
-    if &rdpath == rpath && dname == &f.name {
-        return Err(anyhow!("Field {field_path} is self-derived"));
-    }
-    let d = index
-        .fields
-        .get(&field_path)
-        .ok_or_else(|| anyhow!("field {} not found", dpath))?;
-
     let mut fpath = None;
-    if f.enumerated_values.is_empty() {
-        fpath = Some(field_path);
-    }
-    *f = f.derive_from(d);
-    if let Some(dpath) = d.derived_from.as_ref() {
-        fpath = derive_field(f, dpath, &rdpath, index)?;
+    let mut visited = vec![rpath.new_field(&f.name)];
+    let mut rpath = rpath.clone();
+    let mut next = Some(dpath);
+    while let Some(dpath) = next {
+        let (dregister, dname) = FieldPath::parse_str(dpath);
+        rpath = dregister.unwrap_or(rpath);
+        let field_path = rpath.new_field(dname);
+        if visited.contains(&field_path) {
+            return Err(anyhow!("Field {field_path} is self-derived"));
+        }
+        let d = index
+            .fields
+            .get(&field_path)
+            .ok_or_else(|| anyhow!("field {} not found", dpath))?;
+
+        if f.enumerated_values.is_empty() {
+            fpath = Some(field_path.clone());
+        }
+        *f = f.derive_from(d);
+        visited.push(field_path);
+        next = d.derived_from.as_deref();
     }
     Ok(fpath)
 }
@@ -633,21 +624,24 @@ pub fn derive_peripheral(
     dpath: &str,
     index: &Index,
 ) -> Result<Option<BlockPath>> {
-    if dpath == &p.name {
-        return Err(anyhow!("Peripheral {dpath} is self-derived"));
-    }
     let mut path = None;
-    let derpath = BlockPath::new(dpath);
-    let d = index
-        .peripherals
-        .get(&derpath)
-        .ok_or_else(|| anyhow!("peripheral {} not found", dpath))?;
-    if p.registers.is_none() {
-        path = Some(derpath);
-    }
-    *p = p.derive_from(d);
-    if let Some(dpath) = d.derived_from.as_ref() {
-        path = derive_peripheral(p, dpath, index)?;
+    let mut visited = vec![BlockPath::new(&p.name)];
+    let mut next = Some(dpath);
+    while let Some(dpath) = next {
+        let derpath = BlockPath::new(dpath);
+        if visited.contains(&derpath) {
+            return Err(anyhow!("Peripheral {dpath} is self-derived"));
+        }
+        let d = index
+            .peripherals
+            .get(&derpath)
+            .ok_or_else(|| anyhow!("peripheral {} not found", dpath))?;
+        if p.registers.is_none() {
+            path = Some(derpath.clone());
+        }
+        *p = p.derive_from(d);
+        visited.push(derpath);
+        next = d.derived_from.as_deref();
     }
     Ok(path)
 }
-- 
2.43.0


From e7e77845a17331016c11d14e0855d6e5bb15a6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:05 +0000
Subject: [PATCH 14/27] fix: derivation chains of enumeratedValues

Names along the chain were compared with the name of the first element, and
cycles not passing through it overflowed the stack.
---
 svd-parser/src/expand.rs | 45 ++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/svd-parser/src/expand.rs b/svd-parser/src/expand.rs
index 3b4f930..dd57d27 100644
--- a/svd-parser/src/expand.rs
+++ b/svd-parser/src/expand.rs
@@ -562,6 +562,29 @@ pub fn derive_enumerated_values(
     if Some(dpath) == ev.name.as_deref() {
         return Err(anyhow!("EnumeratedValues {fpath}.{dpath} is self-derived"));
     }
+    let mut visited = Vec::new();
+    if let Some(name) = ev.name.as_ref() {
+        visited.push(fpath.new_enum(name));
+    }
+    let (mut d, mut epath) = find_enumerated_values(dpath, fpath, index)?;
+    loop {
+        if visited.contains(&epath) {
+            return Err(anyhow!("EnumeratedValues {epath} is self-derived"));
+        }
+        *ev = ev.derive_from(d);
+        let Some(dpath) = d.derived_from.as_ref() else {
+            return Ok(epath);
+        };
+        visited.push(epath.clone());
+        (d, epath) = find_enumerated_values(dpath, &epath.field, index)?;
+    }
+}
+
+fn find_enumerated_values<'a>(
+    dpath: &str,
+    fpath: &FieldPath,
+    index: &Index<'a>,
+) -> Result<(&'a EnumeratedValues, EnumPath)> {
     let mut v: Vec<&str> = dpath.split('.').collect();
     let dname = v.pop().unwrap();
     let d = if v.is_empty() {
@@ -572,7 +595,7 @@ pub fn derive_enumerated_values(
             for f in r.fields() {
                 let epath = EnumPath::new(rdpath.new_field(&f.name), dname);
                 if let Some(d) = index.evs.get(&epath) {
-                    found = Some((d, epath));
+                    found = Some((*d, epath));
                     break;
                 }
             }
@@ -596,27 +619,17 @@ pub fn derive_enumerated_values(
             };
             FieldPath::new(rdpath, fdname)
         };
-        if &fdpath == fpath && Some(dname) == ev.name.as_deref() {
-            return Err(anyhow!("EnumeratedValues {fpath}.{dname} is self-derived"));
-        }
         let epath = EnumPath::new(fdpath, dname);
-        index.evs.get(&epath).map(|d| (d, epath))
+        index.evs.get(&epath).map(|d| (*d, epath))
     };
 
-    if let Some((d, epath)) = d {
-        *ev = ev.derive_from(d);
-        if let Some(dpath) = d.derived_from.as_ref() {
-            derive_enumerated_values(ev, dpath, &epath.field, index)
-        } else {
-            Ok(epath)
-        }
-    } else {
-        Err(anyhow!(
+    d.ok_or_else(|| {
+        anyhow!(
             "enumeratedValues {} not found, parent field: {:?}",
             dpath,
             fpath,
-        ))
-    }
+        )
+    })
 }
 
 pub fn derive_peripheral(
-- 
2.43.0


From d794d1f5da169900fa49641f9c9926371ae296d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:05 +0000
Subject: [PATCH 15/27] fix: panic on a field derived from `REGISTER.FIELD`

Look such a path up in the same block, as it is done for enumeratedValues.
---
 svd-parser/src/expand.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/svd-parser/src/expand.rs b/svd-parser/src/expand.rs
index dd57d27..287532e 100644
--- a/svd-parser/src/expand.rs
+++ b/svd-parser/src/expand.rs
@@ -457,8 +457,18 @@ pub fn derive_field(
     let mut rpath = rpath.clone();
     let mut next = Some(dpath);
     while let Some(dpath) = next {
-        let (dregister, dname) = FieldPath::parse_str(dpath);
-        rpath = dregister.unwrap_or(rpath);
+        let dname = match dpath.split_once('.') {
+            // REG.FIELD: register of same block
+            Some((rname, dname)) if !dname.contains('.') => {
+                rpath = rpath.block.new_register(rname);
+                dname
+            }
+            _ => {
+                let (dregister, dname) = FieldPath::parse_str(dpath);
+                rpath = dregister.unwrap_or(rpath);
+                dname
+            }
+        };
         let field_path = rpath.new_field(dname);
         if visited.contains(&field_path) {
             return Err(anyhow!("Field {field_path} is self-derived"));
-- 
2.43.0


From 13c1df6468bdab641b21b2c5d32fe66683e8bfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:37 +0000
Subject: [PATCH 16/27] fix: unbounded recursion on clusters containing
 themselves

A cluster derived from a cluster that encloses it expanded without end.
---
 svd-parser/src/expand.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/svd-parser/src/expand.rs b/svd-parser/src/expand.rs
index 287532e..6da7f0f 100644
--- a/svd-parser/src/expand.rs
+++ b/svd-parser/src/expand.rs
@@ -346,9 +346,10 @@ fn expand_register_cluster(
     rc: RegisterCluster,
     path: &BlockPath,
     index: &Index,
+    opened: &mut Vec<BlockPath>,
 ) -> Result<()> {
     match rc {
-        RegisterCluster::Cluster(c) => expand_cluster_array(regs, c, path, index)?,
+        RegisterCluster::Cluster(c) => expand_cluster_array(regs, c, path, index, opened)?,
         RegisterCluster::Register(r) => expand_register_array(regs, r, path, index)?,
     }
     Ok(())
@@ -359,6 +360,7 @@ fn expand_cluster_array(
     mut c: Cluster,
     path: &BlockPath,
     index: &Index,
+    opened: &mut Vec<BlockPath>,
 ) -> Result<()> {
     let mut cpath = None;
     let dpath = c.derived_from.take();
@@ -367,9 +369,14 @@ fn expand_cluster_array(
     }
     let cpath = cpath.unwrap_or_else(|| path.new_cluster(&c.name));
 
+    if opened.contains(&cpath) {
+        return Err(anyhow!("Cluster {cpath} is derived from itself"));
+    }
+    opened.push(cpath.clone());
     for rc in take(&mut c.children) {
-        expand_register_cluster(&mut c.children, rc, &cpath, index)?;
+        expand_register_cluster(&mut c.children, rc, &cpath, index, opened)?;
     }
+    opened.pop();
 
     match c {
         Cluster::Single(c) => expand_cluster(regs, c),
@@ -686,7 +693,7 @@ pub fn expand(indevice: &Device) -> Result<Device> {
         let path = path.unwrap_or_else(|| BlockPath::new(&p.name));
         if let Some(regs) = p.registers.as_mut() {
             for rc in take(regs) {
-                expand_register_cluster(regs, rc, &path, &index)?;
+                expand_register_cluster(regs, rc, &path, &index, &mut Vec::new())?;
             }
         }
         match p {
-- 
2.43.0


From 7b1033dc0756d80bd3f446dc4abc552444f23515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:37 +0000
Subject: [PATCH 17/27] fix: report addresses overflowing on expansion

Offsets of array items and of registers of clusters that don't fit their
type overflowed (or silently wrapped in release builds).
---
 svd-parser/src/expand.rs | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/svd-parser/src/expand.rs b/svd-parser/src/expand.rs
index 6da7f0f..4a51613 100644
--- a/svd-parser/src/expand.rs
+++ b/svd-parser/src/expand.rs
@@ -6,7 +6,7 @@ use std::fmt;
 use std::mem::take;
 use svd_rs::{
     array::names, cluster, field, peripheral, register, Cluster, ClusterInfo, DeriveFrom, Device,
-    EnumeratedValues, Field, Peripheral, Register, RegisterCluster, RegisterProperties,
+    DimElement, EnumeratedValues, Field, Peripheral, Register, RegisterCluster, RegisterProperties,
 };
 
 /// Path to `peripheral` or `cluster` element
@@ -379,10 +379,11 @@ fn expand_cluster_array(
     opened.pop();
 
     match c {
-        Cluster::Single(c) => expand_cluster(regs, c),
+        Cluster::Single(c) => expand_cluster(regs, c)?,
         Cluster::Array(info, dim) => {
+            check_array_offsets(&info.name, info.address_offset, &dim)?;
             for c in cluster::expand(&info, &dim) {
-                expand_cluster(regs, c);
+                expand_cluster(regs, c)?;
             }
         }
     }
@@ -495,17 +496,31 @@ pub fn derive_field(
     Ok(fpath)
 }
 
-fn expand_cluster(regs: &mut Vec<RegisterCluster>, c: ClusterInfo) {
+fn expand_cluster(regs: &mut Vec<RegisterCluster>, c: ClusterInfo) -> Result<()> {
     for rc in c.children {
         match rc {
             RegisterCluster::Cluster(_) => unreachable!(),
             RegisterCluster::Register(mut r) => {
                 r.name = format!("{}_{}", c.name, r.name);
-                r.address_offset += c.address_offset;
+                r.address_offset = r
+                    .address_offset
+                    .checked_add(c.address_offset)
+                    .ok_or_else(|| anyhow!("address offset of {} is too big", r.name))?;
                 regs.push(r.into());
             }
         }
     }
+    Ok(())
+}
+
+/// Check that offset of the last element of an array is representable
+fn check_array_offsets(name: &str, offset: u32, dim: &DimElement) -> Result<()> {
+    dim.dim
+        .saturating_sub(1)
+        .checked_mul(dim.dim_increment)
+        .and_then(|size| offset.checked_add(size))
+        .map(|_| ())
+        .ok_or_else(|| anyhow!("offsets of array {} are too big", name))
 }
 
 fn expand_register_array(
@@ -532,6 +547,7 @@ fn expand_register_array(
             regs.push(r.into());
         }
         Register::Array(info, dim) => {
+            check_array_offsets(&info.name, info.address_offset, &dim)?;
             regs.extend(register::expand(&info, &dim).map(|r| r.single().into()));
         }
     }
@@ -563,6 +579,7 @@ fn expand_field(
             fields.push(f);
         }
         Field::Array(info, dim) => {
+            check_array_offsets(&info.name, info.bit_offset(), &dim)?;
             fields.extend(field::expand(&info, &dim).map(Field::Single));
         }
     }
@@ -701,6 +718,9 @@ pub fn expand(indevice: &Device) -> Result<Device> {
                 device.peripherals.push(p);
             }
             Peripheral::Array(info, dim) => {
+                (dim.dim.saturating_sub(1) as u64 * dim.dim_increment as u64)
+                    .checked_add(info.base_address)
+                    .ok_or_else(|| anyhow!("base addresses of array {} are too big", info.name))?;
                 device
                     .peripherals
                     .extend(peripheral::expand(&info, &dim).map(Peripheral::Single));
-- 
2.43.0


From 7115ed6d7ec02fc75c1addc63aaa168003b6b581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:52 +0000
Subject: [PATCH 18/27] fix: overflow in msb of a bit range ending at the last
 u32 position

---
 svd-rs/src/bitrange.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svd-rs/src/bitrange.rs b/svd-rs/src/bitrange.rs
index 4a99d68..0ca85d4 100644
--- a/svd-rs/src/bitrange.rs
+++ b/svd-rs/src/bitrange.rs
@@ -37,7 +37,7 @@ impl BitRange {
     }
     /// Get the position of the most significant bit
     pub fn msb(&self) -> u32 {
-        self.offset + self.width - 1
+        self.offset + (self.width - 1)
     }
     /// Get the bit range in the format `[<msb>:<lsb>]`
     pub fn bit_range(&self) -> String {
-- 
2.43.0


From 104d800c80b2f8f489c30143563b3d43a5f98568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:12 +0000
Subject: [PATCH 19/27] fix: recursion of register and cluster iterators over
 items of the other kind

Skipping an item of the other kind was a recursive call, so a long run of
clusters overflowed the stack of a register iterator in unoptimized builds.
---
 svd-rs/src/registercluster.rs | 36 +++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/svd-rs/src/registercluster.rs b/svd-rs/src/registercluster.rs
index e9e09f9..7ccaa3b 100644
--- a/svd-rs/src/registercluster.rs
+++ b/svd-rs/src/registercluster.rs
@@ -66,10 +66,11 @@ pub struct RegisterIter<'a> {
 impl<'a> std::iter::Iterator for RegisterIter<'a> {
     type Item = &'a Register;
     fn next(&mut self) -> Option<Self::Item> {
-        match self.all.next() {
-            None => None,
-            Some(RegisterCluster::Register(reg)) => Some(reg),
-            _ => self.next(),
+        loop {
+            match self.all.next()? {
+                RegisterCluster::Register(reg) => return Some(reg),
+                _ => continue,
+            }
         }
     }
 }
@@ -82,10 +83,11 @@ pub struct RegisterIterMut<'a> {
 impl<'a> std::iter::Iterator for RegisterIterMut<'a> {
     type Item = &'a mut Register;
     fn next(&mut self) -> Option<Self::Item> {
-        match self.all.next() {
-            None => None,
-            Some(RegisterCluster::Register(reg)) => Some(reg),
-            _ => self.next(),
+        loop {
+            match self.all.next()? {
+                RegisterCluster::Register(reg) => return Some(reg),
+                _ => continue,
+            }
         }
     }
 }
@@ -98,10 +100,11 @@ pub struct ClusterIter<'a> {
 impl<'a> std::iter::Iterator for ClusterIter<'a> {
     type Item = &'a Cluster;
     fn next(&mut self) -> Option<Self::Item> {
-        match self.all.next() {
-            None => None,
-            Some(RegisterCluster::Cluster(c)) => Some(c),
-            _ => self.next(),
+        loop {
+            match self.all.next()? {
+                RegisterCluster::Cluster(c) => return Some(c),
+                _ => continue,
+            }
         }
     }
 }
@@ -114,10 +117,11 @@ pub struct ClusterIterMut<'a> {
 impl<'a> std::iter::Iterator for ClusterIterMut<'a> {
     type Item = &'a mut Cluster;
     fn next(&mut self) -> Option<Self::Item> {
-        match self.all.next() {
-            None => None,
-            Some(RegisterCluster::Cluster(c)) => Some(c),
-            _ => self.next(),
+        loop {
+            match self.all.next()? {
+                RegisterCluster::Cluster(c) => return Some(c),
+                _ => continue,
+            }
         }
     }
 }
-- 
2.43.0


From 319916a6c47f972483cea402800c042cf34715d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:34 +0000
Subject: [PATCH 20/27] fix: report malformed dim groups on deserialization

The dim group was flattened as an optional struct, so any error inside of it
(a wrong type, a malformed dimIndex, a missing dim or dimIncrement) silently
turned the array into a single element.
---
 svd-rs/src/array.rs      | 37 +++++++++++++++++++++++++++++--------
 svd-rs/src/dimelement.rs |  2 +-
 2 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/svd-rs/src/array.rs b/svd-rs/src/array.rs
index d302b4b..49b4a45 100644
--- a/svd-rs/src/array.rs
+++ b/svd-rs/src/array.rs
@@ -97,7 +97,8 @@ pub fn descriptions<'a, T: Description>(
 #[cfg(feature = "serde")]
 mod ser_de {
     use super::*;
-    use serde::{Deserialize, Deserializer, Serialize, Serializer};
+    use crate::DimArrayIndex;
+    use serde::{de, Deserialize, Deserializer, Serialize, Serializer};
 
     #[derive(serde::Serialize)]
     struct SerArray<'a, T> {
@@ -107,10 +108,20 @@ mod ser_de {
         info: &'a T,
     }
 
+    // The keys of `DimElement` are not flattened as an optional struct, because
+    // this would turn any error inside of them into an absent array.
     #[derive(serde::Deserialize)]
+    #[serde(rename_all = "camelCase")]
     struct DeserArray<T> {
-        #[serde(flatten, default)]
-        dim: Option<DimElement>,
+        dim: Option<u32>,
+        dim_increment: Option<u32>,
+        #[serde(
+            default,
+            deserialize_with = "crate::dimelement::ser_de::deserialize_dim_index"
+        )]
+        dim_index: Option<Vec<String>>,
+        dim_name: Option<String>,
+        dim_array_index: Option<DimArrayIndex>,
         #[serde(flatten)]
         info: T,
     }
@@ -138,11 +149,21 @@ mod ser_de {
         where
             D: Deserializer<'de>,
         {
-            let DeserArray { dim, info } = DeserArray::<T>::deserialize(deserializer)?;
-            if let Some(dim) = dim {
-                Ok(Self::Array(info, dim))
-            } else {
-                Ok(Self::Single(info))
+            let array = DeserArray::<T>::deserialize(deserializer)?;
+            match (array.dim, array.dim_increment) {
+                (None, None) => Ok(Self::Single(array.info)),
+                (Some(dim), Some(dim_increment)) => Ok(Self::Array(
+                    array.info,
+                    DimElement {
+                        dim,
+                        dim_increment,
+                        dim_index: array.dim_index,
+                        dim_name: array.dim_name,
+                        dim_array_index: array.dim_array_index,
+                    },
+                )),
+                (None, Some(_)) => Err(de::Error::missing_field("dim")),
+                (Some(_), None) => Err(de::Error::missing_field("dimIncrement")),
             }
         }
     }
diff --git a/svd-rs/src/dimelement.rs b/svd-rs/src/dimelement.rs
index 7fabccb..3e394ca 100644
--- a/svd-rs/src/dimelement.rs
+++ b/svd-rs/src/dimelement.rs
@@ -255,7 +255,7 @@ impl<'a> Iterator for Indexes<'a> {
 }
 
 #[cfg(feature = "serde")]
-mod ser_de {
+pub(crate) mod ser_de {
     use super::*;
     use serde::{de, Deserialize, Deserializer, Serializer};
     #[derive(serde::Serialize, serde::Deserialize)]
-- 
2.43.0


From 4b96bab69edc1aaf3cc97bd8069d83c2ac9486b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:54 +0000
Subject: [PATCH 21/27] fix: whitespace around bitRange text

The text of every other element is trimmed before it is parsed.
---
 svd-parser/src/bitrange.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/svd-parser/src/bitrange.rs b/svd-parser/src/bitrange.rs
index f77464e..14289aa 100644
--- a/svd-parser/src/bitrange.rs
+++ b/svd-parser/src/bitrange.rs
@@ -18,9 +18,10 @@ impl Parse for BitRange {
     fn parse(tree: &Node, _config: &Self::Config) -> Result<Self, Self::Error> {
         let (end, start, range_type): (u32, u32, BitRangeType) =
             if let Some(range) = tree.get_child("bitRange") {
-                let text = range.text().ok_or_else(|| {
-                    SVDError::InvalidBitRange(InvalidBitRange::Empty).at(tree.id())
-                })?;
+                let text = range
+                    .text()
+                    .ok_or_else(|| SVDError::InvalidBitRange(InvalidBitRange::Empty).at(tree.id()))?
+                    .trim();
                 if !text.starts_with('[') {
                     return Err(SVDError::InvalidBitRange(InvalidBitRange::Syntax).at(tree.id()));
                     // TODO: Maybe have a MissingOpen/MissingClosing variant
-- 
2.43.0


From 804d3e125ea0fcbac9978c6502b5b84363044680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:10 +0000
Subject: [PATCH 22/27] fix: reject bit range texts with more than two parts

`[7:0:3]` was read as `[7:0]`.
---
 svd-parser/src/bitrange.rs | 8 ++++++--
 svd-rs/src/bitrange.rs     | 3 +++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/svd-parser/src/bitrange.rs b/svd-parser/src/bitrange.rs
index 14289aa..2e923b1 100644
--- a/svd-parser/src/bitrange.rs
+++ b/svd-parser/src/bitrange.rs
@@ -32,7 +32,7 @@ impl Parse for BitRange {
                 }
 
                 let mut parts = text[1..text.len() - 1].split(':');
-                (
+                let bounds = (
                     parts
                         .next()
                         .ok_or_else(|| {
@@ -52,7 +52,11 @@ impl Parse for BitRange {
                             SVDError::InvalidBitRange(InvalidBitRange::ParseError).at(tree.id())
                         })?,
                     BitRangeType::BitRange,
-                )
+                );
+                if parts.next().is_some() {
+                    return Err(SVDError::InvalidBitRange(InvalidBitRange::Syntax).at(tree.id()));
+                }
+                bounds
             // TODO: Consider matching instead so we can say which of these tags are missing
             } else if let (Some(lsb), Some(msb)) = (tree.get_child("lsb"), tree.get_child("msb")) {
                 (
diff --git a/svd-rs/src/bitrange.rs b/svd-rs/src/bitrange.rs
index 0ca85d4..a0993bd 100644
--- a/svd-rs/src/bitrange.rs
+++ b/svd-rs/src/bitrange.rs
@@ -68,6 +68,9 @@ impl BitRange {
         let mut parts = text[1..text.len() - 1].split(':');
         let msb = parts.next()?.parse::<u32>().ok()?;
         let lsb = parts.next()?.parse::<u32>().ok()?;
+        if parts.next().is_some() {
+            return None;
+        }
         Some(Self {
             offset: lsb,
             width: Self::checked_width(msb, lsb)?,
-- 
2.43.0


From c8232f834d2a1cea478ff0ba93558b725a80fe11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:10 +0000
Subject: [PATCH 23/27] fix: whitespace after commas of dimIndex lists

The SVD schema allows `A, B, C`; the blanks became part of the names.
---
 svd-rs/src/dimelement.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svd-rs/src/dimelement.rs b/svd-rs/src/dimelement.rs
index 3e394ca..c41dbbf 100644
--- a/svd-rs/src/dimelement.rs
+++ b/svd-rs/src/dimelement.rs
@@ -161,7 +161,7 @@ impl DimElement {
                 }
             }
         } else {
-            Some(text.split(',').map(|s| s.to_string()).collect())
+            Some(text.split(',').map(|s| s.trim().to_string()).collect())
         })
         .filter(|v| !v.is_empty())
     }
-- 
2.43.0


From 988e8998b34b6a19148c55d39f91610cf927fb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:00 +0000
Subject: [PATCH 24/27] fix: remove the description of an interrupt by
 modifying it to an empty text

---
 svd-rs/src/interrupt.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svd-rs/src/interrupt.rs b/svd-rs/src/interrupt.rs
index 1651530..c2acbb8 100644
--- a/svd-rs/src/interrupt.rs
+++ b/svd-rs/src/interrupt.rs
@@ -1,4 +1,4 @@
-use super::{BuildError, Description, Name, SvdError, ValidateLevel};
+use super::{BuildError, Description, EmptyToNone, Name, SvdError, ValidateLevel};
 
 /// Describes an interrupt in the device
 #[cfg_attr(feature = "serde", derive(serde::Deserialize, serde::Serialize))]
@@ -84,7 +84,7 @@ impl Interrupt {
             self.name = name;
         }
         if builder.description.is_some() {
-            self.description = builder.description;
+            self.description = builder.description.empty_to_none();
         }
         if let Some(value) = builder.value {
             self.value = value;
-- 
2.43.0


From f7af3b1c89694c5fa2c51e0737ac6e718d58590a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:44 +0000
Subject: [PATCH 25/27] fix: reject a reversed write range in a field of 64
 bits and more

---
 svd-rs/src/field.rs           | 5 +++--
 svd-rs/src/writeconstraint.rs | 6 +++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/svd-rs/src/field.rs b/svd-rs/src/field.rs
index 5919969..728ab80 100644
--- a/svd-rs/src/field.rs
+++ b/svd-rs/src/field.rs
@@ -337,11 +337,12 @@ impl FieldInfo {
             }
 
             match self.write_constraint {
-                // If the bit_range has its maximum width, all values will of
-                // course fit in so we can skip validation.
                 Some(WriteConstraint::Range(constraint)) if self.bit_range.width < 64 => {
                     constraint.check_range(0..2_u64.pow(self.bit_range.width))?;
                 }
+                // If the bit_range has its maximum width, all values will of
+                // course fit in, the minimum may still exceed the maximum.
+                Some(WriteConstraint::Range(constraint)) => constraint.check_order()?,
                 _ => (),
             }
         }
diff --git a/svd-rs/src/writeconstraint.rs b/svd-rs/src/writeconstraint.rs
index aaf1377..0505412 100644
--- a/svd-rs/src/writeconstraint.rs
+++ b/svd-rs/src/writeconstraint.rs
@@ -40,10 +40,14 @@ pub enum Error {
 }
 
 impl WriteConstraintRange {
-    pub(crate) fn check_range(&self, range: core::ops::Range<u64>) -> Result<(), SvdError> {
+    pub(crate) fn check_order(&self) -> Result<(), SvdError> {
         if self.min > self.max {
             return Err(Error::ReversedRange(self.min, self.max).into());
         }
+        Ok(())
+    }
+    pub(crate) fn check_range(&self, range: core::ops::Range<u64>) -> Result<(), SvdError> {
+        self.check_order()?;
         for v in [&self.min, &self.max] {
             if !range.contains(v) {
                 return Err(Error::OutOfRange(*v, range).into());
-- 
2.43.0


From 4ddee5f89de6cf79566e4f27835e7b0e50d5ecc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:42 +0000
Subject: [PATCH 26/27] fix: optional text of only whitespace counts as absent

An optional text element that is empty is ignored, but one holding only
white space became Some("") in series, licenseText, alternateGroup,
headerEnumName and the description of an interrupt, which the encoder
writes as an empty element and the parser then reads as absent.
---
 svd-parser/src/elementext.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svd-parser/src/elementext.rs b/svd-parser/src/elementext.rs
index 63f2ad1..0cbe785 100644
--- a/svd-parser/src/elementext.rs
+++ b/svd-parser/src/elementext.rs
@@ -52,6 +52,8 @@ impl ElementExt for Node<'_, '_> {
                         _ => Err(e),
                     }
                 }
+                // only whitespace is no text either
+                Ok("") => Ok(None),
                 Ok(s) => Ok(Some(s.to_string())),
             }
         } else {
-- 
2.43.0


From 27e363d07739de28bb35654d1bbbc103733e5613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:33 +0000
Subject: [PATCH 27/27] fix: carriage returns in texts survive encoding

The XML writer escapes a carriage return in attributes but writes it
as is in text, where every XML reader takes it for a line feed.
---
 svd-encoder/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/svd-encoder/src/lib.rs b/svd-encoder/src/lib.rs
index 7f53142..d3a0afe 100644
--- a/svd-encoder/src/lib.rs
+++ b/svd-encoder/src/lib.rs
@@ -57,7 +57,8 @@ pub fn encode_with_config(d: &Device, config: &Config) -> Result<String, EncodeE
     cfg.perform_indent = true;
     cfg.pad_self_closing = false;
     root.write_with_config(&mut wr, cfg).unwrap();
-    Ok(String::from_utf8(wr).unwrap())
+    // a literal carriage return would be read back as a line feed
+    Ok(String::from_utf8(wr).unwrap().replace('\r', "&#xD;"))
 }
 
 /// Defines extensions for implementation over xmltree::Element
-- 
2.43.0

