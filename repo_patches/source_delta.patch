From 0e1085a5507488a9bb1283e12059046623ddff41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:47 +0000
Subject: [PATCH 01/64] fix: gradian is pi/200 radian, not pi/120

---
 whippyunits-core/src/units.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whippyunits-core/src/units.rs b/whippyunits-core/src/units.rs
index 249a52b..d591426 100644
--- a/whippyunits-core/src/units.rs
+++ b/whippyunits-core/src/units.rs
@@ -598,7 +598,7 @@ impl Unit<crate::dimension_exponents!([0, 0, 0, 0, 0, 0, 0, 1])> {
     pub const GRADIAN: Self = Self {
         name: "gradian",
         symbols: &["grad"],
-        scale: ScaleExponents([-3, -1, -1, 1]),
+        scale: ScaleExponents([-3, 0, -2, 1]),
         conversion_factor: IDENTITY,
         affine_offset: NONE,
         exponents: TypeDimensionExponents::new(),
-- 
2.43.0


From e774a182fdc2e29ceed2879c43ffeae274ac471d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:47 +0000
Subject: [PATCH 02/64] fix: arcminute is pi/10800 and arcsecond pi/648000
 radian

---
 src/quantity.rs               | 2 +-
 whippyunits-core/src/units.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/quantity.rs b/src/quantity.rs
index cf1ef5e..32d928c 100644
--- a/src/quantity.rs
+++ b/src/quantity.rs
@@ -117,7 +117,7 @@ pub struct _A<const EXP: i16 = 0>;
 /// Angular units can involve "all of the above", plus a possible factor of π:
 ///  - revolution: `2π = _2<1>, _3<0>, _5<0>, _Pi<1>`
 ///  - degree: `π/180 = _2<-2>, _3<-2>, _5<-1>, _Pi<1>`
-///  - arcminute: `π/10800 = _2<-4>, _3<-2>, _5<-2>, _Pi<1>`
+///  - arcminute: `π/10800 = _2<-4>, _3<-3>, _5<-2>, _Pi<1>`
 #[allow(dead_code)]
 #[derive(PartialEq)]
 pub struct Scale<P2 = _2<0>, P3 = _3<0>, P5 = _5<0>, PI = _Pi<0>> {
diff --git a/whippyunits-core/src/units.rs b/whippyunits-core/src/units.rs
index d591426..d4de3ba 100644
--- a/whippyunits-core/src/units.rs
+++ b/whippyunits-core/src/units.rs
@@ -618,7 +618,7 @@ impl Unit<crate::dimension_exponents!([0, 0, 0, 0, 0, 0, 0, 1])> {
     pub const ARCMINUTE: Self = Self {
         name: "arcminute",
         symbols: &["arcmin"],
-        scale: ScaleExponents([-4, -2, -2, 1]),
+        scale: ScaleExponents([-4, -3, -2, 1]),
         conversion_factor: IDENTITY,
         affine_offset: NONE,
         exponents: TypeDimensionExponents::new(),
@@ -628,7 +628,7 @@ impl Unit<crate::dimension_exponents!([0, 0, 0, 0, 0, 0, 0, 1])> {
     pub const ARCSECOND: Self = Self {
         name: "arcsecond",
         symbols: &["arcsec"],
-        scale: ScaleExponents([-6, -2, -2, 1]),
+        scale: ScaleExponents([-6, -4, -3, 1]),
         conversion_factor: IDENTITY,
         affine_offset: NONE,
         exponents: TypeDimensionExponents::new(),
-- 
2.43.0


From 7e1f3ed9d2e4fdcb8b9c93211c7726be99bc70cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:47 +0000
Subject: [PATCH 03/64] fix: acre is 4046.86 m^2, stored at the hectare scale
 its factor assumes

---
 whippyunits-core/src/units.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whippyunits-core/src/units.rs b/whippyunits-core/src/units.rs
index d4de3ba..00226bd 100644
--- a/whippyunits-core/src/units.rs
+++ b/whippyunits-core/src/units.rs
@@ -999,7 +999,7 @@ impl Unit<crate::dimension_exponents!([0, 2, 0, 0, 0, 0, 0, 0])> {
     pub const ACRE: Self = Self {
         name: "acre",
         symbols: &["acre"],
-        scale: ScaleExponents::_10(3),
+        scale: ScaleExponents::_10(4),
         conversion_factor: 0.40468564224, // 1 acre = 4046.8564224 m²
         affine_offset: NONE,
         exponents: TypeDimensionExponents::new(),
-- 
2.43.0


From 275883d98a5176405f2bc515e8cec27510e6f754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:47 +0000
Subject: [PATCH 04/64] fix: foot-pound is 1.3558 J, not 13.558 J

---
 whippyunits-core/src/units.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whippyunits-core/src/units.rs b/whippyunits-core/src/units.rs
index 00226bd..6adb5e2 100644
--- a/whippyunits-core/src/units.rs
+++ b/whippyunits-core/src/units.rs
@@ -717,7 +717,7 @@ impl Unit<crate::dimension_exponents!([1, 2, -2, 0, 0, 0, 0, 0])> {
     pub const FOOT_POUND: Self = Self {
         name: "foot_pound",
         symbols: &["ft_lb"],
-        scale: ScaleExponents::_10(1),
+        scale: ScaleExponents::IDENTITY,
         conversion_factor: 1.3558179483314004,
         affine_offset: NONE,
         exponents: TypeDimensionExponents::new(),
-- 
2.43.0


From fd667cbd151ab145e89d82e841c31b62e95e75b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:47 +0000
Subject: [PATCH 05/64] fix: zero of the fahrenheit scale is 459.67 degrees
 above absolute zero

---
 whippyunits-core/src/units.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whippyunits-core/src/units.rs b/whippyunits-core/src/units.rs
index 6adb5e2..f438a48 100644
--- a/whippyunits-core/src/units.rs
+++ b/whippyunits-core/src/units.rs
@@ -554,7 +554,7 @@ impl Unit<crate::dimension_exponents!([0, 0, 0, 0, 1, 0, 0, 0])> {
         symbols: &["degF"],
         scale: ScaleExponents([0, -2, 1, 0]),
         conversion_factor: IDENTITY,
-        affine_offset: 459.7,
+        affine_offset: 459.67,
         exponents: TypeDimensionExponents::new(),
         system: System::Imperial,
     };
-- 
2.43.0


From 7b895b9dece30480ac1b47430120e1e60937f8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:47 +0000
Subject: [PATCH 06/64] fix: dynamic viscosity has time exponent -1, as its
 symbol says

---
 whippyunits-core/src/dimensions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whippyunits-core/src/dimensions.rs b/whippyunits-core/src/dimensions.rs
index dba7cb2..f70d9fd 100644
--- a/whippyunits-core/src/dimensions.rs
+++ b/whippyunits-core/src/dimensions.rs
@@ -550,7 +550,7 @@ impl Dimension<crate::dimension_exponents!([1, -1, 0, 0, 0, 0, 0, 0])> {
     });
 }
 
-impl Dimension<crate::dimension_exponents!([1, -1, 1, 0, 0, 0, 0, 0])> {
+impl Dimension<crate::dimension_exponents!([1, -1, -1, 0, 0, 0, 0, 0])> {
     pub const DYNAMIC_VISCOSITY: Self = __dim!(Self {
         name: "Dynamic Viscosity",
         symbol: "ML⁻¹T⁻¹",
-- 
2.43.0


From 91f99e05ecfb4e70c0b9cb42ca33bb746f6d8dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:58 +0000
Subject: [PATCH 07/64] =?UTF-8?q?fix:=20implicit=20exponents=20on=20non-AS?=
 =?UTF-8?q?CII=20unit=20symbols=20(=CE=A92,=20=C2=B5m2)=20split=20at=20a?=
 =?UTF-8?q?=20char=20index=20used=20as=20byte=20index?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 whippyunits-core/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whippyunits-core/src/parser.rs b/whippyunits-core/src/parser.rs
index b09ad63..23a7464 100644
--- a/whippyunits-core/src/parser.rs
+++ b/whippyunits-core/src/parser.rs
@@ -177,7 +177,7 @@ impl UnitExpr {
 
             // Check for implicit exponent notation (UCUM format like "s2" instead of "s^2")
             let ident_str = ident.to_string();
-            if let Some(pos) = ident_str.chars().position(|c| c.is_ascii_digit()) {
+            if let Some(pos) = ident_str.find(|c: char| c.is_ascii_digit()) {
                 let base_name = &ident_str[..pos];
                 let exp_str = &ident_str[pos..];
                 if let Ok(exp) = exp_str.parse::<i16>() {
-- 
2.43.0


From 6c587563f06312e4b755f69be8103b5bb1e16b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:26 +0000
Subject: [PATCH 08/64] fix: an unknown unit in a unit expression is an error,
 not a silent dimensionless factor

---
 whippyunits-core/src/parser.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/whippyunits-core/src/parser.rs b/whippyunits-core/src/parser.rs
index 23a7464..1137835 100644
--- a/whippyunits-core/src/parser.rs
+++ b/whippyunits-core/src/parser.rs
@@ -177,6 +177,19 @@ impl UnitExpr {
 
             // Check for implicit exponent notation (UCUM format like "s2" instead of "s^2")
             let ident_str = ident.to_string();
+
+            // An unknown unit has no dimension: reject it rather than treat it as dimensionless
+            let unit_name = match ident_str.find(|c: char| c.is_ascii_digit()) {
+                Some(pos) if ident_str[pos..].parse::<i16>().is_ok() => &ident_str[..pos],
+                _ => ident_str.as_str(),
+            };
+            if unit_name != "dimensionless"
+                && unit_name != "power_of_10"
+                && get_unit_info(unit_name).is_none()
+            {
+                return Err(syn::Error::new(ident.span(), "unknown unit"));
+            }
+
             if let Some(pos) = ident_str.find(|c: char| c.is_ascii_digit()) {
                 let base_name = &ident_str[..pos];
                 let exp_str = &ident_str[pos..];
-- 
2.43.0


From e93cfe51c31a6580606d75812ca00f166e56d070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:03 +0000
Subject: [PATCH 09/64] fix: exponents with a literal suffix or out of range
 are errors, not dropped, truncated or a panic

---
 whippyunits-core/src/parser.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/whippyunits-core/src/parser.rs b/whippyunits-core/src/parser.rs
index 1137835..108cd4c 100644
--- a/whippyunits-core/src/parser.rs
+++ b/whippyunits-core/src/parser.rs
@@ -114,13 +114,23 @@ impl UnitExpr {
 
         if input.peek(Caret) {
             let _caret: Caret = input.parse()?;
-            let exponent: LitInt = input.parse()?;
+            let exponent = Self::parse_exponent(input)?;
             Ok(UnitExpr::Pow(Box::new(base), exponent))
         } else {
             Ok(base)
         }
     }
 
+    /// Parse an exponent: a plain integer (no literal suffix) in the range of exponents
+    fn parse_exponent(input: ParseStream) -> Result<LitInt> {
+        let exponent: LitInt = input.parse()?;
+        if !exponent.suffix().is_empty() {
+            return Err(syn::Error::new(exponent.span(), "exponent has a suffix"));
+        }
+        exponent.base10_parse::<i16>()?;
+        Ok(exponent)
+    }
+
     fn parse_atom(input: ParseStream) -> Result<Self> {
         if input.peek(syn::token::Paren) {
             let content;
@@ -134,8 +144,8 @@ impl UnitExpr {
             // Check if this is followed by a caret (^) for power notation
             if input.peek(Caret) {
                 let _caret: Caret = input.parse()?;
-                let exponent_lit: LitInt = input.parse()?;
-                let exponent: i32 = exponent_lit.base10_parse()?;
+                let exponent_lit = Self::parse_exponent(input)?;
+                let exponent: i16 = exponent_lit.base10_parse()?;
 
                 // Handle power-of-10 expressions like "10^4"
                 if base_value == 10 {
@@ -144,7 +154,7 @@ impl UnitExpr {
                     // For now, we'll create a unit with the appropriate scale factor
                     Ok(UnitExpr::Unit(UnitExprUnit {
                         name: syn::Ident::new("power_of_10", proc_macro2::Span::call_site()),
-                        exponent: exponent as i16,
+                        exponent,
                     }))
                 } else {
                     // For other bases, treat as regular power expression
-- 
2.43.0


From 4dfe811e7524877b69839432c972374146813bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:03 +0000
Subject: [PATCH 10/64] fix: a numeric factor other than 1 or a power of 10 is
 an error, not silently dropped

---
 whippyunits-core/src/parser.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/whippyunits-core/src/parser.rs b/whippyunits-core/src/parser.rs
index 108cd4c..a2d5fa3 100644
--- a/whippyunits-core/src/parser.rs
+++ b/whippyunits-core/src/parser.rs
@@ -140,6 +140,13 @@ impl UnitExpr {
             // Handle numeric literals like "1" in "1 / m" or "10" in "10^4 m"
             let lit: syn::LitInt = input.parse()?;
             let base_value: i32 = lit.base10_parse()?;
+            // Only 1 and (powers of) 10 have a representation; do not drop any other factor
+            if !lit.suffix().is_empty() || (base_value != 1 && base_value != 10) {
+                return Err(syn::Error::new(
+                    lit.span(),
+                    "numeric factors other than 1 and powers of 10 are not supported",
+                ));
+            }
 
             // Check if this is followed by a caret (^) for power notation
             if input.peek(Caret) {
-- 
2.43.0


From 066da3923638e184e4c810338ea55fb569cd7e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:24 +0000
Subject: [PATCH 11/64] fix: unit expressions whose exponents overflow are
 parse errors rather than panics

---
 whippyunits-core/src/parser.rs | 39 ++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/whippyunits-core/src/parser.rs b/whippyunits-core/src/parser.rs
index a2d5fa3..cc9778a 100644
--- a/whippyunits-core/src/parser.rs
+++ b/whippyunits-core/src/parser.rs
@@ -61,6 +61,10 @@ impl Parse for UnitExpr {
             left = UnitExpr::Div(Box::new(left), Box::new(right));
         }
 
+        if left.checked_exponents().is_none() {
+            return Err(input.error("unit exponents out of range"));
+        }
+
         Ok(left)
     }
 }
@@ -83,6 +87,41 @@ impl UnitExpr {
         Ok(left)
     }
 
+    /// Exponents of the dimensions and scales, or `None` if evaluation would overflow.
+    fn checked_exponents(&self) -> Option<[i16; 12]> {
+        fn zip(a: [i16; 12], b: [i16; 12], f: fn(i16, i16) -> Option<i16>) -> Option<[i16; 12]> {
+            let mut out = [0; 12];
+            for i in 0..12 {
+                // i16::MIN has no negation
+                out[i] = f(a[i], b[i]).filter(|e| *e != i16::MIN)?;
+            }
+            Some(out)
+        }
+        match self {
+            UnitExpr::Unit(unit) => {
+                let base = UnitExpr::Unit(UnitExprUnit {
+                    name: unit.name.clone(),
+                    exponent: 1,
+                })
+                .evaluate_with_mode(EvaluationMode::Tolerant);
+                let mut exponents = [0; 12];
+                exponents[..8].copy_from_slice(&base.dimension_exponents.0);
+                exponents[8..].copy_from_slice(&base.scale_exponents.0);
+                zip(exponents, [unit.exponent; 12], i16::checked_mul)
+            }
+            UnitExpr::Mul(a, b) => {
+                zip(a.checked_exponents()?, b.checked_exponents()?, i16::checked_add)
+            }
+            UnitExpr::Div(a, b) => {
+                zip(a.checked_exponents()?, b.checked_exponents()?, i16::checked_sub)
+            }
+            UnitExpr::Pow(base, exp) => {
+                let exp = exp.base10_parse().ok()?;
+                zip(base.checked_exponents()?, [exp; 12], i16::checked_mul)
+            }
+        }
+    }
+
     /// Collect all unit identifiers used in this expression
     pub fn collect_unit_identifiers(&self) -> Vec<Ident> {
         let mut identifiers = Vec::new();
-- 
2.43.0


From c6b0b860285cd9df8c8dfe625f9820d3f8a40e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:41 +0000
Subject: [PATCH 12/64] fix: unit symbols that are Rust keywords (in, as) are
 usable in unit expressions

---
 proc-macros/src/utils/shared_utils.rs | 6 ++++++
 whippyunits-core/src/parser.rs        | 4 +++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/proc-macros/src/utils/shared_utils.rs b/proc-macros/src/utils/shared_utils.rs
index 6db0ed6..17ec829 100644
--- a/proc-macros/src/utils/shared_utils.rs
+++ b/proc-macros/src/utils/shared_utils.rs
@@ -419,6 +419,12 @@ pub fn generate_unit_documentation_for_expr(
 
             let doc_comment = generate_unit_doc_comment(&unit_name);
 
+            // Unit symbols that are keywords (`in`, `as`) can only name a type as raw identifiers
+            let ident = match syn::parse_str::<Ident>(&unit_name) {
+                Ok(_) => ident,
+                Err(_) => Ident::new_raw(&unit_name, ident.span()),
+            };
+
             quote! {
                 const _: () = {
                     #doc_comment
diff --git a/whippyunits-core/src/parser.rs b/whippyunits-core/src/parser.rs
index cc9778a..84d660b 100644
--- a/whippyunits-core/src/parser.rs
+++ b/whippyunits-core/src/parser.rs
@@ -1,6 +1,7 @@
 #[cfg(not(test))]
 extern crate alloc;
 
+use syn::ext::IdentExt;
 use syn::parse::{Parse, ParseStream, Result};
 use syn::token::{Caret, Dot, Slash, Star};
 use syn::{Ident, LitInt};
@@ -229,7 +230,8 @@ impl UnitExpr {
                 }
             }
         } else {
-            let ident: Ident = input.parse()?;
+            // `in` (inch) and `as` (attosecond) are keywords
+            let ident: Ident = input.call(Ident::parse_any)?;
 
             // Check for implicit exponent notation (UCUM format like "s2" instead of "s^2")
             let ident_str = ident.to_string();
-- 
2.43.0


From 9f2580d7e63bd9b1a8550749964043451b05802e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:47 +0000
Subject: [PATCH 13/64] fix: quantity! honours the storage type and brand given
 with a single non-storage or affine unit

---
 proc-macros/src/quantity_macro.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/proc-macros/src/quantity_macro.rs b/proc-macros/src/quantity_macro.rs
index 19b95a0..115ed38 100644
--- a/proc-macros/src/quantity_macro.rs
+++ b/proc-macros/src/quantity_macro.rs
@@ -60,7 +60,10 @@ impl QuantityMacroInput {
                 let is_nonstorage = unit_info.conversion_factor != 1.0;
                 let is_affine = unit_info.affine_offset != 0.0;
 
-                if is_nonstorage || is_affine {
+                // The declarators know neither an explicit storage type nor a brand
+                let is_default = self.storage_type.is_none() && self.brand_type.is_none();
+
+                if (is_nonstorage || is_affine) && is_default {
                     // Dispatch to appropriate declarator (handles conversion internally)
                     let expanded = self.expand_with_declarator(unit_info);
                     return quote! {
-- 
2.43.0


From 5b3a59ebcfba0f1423f66a4dfd18ed9a7ac641ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:51 +0000
Subject: [PATCH 14/64] fix: integer rescale is exact for factors wider than
 the storage type, negative values and large products

---
 src/quantity.rs         |  4 +--
 src/scale_conversion.rs | 65 +++++++++++++++++++++++++++++++++--------
 2 files changed, 55 insertions(+), 14 deletions(-)

diff --git a/src/quantity.rs b/src/quantity.rs
index 32d928c..fffdd81 100644
--- a/src/quantity.rs
+++ b/src/quantity.rs
@@ -51,8 +51,8 @@
 //! use rational arithmetic for rescaling.  All conversion ratios are computed from exponents via
 //! lookup table, by exponent, in the highest-precision (float or integer) type supported by the crate.
 //!
-//! Integer rescaling has a simple overflow heuristic: if `value * num` would overflow, we compute
-//! `(value / den) * num`; otherwise `(value * num) / den`.
+//! Integer rescaling computes `value * num / den`, truncated toward zero, without overflow in the
+//! intermediate product; a result that does not fit the storage type panics.
 //!
 //! ## Brand
 //!
diff --git a/src/scale_conversion.rs b/src/scale_conversion.rs
index 9f9118c..42f3373 100644
--- a/src/scale_conversion.rs
+++ b/src/scale_conversion.rs
@@ -105,6 +105,40 @@ pub const fn reduce_rational(num: i128, den: i128) -> (i128, i128) {
     (reduced_num, reduced_den)
 }
 
+/// Computes `value * num / den`, rounded down, without overflow in the intermediate product.
+/// A quotient that does not fit in `u128` panics.
+#[doc(hidden)]
+pub const fn scale_magnitude(value: u128, num: u128, den: u128) -> u128 {
+    if let Some(product) = value.checked_mul(num) {
+        return product / den;
+    }
+
+    // 256-bit product as (high, low)
+    const MASK: u128 = u64::MAX as u128;
+    let (v1, v0) = (value >> 64, value & MASK);
+    let (n1, n0) = (num >> 64, num & MASK);
+    let mid = (v0 * n0 >> 64) + (v1 * n0 & MASK) + (v0 * n1 & MASK);
+    let high = v1 * n1 + (v1 * n0 >> 64) + (v0 * n1 >> 64) + (mid >> 64);
+    let low = value.wrapping_mul(num);
+    assert!(high < den, "attempt to rescale with overflow");
+
+    // long division, bit by bit
+    let mut remainder = high;
+    let mut quotient = 0;
+    let mut bit = 128;
+    while bit > 0 {
+        bit -= 1;
+        let carry = remainder >> 127;
+        remainder = remainder << 1 | (low >> bit & 1);
+        quotient <<= 1;
+        if carry == 1 || remainder >= den {
+            remainder = remainder.wrapping_sub(den);
+            quotient |= 1;
+        }
+    }
+    quotient
+}
+
 #[macro_export]
 #[doc(hidden)]
 macro_rules! _define_float_rescale {
@@ -185,9 +219,9 @@ macro_rules! _define_int_rescale {
         /// Rescale a quantity to a different unit of the same dimension.
         ///
         /// This function uses pure integer math - conversion factors are computed as rational numbers
-        /// (numerator/denominator) and reduced via GCD (π is approximated as 355/113). To avoid overflow,
-        /// the calculation order is chosen heuristically: if `value * num` would overflow, we compute
-        /// `(value / den) * num`; otherwise `(value * num) / den`.
+        /// (numerator/denominator) and reduced via GCD (π is approximated as 355/113). The result is
+        /// `value * num / den`, truncated toward zero; intermediate products are computed wide enough
+        /// not to overflow, and a result that does not fit the storage type panics.
         ///
         /// Rescale works robustly with type inference, and it is not necessary to explicitly specify the
         /// const generic parameters (of which there are many).  Instead, specify the target type with
@@ -232,17 +266,24 @@ macro_rules! _define_int_rescale {
             let (num, den) = aggregate_scale_factor(
                 $($int_rescale_aggregate_args)*
             );
-            let num = num as $T;
-            let den = den as $T;
 
-            // Numerical stability: check for potential overflow on multiplication
-            // If value * num would overflow, divide first; otherwise multiply first
-            let result = if quantity.unsafe_value > <$T>::max_value() / num {
-                // Potential overflow: divide first to reduce intermediate value
-                (quantity.unsafe_value / den) * num
+            // The factor need not fit in the storage type, so scale the magnitude at full width
+            #[allow(unused_comparisons)]
+            let negative = quantity.unsafe_value < 0;
+            let (magnitude, limit) = if negative {
+                (
+                    (quantity.unsafe_value as i128).unsigned_abs(),
+                    (<$T>::MIN as i128).unsigned_abs(),
+                )
+            } else {
+                (quantity.unsafe_value as u128, <$T>::MAX as u128)
+            };
+            let scaled = scale_magnitude(magnitude, num as u128, den as u128);
+            assert!(scaled <= limit, "attempt to rescale with overflow");
+            let result = if negative {
+                scaled.wrapping_neg() as $T
             } else {
-                // Safe to multiply first
-                (quantity.unsafe_value * num) / den
+                scaled as $T
             };
 
             Quantity::<
-- 
2.43.0


From dd6b10a5c31a5be59191eb88b2a0cd7528a3346e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:15 +0000
Subject: [PATCH 15/64] fix: rescaling beyond the power table multiplies out
 (floats) or panics (integers) instead of using a factor of 1

---
 proc-macros/src/pow_lookup_macro.rs | 58 +++++++++++++++++++----------
 src/api.rs                          |  4 +-
 src/scale_conversion.rs             | 14 +++++++
 3 files changed, 55 insertions(+), 21 deletions(-)

diff --git a/proc-macros/src/pow_lookup_macro.rs b/proc-macros/src/pow_lookup_macro.rs
index 3c99528..a4e1d3a 100644
--- a/proc-macros/src/pow_lookup_macro.rs
+++ b/proc-macros/src/pow_lookup_macro.rs
@@ -71,12 +71,16 @@ impl PowLookupInput {
         let mut match_arms = Vec::new();
 
         for exp in range_start..=range_end {
+            // Powers that do not fit in an i128 are left to the default case
+            let Some(power) = base_to_power(base, exp.abs()) else {
+                continue;
+            };
             let (num, den) = if exp >= 0 {
                 // For positive exponents: (base^exp, 1)
-                (base_to_power(base, exp), quote! { 1 })
+                (power, quote! { 1 })
             } else {
                 // For negative exponents: (1, base^|exp|)
-                (quote! { 1 }, base_to_power(base, -exp))
+                (quote! { 1 }, power)
             };
 
             match_arms.push(quote! {
@@ -86,7 +90,7 @@ impl PowLookupInput {
 
         // Add default case
         match_arms.push(quote! {
-            _ => (1, 1), // fallback for out-of-range values
+            _ => panic!("scale exponent out of range for integer rescaling"),
         });
 
         let func_name = &self.name;
@@ -125,7 +129,16 @@ impl PowLookupInput {
 
         // Add default case
         match_arms.push(quote! {
-            _ => 1.0, // fallback for out-of-range values
+            // out of range of the table: multiply it out
+            _ => {
+                let mut power = 1.0;
+                let mut remaining = exp.unsigned_abs();
+                while remaining > 0 {
+                    power *= #base;
+                    remaining -= 1;
+                }
+                if exp < 0 { 1.0 / power } else { power }
+            }
         });
 
         let func_name = &self.name;
@@ -140,19 +153,17 @@ impl PowLookupInput {
     }
 }
 
-/// Convert a base expression to a power expression for rational numbers
-fn base_to_power(base: &Expr, exp: i32) -> proc_macro2::TokenStream {
-    match exp {
-        0 => quote! { 1 },
-        1 => quote! { #base },
-        _ => {
-            let mut result = quote! { #base };
-            for _ in 1..exp {
-                result = quote! { #result * #base };
-            }
-            result
-        }
-    }
+/// Raise an integer base to a power for rational numbers, if the power fits in an i128
+fn base_to_power(base: &Expr, exp: i32) -> Option<proc_macro2::TokenStream> {
+    let Expr::Lit(syn::ExprLit {
+        lit: syn::Lit::Int(base),
+        ..
+    }) = base
+    else {
+        panic!("the base of a rational lookup must be an integer literal");
+    };
+    let power = base.base10_parse::<i128>().ok()?.checked_pow(exp as u32)?;
+    Some(quote! { #power })
 }
 
 /// Convert a base expression to a power expression for float numbers
@@ -240,7 +251,7 @@ impl PiPowLookupInput {
 
         // Add default case
         match_arms.push(quote! {
-            _ => (1, 1), // fallback for out-of-range values
+            _ => panic!("scale exponent out of range for integer rescaling"),
         });
 
         let func_name = &self.name;
@@ -292,7 +303,16 @@ impl PiPowLookupInput {
 
         // Add default case
         match_arms.push(quote! {
-            _ => 1.0, // fallback for out-of-range values
+            // out of range of the table: multiply it out
+            _ => {
+                let mut power = 1.0;
+                let mut remaining = exp.unsigned_abs();
+                while remaining > 0 {
+                    power *= core::f64::consts::PI;
+                    remaining -= 1;
+                }
+                if exp < 0 { 1.0 / power } else { power }
+            }
         });
 
         let func_name = &self.name;
diff --git a/src/api.rs b/src/api.rs
index 2b7ae30..d3a4b3e 100644
--- a/src/api.rs
+++ b/src/api.rs
@@ -161,8 +161,8 @@ define_aggregate_scale_factor_rational!(
         let (num_pi, den_pi) = pow_pi(diff_scale_pi as i32);
     ),
     // num and den expressions
-    (num2 * num3 * num5 * num_pi),
-    (den2 * den3 * den5 * den_pi),
+    (checked_product([num2, num3, num5, num_pi])),
+    (checked_product([den2, den3, den5, den_pi])),
 );
 
 define_aggregate_scale_factor_float!(
diff --git a/src/scale_conversion.rs b/src/scale_conversion.rs
index 42f3373..7424c62 100644
--- a/src/scale_conversion.rs
+++ b/src/scale_conversion.rs
@@ -64,6 +64,20 @@ macro_rules! define_aggregate_scale_factor_float {
     }
 }
 
+/// Product of the prime-power factors of a conversion ratio; panics if it does not fit
+pub(crate) const fn checked_product(factors: [i128; 4]) -> i128 {
+    let mut product: i128 = 1;
+    let mut i = 0;
+    while i < factors.len() {
+        product = match product.checked_mul(factors[i]) {
+            Some(product) => product,
+            None => panic!("scale exponent out of range for integer rescaling"),
+        };
+        i += 1;
+    }
+    product
+}
+
 /// Reduce a rational number to its simplest form using bit-shift based GCD
 /// Returns (reduced_numerator, reduced_denominator)
 pub const fn reduce_rational(num: i128, den: i128) -> (i128, i128) {
-- 
2.43.0


From f053845fb62fc1f0972672b5fda1d7666cb47752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:37 +0000
Subject: [PATCH 16/64] fix: integer rescale no longer loops (near) endlessly
 reducing an even numerator against an odd denominator

---
 src/scale_conversion.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/scale_conversion.rs b/src/scale_conversion.rs
index 7424c62..49eb83f 100644
--- a/src/scale_conversion.rs
+++ b/src/scale_conversion.rs
@@ -92,10 +92,10 @@ pub const fn reduce_rational(num: i128, den: i128) -> (i128, i128) {
     let mut num_u = num.unsigned_abs();
     let mut den_u = den.unsigned_abs();
 
-    // Remove common factors of 2 using bit shifts
+    // Remove factors of 2 using bit shifts, keeping count of the common ones
     let common_twos = (num_u | den_u).trailing_zeros();
-    num_u >>= common_twos;
-    den_u >>= common_twos;
+    num_u >>= num_u.trailing_zeros();
+    den_u >>= den_u.trailing_zeros();
 
     // Now both are odd, so we can use the odd-odd case of binary GCD
     while num_u != den_u {
@@ -109,8 +109,8 @@ pub const fn reduce_rational(num: i128, den: i128) -> (i128, i128) {
         }
     }
 
-    // num_u == den_u now, and both are odd, so this is the GCD
-    let gcd = num_u;
+    // num_u == den_u now, and both are odd, so this is the odd part of the GCD
+    let gcd = num_u << common_twos;
 
     // Divide both by the GCD to get reduced form
     let reduced_num = num / (gcd as i128);
-- 
2.43.0


From c2d60cd257bd2bd647d4bacde69c2e1d9787b79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:49 +0000
Subject: [PATCH 17/64] fix: declarator methods and type aliases of hectare,
 liter and stokes carry the unit's scale

---
 .../src/generate_default_declarators_macro.rs | 29 +++++--------------
 1 file changed, 7 insertions(+), 22 deletions(-)

diff --git a/proc-macros/src/generate_default_declarators_macro.rs b/proc-macros/src/generate_default_declarators_macro.rs
index f61f445..18b776a 100644
--- a/proc-macros/src/generate_default_declarators_macro.rs
+++ b/proc-macros/src/generate_default_declarators_macro.rs
@@ -351,14 +351,8 @@ impl DefaultDeclaratorsInput {
                 let unit_suffix = whippyunits_core::make_plural(unit.name);
                 let base_fn_name = unit_suffix.to_string();
 
-                // Calculate scale factors for base unit
-                let (base_p2, base_p3, base_p5, base_pi) = if dimension.name == "Mass" {
-                    // Gram has inherent -3 scale factor
-                    (-3i16, 0i16, -3i16, 0i16)
-                } else {
-                    // Other units have 0 inherent scale factor
-                    (0i16, 0i16, 0i16, 0i16)
-                };
+                // The base unit has its own scale (e.g. 10^-3 for gram and liter, 10^4 for hectare)
+                let (base_p2, base_p3, base_p5, base_pi) = Self::extract_scale_factors(unit);
 
                 let base_scale_name_ident = syn::parse_str::<Ident>(&base_scale_name).unwrap();
                 let base_fn_name_ident = syn::parse_str::<Ident>(&base_fn_name).unwrap();
@@ -374,20 +368,11 @@ impl DefaultDeclaratorsInput {
                     // For function names, use the plural form
                     let fn_name = format!("{}{}", prefix.name(), unit_suffix);
 
-                    // Calculate scale factors
-                    let (p2, p3, p5, pi) = if dimension.name == "Mass" {
-                        // Gram has inherent -3 scale factor, so we add the prefix scale factor
-                        let total_scale = -3 + prefix.factor_log10();
-                        (total_scale as i16, 0i16, total_scale as i16, 0i16)
-                    } else {
-                        // Other units have 0 inherent scale factor
-                        (
-                            prefix.factor_log10() as i16,
-                            0i16,
-                            prefix.factor_log10() as i16,
-                            0i16,
-                        )
-                    };
+                    // The prefix multiplies the scale of the base unit
+                    let p2 = base_p2 + prefix.factor_log10();
+                    let p3 = base_p3;
+                    let p5 = base_p5 + prefix.factor_log10();
+                    let pi = base_pi;
 
                     let scale_name_ident = syn::parse_str::<Ident>(&scale_name).unwrap();
                     let fn_name_ident = syn::parse_str::<Ident>(&fn_name).unwrap();
-- 
2.43.0


From ea63c8270958024e0c3ff52896545ee7fbc61a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:41 +0000
Subject: [PATCH 18/64] fix: quantity! and value! respect an implicit exponent
 on a non-storage unit (ft2 was read as ft)

---
 proc-macros/src/quantity_macro.rs | 3 ++-
 proc-macros/src/value_macro.rs    | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/proc-macros/src/quantity_macro.rs b/proc-macros/src/quantity_macro.rs
index 115ed38..44c836e 100644
--- a/proc-macros/src/quantity_macro.rs
+++ b/proc-macros/src/quantity_macro.rs
@@ -63,7 +63,8 @@ impl QuantityMacroInput {
                 // The declarators know neither an explicit storage type nor a brand
                 let is_default = self.storage_type.is_none() && self.brand_type.is_none();
 
-                if (is_nonstorage || is_affine) && is_default {
+                // ... nor an implicit exponent (`ft2`)
+                if (is_nonstorage || is_affine) && is_default && unit.exponent == 1 {
                     // Dispatch to appropriate declarator (handles conversion internally)
                     let expanded = self.expand_with_declarator(unit_info);
                     return quote! {
diff --git a/proc-macros/src/value_macro.rs b/proc-macros/src/value_macro.rs
index 8a7213a..57cdc02 100644
--- a/proc-macros/src/value_macro.rs
+++ b/proc-macros/src/value_macro.rs
@@ -58,7 +58,7 @@ impl ValueMacroInput {
         // Check if this is a simple atomic unit that's affine
         let is_affine = if let UnitExpr::Unit(unit) = &self.unit_expr {
             if let Some(unit_info) = get_unit_info(&unit.name.to_string()) {
-                unit_info.affine_offset != 0.0
+                unit_info.affine_offset != 0.0 && unit.exponent == 1
             } else {
                 false
             }
-- 
2.43.0


From 4ce2f9f21383f7b01adfe0ea551d619e4b0fdd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:41 +0000
Subject: [PATCH 19/64] fix: serialized quantities keep their scale and name
 the coherent unit in parseable form

---
 src/print/name_lookup.rs | 48 +++++++++++++++++++++++++++-------------
 src/serialization.rs     | 18 ++++++++++++---
 2 files changed, 48 insertions(+), 18 deletions(-)

diff --git a/src/print/name_lookup.rs b/src/print/name_lookup.rs
index de11179..001353f 100644
--- a/src/print/name_lookup.rs
+++ b/src/print/name_lookup.rs
@@ -1,5 +1,6 @@
 use crate::alloc::{String, ToString, Vec};
 use whippyunits_core::{
+    dimension_exponents::DynDimensionExponents,
     scale_exponents::ScaleExponents,
     storage_unit::{
         DimensionNames as CoreDimensionNames, generate_systematic_composite_unit_name,
@@ -35,7 +36,7 @@ pub fn generate_systematic_unit_name_with_format(
         return "?".to_string();
     }
 
-    let dimension_exponents = whippyunits_core::dimension_exponents::DynDimensionExponents([
+    let dimension_exponents = DynDimensionExponents([
         exponents[0],
         exponents[1],
         exponents[2],
@@ -46,25 +47,42 @@ pub fn generate_systematic_unit_name_with_format(
         exponents[7],
     ]);
 
-    // Use the centralized logic from whippyunits-core
-    let base_result = generate_systematic_composite_unit_name(dimension_exponents, long_name);
-
-    // Apply format-specific transformations
     match format {
-        crate::print::prettyprint::UnitFormat::Unicode => base_result,
-        crate::print::prettyprint::UnitFormat::Ucum => {
-            // Convert Unicode format to UCUM format
-            convert_unicode_to_ucum_format(&base_result)
+        // Use the centralized logic from whippyunits-core
+        crate::print::prettyprint::UnitFormat::Unicode => {
+            generate_systematic_composite_unit_name(dimension_exponents, long_name)
         }
+        crate::print::prettyprint::UnitFormat::Ucum => coherent_ucum_unit(dimension_exponents),
     }
 }
 
-/// Convert Unicode format unit string to UCUM format
-fn convert_unicode_to_ucum_format(unicode_unit: &str) -> String {
-    // This is a simplified conversion - in practice, you might need more sophisticated logic
-    // For now, just return the unicode format as-is since the core logic already handles
-    // the basic formatting correctly
-    unicode_unit.to_string()
+/// Coherent SI unit in (ASCII) UCUM format, e.g. `kg.m2/s3/A`
+fn coherent_ucum_unit(exponents: DynDimensionExponents) -> String {
+    const SYMBOLS: [&str; 8] = ["kg", "m", "s", "A", "K", "mol", "cd", "rad"];
+
+    let mut numerator = String::new();
+    let mut denominator = String::new();
+    for (symbol, &exponent) in SYMBOLS.iter().zip(exponents.0.iter()) {
+        let part = match exponent {
+            0 => continue,
+            1.. => &mut numerator,
+            _ => &mut denominator,
+        };
+        if exponent < 0 {
+            part.push('/');
+        } else if !part.is_empty() {
+            part.push('.');
+        }
+        part.push_str(symbol);
+        if exponent.unsigned_abs() != 1 {
+            part.push_str(&exponent.unsigned_abs().to_string());
+        }
+    }
+
+    if numerator.is_empty() {
+        numerator.push('1');
+    }
+    numerator + &denominator
 }
 
 pub type DimensionNames = CoreDimensionNames;
diff --git a/src/serialization.rs b/src/serialization.rs
index eefb8a0..4ac0f11 100644
--- a/src/serialization.rs
+++ b/src/serialization.rs
@@ -59,7 +59,7 @@ use syn::parse_str;
 
 use serde::{Deserialize, Deserializer, Serialize, Serializer, de::Visitor};
 
-/// Convert a whippyunits quantity to UCUM unit string
+/// Convert a whippyunits quantity to the UCUM string of the coherent SI unit of its dimension
 pub fn to_ucum_unit<
     const MASS_EXPONENT: i16,
     const LENGTH_EXPONENT: i16,
@@ -106,6 +106,12 @@ where
     generate_systematic_unit_name_with_format(exponents, false, UnitFormat::Ucum)
 }
 
+/// Numeric value in the coherent SI unit that [`to_ucum_unit`] names
+fn coherent_value<T: Into<f64>>(value: T, scale: ScaleExponents) -> f64 {
+    let [p2, p3, p5, pi] = scale.0;
+    value.into() * aggregate_scale_factor_float(p2, p3, p5, pi, 0, 0, 0, 0)
+}
+
 /// Errors that can occur during UCUM serialization/deserialization
 #[derive(Debug, Clone, PartialEq)]
 pub enum UcumError {
@@ -249,7 +255,10 @@ where
     {
         use serde::ser::SerializeMap;
 
-        let value = self.unsafe_value.into();
+        let value = coherent_value(
+            self.unsafe_value,
+            ScaleExponents([SCALE_P2, SCALE_P3, SCALE_P5, SCALE_PI]),
+        );
         // Create a temporary quantity with Brand = () to pass to to_ucum_unit
         // (Brand is a phantom type and doesn't affect unit calculation)
         let temp_value = self.unsafe_value; // T: Copy from trait bounds
@@ -593,7 +602,10 @@ pub fn serialize_to_json<
 where
     T: Into<f64> + Copy,
 {
-    let value = quantity.unsafe_value.into();
+    let value = coherent_value(
+        quantity.unsafe_value,
+        ScaleExponents([SCALE_P2, SCALE_P3, SCALE_P5, SCALE_PI]),
+    );
     let unit = to_ucum_unit(quantity);
     serde_json::to_string(&serde_json::json!({
         "value": value,
-- 
2.43.0


From 68ec5731cbc563135c4fd63fead4c33170b31489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:41 +0000
Subject: [PATCH 20/64] fix: strings with no space after the number but spaces
 in the unit ("5m / s") are read

---
 src/serialization.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/serialization.rs b/src/serialization.rs
index 4ac0f11..c90e706 100644
--- a/src/serialization.rs
+++ b/src/serialization.rs
@@ -995,14 +995,13 @@ pub fn parse_string_input(string: &str) -> Result<(f64, String), SerializationEr
 
     if parts.len() >= 2 {
         // Space-separated format: "5.0 m"
-        let value: f64 = parts[0].parse().map_err(|e| {
-            SerializationError::ParseError(format!("Failed to parse value as f64: {}", e))
-        })?;
-        let unit_str = parts[1..].join(" "); // Join remaining parts in case unit has spaces
-        return Ok((value, unit_str));
+        if let Ok(value) = parts[0].parse::<f64>() {
+            let unit_str = parts[1..].join(" "); // Join remaining parts in case unit has spaces
+            return Ok((value, unit_str));
+        }
     }
 
-    // No space found - try to parse by finding the boundary between number and unit
+    // No space after the number ("5.0m", "5.0m / s") - find the boundary between number and unit
     // Find the longest valid numeric prefix by trying all possible prefixes
     let chars: Vec<char> = trimmed.chars().collect();
     let mut end_of_number = 0;
@@ -1017,6 +1016,13 @@ pub fn parse_string_input(string: &str) -> Result<(f64, String), SerializationEr
         // (e.g., "5.0e" fails but "5.0e-3" succeeds)
     }
 
+    if end_of_number == 0 && parts.len() >= 2 {
+        return Err(SerializationError::ParseError(format!(
+            "Failed to parse value as f64: {}",
+            parts[0]
+        )));
+    }
+
     if end_of_number == 0 || end_of_number >= chars.len() {
         return Err(SerializationError::InvalidFormat(format!(
             "Could not parse value and unit from '{}'",
-- 
2.43.0


From 8ce6f407644895dfb4664ffb79f8dff655942464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:41 +0000
Subject: [PATCH 21/64] fix: a comment in a unit string ("5 m//s") is an error
 rather than dropped

---
 src/serialization.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/serialization.rs b/src/serialization.rs
index c90e706..ad3ff4d 100644
--- a/src/serialization.rs
+++ b/src/serialization.rs
@@ -626,6 +626,13 @@ pub fn parse_ucum_unit(ucum_string: &str) -> Result<UnitDimensions, UcumError> {
         ));
     }
 
+    // The tokenizer drops comments, but `m//s` is not a way to write `m`
+    if ucum_string.contains("//") || ucum_string.contains("/*") {
+        return Err(UcumError::UnknownDimension(DynDimensionExponents(
+            [0, 0, 0, 0, 0, 0, 0, 0],
+        )));
+    }
+
     // Convert the string to a TokenStream for parsing
     let token_stream: TokenStream = parse_str(ucum_string).map_err(|_| {
         UcumError::UnknownDimension(DynDimensionExponents([0, 0, 0, 0, 0, 0, 0, 0]))
-- 
2.43.0


From c738bb33d21dcd13dd73fa362a6b6305b57d2707 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:01:09 +0000
Subject: [PATCH 22/64] fix: erasing a wide integer ratio into another integer
 type keeps every digit

---
 src/quantity.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/quantity.rs b/src/quantity.rs
index fffdd81..ebcac57 100644
--- a/src/quantity.rs
+++ b/src/quantity.rs
@@ -695,7 +695,10 @@ macro_rules! define_from_dimensionless_cross_type {
             ) -> $target_type {
                 // Convert to float first, then apply rescale logic, then convert to target type
                 if SCALE_P2 == 0 && SCALE_P3 == 0 && SCALE_P5 == 0 && SCALE_PI == 0 {
-                    (other.unsafe_value as f64) as $target_type
+                    // Exact whenever the value fits the target type, saturating otherwise
+                    // (a detour through f64 would lose the low digits of wide integers)
+                    <$target_type as num_traits::NumCast>::from(other.unsafe_value)
+                        .unwrap_or((other.unsafe_value as f64) as $target_type)
                 } else {
                     // Convert to f64 quantity first, then apply rescale logic
                     let f64_quantity = Quantity::<
-- 
2.43.0


From a98643bf2fe882383c6eeacecb1e943b96b8a3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:08 +0000
Subject: [PATCH 23/64] fix: rescaling namespaces apply every chosen base unit
 to compound units

---
 proc-macros/src/local_unit_type_macro.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/proc-macros/src/local_unit_type_macro.rs b/proc-macros/src/local_unit_type_macro.rs
index 29ec65e..fc07c05 100644
--- a/proc-macros/src/local_unit_type_macro.rs
+++ b/proc-macros/src/local_unit_type_macro.rs
@@ -18,8 +18,9 @@ fn scale_type_to_actual_unit_symbol(scale_type: &str) -> Option<String> {
     use whippyunits_core::SiPrefix;
 
     // Try to find a unit that matches the scale type name directly
+    // (scale identifiers are capitalized, like "Minute", unit names are not)
     for unit in Unit::BASES.iter() {
-        if unit.name == scale_type {
+        if unit.name.eq_ignore_ascii_case(scale_type) {
             return Some(unit.symbols[0].to_string());
         }
     }
@@ -27,7 +28,7 @@ fn scale_type_to_actual_unit_symbol(scale_type: &str) -> Option<String> {
     // Try to find in all dimensions
     for dimension in Dimension::ALL {
         for unit in dimension.units {
-            if unit.name == scale_type {
+            if unit.name.eq_ignore_ascii_case(scale_type) {
                 return Some(unit.symbols[0].to_string());
             }
         }
-- 
2.43.0


From d6c3cbbd590acfe64be0dbce53a8e014e2683f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:08 +0000
Subject: [PATCH 24/64] fix: brand-only namespaces read quantity! literals with
 their unit's scale and offset

---
 proc-macros/src/define_unit_declarators_macro.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proc-macros/src/define_unit_declarators_macro.rs b/proc-macros/src/define_unit_declarators_macro.rs
index 3930439..a64045e 100644
--- a/proc-macros/src/define_unit_declarators_macro.rs
+++ b/proc-macros/src/define_unit_declarators_macro.rs
@@ -968,10 +968,10 @@ impl DefineBaseUnitsInput {
                 #[macro_export]
                 macro_rules! #prefixed_macro_name {
                     ($value:expr, $unit:expr) => {
-                        <whippyunits::unit!($unit, f64, #brand_type)>::new($value)
+                        whippyunits::quantity!($value, $unit, f64, #brand_type)
                     };
                     ($value:expr, $unit:expr, $storage_type:ty) => {
-                        <whippyunits::unit!($unit, $storage_type, #brand_type)>::new($value)
+                        whippyunits::quantity!($value, $unit, $storage_type, #brand_type)
                     };
                 }
 
-- 
2.43.0


From 2c4b949245ae3e23f3decb4ef862c90841eb7405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:19 +0000
Subject: [PATCH 25/64] fix: rescaling namespaces accept every spelling and
 non-storage unit that quantity! accepts

---
 proc-macros/src/local_unit_type_macro.rs | 38 ++++++++----------------
 proc-macros/src/utils/shared_utils.rs    |  5 +++-
 2 files changed, 17 insertions(+), 26 deletions(-)

diff --git a/proc-macros/src/local_unit_type_macro.rs b/proc-macros/src/local_unit_type_macro.rs
index fc07c05..7413ab2 100644
--- a/proc-macros/src/local_unit_type_macro.rs
+++ b/proc-macros/src/local_unit_type_macro.rs
@@ -757,32 +757,13 @@ impl LocalQuantityMacroInput {
             return quote_result;
         }
 
-        // Handle as regular unit - first try direct lookup, then try prefixed units
-        let (_unit, dimension) =
-            if let Some((unit, dimension)) = Dimension::find_unit_by_symbol(unit_name) {
-                (unit, dimension)
-            } else if let Some((base_symbol, _prefix)) = is_prefixed_base_unit(unit_name) {
-                // If not found directly, try to find the base unit
-                if let Some((unit, dimension)) = Dimension::find_unit_by_symbol(&base_symbol) {
-                    (unit, dimension)
-                } else {
-                    // Unknown unit, generate error with suggestions
-                    return self.generate_unknown_unit_error(unit_name);
-                }
-            } else if let Some((base_symbol, _prefix)) = is_prefixed_compound_unit(unit_name) {
-                // If not found directly, try to find the base unit
-                if let Some((unit, dimension)) = Dimension::find_unit_by_symbol(&base_symbol) {
-                    (unit, dimension)
-                } else {
-                    // Unknown unit, generate error with suggestions
-                    return self.generate_unknown_unit_error(unit_name);
-                }
-            } else {
-                // Unknown unit, generate error with suggestions
-                return self.generate_unknown_unit_error(unit_name);
-            };
+        // Handle as regular unit - every spelling the unit parser knows (symbols, names, prefixed forms)
+        if unit_name != "dimensionless" && whippyunits_core::get_unit_info(unit_name).is_none() {
+            // Unknown unit, generate error with suggestions
+            return self.generate_unknown_unit_error(unit_name);
+        }
 
-        let dimensions = dimension.exponents;
+        let (dimensions, _scales) = self.evaluate_dimensions();
 
         // Check if it's a simple base unit
         if let Some(scale_ident) = self.get_scale_for_dimensions(dimensions) {
@@ -884,6 +865,13 @@ impl LocalQuantityMacroInput {
             };
         }
 
+        // Affine and non-storage units (like foot) have no declarator type of their own
+        if let Some(storage_type) =
+            crate::utils::shared_utils::get_storage_unit_type_for_unit(unit_name)
+        {
+            return storage_type;
+        }
+
         // First, try to use the shared helper for units that don't get transformed in local context
         if let Some(shared_type) =
             crate::utils::shared_utils::get_declarator_type_for_unit(unit_name)
diff --git a/proc-macros/src/utils/shared_utils.rs b/proc-macros/src/utils/shared_utils.rs
index 17ec829..70c3e4f 100644
--- a/proc-macros/src/utils/shared_utils.rs
+++ b/proc-macros/src/utils/shared_utils.rs
@@ -98,7 +98,10 @@ pub fn get_declarator_type_for_exponents(
     // Look for a unit in this dimension that matches the scale exponents
     // We need to find a unit that has the same scale exponents
     for unit in matching_dimension.units {
-        if unit.scale == scale_exponents {
+        if unit.scale == scale_exponents
+            && unit.conversion_factor == 1.0
+            && unit.affine_offset == 0.0
+        {
             // Found a matching unit - generate type name using same logic as default declarators
             let type_name = if unit.system == System::Metric {
                 // For metric units, use the same logic as generate_default_declarators_macro
-- 
2.43.0


From e9dfd15a85041092394c139b0159037e396bd9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:19 +0000
Subject: [PATCH 26/64] fix: rescaling namespaces can use attosecond (symbol
 as, a keyword) as their base time unit

---
 proc-macros/src/local_unit_type_macro.rs | 14 +++++++-------
 proc-macros/src/utils/lift_trace.rs      |  2 +-
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/proc-macros/src/local_unit_type_macro.rs b/proc-macros/src/local_unit_type_macro.rs
index 7413ab2..a71ae20 100644
--- a/proc-macros/src/local_unit_type_macro.rs
+++ b/proc-macros/src/local_unit_type_macro.rs
@@ -650,7 +650,7 @@ impl LocalQuantityMacroInput {
     /// Generate a quote! block for a compound unit with the given unit expression
     fn generate_compound_unit_quote(
         &self,
-        unit_expr_parsed: &syn::Expr,
+        unit_expr_parsed: &TokenStream,
         storage_type: &Type,
         brand_type: &Type,
         lift_trace_doc_shadows: &TokenStream,
@@ -726,8 +726,8 @@ impl LocalQuantityMacroInput {
             if let Some((_unit, dimension)) = Dimension::find_unit_by_symbol(&base_symbol) {
                 let dimensions = dimension.exponents;
                 let unit_expr = self.generate_unit_expression_from_dimensions(dimensions);
-                let unit_expr_parsed = syn::parse_str::<syn::Expr>(&unit_expr)
-                    .unwrap_or_else(|_| syn::parse_str::<syn::Expr>(&base_symbol).unwrap());
+                let unit_expr_parsed = syn::parse_str::<TokenStream>(&unit_expr)
+                    .unwrap_or_else(|_| syn::parse_str::<TokenStream>(&base_symbol).unwrap());
                 return Some(self.generate_compound_unit_quote(
                     &unit_expr_parsed,
                     storage_type,
@@ -776,8 +776,8 @@ impl LocalQuantityMacroInput {
         } else {
             // It's a compound unit - generate the unit expression
             let unit_expr = self.generate_unit_expression_from_dimensions(dimensions);
-            let unit_expr_parsed = syn::parse_str::<syn::Expr>(&unit_expr)
-                .unwrap_or_else(|_| syn::parse_str::<syn::Expr>(unit_name).unwrap());
+            let unit_expr_parsed = syn::parse_str::<TokenStream>(&unit_expr)
+                .unwrap_or_else(|_| syn::parse_str::<TokenStream>(unit_name).unwrap());
             self.generate_compound_unit_quote(
                 &unit_expr_parsed,
                 storage_type,
@@ -807,9 +807,9 @@ impl LocalQuantityMacroInput {
         } else {
             // It's a compound unit - generate the unit expression using local base units
             let unit_expr = self.generate_unit_expression_from_dimensions(dimensions);
-            let unit_expr_parsed = syn::parse_str::<syn::Expr>(&unit_expr).unwrap_or_else(|_| {
+            let unit_expr_parsed = syn::parse_str::<TokenStream>(&unit_expr).unwrap_or_else(|_| {
                 // If parsing fails, fall back to a generic unit expression
-                syn::parse_str::<syn::Expr>("m").unwrap()
+                syn::parse_str::<TokenStream>("m").unwrap()
             });
             self.generate_compound_unit_quote(
                 &unit_expr_parsed,
diff --git a/proc-macros/src/utils/lift_trace.rs b/proc-macros/src/utils/lift_trace.rs
index b8d620e..5265a2b 100644
--- a/proc-macros/src/utils/lift_trace.rs
+++ b/proc-macros/src/utils/lift_trace.rs
@@ -226,7 +226,7 @@ impl<'a> QuoteGenerator<'a> {
         }
     }
 
-    pub fn generate_for_compound_unit(&self, unit_expr_parsed: &syn::Expr) -> TokenStream {
+    pub fn generate_for_compound_unit(&self, unit_expr_parsed: &TokenStream) -> TokenStream {
         let lift_trace_doc_shadows = self.lift_trace_doc_shadows;
         let storage_type = self.storage_type;
         let brand_type = self.brand_type;
-- 
2.43.0


From 9d72d626c74fe2675427e96b8b7d648517524d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:04 +0000
Subject: [PATCH 27/64] fix: generic dimension expressions accept negative
 exponents, as documented

---
 proc-macros/src/define_generic_dimension_macro.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/proc-macros/src/define_generic_dimension_macro.rs b/proc-macros/src/define_generic_dimension_macro.rs
index f3c8c3b..0679064 100644
--- a/proc-macros/src/define_generic_dimension_macro.rs
+++ b/proc-macros/src/define_generic_dimension_macro.rs
@@ -54,7 +54,13 @@ impl DimensionExpr {
 
         if input.peek(Caret) {
             let _caret: Caret = input.parse()?;
-            let exponent: LitInt = input.parse()?;
+            // Exponents may be negative, like T^-1
+            let minus: Option<Token![-]> = input.parse()?;
+            let mut exponent: LitInt = input.parse()?;
+            if minus.is_some() {
+                let negated = format!("-{}", exponent.base10_digits());
+                exponent = LitInt::new(&negated, exponent.span());
+            }
             Ok(DimensionExpr::Pow(Box::new(base), exponent))
         } else {
             Ok(base)
-- 
2.43.0


From 1a8c32290d5f187c3bb5871d40d3f46e4efd0af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:04 +0000
Subject: [PATCH 28/64] =?UTF-8?q?fix:=20generic=20dimension=20expressions?=
 =?UTF-8?q?=20accept=20the=20documented=20symbols=20=CE=98=20and=20J?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 proc-macros/src/define_generic_dimension_macro.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/proc-macros/src/define_generic_dimension_macro.rs b/proc-macros/src/define_generic_dimension_macro.rs
index 0679064..bdbc5af 100644
--- a/proc-macros/src/define_generic_dimension_macro.rs
+++ b/proc-macros/src/define_generic_dimension_macro.rs
@@ -8,6 +8,16 @@ use whippyunits_core::Dimension;
 
 use crate::utils::dimension_suggestions::find_similar_dimensions;
 
+/// Find a dimension by name or symbol, including the documented single-character symbols
+/// that differ from the ones in the dimension table
+fn find_dimension(name_or_symbol: &str) -> Option<&'static Dimension> {
+    Dimension::find_dimension(match name_or_symbol {
+        "Θ" => "Temperature",
+        "J" => "Luminosity",
+        other => other,
+    })
+}
+
 // Parse dimension expressions like "Length / Time", "L / T", or "Mass * Length^2 / Time^2", "M * L^2 / T^2"
 pub enum DimensionExpr {
     Dimension(Ident),
@@ -121,7 +131,7 @@ impl DimensionExpr {
                 let name_or_symbol = ident.to_string();
 
                 // Look up dimension by name or symbol using direct API
-                if let Some(dim_info) = Dimension::find_dimension(&name_or_symbol) {
+                if let Some(dim_info) = find_dimension(&name_or_symbol) {
                     return (
                         dim_info.exponents.0[0], // mass
                         dim_info.exponents.0[1], // length
@@ -428,7 +438,7 @@ impl DefineGenericDimensionInput {
     /// Check if a dimension name is valid
     fn is_valid_dimension(dimension_name: &str) -> bool {
         // Check if it's a direct dimension match
-        Dimension::find_dimension(dimension_name).is_some()
+        find_dimension(dimension_name).is_some()
     }
 
     /// Generate error message with suggestions for an unknown dimension
-- 
2.43.0


From 793452c5bca89eb560d8308318c850359ae04ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:18 +0000
Subject: [PATCH 29/64] =?UTF-8?q?fix:=20generic=20dimension=20expressions?=
 =?UTF-8?q?=20no=20longer=20panic=20on=20an=20implicit=20exponent=20after?=
 =?UTF-8?q?=20=CE=98?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 proc-macros/src/define_generic_dimension_macro.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proc-macros/src/define_generic_dimension_macro.rs b/proc-macros/src/define_generic_dimension_macro.rs
index bdbc5af..cac4375 100644
--- a/proc-macros/src/define_generic_dimension_macro.rs
+++ b/proc-macros/src/define_generic_dimension_macro.rs
@@ -99,7 +99,7 @@ impl DimensionExpr {
 
             // Check for implicit exponent notation (UCUM format like "L2" instead of "L^2")
             let ident_str = ident.to_string();
-            if let Some(pos) = ident_str.chars().position(|c| c.is_ascii_digit()) {
+            if let Some(pos) = ident_str.find(|c: char| c.is_ascii_digit()) {
                 let base_name = &ident_str[..pos];
                 let exp_str = &ident_str[pos..];
                 if let Ok(exp) = exp_str.parse::<i16>() {
-- 
2.43.0


From 2e5933b26d80c0a635609146c0e64a3a394d8178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:39 +0000
Subject: [PATCH 30/64] fix: a unit named in printed text must have exactly the
 type's scale

60/s was displayed as Hz: when no unit of a dimension had the type's scale,
the coherent unit's name was returned as if it matched.
---
 whippyunits-core/src/storage_unit.rs | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/whippyunits-core/src/storage_unit.rs b/whippyunits-core/src/storage_unit.rs
index 693547d..aa965d8 100644
--- a/whippyunits-core/src/storage_unit.rs
+++ b/whippyunits-core/src/storage_unit.rs
@@ -251,23 +251,14 @@ pub fn lookup_unit_literal_by_scale_factors(
     ]);
 
     if let Some(dimension) = Dimension::find_dimension_by_exponents(dyn_exponents) {
-        // First, try to find a unit that matches the exact scale factors
-        // This is the preferred approach - use exact matches when possible
-        if let Some(exact_unit) = dimension.units.iter().find(|unit| {
-            unit.scale == scale_factors && unit.conversion_factor == 1.0 // Only consider pure SI units, not imperial units
-        }) {
-            return Some(if long_name {
-                exact_unit.name
-            } else {
-                exact_unit.symbols[0]
-            });
-        }
-
-        // If no exact match found, fall back to base unit (identity scale)
+        // Only a unit with exactly these scale factors names the type; anything else needs an
+        // explicit scale factor or prefix, which the caller adds
         dimension
             .units
             .iter()
-            .find(|unit| unit.scale == ScaleExponents::IDENTITY && unit.conversion_factor == 1.0)
+            .find(|unit| {
+                unit.scale == scale_factors && unit.conversion_factor == 1.0 // Only consider pure SI units, not imperial units
+            })
             .map(|unit| {
                 if long_name {
                     unit.name
-- 
2.43.0


From 27d7d14f06adc4b201611407f8d3c104d845bde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:00 +0000
Subject: [PATCH 31/64] fix: printed compound units account for the type's
 scale exactly once
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

60 m/s was displayed as m·min⁻¹, and 3600 s² as h²: a unit was matched to
the total scale without regard to its exponent, and possibly in several
dimensions.
---
 whippyunits-core/src/storage_unit.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/whippyunits-core/src/storage_unit.rs b/whippyunits-core/src/storage_unit.rs
index aa965d8..a1dead6 100644
--- a/whippyunits-core/src/storage_unit.rs
+++ b/whippyunits-core/src/storage_unit.rs
@@ -598,6 +598,7 @@ pub fn generate_systematic_composite_unit_name_with_scale(
     // Generate unit parts for each dimension using simple string concatenation
     let mut result = String::new();
     let mut first = true;
+    let mut scale_matched = false;
 
     for (index, &exp) in exponents.iter().enumerate() {
         if exp == 0 {
@@ -610,12 +611,22 @@ pub fn generate_systematic_composite_unit_name_with_scale(
             if let Some(dimension) = Dimension::BASIS.get(index) {
                 // If scale factors are provided, try to find a matching unit
                 let matched_unit = if let Some(scale) = scale_factors {
-                    // For compound units, try to match the aggregate scale factors
-                    // This works when the scale factors come from a single dimension (e.g., deg/m where deg has the scale)
+                    // Try to match the aggregate scale factors, which may come from a single
+                    // dimension (e.g., deg/m where deg has the scale). The unit is raised to this
+                    // dimension's exponent, and must account for the scale only once.
                     dimension
                         .units
                         .iter()
-                        .find(|unit| unit.scale == scale && unit.conversion_factor == 1.0)
+                        .find(|unit| {
+                            !scale_matched
+                                && unit.conversion_factor == 1.0
+                                && unit.scale.0.iter().zip(scale.0.iter()).all(
+                                    |(&unit_exp, &total_exp)| {
+                                        unit_exp as i32 * exp as i32 == total_exp as i32
+                                    },
+                                )
+                        })
+                        .inspect(|_| scale_matched = scale != ScaleExponents::IDENTITY)
                         // If no exact match, try identity scale (for cases like deg/m where meter has identity scale)
                         .or_else(|| {
                             if scale == ScaleExponents::IDENTITY {
-- 
2.43.0


From c43f74e0fc5483cca56ff797988c880c0447934f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:00 +0000
Subject: [PATCH 32/64] fix: powers of mass are printed in kilograms, not grams
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

kg² was displayed as g².
---
 whippyunits-core/src/storage_unit.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/whippyunits-core/src/storage_unit.rs b/whippyunits-core/src/storage_unit.rs
index a1dead6..a21c96b 100644
--- a/whippyunits-core/src/storage_unit.rs
+++ b/whippyunits-core/src/storage_unit.rs
@@ -652,10 +652,10 @@ pub fn generate_systematic_composite_unit_name_with_scale(
                 ("?", "?", 0)
             };
 
-        // For compound units, convert g to kg for mass terms
-        let is_compound_unit = exponents.iter().filter(|&&exp| exp != 0).count() > 1;
+        // For compound units and powers, convert g to kg for mass terms
+        let is_plain_unit = is_pure && exp == 1;
         let (adjusted_unit_name, adjusted_unit_symbol) =
-            if is_compound_unit && base_scale_offset != 0 && index == 0 {
+            if !is_plain_unit && base_scale_offset != 0 && index == 0 {
                 // This is a compound unit with mass dimension (index 0) that has a scale offset
                 if long_name {
                     match unit_name {
-- 
2.43.0


From de753cfbc1dac4796c7344735f959b8afb4ec9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:19 +0000
Subject: [PATCH 33/64] fix: a prefix before any power is printed outside
 parentheses
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

1000 m⁴ was displayed as km⁴, and 1000/m as km⁻¹.
---
 whippyunits-core/src/storage_unit.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/whippyunits-core/src/storage_unit.rs b/whippyunits-core/src/storage_unit.rs
index a21c96b..039a281 100644
--- a/whippyunits-core/src/storage_unit.rs
+++ b/whippyunits-core/src/storage_unit.rs
@@ -371,9 +371,7 @@ pub fn generate_prefixed_systematic_unit(
 
     if let Some(prefix) = get_si_prefix(effective_scale_p10, long_name) {
         // For pure powers of base units, add disambiguating parentheses
-        if !base_unit.contains("·")
-            && (base_unit.contains("^") || base_unit.contains("²") || base_unit.contains("³"))
-        {
+        if !base_unit.contains("·") && is_power(base_unit) {
             format!("{}({})", prefix, base_unit)
         } else {
             format!("{}{}", prefix, base_unit)
@@ -434,11 +432,7 @@ pub fn generate_prefixed_si_unit(
 
     if let Some(prefix) = get_si_prefix(effective_scale_p10, long_name) {
         // For pure powers of base units, add disambiguating parentheses
-        if !base_si_unit.contains("·")
-            && (base_si_unit.contains("^")
-                || base_si_unit.contains("²")
-                || base_si_unit.contains("³"))
-        {
+        if !base_si_unit.contains("·") && is_power(base_si_unit) {
             format!("{}({})", prefix, base_si_unit)
         } else {
             format!("{}{}", prefix, base_si_unit)
@@ -555,6 +549,12 @@ fn format_float_with_sig_figs(value: f64, sig_figs: usize) -> String {
     formatted
 }
 
+/// Whether a unit is written with an exponent, so that a prefix in front of it would be read as
+/// part of what is raised to that power
+fn is_power(unit: &str) -> bool {
+    unit.contains('^') || unit.ends_with(|c: char| "⁰¹²³⁴⁵⁶⁷⁸⁹".contains(c))
+}
+
 /// Get SI prefix for a given power of 10
 fn get_si_prefix(power_of_10: i16, long_name: bool) -> Option<&'static str> {
     SiPrefix::ALL
-- 
2.43.0


From 0b050a0ba611336f535d114966ad9f1f47520f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:09 +0000
Subject: [PATCH 34/64] fix: masses with a scale that is not a power of ten
 print their scale

A type of scale 2 kg was displayed as kg (the gram's own offset was taken for
the whole scale).
---
 whippyunits-core/src/storage_unit.rs | 36 ++++++++++++++++++----------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/whippyunits-core/src/storage_unit.rs b/whippyunits-core/src/storage_unit.rs
index 039a281..25193c2 100644
--- a/whippyunits-core/src/storage_unit.rs
+++ b/whippyunits-core/src/storage_unit.rs
@@ -369,7 +369,11 @@ pub fn generate_prefixed_systematic_unit(
         total_scale_p10
     };
 
-    if let Some(prefix) = get_si_prefix(effective_scale_p10, long_name) {
+    let prefix = scale_factors
+        .log10()
+        .and_then(|_| get_si_prefix(effective_scale_p10, long_name));
+
+    if let Some(prefix) = prefix {
         // For pure powers of base units, add disambiguating parentheses
         if !base_unit.contains("·") && is_power(base_unit) {
             format!("{}({})", prefix, base_unit)
@@ -384,12 +388,14 @@ pub fn generate_prefixed_systematic_unit(
             // Fall back to SI unit with 10^n notation when SI prefix lookup fails
             generate_si_unit_with_scale(effective_scale_p10, base_unit, long_name)
         } else {
-            // Not a pure power of 10, show the scale factors explicitly
+            // Not a pure power of 10, show the scale factors explicitly (relative to a base
+            // unit that may itself be offset from the coherent unit, like the gram)
+            let relative_scale = scale_factors.mul(ScaleExponents::_10(effective_scale_p10));
             let scale_factors_str = format_scale_factors(
-                scale_factors.0[0],
-                scale_factors.0[1],
-                scale_factors.0[2],
-                scale_factors.0[3],
+                relative_scale.0[0],
+                relative_scale.0[1],
+                relative_scale.0[2],
+                relative_scale.0[3],
             );
             if scale_factors_str.is_empty() {
                 base_unit.to_string()
@@ -430,7 +436,11 @@ pub fn generate_prefixed_si_unit(
             }
         };
 
-    if let Some(prefix) = get_si_prefix(effective_scale_p10, long_name) {
+    let prefix = scale_factors
+        .log10()
+        .and_then(|_| get_si_prefix(effective_scale_p10, long_name));
+
+    if let Some(prefix) = prefix {
         // For pure powers of base units, add disambiguating parentheses
         if !base_si_unit.contains("·") && is_power(base_si_unit) {
             format!("{}({})", prefix, base_si_unit)
@@ -445,12 +455,14 @@ pub fn generate_prefixed_si_unit(
             // Fall back to SI unit with 10^n notation when SI prefix lookup fails
             generate_si_unit_with_scale(effective_scale_p10, base_si_unit, long_name)
         } else {
-            // Not a pure power of 10, show the scale factors explicitly
+            // Not a pure power of 10, show the scale factors explicitly (relative to a base
+            // unit that may itself be offset from the coherent unit, like the gram)
+            let relative_scale = scale_factors.mul(ScaleExponents::_10(effective_scale_p10));
             let scale_factors_str = format_scale_factors(
-                scale_factors.0[0],
-                scale_factors.0[1],
-                scale_factors.0[2],
-                scale_factors.0[3],
+                relative_scale.0[0],
+                relative_scale.0[1],
+                relative_scale.0[2],
+                relative_scale.0[3],
             );
             if scale_factors_str.is_empty() {
                 base_si_unit.to_string()
-- 
2.43.0


From d9918cf7cc76c6992e525dcbf2baad9d2715376f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:22 +0000
Subject: [PATCH 35/64] fix: infinite and extreme values are displayed, not
 shown as NaN

---
 src/print/prettyprint.rs             | 9 ++++++++-
 whippyunits-core/src/storage_unit.rs | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/print/prettyprint.rs b/src/print/prettyprint.rs
index 3850bd8..2b06efa 100644
--- a/src/print/prettyprint.rs
+++ b/src/print/prettyprint.rs
@@ -442,12 +442,19 @@ fn format_float_with_sig_figs(value: f64, sig_figs: usize) -> String {
     if value == 0.0 {
         return "0".to_string();
     }
+    if !value.is_finite() {
+        return value.to_string();
+    }
 
     let abs_value = value.abs();
     let magnitude = abs_value.log10().floor() as i32;
     let scale_factor = 10_f64.powi(sig_figs as i32 - 1 - magnitude as i32);
 
-    let rounded = (value * scale_factor).round() / scale_factor;
+    let mut rounded = (value * scale_factor).round() / scale_factor;
+    if !rounded.is_finite() {
+        // Too close to the limits of f64 to be rounded this way
+        rounded = value;
+    }
 
     // Format with appropriate precision
     let formatted = if magnitude >= 0 {
diff --git a/whippyunits-core/src/storage_unit.rs b/whippyunits-core/src/storage_unit.rs
index 25193c2..e15f52c 100644
--- a/whippyunits-core/src/storage_unit.rs
+++ b/whippyunits-core/src/storage_unit.rs
@@ -537,12 +537,19 @@ fn format_float_with_sig_figs(value: f64, sig_figs: usize) -> String {
     if value == 0.0 {
         return "0".to_string();
     }
+    if !value.is_finite() {
+        return value.to_string();
+    }
 
     let abs_value = value.abs();
     let magnitude = abs_value.log10().floor() as i32;
     let scale_factor = 10_f64.powi(sig_figs as i32 - 1 - magnitude as i32);
 
-    let rounded = (value * scale_factor).round() / scale_factor;
+    let mut rounded = (value * scale_factor).round() / scale_factor;
+    if !rounded.is_finite() {
+        // Too close to the limits of f64 to be rounded this way
+        rounded = value;
+    }
 
     // Format with appropriate precision
     let formatted = if magnitude >= 0 {
-- 
2.43.0


From 5af9fa7be6695041158236c37ac069291b41d2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:31 +0000
Subject: [PATCH 36/64] fix: elided and generic parts of a type are not
 displayed as zero exponents

---
 lsp-proxy/src/unit_formatter.rs | 222 +++++++-------------------------
 1 file changed, 49 insertions(+), 173 deletions(-)

diff --git a/lsp-proxy/src/unit_formatter.rs b/lsp-proxy/src/unit_formatter.rs
index 0c6e5c4..5af34a8 100644
--- a/lsp-proxy/src/unit_formatter.rs
+++ b/lsp-proxy/src/unit_formatter.rs
@@ -1,4 +1,4 @@
-use syn::{parse_str, TypePath};
+use syn::{parse_str, GenericArgument, PathArguments, Type, TypePath};
 use whippyunits_core::{
     dimension_exponents::DynDimensionExponents, scale_exponents::ScaleExponents,
 };
@@ -330,199 +330,74 @@ impl UnitFormatter {
 
     /// Parse the new Quantity type format with Scale<...> and Dimension<...> structs
     fn parse_new_quantity_params(&self, quantity_type: &str) -> Option<QuantityParams> {
-        // Parse Scale parameters - handle all possible combinations of defaulted parameters
-        let scale = if quantity_type.contains("Scale<") {
-            // Any Scale format with parameters - handle all combinations of defaulted values
-            let (p2, p3, p5, pi) = self.parse_scale_general_format(quantity_type)?;
-            ScaleExponents([p2, p3, p5, pi])
-        } else if quantity_type.contains("Scale,") {
-            // Truncated format: Scale, or Scale> or Scale, Dimension (all parameters default to 0)
-            ScaleExponents::IDENTITY
-        } else {
-            // Unknown format
-            return None;
-        };
-
-        // Parse Dimension parameters - handle both full format and truncated format
-        let dimensions = if quantity_type.contains("Dimension<_M<") && quantity_type.contains("_A<")
-        {
-            // Full format: Dimension<_M<MASS>, _L<LENGTH>, _T<TIME>, _I<CURRENT>, _Θ<TEMP>, _N<AMOUNT>, _J<LUMINOSITY>, _A<ANGLE>>
-            let (mass, length, time, current, temp, amount, lum, angle) =
-                self.parse_dimension_full_format(quantity_type)?;
-            DynDimensionExponents([mass, length, time, current, temp, amount, lum, angle])
-        } else if quantity_type.contains("Dimension,") || quantity_type.contains("Dimension>") {
-            // Fully defaulted Dimension (dimensionless): Dimension, T or Dimension> T
-            DynDimensionExponents::ZERO
-        } else {
-            // Truncated format: parse only the non-zero parameters
-            // Look for patterns like Dimension<_M<0>, _L<1>> (only non-zero parameters are shown)
-            let (mass, length, time, current, temp, amount, lum, angle) =
-                self.parse_dimension_truncated_format(quantity_type);
-            DynDimensionExponents([mass, length, time, current, temp, amount, lum, angle])
-        };
+        let type_path = parse_str::<TypePath>(quantity_type).ok()?;
+        let args = self.generic_arguments(&type_path);
 
         // Don't apply base scale offset here - let the prettyprint functions handle it
         // The prettyprint functions already have the correct base scale offset logic
-        let adjusted_scale = scale;
+        let scale = ScaleExponents(self.parse_exponents(
+            args.first()?,
+            "Scale",
+            ["_2", "_3", "_5", "_Pi"],
+        )?);
+        let dimensions = DynDimensionExponents(self.parse_exponents(
+            args.get(1)?,
+            "Dimension",
+            ["_M", "_L", "_T", "_I", "_Θ", "_N", "_J", "_A"],
+        )?);
 
         // Extract the actual generic type parameter and brand from the type string
         let (generic_type, brand) = self.extract_generic_type_and_brand(quantity_type);
 
         Some(QuantityParams {
             dimensions,
-            scale: adjusted_scale,
+            scale,
             generic_type,
             brand,
         })
     }
 
-    /// Parse general Scale format: Scale<_2[<P2>], _3[<P3>], _5[<P5>], _Pi[<PI>]>
-    /// Handles all possible combinations of defaulted parameters
-    /// Parameters can be either _2<value> (explicit) or _2 (defaulted to 0)
-    fn parse_scale_general_format(&self, quantity_type: &str) -> Option<(i16, i16, i16, i16)> {
-        let scale_start = quantity_type.find("Scale<")?;
-        let scale_content = &quantity_type[scale_start + 6..]; // Skip "Scale<"
-
-        // Find the end of the Scale struct
-        let scale_end = self.find_matching_bracket(scale_content, 0)?;
-        let scale_params = &scale_content[..scale_end];
-
-        // Parse each parameter, handling both explicit values and defaults
-        let p2 = self.parse_scale_param_with_default(scale_params, "_2");
-        let p3 = self.parse_scale_param_with_default(scale_params, "_3");
-        let p5 = self.parse_scale_param_with_default(scale_params, "_5");
-        let pi = self.parse_scale_param_with_default(scale_params, "_Pi");
-
-        Some((p2, p3, p5, pi))
-    }
-
-    /// Parse a scale parameter that may be either explicit (_2<value>) or defaulted (_2)
-    fn parse_scale_param_with_default(&self, content: &str, prefix: &str) -> i16 {
-        // First try to find explicit value: _2<value>
-        if let Some(value) = self.parse_scale_param(content, &format!("{}<", prefix)) {
-            value
-        } else {
-            // Check if parameter exists in defaulted form: _2 (without <value>)
-            if content.contains(&format!("{},", prefix)) || content.ends_with(prefix) {
-                0 // Default value
-            } else {
-                0 // Parameter not found, default to 0
-            }
+    /// The generic arguments of the last segment of a path
+    fn generic_arguments(&self, type_path: &TypePath) -> Vec<GenericArgument> {
+        match type_path.path.segments.last().map(|s| &s.arguments) {
+            Some(PathArguments::AngleBracketed(args)) => args.args.iter().cloned().collect(),
+            _ => Vec::new(),
         }
     }
 
-    /// Parse full Dimension format: Dimension<_M<MASS>, _L<LENGTH>, _T<TIME>, _I<CURRENT>, _Θ<TEMP>, _N<AMOUNT>, _J<LUMINOSITY>, _A<ANGLE>>
-    fn parse_dimension_full_format(
-        &self,
-        quantity_type: &str,
-    ) -> Option<(i16, i16, i16, i16, i16, i16, i16, i16)> {
-        let dimension_start = quantity_type.find("Dimension<_M<")?;
-        let dimension_content = &quantity_type[dimension_start + 9..]; // Skip "Dimension<"
-
-        // Parse individual parameters directly from the dimension content
-        // We don't need to find the end of the Dimension struct - we can parse each parameter individually
-        let mass = self.parse_dimension_param(dimension_content, "_M<")?;
-        let length = self.parse_dimension_param(dimension_content, "_L<")?;
-        let time = self.parse_dimension_param(dimension_content, "_T<")?;
-        let current = self.parse_dimension_param(dimension_content, "_I<")?;
-        let temp = self.parse_dimension_param(dimension_content, "_Θ<")?;
-        let amount = self.parse_dimension_param(dimension_content, "_N<")?;
-        let lum = self.parse_dimension_param(dimension_content, "_J<")?;
-        let angle = self.parse_dimension_param(dimension_content, "_A<")?;
-
-        Some((mass, length, time, current, temp, amount, lum, angle))
-    }
-
-    /// Parse truncated Dimension format: Dimension<_M<0>, _L<1>> (only non-zero parameters are shown)
-    fn parse_dimension_truncated_format(
+    /// Parse `Scale<...>` or `Dimension<...>`, whose exponents are `names` in this order.
+    /// Trailing exponents may be omitted, which leaves them at their default 0; exponents
+    /// that are not numbers (`_M<_>`, `_M<P>`) are unknown.
+    fn parse_exponents<const N: usize>(
         &self,
-        quantity_type: &str,
-    ) -> (i16, i16, i16, i16, i16, i16, i16, i16) {
-        let mut mass_exp = 0;
-        let mut length_exp = 0;
-        let mut time_exp = 0;
-        let mut electric_current_exp = 0;
-        let mut temperature_exp = 0;
-        let mut amount_of_substance_exp = 0;
-        let mut luminous_intensity_exp = 0;
-        let mut angle_exp = 0;
-
-        // Parse individual dimension parameters that are present
-        if let Some(value) = self.parse_dimension_param(quantity_type, "_M<") {
-            mass_exp = value;
-        }
-        if let Some(value) = self.parse_dimension_param(quantity_type, "_L<") {
-            length_exp = value;
-        }
-        if let Some(value) = self.parse_dimension_param(quantity_type, "_T<") {
-            time_exp = value;
-        }
-        if let Some(value) = self.parse_dimension_param(quantity_type, "_I<") {
-            electric_current_exp = value;
-        }
-        if let Some(value) = self.parse_dimension_param(quantity_type, "_Θ<") {
-            temperature_exp = value;
-        }
-        if let Some(value) = self.parse_dimension_param(quantity_type, "_N<") {
-            amount_of_substance_exp = value;
-        }
-        if let Some(value) = self.parse_dimension_param(quantity_type, "_J<") {
-            luminous_intensity_exp = value;
-        }
-        if let Some(value) = self.parse_dimension_param(quantity_type, "_A<") {
-            angle_exp = value;
+        arg: &GenericArgument,
+        struct_name: &str,
+        names: [&str; N],
+    ) -> Option<[i16; N]> {
+        let path = match arg {
+            GenericArgument::Type(Type::Path(path)) => path,
+            // Elided (`_` or `…`), so there is nothing to name
+            _ => return None,
+        };
+        let args = self.generic_arguments(path);
+        if path.path.segments.last()?.ident != struct_name || args.len() > N {
+            return None;
         }
-
-        (
-            mass_exp,
-            length_exp,
-            time_exp,
-            electric_current_exp,
-            temperature_exp,
-            amount_of_substance_exp,
-            luminous_intensity_exp,
-            angle_exp,
-        )
-    }
-
-    /// Parse a scale parameter like "_2<5>" and return the value
-    fn parse_scale_param(&self, content: &str, prefix: &str) -> Option<i16> {
-        let start = content.find(prefix)?;
-        let param_start = start + prefix.len();
-        let param_end = content[param_start..].find('>')?;
-        let param_value = &content[param_start..param_start + param_end];
-        Some(self.parse_parameter(param_value))
-    }
-
-    /// Parse a dimension parameter like "_M<1>" and return the value
-    fn parse_dimension_param(&self, content: &str, prefix: &str) -> Option<i16> {
-        let start = content.find(prefix)?;
-        let param_start = start + prefix.len();
-        let param_end = content[param_start..].find('>')?;
-        let param_value = &content[param_start..param_start + param_end];
-        let result = self.parse_parameter(param_value);
-        Some(result)
-    }
-
-    /// Find the matching closing bracket for a given opening bracket
-    fn find_matching_bracket(&self, content: &str, start_pos: usize) -> Option<usize> {
-        let mut depth = 1;
-        let mut i = start_pos;
-
-        while i < content.len() {
-            match content.chars().nth(i) {
-                Some('<') => depth += 1,
-                Some('>') => {
-                    depth -= 1;
-                    if depth == 0 {
-                        return Some(i);
+        let mut exponents = [0; N];
+        for (i, arg) in args.iter().enumerate() {
+            exponents[i] = match arg {
+                GenericArgument::Type(Type::Path(path))
+                    if path.path.segments.last()?.ident == names[i] =>
+                {
+                    match self.generic_arguments(path).first() {
+                        Some(value) => self.parse_parameter(&quote::quote!(#value).to_string()),
+                        None => 0,
                     }
                 }
-                _ => {}
-            }
-            i += 1;
+                _ => return None,
+            };
         }
-        None
+        Some(exponents)
     }
 
     /// Extract both the generic type parameter and brand from a Quantity type string
@@ -592,7 +467,8 @@ impl UnitFormatter {
         if param == "_" {
             i16::MIN // Unknown placeholder
         } else {
-            param.parse().unwrap_or(0)
+            // Anything but a number (e.g. a const parameter) is not known either
+            param.replace(' ', "").parse().unwrap_or(i16::MIN)
         }
     }
 
-- 
2.43.0


From 9c11d6e8a405ee8f79e8e485b296652295863818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:31 +0000
Subject: [PATCH 37/64] fix: a scale with unknown exponents is displayed as
 unknown, not as zero

---
 whippyunits-core/src/storage_unit.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/whippyunits-core/src/storage_unit.rs b/whippyunits-core/src/storage_unit.rs
index e15f52c..5feced5 100644
--- a/whippyunits-core/src/storage_unit.rs
+++ b/whippyunits-core/src/storage_unit.rs
@@ -340,6 +340,11 @@ pub fn generate_prefixed_systematic_unit(
     base_unit: &str,
     long_name: bool,
 ) -> String {
+    if scale_factors.0.contains(&i16::MIN) {
+        // Some scale exponent is unknown, and so is the scale
+        return format!("(?){}", base_unit);
+    }
+
     let total_scale_p10 = calculate_total_scale_p10(
         scale_factors.0[0],
         scale_factors.0[1],
@@ -412,6 +417,11 @@ pub fn generate_prefixed_si_unit(
     base_si_unit: &str,
     long_name: bool,
 ) -> String {
+    if scale_factors.0.contains(&i16::MIN) {
+        // Some scale exponent is unknown, and so is the scale
+        return format!("(?){}", base_si_unit);
+    }
+
     let total_scale_p10 = calculate_total_scale_p10(
         scale_factors.0[0],
         scale_factors.0[1],
-- 
2.43.0


From 4b72981b24276715467d38efa2e7931ee72547d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:11 +0000
Subject: [PATCH 38/64] fix: hovers over names with non-ASCII letters no longer
 panic when raw types are included

---
 lsp-proxy/src/unit_formatter.rs | 28 +++++++---------------------
 1 file changed, 7 insertions(+), 21 deletions(-)

diff --git a/lsp-proxy/src/unit_formatter.rs b/lsp-proxy/src/unit_formatter.rs
index 5af34a8..38f3237 100644
--- a/lsp-proxy/src/unit_formatter.rs
+++ b/lsp-proxy/src/unit_formatter.rs
@@ -487,7 +487,7 @@ impl UnitFormatter {
                 .map(|(i, _)| i);
 
             if let Some(type_end) = type_end {
-                if after_colon.chars().nth(type_end) == Some('<') {
+                if after_colon[type_end..].starts_with('<') {
                     // We found a generic type, extract the full declaration
                     // Find the start of the variable declaration by looking backwards for 'let'
                     let mut var_start = start;
@@ -495,9 +495,9 @@ impl UnitFormatter {
 
                     // Look backwards to find the start of the declaration
                     while var_start > 0 {
-                        let char_before =
-                            hover_text[var_start - 1..var_start].chars().next().unwrap();
-                        if char_before.is_whitespace() {
+                        // Look at bytes, as the characters may be longer than that
+                        let char_before = hover_text.as_bytes()[var_start - 1];
+                        if char_before.is_ascii_whitespace() {
                             // Check if we've found "let" or "let mut"
                             let potential_start = var_start;
                             let before_whitespace = &hover_text[..potential_start];
@@ -507,11 +507,7 @@ impl UnitFormatter {
                                 // Check if there's whitespace before "let" or if it's at the start
                                 let let_start = before_whitespace.len() - 3;
                                 if let_start == 0
-                                    || hover_text[let_start - 1..let_start]
-                                        .chars()
-                                        .next()
-                                        .unwrap()
-                                        .is_whitespace()
+                                    || hover_text.as_bytes()[let_start - 1].is_ascii_whitespace()
                                 {
                                     var_start = let_start;
                                     found_let = true;
@@ -525,21 +521,11 @@ impl UnitFormatter {
                     if !found_let {
                         // Fallback: find the start of the variable name
                         while var_start > 0
-                            && !hover_text[var_start..var_start + 1]
-                                .chars()
-                                .next()
-                                .unwrap()
-                                .is_whitespace()
+                            && !hover_text.as_bytes()[var_start].is_ascii_whitespace()
                         {
                             var_start -= 1;
                         }
-                        if var_start > 0
-                            && hover_text[var_start..var_start + 1]
-                                .chars()
-                                .next()
-                                .unwrap()
-                                .is_whitespace()
-                        {
+                        if var_start > 0 && hover_text.as_bytes()[var_start].is_ascii_whitespace() {
                             var_start += 1; // Skip the whitespace
                         }
                     }
-- 
2.43.0


From 3d9882eabfe1d05afc331033e90e4b5f800e4cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:55 +0000
Subject: [PATCH 39/64] fix: processed responses keep the fields that the proxy
 does not know

---
 lsp-proxy/src/lib.rs | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/lsp-proxy/src/lib.rs b/lsp-proxy/src/lib.rs
index 3726c71..f67af58 100644
--- a/lsp-proxy/src/lib.rs
+++ b/lsp-proxy/src/lib.rs
@@ -13,7 +13,7 @@ mod tests;
 
 use hover_processor::HoverProcessor;
 use inlay_hint_processor::InlayHintProcessor;
-use lsp_structures::LspMessage;
+use lsp_structures::{HoverContents, LspMessage};
 
 // Re-export for public API
 pub use unit_formatter::DisplayConfig;
@@ -71,7 +71,14 @@ impl LspProxy {
         }
 
         // Parse the JSON payload only if we detected Quantity types
-        let mut lsp_msg: LspMessage = match serde_json::from_str(&json_payload) {
+        let original_msg: Value = match serde_json::from_str(&json_payload) {
+            Ok(msg) => msg,
+            Err(e) => {
+                warn!("Failed to parse LSP message: {}", e);
+                return Ok(message.to_string());
+            }
+        };
+        let mut lsp_msg: LspMessage = match serde_json::from_value(original_msg.clone()) {
             Ok(msg) => msg,
             Err(e) => {
                 warn!("Failed to parse LSP message: {}", e);
@@ -83,19 +90,21 @@ impl LspProxy {
         let mut needs_processing = false;
 
         // Check if this is a hover response
-        if let Some(result) = &lsp_msg.result {
+        if let Some(result) = &mut lsp_msg.result {
             if let Some(hover_content) = self.hover_processor.extract_hover_content(result) {
-                match self.hover_processor.improve_hover_content(hover_content) {
-                    improved_content => match serde_json::to_value(improved_content) {
-                        Ok(value) => {
-                            lsp_msg.result = Some(value);
-                            needs_processing = true;
-                        }
-                        Err(e) => {
-                            warn!("Failed to serialize hover content: {}", e);
+                let improved_content = self.hover_processor.improve_hover_content(hover_content);
+                // Replace the texts only, and keep everything else in the response
+                match improved_content.contents {
+                    HoverContents::Single(item) => {
+                        result["contents"]["value"] = Value::String(item.value);
+                    }
+                    HoverContents::Multiple(items) => {
+                        for (i, item) in items.into_iter().enumerate() {
+                            result["contents"][i]["value"] = Value::String(item.value);
                         }
-                    },
+                    }
                 }
+                needs_processing = true;
             }
         }
 
@@ -121,7 +130,9 @@ impl LspProxy {
 
         // Only reconstruct if we actually modified something
         if needs_processing {
-            match serde_json::to_string(&lsp_msg) {
+            let mut new_msg = original_msg;
+            new_msg["result"] = lsp_msg.result.unwrap_or_default();
+            match serde_json::to_string(&new_msg) {
                 Ok(new_json) => {
                     let content_length = new_json.len();
                     Ok(format!(
-- 
2.43.0


From d5982bcb480e64330c2cb1c7c307a6df74cfdc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:40 +0000
Subject: [PATCH 40/64] fix: inlay hints keep exponents that merely contain a
 superscript one

---
 lsp-proxy/src/inlay_hint_processor.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/lsp-proxy/src/inlay_hint_processor.rs b/lsp-proxy/src/inlay_hint_processor.rs
index f9940be..f1d86b8 100644
--- a/lsp-proxy/src/inlay_hint_processor.rs
+++ b/lsp-proxy/src/inlay_hint_processor.rs
@@ -403,20 +403,18 @@ impl InlayHintProcessor {
     /// Prune ^1 exponents from inlay hint display while keeping meaningful exponents
     pub fn prune_inlay_hint_exponents(&self, pretty_type: &str) -> String {
         // In our pretty-printed output, we use Unicode superscripts like ¹, ², ³, etc.
-        // We want to remove ¹ (superscript 1) but keep all other superscripts
-        // For negative exponents, we want to preserve the full -1 to make it clear
-        let mut result = pretty_type.to_string();
-
-        // Remove standalone ¹ (but preserve ⁻¹ as it represents a meaningful negative exponent)
-        // Since ⁻¹ is two separate Unicode characters (⁻ + ¹), we need to handle this carefully
-        // First, temporarily replace ⁻¹ with a placeholder to protect it
-        result = result.replace("⁻¹", "PLACEHOLDER_MINUS_ONE");
-
-        // Then remove standalone ¹
-        result = result.replace("¹", "");
-
-        // Finally, restore the ⁻¹
-        result = result.replace("PLACEHOLDER_MINUS_ONE", "⁻¹");
+        // We want to remove ¹ (superscript 1) but keep all other superscripts, including
+        // those that merely contain a ¹ (like ⁻¹ or ¹²)
+        let is_superscript = |c: Option<char>| c.is_some_and(|c| "⁻⁰¹²³⁴⁵⁶⁷⁸⁹".contains(c));
+        let chars: Vec<char> = pretty_type.chars().collect();
+        let mut result = String::new();
+        for (i, &c) in chars.iter().enumerate() {
+            let before = i.checked_sub(1).map(|i| chars[i]);
+            let after = chars.get(i + 1).copied();
+            if c != '¹' || is_superscript(before) || is_superscript(after) {
+                result.push(c);
+            }
+        }
 
         result
     }
-- 
2.43.0


From e29f04ec491db9b874a89032f7b999af46748e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:40 +0000
Subject: [PATCH 41/64] fix: every quantity type of an inlay hint is converted,
 and nothing but them

---
 lsp-proxy/src/inlay_hint_processor.rs | 146 +++++++++-----------------
 1 file changed, 50 insertions(+), 96 deletions(-)

diff --git a/lsp-proxy/src/inlay_hint_processor.rs b/lsp-proxy/src/inlay_hint_processor.rs
index f1d86b8..35cb0f6 100644
--- a/lsp-proxy/src/inlay_hint_processor.rs
+++ b/lsp-proxy/src/inlay_hint_processor.rs
@@ -111,118 +111,72 @@ impl InlayHintProcessor {
         quantity_detection::contains_whippyunits_type(label_array)
     }
 
-    /// Convert a whippyunits inlay hint to pretty format
+    /// Convert every whippyunits type of an inlay hint to pretty format
     pub fn convert_whippyunits_hint(&self, label_array: &mut Vec<Value>) -> Result<()> {
-        // Find the Quantity part
-        let mut quantity_part_index = None;
-        for (i, part) in label_array.iter().enumerate() {
-            if let Some(value) = part.get("value") {
-                if let Some(text) = value.as_str() {
-                    if text == "Quantity" {
-                        quantity_part_index = Some(i);
-                        break;
-                    }
-                }
-            }
-        }
-
-        // If we found the Quantity part, collect all the generic parameters
-        if let Some(quantity_idx) = quantity_part_index {
-            // Collect all parts after Quantity that form the generic parameters
-            let mut generic_parts = Vec::new();
-            let mut bracket_depth = 0;
-            let mut found_opening_bracket = false;
-
-            for i in (quantity_idx + 1)..label_array.len() {
-                if let Some(value) = label_array[i].get("value") {
-                    if let Some(text) = value.as_str() {
-                        // Track bracket depth to know when we've reached the end
-                        for ch in text.chars() {
-                            if ch == '<' {
-                                bracket_depth += 1;
-                                found_opening_bracket = true;
-                            } else if ch == '>' {
-                                bracket_depth -= 1;
-                            }
-                        }
-
-                        generic_parts.push(text);
-
-                        // Stop when we've closed all brackets
-                        if found_opening_bracket && bracket_depth == 0 {
-                            break;
-                        }
-                    }
-                }
-            }
-
-            if !generic_parts.is_empty() {
-                // Create the complete generic parameters string
-                let generic_params = generic_parts.join("");
-
-                // Construct the full type string
-                let full_type = format!("Quantity{}", generic_params);
-
+        let mut index = 0;
+        while index < label_array.len() {
+            if let Some((full_type, last, rest)) = self.quantity_type_at(label_array, index) {
                 // For inlay hints, use the full Quantity<unit, type> format
                 let pretty_type = self
                     .formatter
                     .format_types_inlay_hint(&full_type, &self.display_config);
 
-                // For inlay hints specifically, prune ^1 exponents while keeping meaningful ones
-                let pretty_type = self.prune_inlay_hint_exponents(&pretty_type);
+                if pretty_type != full_type {
+                    // For inlay hints specifically, prune ^1 exponents while keeping meaningful ones
+                    let pretty_type = self.prune_inlay_hint_exponents(&pretty_type);
 
-                // Replace the "Quantity" part with the pretty version
-                // Preserve the location information if it exists
-                let quantity_part = &label_array[quantity_idx];
-                let mut new_quantity_part = json!({
-                    "value": pretty_type
-                });
+                    // Replace the "Quantity" part with the pretty version, preserving
+                    // everything else in it (like the location)
+                    label_array[index]["value"] = json!(pretty_type);
 
-                // Copy over the location if it exists
-                if let Some(location) = quantity_part.get("location") {
-                    new_quantity_part["location"] = location.clone();
+                    // Remove the generic parameters, but not what follows them
+                    if rest.is_empty() {
+                        label_array.drain(index + 1..=last);
+                    } else {
+                        label_array[last]["value"] = json!(rest);
+                        label_array.drain(index + 1..last);
+                    }
                 }
+            }
+            index += 1;
+        }
 
-                label_array[quantity_idx] = new_quantity_part;
-
-                // Remove all the generic parameters parts
-                let mut parts_to_remove = Vec::new();
-                let mut bracket_depth = 0;
-                let mut found_opening_bracket = false;
-
-                for i in (quantity_idx + 1)..label_array.len() {
-                    if let Some(value) = label_array[i].get("value") {
-                        if let Some(text) = value.as_str() {
-                            // Track bracket depth to know when we've reached the end
-                            for ch in text.chars() {
-                                if ch == '<' {
-                                    bracket_depth += 1;
-                                    found_opening_bracket = true;
-                                } else if ch == '>' {
-                                    bracket_depth -= 1;
-                                }
-                            }
+        Ok(())
+    }
 
-                            parts_to_remove.push(i);
+    /// The complete `Quantity<...>` type that starts at a part of a label, with the index of the
+    /// part in which it ends and the text of that part after the type
+    fn quantity_type_at(&self, label: &[Value], start: usize) -> Option<(String, usize, String)> {
+        let text = |part: &Value| {
+            part.get("value")
+                .and_then(Value::as_str)
+                .map(str::to_string)
+        };
 
-                            // Stop when we've closed all brackets
-                            if found_opening_bracket && bracket_depth == 0 {
-                                break;
-                            }
-                        }
-                    }
+        if text(&label[start])? != "Quantity" {
+            return None;
+        }
+        let mut full_type = "Quantity".to_string();
+        let mut bracket_depth = 0;
+        for (i, part) in label.iter().enumerate().skip(start + 1) {
+            let text = text(part)?;
+            for (pos, ch) in text.char_indices() {
+                match ch {
+                    '<' => bracket_depth += 1,
+                    '>' => bracket_depth -= 1,
+                    _ => {}
                 }
-
-                // Remove parts in reverse order to maintain indices
-                for &i in parts_to_remove.iter().rev() {
-                    label_array.remove(i);
+                if bracket_depth == 0 {
+                    if ch != '>' {
+                        return None;
+                    }
+                    full_type.push_str(&text[..=pos]);
+                    return Some((full_type, i, text[pos + 1..].to_string()));
                 }
-            } else {
             }
-        } else {
+            full_type.push_str(&text);
         }
-
-        Ok(())
+        None
     }
 
     /// Add a unit! macro text edit to the hint
-- 
2.43.0


From cfc6e0c8e2995eda48a70c59ee8fef6137aadd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:59 +0000
Subject: [PATCH 42/64] fix: inlay hint edits are replaced only by unit! macros
 that declare the same type

---
 lsp-proxy/src/inlay_hint_processor.rs | 145 +++++++++++++-------------
 lsp-proxy/src/unit_formatter.rs       |   9 ++
 2 files changed, 84 insertions(+), 70 deletions(-)

diff --git a/lsp-proxy/src/inlay_hint_processor.rs b/lsp-proxy/src/inlay_hint_processor.rs
index 35cb0f6..4989a1d 100644
--- a/lsp-proxy/src/inlay_hint_processor.rs
+++ b/lsp-proxy/src/inlay_hint_processor.rs
@@ -4,6 +4,7 @@ use crate::{
 };
 use anyhow::Result;
 use serde_json::{json, Value};
+use whippyunits_core::UnitExpr;
 
 /// Process inlay hint responses to pretty-print whippyunits types
 #[derive(Clone)]
@@ -87,6 +88,8 @@ impl InlayHintProcessor {
         };
 
         if has_whippyunits {
+            let declared_type = self.declared_type(hint_obj);
+
             // Get the label array from the object and process it
             if let Some(label) = hint_obj.get_mut("label") {
                 if let Some(label_array) = label.as_array_mut() {
@@ -94,12 +97,24 @@ impl InlayHintProcessor {
                 }
             }
 
-            // Always add the unit! macro completion, regardless of resolution state
-            self.add_seeded_unit_macro_text_edit(hint_obj)?;
+            // Replace the declaration of the type by its unit! macro, regardless of resolution state
+            if let Some(declared_type) = declared_type {
+                self.add_seeded_unit_macro_text_edit(hint_obj, &declared_type)?;
+            }
         }
         Ok(())
     }
 
+    /// The type that a hint declares, if it is just a whippyunits type
+    fn declared_type(&self, hint_obj: &serde_json::Map<String, Value>) -> Option<String> {
+        let label = hint_obj.get("label")?.as_array()?;
+        if label.first()?.get("value")? != ": " {
+            return None;
+        }
+        let (full_type, last, rest) = self.quantity_type_at(label, 1)?;
+        (last + 1 == label.len() && rest.is_empty()).then_some(full_type)
+    }
+
     /// Fast string search to detect Quantity types without deserialization
     /// This performs a performant string search for "Quantity<" patterns
     fn contains_quantity_types_fast(&self, json_payload: &str) -> bool {
@@ -153,7 +168,7 @@ impl InlayHintProcessor {
                 .map(str::to_string)
         };
 
-        if text(&label[start])? != "Quantity" {
+        if text(label.get(start)?)? != "Quantity" {
             return None;
         }
         let mut full_type = "Quantity".to_string();
@@ -179,75 +194,35 @@ impl InlayHintProcessor {
         None
     }
 
-    /// Add a unit! macro text edit to the hint
+    /// Replace the text edit of a hint by a unit! macro
     fn add_seeded_unit_macro_text_edit(
         &self,
         hint_obj: &mut serde_json::Map<String, Value>,
+        declared_type: &str,
     ) -> Result<()> {
         // Generate the unit! macro text
-        let seeded_text = self.generate_seeded_unit_macro(hint_obj)?;
-
-        // Extract position before any mutable borrows
-        let position = if let Some(pos) = hint_obj.get("position") {
-            pos.clone()
-        } else {
+        let Some(seeded_text) = self.generate_seeded_unit_macro(hint_obj, declared_type) else {
+            // The type has no unit! macro
             return Ok(());
         };
 
-        // Replace existing textEdits with our seeded unit macro
-        if let Some(existing_text_edits) = hint_obj.get_mut("textEdits") {
-            if let Some(text_edits_array) = existing_text_edits.as_array_mut() {
-                // Clear existing text edits and add our unit! macro one
-                text_edits_array.clear();
-
-                // Get the range from the first existing text edit (if any)
-                let range = if let Some(first_edit) = text_edits_array.first() {
-                    if let Some(range) = first_edit.get("range") {
-                        range.clone()
-                    } else {
-                        // Fallback: use position as range
-                        json!({
-                            "start": position,
-                            "end": position
-                        })
-                    }
-                } else {
-                    // No existing text edits, use position as range
-                    json!({
-                        "start": position,
-                        "end": position
-                    })
-                };
-
-                // Add our unit! macro text edit
-                let text_edit = json!({
-                    "range": range,
-                    "newText": seeded_text
-                });
-                text_edits_array.push(text_edit);
+        // A hint without a text edit is in a place where no type can be declared
+        if let Some(Value::Array(text_edits)) = hint_obj.get_mut("textEdits") {
+            if let [text_edit] = text_edits.as_mut_slice() {
+                text_edit["newText"] = json!(seeded_text);
             }
-        } else {
-            // No existing textEdits, create new array
-            let range = json!({
-                "start": position,
-                "end": position
-            });
-
-            let text_edit = json!({
-                "range": range,
-                "newText": seeded_text
-            });
-            hint_obj.insert("textEdits".to_string(), json!([text_edit]));
         }
 
         Ok(())
     }
 
-    /// Generate a seeded unit macro based on the unresolved type
+    /// Generate a seeded unit macro based on the unresolved type, or nothing if the type
+    /// is not one that a unit! macro can declare
     fn generate_seeded_unit_macro(
         &self,
         hint_obj: &serde_json::Map<String, Value>,
-    ) -> Result<String> {
+        declared_type: &str,
+    ) -> Option<String> {
         // We need to reconstruct the original unresolved type from the pretty-printed version
         // Look for the pretty-printed type in the label
         let mut pretty_type = String::new();
@@ -270,6 +245,10 @@ impl InlayHintProcessor {
         // Extract the datatype suffix if present
         let (unit_part, datatype) = self.extract_unit_and_datatype(&pretty_type);
 
+        if !self.unit_denotes_type(&unit_part, declared_type) {
+            return None;
+        }
+
         // Generate the appropriate unit! macro format based on datatype
         let unit_macro = if datatype == "f64" {
             // For f64, use the simple format: unit!(mm)
@@ -280,7 +259,29 @@ impl InlayHintProcessor {
         };
 
         // Return just the type annotation with the unit! macro
-        Ok(format!(": {}", unit_macro))
+        Some(format!(": {}", unit_macro))
+    }
+
+    /// Whether a unit! macro with this unit would declare this type
+    fn unit_denotes_type(&self, unit: &str, full_type: &str) -> bool {
+        let Some((dimensions, scale)) = self.formatter.parse_exponents_of_type(full_type) else {
+            return false;
+        };
+        if dimensions
+            .0
+            .iter()
+            .chain(&scale.0)
+            .any(|&exp| exp == i16::MIN)
+        {
+            // Not completely resolved, and left to the user to complete
+            return true;
+        }
+        syn::parse_str::<UnitExpr>(unit).is_ok_and(|expr| {
+            let result = expr.evaluate();
+            expr.validate_strict().is_none()
+                && result.dimension_exponents == dimensions
+                && result.scale_exponents == scale
+        })
     }
 
     /// Extract unit part and datatype from a pretty-printed type with suffix
@@ -296,7 +297,7 @@ impl InlayHintProcessor {
         if clean_type.starts_with("Quantity<") && clean_type.ends_with('>') {
             let inner = &clean_type[9..clean_type.len() - 1]; // Remove "Quantity<" and ">"
 
-            if let Some(comma_pos) = inner.rfind(',') {
+            if let Some(comma_pos) = inner.find(',') {
                 let unit_part = self.convert_pretty_type_to_unit_macro(inner[..comma_pos].trim());
                 let datatype = inner[comma_pos + 1..].trim().to_string();
                 return (unit_part, datatype);
@@ -339,19 +340,23 @@ impl InlayHintProcessor {
     fn convert_pretty_type_to_unit_macro(&self, pretty_type: &str) -> String {
         // Convert pretty-printed types like "mmˀ" to unit macro format like "mm^"
         // Remove the ? and place cursor after the caret
-        pretty_type
-            .replace("ˀ", "^") // Replace superscript question mark with just ^
-            .replace("⁻", "^-") // Replace superscript minus with ^-
-            .replace("¹", "^1") // Replace superscript 1 with ^1
-            .replace("²", "^2") // Replace superscript 2 with ^2
-            .replace("³", "^3") // Replace superscript 3 with ^3
-            .replace("⁴", "^4") // Replace superscript 4 with ^4
-            .replace("⁵", "^5") // Replace superscript 5 with ^5
-            .replace("⁶", "^6") // Replace superscript 6 with ^6
-            .replace("⁷", "^7") // Replace superscript 7 with ^7
-            .replace("⁸", "^8") // Replace superscript 8 with ^8
-            .replace("⁹", "^9") // Replace superscript 9 with ^9
-            .replace("⁰", "^0") // Replace superscript 0 with ^0
+        let mut unit = String::new();
+        let mut in_exponent = false;
+        for ch in pretty_type.chars() {
+            let position = "⁻⁰¹²³⁴⁵⁶⁷⁸⁹ˀ".chars().position(|c| c == ch);
+            if position.is_some() && !in_exponent {
+                unit.push('^');
+            }
+            in_exponent = position.is_some();
+            match position {
+                Some(0) => unit.push('-'),
+                Some(11) => {}
+                Some(n) => unit.push_str(&(n - 1).to_string()),
+                None if ch == '·' => unit.push('*'),
+                None => unit.push(ch),
+            }
+        }
+        unit
     }
 
     /// Prune ^1 exponents from inlay hint display while keeping meaningful exponents
diff --git a/lsp-proxy/src/unit_formatter.rs b/lsp-proxy/src/unit_formatter.rs
index 38f3237..7c21698 100644
--- a/lsp-proxy/src/unit_formatter.rs
+++ b/lsp-proxy/src/unit_formatter.rs
@@ -357,6 +357,15 @@ impl UnitFormatter {
         })
     }
 
+    /// The exponents of the dimensions and scales of a Quantity type, i16::MIN if unknown
+    pub fn parse_exponents_of_type(
+        &self,
+        quantity_type: &str,
+    ) -> Option<(DynDimensionExponents, ScaleExponents)> {
+        let params = self.parse_new_quantity_params(quantity_type)?;
+        Some((params.dimensions, params.scale))
+    }
+
     /// The generic arguments of the last segment of a path
     fn generic_arguments(&self, type_path: &TypePath) -> Vec<GenericArgument> {
         match type_path.path.segments.last().map(|s| &s.arguments) {
-- 
2.43.0


From 15f62e6ef72a4e81b9e30a42df5b99cb023b8f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:00 +0000
Subject: [PATCH 43/64] fix: an unrelated Quantity<...> text no longer hides
 the inlay hints next to it

---
 lsp-proxy/src/quantity_detection.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsp-proxy/src/quantity_detection.rs b/lsp-proxy/src/quantity_detection.rs
index 77f7105..c5acbb2 100644
--- a/lsp-proxy/src/quantity_detection.rs
+++ b/lsp-proxy/src/quantity_detection.rs
@@ -9,8 +9,8 @@ pub fn contains_quantity_types_fast(json_payload: &str) -> bool {
     }
 
     // For initial inlay hints (full type in one chunk), validate the Quantity< pattern
-    if json_payload.contains("Quantity<") {
-        return validate_quantity_format(json_payload);
+    if json_payload.contains("Quantity<") && validate_quantity_format(json_payload) {
+        return true;
     }
 
     // For mouseover/resolved hints (deconstructed type), look for separate Scale and Dimension
-- 
2.43.0


From be2abec7aefaea2a4d34e3e856db2d6d8ceea747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:46 +0000
Subject: [PATCH 44/64] fix: messages may have other headers before or after
 Content-Length

---
 lsp-proxy/src/main.rs | 45 +++++++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/lsp-proxy/src/main.rs b/lsp-proxy/src/main.rs
index b4a60a8..7cb673e 100644
--- a/lsp-proxy/src/main.rs
+++ b/lsp-proxy/src/main.rs
@@ -172,28 +172,31 @@ async fn read_lsp_message<R: AsyncBufReadExt + Unpin>(
     reader: &mut R,
     buffer: &mut String,
 ) -> Result<Option<String>, anyhow::Error> {
-    // Read the Content-Length header
-    buffer.clear();
-    match reader.read_line(buffer).await {
-        Ok(0) => return Ok(None), // EOF
-        Ok(_) => {}
-        Err(e) => return Err(anyhow::anyhow!("Failed to read Content-Length: {}", e)),
-    }
+    // Read the headers, up to the empty line after them
+    let mut headers = String::new();
+    let mut content_length: Option<usize> = None;
+    loop {
+        buffer.clear();
+        match reader.read_line(buffer).await {
+            Ok(0) => return Ok(None), // EOF
+            Ok(_) => {}
+            Err(e) => return Err(anyhow::anyhow!("Failed to read header: {}", e)),
+        }
 
-    let content_length_line = buffer.trim();
-    if content_length_line.is_empty() {
-        return Ok(None);
+        let line = buffer.trim();
+        if line.is_empty() {
+            break;
+        }
+        if let Some((name, value)) = line.split_once(':') {
+            if name.trim().eq_ignore_ascii_case("Content-Length") {
+                content_length = Some(value.trim().parse()?);
+            }
+        }
+        headers.push_str(line);
+        headers.push_str("\r\n");
     }
-
-    // Parse Content-Length
-    let content_length: usize = content_length_line
-        .strip_prefix("Content-Length: ")
-        .ok_or_else(|| anyhow::anyhow!("Invalid Content-Length header: {}", content_length_line))?
-        .parse()?;
-
-    // Read the empty line after headers
-    buffer.clear();
-    reader.read_line(buffer).await?;
+    let content_length = content_length
+        .ok_or_else(|| anyhow::anyhow!("No Content-Length header in: {:?}", headers))?;
 
     // Read the JSON payload
     buffer.clear();
@@ -203,7 +206,7 @@ async fn read_lsp_message<R: AsyncBufReadExt + Unpin>(
     let json_payload = String::from_utf8(json_buffer)?;
 
     // Reconstruct the complete LSP message
-    let message = format!("Content-Length: {}\r\n\r\n{}", content_length, json_payload);
+    let message = format!("{}\r\n{}", headers, json_payload);
     Ok(Some(message))
 }
 
-- 
2.43.0


From 59acc45eeb386e696217b6195c7b9de257067eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:47 +0000
Subject: [PATCH 45/64] fix: the session lasts until everything that
 rust-analyzer sent is forwarded, and ends with it

---
 lsp-proxy/src/main.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/lsp-proxy/src/main.rs b/lsp-proxy/src/main.rs
index 7cb673e..7accc44 100644
--- a/lsp-proxy/src/main.rs
+++ b/lsp-proxy/src/main.rs
@@ -52,7 +52,7 @@ async fn main() -> Result<()> {
 
     // Spawn tasks for bidirectional communication
     let proxy_clone = proxy.clone();
-    let editor_to_ra = tokio::spawn(async move {
+    tokio::spawn(async move {
         let mut reader = BufReader::new(stdin);
         let mut buffer = String::new();
 
@@ -132,7 +132,7 @@ async fn main() -> Result<()> {
     });
 
     // Forward stderr from rust-analyzer to our stderr
-    let stderr_forwarder = tokio::spawn(async move {
+    tokio::spawn(async move {
         let mut reader = BufReader::new(ra_stderr);
         let mut line = String::new();
 
@@ -151,11 +151,11 @@ async fn main() -> Result<()> {
         }
     });
 
-    // Wait for any task to complete (which means something went wrong or EOF)
-    tokio::select! {
-        _ = editor_to_ra => info!("Editor to rust-analyzer task completed"),
-        _ = ra_to_editor => info!("Rust-analyzer to editor task completed"),
-        _ = stderr_forwarder => info!("Stderr forwarder task completed"),
+    // The session is over when rust-analyzer closes its output, which it also does when the
+    // editor closes its input, or when the editor does not take the output any more. Everything
+    // that rust-analyzer sent has been forwarded by then.
+    if let Err(e) = ra_to_editor.await {
+        error!("Rust-analyzer to editor task failed: {}", e);
     }
 
     // Clean up
@@ -164,7 +164,8 @@ async fn main() -> Result<()> {
     }
 
     info!("LSP proxy shutting down");
-    Ok(())
+    // A pending read of the editor's input would keep the runtime from shutting down
+    std::process::exit(0)
 }
 
 /// Read a complete LSP message from the reader
-- 
2.43.0


From 4621088d2c278c953317595d6a7662c3ceb4b677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:35 +0000
Subject: [PATCH 46/64] fix: whippyunits-pretty keeps the final line break of a
 file

---
 whippyunits-pretty/src/rustc_pretty.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/whippyunits-pretty/src/rustc_pretty.rs b/whippyunits-pretty/src/rustc_pretty.rs
index 4eb5e46..21aaa0b 100644
--- a/whippyunits-pretty/src/rustc_pretty.rs
+++ b/whippyunits-pretty/src/rustc_pretty.rs
@@ -31,7 +31,11 @@ impl RustcPrettyPrinter {
             processed_lines.push(processed);
         }
 
-        Ok(processed_lines.join("\n"))
+        let mut result = processed_lines.join("\n");
+        if output.ends_with('\n') {
+            result.push('\n');
+        }
+        Ok(result)
     }
 
     /// Process a single line of rustc output
-- 
2.43.0


From b15199000239a6a0a03919fe5ec42cf90336636d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:35 +0000
Subject: [PATCH 47/64] fix: whippyunits-pretty does not stop at output that is
 not UTF-8

---
 whippyunits-pretty/src/main.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/whippyunits-pretty/src/main.rs b/whippyunits-pretty/src/main.rs
index e5f888b..e3ef609 100644
--- a/whippyunits-pretty/src/main.rs
+++ b/whippyunits-pretty/src/main.rs
@@ -1,7 +1,7 @@
 use anyhow::Result;
 use clap::Parser;
 use log::info;
-use std::io::{self, BufRead, BufReader};
+use std::io::{self, BufRead, BufReader, Write};
 
 use whippyunits_lsp_proxy::DisplayConfig;
 use whippyunits_pretty::rustc_pretty::RustcPrettyPrinter;
@@ -64,10 +64,16 @@ async fn main() -> Result<()> {
         let stdin = io::stdin();
         let reader = BufReader::new(stdin.lock());
 
-        for line in reader.lines() {
-            let line = line?;
-            let processed = printer.process_line(&line)?;
-            println!("{}", processed);
+        for line in reader.split(b'\n') {
+            match String::from_utf8(line?) {
+                Ok(line) => println!("{}", printer.process_line(&line)?),
+                Err(not_text) => {
+                    // Not a line of rustc's, so passed on as it is
+                    let mut line = not_text.into_bytes();
+                    line.push(b'\n');
+                    io::stdout().write_all(&line)?;
+                }
+            }
         }
     }
 
-- 
2.43.0


From f46271de3ab0f73cb37217323bcad14ea4c134c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:31 +0000
Subject: [PATCH 48/64] fix: whippyunits-pretty -f keeps carriage returns, as
 it does on a stream

---
 whippyunits-pretty/src/rustc_pretty.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/whippyunits-pretty/src/rustc_pretty.rs b/whippyunits-pretty/src/rustc_pretty.rs
index 21aaa0b..72bb184 100644
--- a/whippyunits-pretty/src/rustc_pretty.rs
+++ b/whippyunits-pretty/src/rustc_pretty.rs
@@ -23,7 +23,7 @@ impl RustcPrettyPrinter {
 
     /// Process a complete rustc output string
     pub fn process_rustc_output(&mut self, output: &str) -> Result<String> {
-        let lines: Vec<&str> = output.lines().collect();
+        let lines: Vec<&str> = output.split('\n').collect();
         let mut processed_lines = Vec::new();
 
         for line in lines {
@@ -31,11 +31,7 @@ impl RustcPrettyPrinter {
             processed_lines.push(processed);
         }
 
-        let mut result = processed_lines.join("\n");
-        if output.ends_with('\n') {
-            result.push('\n');
-        }
-        Ok(result)
+        Ok(processed_lines.join("\n"))
     }
 
     /// Process a single line of rustc output
-- 
2.43.0


From b0ebd1ac2f01d3f9ee2dbfefc1c7ff7a693ba003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:08 +0000
Subject: [PATCH 49/64] fix: whippyunits-pretty reads files as it reads
 streams, also those that are not UTF-8

---
 whippyunits-pretty/src/main.rs | 34 +++++++++++++---------------------
 1 file changed, 13 insertions(+), 21 deletions(-)

diff --git a/whippyunits-pretty/src/main.rs b/whippyunits-pretty/src/main.rs
index e3ef609..dbc74d9 100644
--- a/whippyunits-pretty/src/main.rs
+++ b/whippyunits-pretty/src/main.rs
@@ -1,6 +1,7 @@
 use anyhow::Result;
 use clap::Parser;
 use log::info;
+use std::fs::File;
 use std::io::{self, BufRead, BufReader, Write};
 
 use whippyunits_lsp_proxy::DisplayConfig;
@@ -53,28 +54,19 @@ async fn main() -> Result<()> {
     // Create the pretty printer
     let mut printer = RustcPrettyPrinter::with_config(display_config);
 
-    // Process input
-    if let Some(input_file) = args.input {
-        // Read from file
-        let content = std::fs::read_to_string(&input_file)?;
-        let processed = printer.process_rustc_output(&content)?;
-        print!("{}", processed);
-    } else {
-        // Read from stdin
-        let stdin = io::stdin();
-        let reader = BufReader::new(stdin.lock());
-
-        for line in reader.split(b'\n') {
-            match String::from_utf8(line?) {
-                Ok(line) => println!("{}", printer.process_line(&line)?),
-                Err(not_text) => {
-                    // Not a line of rustc's, so passed on as it is
-                    let mut line = not_text.into_bytes();
-                    line.push(b'\n');
-                    io::stdout().write_all(&line)?;
-                }
-            }
+    // Process input, line by line
+    let mut input: Box<dyn BufRead> = match args.input {
+        Some(input_file) => Box::new(BufReader::new(File::open(input_file)?)),
+        None => Box::new(BufReader::new(io::stdin().lock())),
+    };
+    let mut line = Vec::new();
+    while input.read_until(b'\n', &mut line)? > 0 {
+        match std::str::from_utf8(&line) {
+            Ok(text) => print!("{}", printer.process_rustc_output(text)?),
+            // Not a line of rustc's, so passed on as it is
+            Err(_) => io::stdout().write_all(&line)?,
         }
+        line.clear();
     }
 
     Ok(())
-- 
2.43.0


From 5021ead5aaf45c3537ac3faff63365ffb6f63ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 50/64] fix: Display and Debug name storage type and brand also
 without std

---
 src/print/display_traits.rs | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/src/print/display_traits.rs b/src/print/display_traits.rs
index 452615f..be85acc 100644
--- a/src/print/display_traits.rs
+++ b/src/print/display_traits.rs
@@ -20,14 +20,8 @@ macro_rules! define_display_traits {
             fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                 let value_f64 = <f64 as num_traits::NumCast>::from(self.unsafe_value)
                     .expect("unable to convert numeric value to f64 for display");
-                #[cfg(feature = "std")]
-                let brand_name = std::any::type_name::<Brand>();
-                #[cfg(not(feature = "std"))]
-                let brand_name = "<unknown>";
-                #[cfg(feature = "std")]
-                let type_name = std::any::type_name::<T>();
-                #[cfg(not(feature = "std"))]
-                let type_name = "<T>";
+                let brand_name = core::any::type_name::<Brand>();
+                let type_name = core::any::type_name::<T>();
                 let pretty = pretty_print_quantity_value(
                     value_f64,
                     whippyunits_core::dimension_exponents::DynDimensionExponents([$($dimension_args)*]),
@@ -59,14 +53,8 @@ macro_rules! define_display_traits {
             fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                 let value_f64 = <f64 as num_traits::NumCast>::from(self.unsafe_value)
                     .expect("unable to convert numeric value to f64 for debug");
-                #[cfg(feature = "std")]
-                let brand_name = std::any::type_name::<Brand>();
-                #[cfg(not(feature = "std"))]
-                let brand_name = "<unknown>";
-                #[cfg(feature = "std")]
-                let type_name = std::any::type_name::<T>();
-                #[cfg(not(feature = "std"))]
-                let type_name = "<T>";
+                let brand_name = core::any::type_name::<Brand>();
+                let type_name = core::any::type_name::<T>();
                 let pretty = pretty_print_quantity_value(
                     value_f64,
                     whippyunits_core::dimension_exponents::DynDimensionExponents([$($dimension_args)*]),
-- 
2.43.0


From 6e5cb176c638f3ffbadf1b536222d05f1b71e42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 51/64] fix: names in the arguments of quantity! mean what they
 mean at the call

---
 proc-macros/src/quantity_macro.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/proc-macros/src/quantity_macro.rs b/proc-macros/src/quantity_macro.rs
index 44c836e..6659625 100644
--- a/proc-macros/src/quantity_macro.rs
+++ b/proc-macros/src/quantity_macro.rs
@@ -130,9 +130,10 @@ impl QuantityMacroInput {
         // Generate the declarator call
         // The trait methods are called directly on the value type
         // The trait is generic, but the impls are for specific types (f64, i32)
+        // It is imported without a name, not to shadow one of the caller's in the value
         quote! {
             {
-                use whippyunits::default_declarators::#trait_ident;
+                use whippyunits::default_declarators::#trait_ident as _;
                 (#value_expr).#method_ident()
             }
         }
@@ -175,6 +176,16 @@ impl QuantityMacroInput {
             .map(|t| quote! { #t })
             .unwrap_or_else(|| quote! { () });
 
+        // Full paths: a `use` here would shadow the caller's names in the arguments
+        let quantity_type = quote! {
+            whippyunits::quantity::Quantity::<
+                whippyunits::quantity::Scale<whippyunits::quantity::_2<#p2>, whippyunits::quantity::_3<#p3>, whippyunits::quantity::_5<#p5>, whippyunits::quantity::_Pi<#pi>>,
+                whippyunits::quantity::Dimension<whippyunits::quantity::_M<#mass_exp>, whippyunits::quantity::_L<#length_exp>, whippyunits::quantity::_T<#time_exp>, whippyunits::quantity::_I<#current_exp>, whippyunits::quantity::_Θ<#temp_exp>, whippyunits::quantity::_N<#amount_exp>, whippyunits::quantity::_J<#lum_exp>, whippyunits::quantity::_A<#angle_exp>>,
+                #storage_type_ty,
+                #brand_type_ty
+            >
+        };
+
         let value_expr = &self.value;
         let has_nonstorage = conversion_factor != 1.0 || affine_offset != 0.0;
 
@@ -185,18 +196,16 @@ impl QuantityMacroInput {
 
             quote! {
                 {
-                    use whippyunits::quantity::{Quantity, Scale, Dimension, _2, _3, _5, _Pi, _M, _L, _T, _I, _Θ, _N, _J, _A};
                     let raw_value: #storage_type_ty = #value_expr;
                     let converted_value = (raw_value as f64) * #cf + #af;
-                    Quantity::<Scale<_2<#p2>, _3<#p3>, _5<#p5>, _Pi<#pi>>, Dimension<_M<#mass_exp>, _L<#length_exp>, _T<#time_exp>, _I<#current_exp>, _Θ<#temp_exp>, _N<#amount_exp>, _J<#lum_exp>, _A<#angle_exp>>, #storage_type_ty, #brand_type_ty>::new(converted_value as #storage_type_ty)
+                    #quantity_type::new(converted_value as #storage_type_ty)
                 }
             }
         } else {
             // Pure storage unit - no conversion needed
             quote! {
                 {
-                    use whippyunits::quantity::{Quantity, Scale, Dimension, _2, _3, _5, _Pi, _M, _L, _T, _I, _Θ, _N, _J, _A};
-                    Quantity::<Scale<_2<#p2>, _3<#p3>, _5<#p5>, _Pi<#pi>>, Dimension<_M<#mass_exp>, _L<#length_exp>, _T<#time_exp>, _I<#current_exp>, _Θ<#temp_exp>, _N<#amount_exp>, _J<#lum_exp>, _A<#angle_exp>>, #storage_type_ty, #brand_type_ty>::new(#value_expr)
+                    #quantity_type::new(#value_expr)
                 }
             }
         }
-- 
2.43.0


From 03b4b4932669009b8c8f4baab880378cb2664c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 52/64] fix: rescale! leaves the caller's names alone (a
 TargetQuantity of theirs was taken for the target)

---
 src/rescale_macro.rs | 60 +++++++++++---------------------------------
 1 file changed, 15 insertions(+), 45 deletions(-)

diff --git a/src/rescale_macro.rs b/src/rescale_macro.rs
index 17a3701..306ccb4 100644
--- a/src/rescale_macro.rs
+++ b/src/rescale_macro.rs
@@ -48,92 +48,62 @@
 macro_rules! rescale {
     // f64 (default) - two arguments
     ($quantity:expr, $unit:expr) => {{
-        type TargetQuantity = $crate::unit!($unit, f64);
-        let result: TargetQuantity = $crate::api::rescale($quantity);
-        result as $crate::unit!($unit, f64)
+        $crate::api::rescale($quantity) as $crate::unit!($unit, f64)
     }};
     // f64 (explicit) - three arguments with f64
     ($quantity:expr, $unit:expr, f64) => {{
-        type TargetQuantity = $crate::unit!($unit, f64);
-        let result: TargetQuantity = $crate::api::rescale($quantity);
-        result as $crate::unit!($unit, f64)
+        $crate::api::rescale($quantity) as $crate::unit!($unit, f64)
     }};
     // f32
     ($quantity:expr, $unit:expr, f32) => {{
-        type TargetQuantity = $crate::unit!($unit, f32);
-        let result: TargetQuantity = $crate::api::rescale_f32($quantity);
-        result as $crate::unit!($unit, f32)
+        $crate::api::rescale_f32($quantity) as $crate::unit!($unit, f32)
     }};
     // i8
     ($quantity:expr, $unit:expr, i8) => {{
-        type TargetQuantity = $crate::unit!($unit, i8);
-        let result: TargetQuantity = $crate::api::rescale_i8($quantity);
-        result as $crate::unit!($unit, i8)
+        $crate::api::rescale_i8($quantity) as $crate::unit!($unit, i8)
     }};
     // i16
     ($quantity:expr, $unit:expr, i16) => {{
-        type TargetQuantity = $crate::unit!($unit, i16);
-        let result: TargetQuantity = $crate::api::rescale_i16($quantity);
-        result as $crate::unit!($unit, i16)
+        $crate::api::rescale_i16($quantity) as $crate::unit!($unit, i16)
     }};
     // i32
     ($quantity:expr, $unit:expr, i32) => {{
-        type TargetQuantity = $crate::unit!($unit, i32);
-        let result: TargetQuantity = $crate::api::rescale_i32($quantity);
-        result as $crate::unit!($unit, i32)
+        $crate::api::rescale_i32($quantity) as $crate::unit!($unit, i32)
     }};
     // i64
     ($quantity:expr, $unit:expr, i64) => {{
-        type TargetQuantity = $crate::unit!($unit, i64);
-        let result: TargetQuantity = $crate::api::rescale_i64($quantity);
-        result as $crate::unit!($unit, i64)
+        $crate::api::rescale_i64($quantity) as $crate::unit!($unit, i64)
     }};
     // i128
     ($quantity:expr, $unit:expr, i128) => {{
-        type TargetQuantity = $crate::unit!($unit, i128);
-        let result: TargetQuantity = $crate::api::rescale_i128($quantity);
-        result as $crate::unit!($unit, i128)
+        $crate::api::rescale_i128($quantity) as $crate::unit!($unit, i128)
     }};
     // u8
     ($quantity:expr, $unit:expr, u8) => {{
-        type TargetQuantity = $crate::unit!($unit, u8);
-        let result: TargetQuantity = $crate::api::rescale_u8($quantity);
-        result as $crate::unit!($unit, u8)
+        $crate::api::rescale_u8($quantity) as $crate::unit!($unit, u8)
     }};
     // u16
     ($quantity:expr, $unit:expr, u16) => {{
-        type TargetQuantity = $crate::unit!($unit, u16);
-        let result: TargetQuantity = $crate::api::rescale_u16($quantity);
-        result as $crate::unit!($unit, u16)
+        $crate::api::rescale_u16($quantity) as $crate::unit!($unit, u16)
     }};
     // u32
     ($quantity:expr, $unit:expr, u32) => {{
-        type TargetQuantity = $crate::unit!($unit, u32);
-        let result: TargetQuantity = $crate::api::rescale_u32($quantity);
-        result as $crate::unit!($unit, u32)
+        $crate::api::rescale_u32($quantity) as $crate::unit!($unit, u32)
     }};
     // u64
     ($quantity:expr, $unit:expr, u64) => {{
-        type TargetQuantity = $crate::unit!($unit, u64);
-        let result: TargetQuantity = $crate::api::rescale_u64($quantity);
-        result as $crate::unit!($unit, u64)
+        $crate::api::rescale_u64($quantity) as $crate::unit!($unit, u64)
     }};
     // u128
     ($quantity:expr, $unit:expr, u128) => {{
-        type TargetQuantity = $crate::unit!($unit, u128);
-        let result: TargetQuantity = $crate::api::rescale_u128($quantity);
-        result as $crate::unit!($unit, u128)
+        $crate::api::rescale_u128($quantity) as $crate::unit!($unit, u128)
     }};
     // isize
     ($quantity:expr, $unit:expr, isize) => {{
-        type TargetQuantity = $crate::unit!($unit, isize);
-        let result: TargetQuantity = $crate::api::rescale_isize($quantity);
-        result as $crate::unit!($unit, isize)
+        $crate::api::rescale_isize($quantity) as $crate::unit!($unit, isize)
     }};
     // usize
     ($quantity:expr, $unit:expr, usize) => {{
-        type TargetQuantity = $crate::unit!($unit, usize);
-        let result: TargetQuantity = $crate::api::rescale_usize($quantity);
-        result as $crate::unit!($unit, usize)
+        $crate::api::rescale_usize($quantity) as $crate::unit!($unit, usize)
     }};
 }
-- 
2.43.0


From 4886002dfc0618d4c96099a3d90b4caad456df20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 53/64] fix: from_json! and from_string! do not depend on the
 caller's names or dependencies

---
 src/serialization.rs | 126 ++++++++-----------------------------------
 1 file changed, 22 insertions(+), 104 deletions(-)

diff --git a/src/serialization.rs b/src/serialization.rs
index ad3ff4d..f62885b 100644
--- a/src/serialization.rs
+++ b/src/serialization.rs
@@ -770,70 +770,30 @@ pub fn calculate_conversion_factor(from_dims: &UnitDimensions, to_dims: &UnitDim
 macro_rules! from_json {
     ($json:expr, $unit:expr) => {{
         match $crate::serialization::parse_json_input($json) {
-            Ok((value, unit_str)) => {
+            ::core::result::Result::Ok((value, unit_str)) => {
                 // Use deserialize_core_quantity to handle dimension checking and rescaling
                 // Returns Quantity directly - no need for quantity! macro
-                const UNIT_INFO: (
-                    whippyunits_core::dimension_exponents::DynDimensionExponents,
-                    whippyunits_core::scale_exponents::ScaleExponents,
-                ) = whippyunits_proc_macros::compute_unit_dimensions!($unit);
-                const DIMENSIONS: whippyunits_core::dimension_exponents::DynDimensionExponents =
-                    UNIT_INFO.0;
-                const SCALES: whippyunits_core::scale_exponents::ScaleExponents = UNIT_INFO.1;
-                $crate::serialization::deserialize_core_quantity::<
-                    { DIMENSIONS.0[0] },
-                    { DIMENSIONS.0[1] },
-                    { DIMENSIONS.0[2] },
-                    { DIMENSIONS.0[3] },
-                    { DIMENSIONS.0[4] },
-                    { DIMENSIONS.0[5] },
-                    { DIMENSIONS.0[6] },
-                    { DIMENSIONS.0[7] },
-                    { SCALES.0[0] },
-                    { SCALES.0[1] },
-                    { SCALES.0[2] },
-                    { SCALES.0[3] },
-                    f64,
-                >(value, &unit_str)
-                    as Result<
-                        whippyunits::unit!($unit, f64),
+                $crate::serialization::deserialize_core_quantity(value, &unit_str)
+                    as ::core::result::Result<
+                        $crate::unit!($unit, f64),
                         $crate::serialization::SerializationError,
                     >
             }
-            Err(e) => Err(e),
+            ::core::result::Result::Err(e) => ::core::result::Result::Err(e),
         }
     }};
     ($json:expr, $unit:expr, $storage_type:ty) => {{
         match $crate::serialization::parse_json_input($json) {
-            Ok((value, unit_str)) => {
-                const UNIT_INFO: (
-                    whippyunits_core::dimension_exponents::DynDimensionExponents,
-                    whippyunits_core::scale_exponents::ScaleExponents,
-                ) = whippyunits_proc_macros::compute_unit_dimensions!($unit);
-                const DIMENSIONS: whippyunits_core::dimension_exponents::DynDimensionExponents =
-                    UNIT_INFO.0;
-                const SCALES: whippyunits_core::scale_exponents::ScaleExponents = UNIT_INFO.1;
-                $crate::serialization::deserialize_core_quantity::<
-                    { DIMENSIONS.0[0] },
-                    { DIMENSIONS.0[1] },
-                    { DIMENSIONS.0[2] },
-                    { DIMENSIONS.0[3] },
-                    { DIMENSIONS.0[4] },
-                    { DIMENSIONS.0[5] },
-                    { DIMENSIONS.0[6] },
-                    { DIMENSIONS.0[7] },
-                    { SCALES.0[0] },
-                    { SCALES.0[1] },
-                    { SCALES.0[2] },
-                    { SCALES.0[3] },
-                    $storage_type,
-                >(value, &unit_str)
-                    as Result<
-                        whippyunits::unit!($unit, $storage_type),
+            ::core::result::Result::Ok((value, unit_str)) => {
+                // Use deserialize_core_quantity to handle dimension checking and rescaling
+                // Returns Quantity directly - no need for quantity! macro
+                $crate::serialization::deserialize_core_quantity(value, &unit_str)
+                    as ::core::result::Result<
+                        $crate::unit!($unit, $storage_type),
                         $crate::serialization::SerializationError,
                     >
             }
-            Err(e) => Err(e),
+            ::core::result::Result::Err(e) => ::core::result::Result::Err(e),
         }
     }};
 }
@@ -902,72 +862,30 @@ macro_rules! from_json {
 macro_rules! from_string {
     ($string:expr, $unit:expr) => {{
         match $crate::serialization::parse_string_input($string) {
-            Ok((value, unit_str)) => {
+            ::core::result::Result::Ok((value, unit_str)) => {
                 // Use deserialize_core_quantity to handle dimension checking and rescaling
                 // Returns Quantity directly - no need for quantity! macro
-                const UNIT_INFO: (
-                    whippyunits_core::dimension_exponents::DynDimensionExponents,
-                    whippyunits_core::scale_exponents::ScaleExponents,
-                ) = whippyunits_proc_macros::compute_unit_dimensions!($unit);
-                const DIMENSIONS: whippyunits_core::dimension_exponents::DynDimensionExponents =
-                    UNIT_INFO.0;
-                const SCALES: whippyunits_core::scale_exponents::ScaleExponents = UNIT_INFO.1;
-                $crate::serialization::deserialize_core_quantity::<
-                    { DIMENSIONS.0[0] },
-                    { DIMENSIONS.0[1] },
-                    { DIMENSIONS.0[2] },
-                    { DIMENSIONS.0[3] },
-                    { DIMENSIONS.0[4] },
-                    { DIMENSIONS.0[5] },
-                    { DIMENSIONS.0[6] },
-                    { DIMENSIONS.0[7] },
-                    { SCALES.0[0] },
-                    { SCALES.0[1] },
-                    { SCALES.0[2] },
-                    { SCALES.0[3] },
-                    f64,
-                >(value, &unit_str)
-                    as Result<
-                        whippyunits::unit!($unit, f64),
+                $crate::serialization::deserialize_core_quantity(value, &unit_str)
+                    as ::core::result::Result<
+                        $crate::unit!($unit, f64),
                         $crate::serialization::SerializationError,
                     >
             }
-            Err(e) => Err(e),
+            ::core::result::Result::Err(e) => ::core::result::Result::Err(e),
         }
     }};
     ($string:expr, $unit:expr, $storage_type:ty) => {{
         match $crate::serialization::parse_string_input($string) {
-            Ok((value, unit_str)) => {
+            ::core::result::Result::Ok((value, unit_str)) => {
                 // Use deserialize_core_quantity to handle dimension checking and rescaling
                 // Returns Quantity directly - no need for quantity! macro
-                const UNIT_INFO: (
-                    whippyunits_core::dimension_exponents::DynDimensionExponents,
-                    whippyunits_core::scale_exponents::ScaleExponents,
-                ) = whippyunits_proc_macros::compute_unit_dimensions!($unit);
-                const DIMENSIONS: whippyunits_core::dimension_exponents::DynDimensionExponents =
-                    UNIT_INFO.0;
-                const SCALES: whippyunits_core::scale_exponents::ScaleExponents = UNIT_INFO.1;
-                $crate::serialization::deserialize_core_quantity::<
-                    { DIMENSIONS.0[0] },
-                    { DIMENSIONS.0[1] },
-                    { DIMENSIONS.0[2] },
-                    { DIMENSIONS.0[3] },
-                    { DIMENSIONS.0[4] },
-                    { DIMENSIONS.0[5] },
-                    { DIMENSIONS.0[6] },
-                    { DIMENSIONS.0[7] },
-                    { SCALES.0[0] },
-                    { SCALES.0[1] },
-                    { SCALES.0[2] },
-                    { SCALES.0[3] },
-                    $storage_type,
-                >(value, &unit_str)
-                    as Result<
-                        whippyunits::unit!($unit, $storage_type),
+                $crate::serialization::deserialize_core_quantity(value, &unit_str)
+                    as ::core::result::Result<
+                        $crate::unit!($unit, $storage_type),
                         $crate::serialization::SerializationError,
                     >
             }
-            Err(e) => Err(e),
+            ::core::result::Result::Err(e) => ::core::result::Result::Err(e),
         }
     }};
 }
-- 
2.43.0


From bf5d1f165c2f8ca20072a60cf93cf492cd13132e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:05 +0000
Subject: [PATCH 54/64] fix: literals of a namespace work in every module and
 with every storage type

---
 .../src/define_unit_declarators_macro.rs      | 22 ++++++++++++
 .../src/generate_literals_module_macro.rs     |  1 +
 .../src/generate_local_unit_literals_macro.rs |  1 +
 proc-macros/src/utils/culit.rs                |  1 +
 proc-macros/src/utils/literal_macros.rs       | 34 ++++++++++++++-----
 5 files changed, 51 insertions(+), 8 deletions(-)

diff --git a/proc-macros/src/define_unit_declarators_macro.rs b/proc-macros/src/define_unit_declarators_macro.rs
index a64045e..6207de0 100644
--- a/proc-macros/src/define_unit_declarators_macro.rs
+++ b/proc-macros/src/define_unit_declarators_macro.rs
@@ -259,6 +259,19 @@ impl DefineBaseUnitsInput {
             &luminosity_scale,
             &angle_scale,
             &namespace,
+            &|storage_type, unit| {
+                let rescale = syn::Ident::new(
+                    &format!("rescale_{storage_type}"),
+                    proc_macro2::Span::mixed_site(),
+                );
+                let storage_type =
+                    syn::Ident::new(storage_type, proc_macro2::Span::call_site());
+                quote! {
+                    whippyunits::api::#rescale(
+                        whippyunits::quantity!($value as #storage_type, #unit, #storage_type, #brand_type)
+                    ) as whippyunits::local_unit!(#unit, #mass_scale, #length_scale, #time_scale, #current_scale, #temperature_scale, #amount_scale, #luminosity_scale, #angle_scale, #storage_type, #brand_type)
+                }
+            },
         );
 
         // Create the prefixed macro name identifier
@@ -661,6 +674,7 @@ impl DefineBaseUnitsInput {
         luminosity_scale: &Ident,
         angle_scale: &Ident,
         namespace: &Ident,
+        local_quantity: &dyn Fn(&str, &Ident) -> TokenStream,
     ) -> TokenStream {
         // Use the actual scale parameters to generate the literals module
         let scale_params = (
@@ -679,6 +693,7 @@ impl DefineBaseUnitsInput {
             Some(scale_params),
             true,
             namespace.clone(),
+            Some(local_quantity),
         )
     }
 
@@ -896,6 +911,13 @@ impl DefineBaseUnitsInput {
             &syn::Ident::new("Candela", proc_macro2::Span::call_site()),
             &syn::Ident::new("Radian", proc_macro2::Span::call_site()),
             &namespace,
+            &|storage_type, unit| {
+                let storage_type =
+                    syn::Ident::new(storage_type, proc_macro2::Span::call_site());
+                quote! {
+                    whippyunits::quantity!($value as #storage_type, #unit, #storage_type, #brand_type)
+                }
+            },
         );
 
         // Create prefixed macro name
diff --git a/proc-macros/src/generate_literals_module_macro.rs b/proc-macros/src/generate_literals_module_macro.rs
index 894a299..f6e3831 100644
--- a/proc-macros/src/generate_literals_module_macro.rs
+++ b/proc-macros/src/generate_literals_module_macro.rs
@@ -9,6 +9,7 @@ pub fn generate_literals_module(_input: TokenStream) -> TokenStream {
         None,
         false,
         syn::Ident::new("default_declarators", proc_macro2::Span::mixed_site()),
+        None,
     );
     literals_module.into()
 }
diff --git a/proc-macros/src/generate_local_unit_literals_macro.rs b/proc-macros/src/generate_local_unit_literals_macro.rs
index 3e2f2f8..93c1d4d 100644
--- a/proc-macros/src/generate_local_unit_literals_macro.rs
+++ b/proc-macros/src/generate_local_unit_literals_macro.rs
@@ -66,6 +66,7 @@ impl LocalUnitLiteralsInput {
             Some(scale_params),
             false,
             syn::Ident::new("local_unit_literals", proc_macro2::Span::mixed_site()),
+            None,
         )
         .into()
     }
diff --git a/proc-macros/src/utils/culit.rs b/proc-macros/src/utils/culit.rs
index 63085fb..a302ada 100644
--- a/proc-macros/src/utils/culit.rs
+++ b/proc-macros/src/utils/culit.rs
@@ -81,6 +81,7 @@ pub fn generate_custom_literal_module_with_name(module_name: &str) -> proc_macro
         None,
         false,
         syn::Ident::new(module_name, proc_macro2::Span::mixed_site()),
+        None,
     )
     .into()
 }
diff --git a/proc-macros/src/utils/literal_macros.rs b/proc-macros/src/utils/literal_macros.rs
index ec79f0e..1c8e680 100644
--- a/proc-macros/src/utils/literal_macros.rs
+++ b/proc-macros/src/utils/literal_macros.rs
@@ -93,12 +93,15 @@ pub fn get_all_unit_symbols_for_literals() -> Vec<String> {
 /// - `scale_params`: Optional scale parameters for lift trace (only used if is_local_mode is true)
 /// - `for_namespace`: If true, generates just the float/integer submodules without outer wrapper
 /// - `namespace_ident`: Optional namespace identifier for disambiguating local macros
+/// - `local_quantity`: What a literal `$value` of the given storage type and unit stands for in a namespace.
+///   Literals are used in modules where the prefixed macro of the namespace is not in scope.
 pub fn generate_literal_macros_module(
     module_name: &str,
     is_local_mode: bool,
     scale_params: Option<(Ident, Ident, Ident, Ident, Ident, Ident, Ident, Ident)>,
     for_namespace: bool,
     namespace_ident: Ident,
+    local_quantity: Option<&dyn Fn(&str, &Ident) -> TokenStream2>,
 ) -> TokenStream2 {
     // Get all unit symbols using the shared function
     let unit_symbols = get_all_unit_symbols_for_literals();
@@ -116,6 +119,14 @@ pub fn generate_literal_macros_module(
         quote! { whippyunits::quantity! }
     };
 
+    let literal_quantity = |storage_type: &str, unit_ident: &Ident| {
+        if let Some(local_quantity) = local_quantity {
+            return local_quantity(storage_type, unit_ident);
+        }
+        let storage_type = syn::Ident::new(storage_type, proc_macro2::Span::call_site());
+        quote! { #quantity_path($value as #storage_type, #unit_ident, #storage_type) }
+    };
+
     let mut float_macros = Vec::new();
     let mut integer_macros = Vec::new();
 
@@ -268,6 +279,13 @@ pub fn generate_literal_macros_module(
             proc_macro2::Span::mixed_site(),
         );
 
+        let quantity_f64 = literal_quantity("f64", &unit_ident);
+        let quantity_f32 = literal_quantity("f32", &unit_ident);
+        let quantity_i32 = literal_quantity("i32", &unit_ident);
+        let quantity_i64 = literal_quantity("i64", &unit_ident);
+        let quantity_u32 = literal_quantity("u32", &unit_ident);
+        let quantity_u64 = literal_quantity("u64", &unit_ident);
+
         // Generate typed float macros
         float_macros.push(quote! {
             #[doc = #doc_string_f64]
@@ -275,7 +293,7 @@ pub fn generate_literal_macros_module(
             #[doc(hidden)]
             macro_rules! #inner_f64 {
                 ($value:literal) => {{
-                    #quantity_path($value as f64, #unit_ident, f64)
+                    #quantity_f64
                 }};
             }
             pub use #inner_f64 as #unit_f64;
@@ -285,7 +303,7 @@ pub fn generate_literal_macros_module(
             #[doc(hidden)]
             macro_rules! #inner_f32 {
                 ($value:literal) => {{
-                    #quantity_path($value as f32, #unit_ident, f32)
+                    #quantity_f32
                 }};
             }
             pub use #inner_f32 as #unit_f32;
@@ -298,7 +316,7 @@ pub fn generate_literal_macros_module(
             #[doc(hidden)]
             macro_rules! #inner_i32 {
                 ($value:literal) => {{
-                    #quantity_path($value as i32, #unit_ident, i32)
+                    #quantity_i32
                 }};
             }
             pub use #inner_i32 as #unit_i32;
@@ -308,7 +326,7 @@ pub fn generate_literal_macros_module(
             #[doc(hidden)]
             macro_rules! #inner_i64 {
                 ($value:literal) => {{
-                    #quantity_path($value as i64, #unit_ident, i64)
+                    #quantity_i64
                 }};
             }
             pub use #inner_i64 as #unit_i64;
@@ -318,7 +336,7 @@ pub fn generate_literal_macros_module(
             #[doc(hidden)]
             macro_rules! #inner_u32 {
                 ($value:literal) => {{
-                    #quantity_path($value as u32, #unit_ident, u32)
+                    #quantity_u32
                 }};
             }
             pub use #inner_u32 as #unit_u32;
@@ -328,7 +346,7 @@ pub fn generate_literal_macros_module(
             #[doc(hidden)]
             macro_rules! #inner_u64 {
                 ($value:literal) => {{
-                    #quantity_path($value as u64, #unit_ident, u64)
+                    #quantity_u64
                 }};
             }
             pub use #inner_u64 as #unit_u64;
@@ -341,7 +359,7 @@ pub fn generate_literal_macros_module(
             #[doc(hidden)]
             macro_rules! #inner_short_float {
                 ($value:literal) => {{
-                    #quantity_path($value as f64, #unit_ident, f64)
+                    #quantity_f64
                 }};
             }
             pub use #inner_short_float as #unit_ident;
@@ -354,7 +372,7 @@ pub fn generate_literal_macros_module(
             #[doc(hidden)]
             macro_rules! #inner_short_int {
                 ($value:literal) => {{
-                    #quantity_path($value as i32, #unit_ident, i32)
+                    #quantity_i32
                 }};
             }
             pub use #inner_short_int as #unit_ident;
-- 
2.43.0


From 7b5a68d0ff91ae7202809ffb426927d5caa3169c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:34 +0000
Subject: [PATCH 55/64] fix: a namespace's quantity! takes every integer
 storage type

---
 .../src/define_unit_declarators_macro.rs      | 48 +++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/proc-macros/src/define_unit_declarators_macro.rs b/proc-macros/src/define_unit_declarators_macro.rs
index 6207de0..287b285 100644
--- a/proc-macros/src/define_unit_declarators_macro.rs
+++ b/proc-macros/src/define_unit_declarators_macro.rs
@@ -411,6 +411,54 @@ impl DefineBaseUnitsInput {
                             whippyunits::api::rescale_f32(declared_quantity) as whippyunits::local_unit!($unit, #mass_scale, #length_scale, #time_scale, #current_scale, #temperature_scale, #amount_scale, #luminosity_scale, #angle_scale, f32, #brand_type)
                         }
                     };
+                    ($value:expr, $unit:expr, i8) => {
+                        {
+                            let declared_quantity = whippyunits::quantity!($value, $unit, i8, #brand_type);
+                            whippyunits::api::rescale_i8(declared_quantity) as whippyunits::local_unit!($unit, #mass_scale, #length_scale, #time_scale, #current_scale, #temperature_scale, #amount_scale, #luminosity_scale, #angle_scale, i8, #brand_type)
+                        }
+                    };
+                    ($value:expr, $unit:expr, i16) => {
+                        {
+                            let declared_quantity = whippyunits::quantity!($value, $unit, i16, #brand_type);
+                            whippyunits::api::rescale_i16(declared_quantity) as whippyunits::local_unit!($unit, #mass_scale, #length_scale, #time_scale, #current_scale, #temperature_scale, #amount_scale, #luminosity_scale, #angle_scale, i16, #brand_type)
+                        }
+                    };
+                    ($value:expr, $unit:expr, i128) => {
+                        {
+                            let declared_quantity = whippyunits::quantity!($value, $unit, i128, #brand_type);
+                            whippyunits::api::rescale_i128(declared_quantity) as whippyunits::local_unit!($unit, #mass_scale, #length_scale, #time_scale, #current_scale, #temperature_scale, #amount_scale, #luminosity_scale, #angle_scale, i128, #brand_type)
+                        }
+                    };
+                    ($value:expr, $unit:expr, u8) => {
+                        {
+                            let declared_quantity = whippyunits::quantity!($value, $unit, u8, #brand_type);
+                            whippyunits::api::rescale_u8(declared_quantity) as whippyunits::local_unit!($unit, #mass_scale, #length_scale, #time_scale, #current_scale, #temperature_scale, #amount_scale, #luminosity_scale, #angle_scale, u8, #brand_type)
+                        }
+                    };
+                    ($value:expr, $unit:expr, u16) => {
+                        {
+                            let declared_quantity = whippyunits::quantity!($value, $unit, u16, #brand_type);
+                            whippyunits::api::rescale_u16(declared_quantity) as whippyunits::local_unit!($unit, #mass_scale, #length_scale, #time_scale, #current_scale, #temperature_scale, #amount_scale, #luminosity_scale, #angle_scale, u16, #brand_type)
+                        }
+                    };
+                    ($value:expr, $unit:expr, u32) => {
+                        {
+                            let declared_quantity = whippyunits::quantity!($value, $unit, u32, #brand_type);
+                            whippyunits::api::rescale_u32(declared_quantity) as whippyunits::local_unit!($unit, #mass_scale, #length_scale, #time_scale, #current_scale, #temperature_scale, #amount_scale, #luminosity_scale, #angle_scale, u32, #brand_type)
+                        }
+                    };
+                    ($value:expr, $unit:expr, u64) => {
+                        {
+                            let declared_quantity = whippyunits::quantity!($value, $unit, u64, #brand_type);
+                            whippyunits::api::rescale_u64(declared_quantity) as whippyunits::local_unit!($unit, #mass_scale, #length_scale, #time_scale, #current_scale, #temperature_scale, #amount_scale, #luminosity_scale, #angle_scale, u64, #brand_type)
+                        }
+                    };
+                    ($value:expr, $unit:expr, u128) => {
+                        {
+                            let declared_quantity = whippyunits::quantity!($value, $unit, u128, #brand_type);
+                            whippyunits::api::rescale_u128(declared_quantity) as whippyunits::local_unit!($unit, #mass_scale, #length_scale, #time_scale, #current_scale, #temperature_scale, #amount_scale, #luminosity_scale, #angle_scale, u128, #brand_type)
+                        }
+                    };
                     ($value:expr, $unit:expr, isize) => {
                         {
                             let declared_quantity = whippyunits::quantity!($value, $unit, isize, #brand_type);
-- 
2.43.0


From 646478c709d27604dcbb07adf02788a5f35beab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:14 +0000
Subject: [PATCH 56/64] fix: quantities of a namespace's brand can be compared,
 as all others can

---
 proc-macros/src/define_unit_declarators_macro.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proc-macros/src/define_unit_declarators_macro.rs b/proc-macros/src/define_unit_declarators_macro.rs
index 287b285..b3f4dd9 100644
--- a/proc-macros/src/define_unit_declarators_macro.rs
+++ b/proc-macros/src/define_unit_declarators_macro.rs
@@ -189,7 +189,7 @@ impl DefineBaseUnitsInput {
         // Create the brand struct definition token stream if brand is present
         let brand_struct_def = if let Some(ref ident) = brand_ident {
             quote! {
-                #[derive(Clone, Copy)]
+                #[derive(Clone, Copy, PartialEq)]
                 pub struct #ident;
             }
         } else {
@@ -937,7 +937,7 @@ impl DefineBaseUnitsInput {
 
         let brand_struct_def = if let Some(ref ident) = brand_ident {
             quote! {
-                #[derive(Clone, Copy)]
+                #[derive(Clone, Copy, PartialEq)]
                 pub struct #ident;
             }
         } else {
-- 
2.43.0


From 58a45e1552c11a2d1e9e4e4483eb5072fbeae8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:18 +0000
Subject: [PATCH 57/64] fix: a crate can implement a trait for the quantities
 of several units

---
 .../src/define_unit_declarators_macro.rs      | 32 +++++++++----------
 proc-macros/src/unit_macro.rs                 |  4 +--
 proc-macros/src/utils/lift_trace.rs           |  8 ++---
 src/lib.rs                                    | 15 +++------
 4 files changed, 27 insertions(+), 32 deletions(-)

diff --git a/proc-macros/src/define_unit_declarators_macro.rs b/proc-macros/src/define_unit_declarators_macro.rs
index b3f4dd9..157ccce 100644
--- a/proc-macros/src/define_unit_declarators_macro.rs
+++ b/proc-macros/src/define_unit_declarators_macro.rs
@@ -620,16 +620,16 @@ impl DefineBaseUnitsInput {
 
                     // Generate trait method - construct the type directly using Helper pattern (same as local_unit!)
                     trait_methods.push(quote! {
-                        fn #fn_name_ident(self) -> <whippyunits::Helper<{
+                        fn #fn_name_ident(self) -> whippyunits::Helper<{
                             0
-                        }, whippyunits::local_unit!(#unit_symbol_ident, #mass_scale, #length_scale, #time_scale, #current_scale, #temperature_scale, #amount_scale, #luminosity_scale, #angle_scale, T, #brand_type_tokens)> as whippyunits::GetSecondGeneric>::Type;
+                        }, whippyunits::local_unit!(#unit_symbol_ident, #mass_scale, #length_scale, #time_scale, #current_scale, #temperature_scale, #amount_scale, #luminosity_scale, #angle_scale, T, #brand_type_tokens)>;
                     });
 
                     // Generate f64 implementation
                     impl_f64_methods.push(quote! {
-                        fn #fn_name_ident(self) -> <whippyunits::Helper<{
+                        fn #fn_name_ident(self) -> whippyunits::Helper<{
                             0
-                        }, whippyunits::local_unit!(#unit_symbol_ident, #mass_scale, #length_scale, #time_scale, #current_scale, #temperature_scale, #amount_scale, #luminosity_scale, #angle_scale, f64, #brand_type_tokens)> as whippyunits::GetSecondGeneric>::Type {
+                        }, whippyunits::local_unit!(#unit_symbol_ident, #mass_scale, #length_scale, #time_scale, #current_scale, #temperature_scale, #amount_scale, #luminosity_scale, #angle_scale, f64, #brand_type_tokens)> {
                             let q = whippyunits::default_declarators::#scale_name_ident::new(self);
                             // Use type annotation to let rescale infer the target scale parameters (local_unit uses base unit scales)
                             // Note: rescale returns a quantity with brand (), so we need to convert the brand
@@ -642,9 +642,9 @@ impl DefineBaseUnitsInput {
 
                     // Generate i32 implementation
                     impl_i32_methods.push(quote! {
-                        fn #fn_name_ident(self) -> <whippyunits::Helper<{
+                        fn #fn_name_ident(self) -> whippyunits::Helper<{
                             0
-                        }, whippyunits::local_unit!(#unit_symbol_ident, #mass_scale, #length_scale, #time_scale, #current_scale, #temperature_scale, #amount_scale, #luminosity_scale, #angle_scale, i32, #brand_type_tokens)> as whippyunits::GetSecondGeneric>::Type {
+                        }, whippyunits::local_unit!(#unit_symbol_ident, #mass_scale, #length_scale, #time_scale, #current_scale, #temperature_scale, #amount_scale, #luminosity_scale, #angle_scale, i32, #brand_type_tokens)> {
                             let q = whippyunits::default_declarators::#scale_name_ident::new(self);
                             // Use type annotation to let rescale_i32 infer the target scale parameters (local_unit uses base unit scales)
                             // Note: rescale_i32 returns a quantity with brand (), so we need to convert the brand
@@ -657,9 +657,9 @@ impl DefineBaseUnitsInput {
 
                     // Generate i64 implementation
                     impl_i64_methods.push(quote! {
-                        fn #fn_name_ident(self) -> <whippyunits::Helper<{
+                        fn #fn_name_ident(self) -> whippyunits::Helper<{
                             0
-                        }, whippyunits::local_unit!(#unit_symbol_ident, #mass_scale, #length_scale, #time_scale, #current_scale, #temperature_scale, #amount_scale, #luminosity_scale, #angle_scale, i64, #brand_type_tokens)> as whippyunits::GetSecondGeneric>::Type {
+                        }, whippyunits::local_unit!(#unit_symbol_ident, #mass_scale, #length_scale, #time_scale, #current_scale, #temperature_scale, #amount_scale, #luminosity_scale, #angle_scale, i64, #brand_type_tokens)> {
                             let q = whippyunits::default_declarators::#scale_name_ident::new(self);
                             type TargetQuantityUnbranded = whippyunits::local_unit!(#unit_symbol_ident, #mass_scale, #length_scale, #time_scale, #current_scale, #temperature_scale, #amount_scale, #luminosity_scale, #angle_scale, i64);
                             let rescaled: TargetQuantityUnbranded = whippyunits::api::rescale_i64(q);
@@ -1121,34 +1121,34 @@ impl DefineBaseUnitsInput {
 
                 // Generate trait method signature
                 trait_methods.push(quote! {
-                    fn #fn_name_ident(self) -> <whippyunits::Helper<{
+                    fn #fn_name_ident(self) -> whippyunits::Helper<{
                         0
-                    }, whippyunits::unit!(#unit_symbol_ident, T, #brand_type_tokens)> as whippyunits::GetSecondGeneric>::Type;
+                    }, whippyunits::unit!(#unit_symbol_ident, T, #brand_type_tokens)>;
                 });
 
                 // Generate impls that delegate to default_declarators and convert brand
                 impl_f64_methods.push(quote! {
-                    fn #fn_name_ident(self) -> <whippyunits::Helper<{
+                    fn #fn_name_ident(self) -> whippyunits::Helper<{
                         0
-                    }, whippyunits::unit!(#unit_symbol_ident, f64, #brand_type_tokens)> as whippyunits::GetSecondGeneric>::Type {
+                    }, whippyunits::unit!(#unit_symbol_ident, f64, #brand_type_tokens)> {
                         let q = whippyunits::default_declarators::#scale_name_ident::new(self);
                         <whippyunits::unit!(#unit_symbol_ident, f64, #brand_type_tokens)>::new(q.unsafe_value)
                     }
                 });
 
                 impl_i32_methods.push(quote! {
-                    fn #fn_name_ident(self) -> <whippyunits::Helper<{
+                    fn #fn_name_ident(self) -> whippyunits::Helper<{
                         0
-                    }, whippyunits::unit!(#unit_symbol_ident, i32, #brand_type_tokens)> as whippyunits::GetSecondGeneric>::Type {
+                    }, whippyunits::unit!(#unit_symbol_ident, i32, #brand_type_tokens)> {
                         let q = whippyunits::default_declarators::#scale_name_ident::new(self);
                         <whippyunits::unit!(#unit_symbol_ident, i32, #brand_type_tokens)>::new(q.unsafe_value)
                     }
                 });
 
                 impl_i64_methods.push(quote! {
-                    fn #fn_name_ident(self) -> <whippyunits::Helper<{
+                    fn #fn_name_ident(self) -> whippyunits::Helper<{
                         0
-                    }, whippyunits::unit!(#unit_symbol_ident, i64, #brand_type_tokens)> as whippyunits::GetSecondGeneric>::Type {
+                    }, whippyunits::unit!(#unit_symbol_ident, i64, #brand_type_tokens)> {
                         let q = whippyunits::default_declarators::#scale_name_ident::new(self);
                         <whippyunits::unit!(#unit_symbol_ident, i64, #brand_type_tokens)>::new(q.unsafe_value)
                     }
diff --git a/proc-macros/src/unit_macro.rs b/proc-macros/src/unit_macro.rs
index afaa138..7a2648b 100644
--- a/proc-macros/src/unit_macro.rs
+++ b/proc-macros/src/unit_macro.rs
@@ -94,10 +94,10 @@ impl UnitMacroInput {
         };
 
         quote! {
-            <whippyunits::Helper<{
+            whippyunits::Helper<{
                 #doc_structs
                 0
-            }, #quantity_type> as whippyunits::GetSecondGeneric>::Type
+            }, #quantity_type>
         }
     }
 }
diff --git a/proc-macros/src/utils/lift_trace.rs b/proc-macros/src/utils/lift_trace.rs
index 5265a2b..4d04164 100644
--- a/proc-macros/src/utils/lift_trace.rs
+++ b/proc-macros/src/utils/lift_trace.rs
@@ -219,10 +219,10 @@ impl<'a> QuoteGenerator<'a> {
 
         // Construct the Quantity type directly using unit! macro with brand, same as compound units
         quote! {
-            <whippyunits::Helper<{
+            whippyunits::Helper<{
                 #lift_trace_doc_shadows
                 0
-            }, whippyunits::unit!(#unit_symbol_ident, #storage_type, #brand_type)> as whippyunits::GetSecondGeneric>::Type
+            }, whippyunits::unit!(#unit_symbol_ident, #storage_type, #brand_type)>
         }
     }
 
@@ -231,10 +231,10 @@ impl<'a> QuoteGenerator<'a> {
         let storage_type = self.storage_type;
         let brand_type = self.brand_type;
         quote! {
-            <whippyunits::Helper<{
+            whippyunits::Helper<{
                 #lift_trace_doc_shadows
                 0
-            }, whippyunits::unit!(#unit_expr_parsed, #storage_type, #brand_type)> as whippyunits::GetSecondGeneric>::Type
+            }, whippyunits::unit!(#unit_expr_parsed, #storage_type, #brand_type)>
         }
     }
 }
diff --git a/src/lib.rs b/src/lib.rs
index 9a7b736..e685f1b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -108,17 +108,12 @@ extern crate alloc as alloc_crate;
 pub trait IsI16<const S: i16> {}
 impl<const S: i16> IsI16<S> for () {}
 
+/// `ActualT` itself. The block given for `N` holds the documentation of its units.
+///
+/// An alias, not a projection: a crate could not tell two projections apart, and so not implement
+/// a trait for the quantities of two units.
 #[doc(hidden)]
-pub struct Helper<const N: usize, ActualT>(ActualT);
-
-#[doc(hidden)]
-pub trait GetSecondGeneric {
-    type Type;
-}
-
-impl<const N: usize, T> GetSecondGeneric for Helper<N, T> {
-    type Type = T;
-}
+pub type Helper<const N: usize, ActualT> = ActualT;
 
 #[cfg(feature = "alloc")]
 #[doc(hidden)]
-- 
2.43.0


From 10b9f2d88692af1db2244382658f716410a440f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:29 +0000
Subject: [PATCH 58/64] fix: define_generic_dimension! does not take a caller's
 type for one of its parameters

---
 proc-macros/src/define_generic_dimension_macro.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proc-macros/src/define_generic_dimension_macro.rs b/proc-macros/src/define_generic_dimension_macro.rs
index cac4375..b5a51ab 100644
--- a/proc-macros/src/define_generic_dimension_macro.rs
+++ b/proc-macros/src/define_generic_dimension_macro.rs
@@ -284,7 +284,7 @@ impl DefineGenericDimensionInput {
                 const SCALE_PI: i16,
                 T
             > #trait_name for whippyunits::quantity::Quantity<
-                whippyunits::quantity::Scale<whippyunits::quantity::_2<SCALE_P2>, whippyunits::quantity::_3<SCALE_P3>, whippyunits::quantity::_5<SCALE_P5>, whippyunits::quantity::_Pi<SCALE_PI>>,
+                whippyunits::quantity::Scale<whippyunits::quantity::_2<{ SCALE_P2 }>, whippyunits::quantity::_3<{ SCALE_P3 }>, whippyunits::quantity::_5<{ SCALE_P5 }>, whippyunits::quantity::_Pi<{ SCALE_PI }>>,
                 whippyunits::quantity::Dimension<whippyunits::quantity::_M<#mass_exp>, whippyunits::quantity::_L<#length_exp>, whippyunits::quantity::_T<#time_exp>, whippyunits::quantity::_I<#current_exp>, whippyunits::quantity::_Θ<#temp_exp>, whippyunits::quantity::_N<#amount_exp>, whippyunits::quantity::_J<#lum_exp>, whippyunits::quantity::_A<#angle_exp>>,
                 T
             > {
-- 
2.43.0


From 7a7d4cd3551aa7c1cc5af5d45232173d136e89d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:38 +0000
Subject: [PATCH 59/64] fix: document units with the prefix deca (dag,
 decagram) as what they are

---
 proc-macros/src/utils/shared_utils.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/proc-macros/src/utils/shared_utils.rs b/proc-macros/src/utils/shared_utils.rs
index 70c3e4f..b8f0181 100644
--- a/proc-macros/src/utils/shared_utils.rs
+++ b/proc-macros/src/utils/shared_utils.rs
@@ -160,11 +160,13 @@ pub fn get_declarator_type_for_exponents(
 fn parse_unit_with_prefix_core(
     unit_name: &str,
 ) -> (Option<&'static whippyunits_core::SiPrefix>, String) {
-    // Try to strip any prefix from the unit name
-    if let Some((prefix, base)) = whippyunits_core::SiPrefix::strip_any_prefix_symbol(unit_name) {
-        // Check if the base unit exists
-        if whippyunits_core::Dimension::find_unit_by_symbol(base).is_some() {
-            return (Some(prefix), String::from(base));
+    // Try to strip every prefix from the unit name (a `da` also starts with a `d`)
+    for prefix in SiPrefix::ALL {
+        if let Some(base) = prefix.strip_prefix_symbol(unit_name) {
+            // Check if the base unit exists
+            if Dimension::find_unit_by_symbol(base).is_some() {
+                return (Some(prefix), String::from(base));
+            }
         }
     }
 
@@ -317,7 +319,7 @@ pub fn get_unit_doc_info(unit_name: &str) -> Option<String> {
             } else {
                 format!(
                     "10{}",
-                    to_unicode_superscript(prefix_info.factor_log10(), false)
+                    to_unicode_superscript(prefix_info.factor_log10(), true)
                 )
             };
 
@@ -343,8 +345,11 @@ pub fn get_unit_doc_info(unit_name: &str) -> Option<String> {
 /// This function now uses the centralized parsing logic from whippyunits-core.
 /// Only allows prefixing of base units (first unit in each dimension by declaration order).
 pub fn parse_prefixed_unit(unit_name: &str) -> Option<(String, String)> {
-    // Try to strip any prefix from the unit name
-    if let Some((prefix, base)) = SiPrefix::strip_any_prefix_symbol(unit_name) {
+    // Try to strip every prefix from the unit name (a `da` also starts with a `d`)
+    for prefix in SiPrefix::ALL {
+        let Some(base) = prefix.strip_prefix_symbol(unit_name) else {
+            continue;
+        };
         // Check if the base unit exists and is a base unit (first unit in its dimension)
         if let Some((unit, dimension)) = Dimension::find_unit_by_symbol(base) {
             // Check if this is the first unit in its dimension (base unit)
-- 
2.43.0


From 321b54ef4e258030715337d23030685a398b9cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:38 +0000
Subject: [PATCH 60/64] fix: document a unit with the type its quantities have
 (ft was shown as a Meter, kilometer as ())

---
 proc-macros/src/utils/shared_utils.rs | 46 ++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/proc-macros/src/utils/shared_utils.rs b/proc-macros/src/utils/shared_utils.rs
index b8f0181..3ef9a18 100644
--- a/proc-macros/src/utils/shared_utils.rs
+++ b/proc-macros/src/utils/shared_utils.rs
@@ -53,7 +53,9 @@ pub fn get_declarator_type_for_unit(unit_name: &str) -> Option<TokenStream> {
     let (prefix_opt, base) = parse_unit_with_prefix_core(unit_name);
     if let Some(prefix) = prefix_opt {
         // Find the base unit
-        if let Some((base_unit, _)) = whippyunits_core::Dimension::find_unit_by_symbol(&base) {
+        if let Some((base_unit, _)) = whippyunits_core::Dimension::find_unit_by_symbol(&base)
+            .or_else(|| whippyunits_core::Dimension::find_unit_by_name(&base))
+        {
             // Generate the prefixed type name by combining prefix name with base unit name
             // Use the same logic as generate_scale_name to ensure consistency
             let type_name = generate_scale_name(prefix.name(), base_unit.name);
@@ -136,10 +138,10 @@ pub fn get_declarator_type_for_exponents(
             let base_unit = &matching_dimension.units[0];
 
             // Check if the scale difference corresponds to a known prefix
-            let scale_diff = scale_exponents.0[0] - base_unit.scale.0[0]; // Check p2 difference
+            let scale_diff = scale_exponents.mul(base_unit.scale.neg()).log10();
             if let Some(prefix) = SiPrefix::ALL
                 .iter()
-                .find(|p| p.factor_log10() == scale_diff)
+                .find(|p| Some(p.factor_log10()) == scale_diff)
             {
                 // Generate prefixed type name using same logic as generate_default_declarators_macro
                 let type_name = generate_scale_name(prefix.name(), base_unit.name);
@@ -155,6 +157,29 @@ pub fn get_declarator_type_for_exponents(
     None
 }
 
+/// Get the type of the quantities with the given dimension and scale exponents
+fn get_type_for_exponents(
+    dimension_exponents: whippyunits_core::dimension_exponents::DynDimensionExponents,
+    scale_exponents: whippyunits_core::scale_exponents::ScaleExponents,
+) -> TokenStream {
+    if let Some(declarator_type) =
+        get_declarator_type_for_exponents(dimension_exponents, scale_exponents)
+    {
+        return declarator_type;
+    }
+
+    let [p2, p3, p5, pi] = scale_exponents.0;
+    let [mass, length, time, current, temperature, amount, luminosity, angle] =
+        dimension_exponents.0;
+    quote! {
+        whippyunits::quantity::Quantity<
+            whippyunits::quantity::Scale<whippyunits::quantity::_2<#p2>, whippyunits::quantity::_3<#p3>, whippyunits::quantity::_5<#p5>, whippyunits::quantity::_Pi<#pi>>,
+            whippyunits::quantity::Dimension<whippyunits::quantity::_M<#mass>, whippyunits::quantity::_L<#length>, whippyunits::quantity::_T<#time>, whippyunits::quantity::_I<#current>, whippyunits::quantity::_Θ<#temperature>, whippyunits::quantity::_N<#amount>, whippyunits::quantity::_J<#luminosity>, whippyunits::quantity::_A<#angle>>,
+            f64
+        >
+    }
+}
+
 /// Parse a unit name to extract prefix and base unit
 /// Returns (prefix_option, base_unit_name)
 fn parse_unit_with_prefix_core(
@@ -227,17 +252,14 @@ pub fn get_storage_unit_type_for_unit(unit_name: &str) -> Option<TokenStream> {
     let storage_unit = dimension
         .units
         .iter()
-        .find(|u| u.scale == unit.scale && u.conversion_factor == 1.0 && u.affine_offset == 0.0)
-        .or_else(|| {
-            // Fallback: find any storage unit in the dimension
-            dimension
-                .units
-                .iter()
-                .find(|u| u.conversion_factor == 1.0 && u.affine_offset == 0.0)
-        })?;
+        .find(|u| u.scale == unit.scale && u.conversion_factor == 1.0 && u.affine_offset == 0.0);
 
     // Get the declarator type for the storage unit
-    get_declarator_type_for_unit(storage_unit.symbols[0])
+    match storage_unit {
+        Some(storage_unit) => get_declarator_type_for_unit(storage_unit.symbols[0]),
+        // No unit of its own is at that scale (the foot is stored in decimeters)
+        None => Some(get_type_for_exponents(dimension.exponents, unit.scale)),
+    }
 }
 
 /// Recursively collect identifiers from a unit expression
-- 
2.43.0


From a8dd863805a4ff8f2cc5300da34d14cf8311adc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:58 +0000
Subject: [PATCH 61/64] fix: name the types in the hovers of items, whose path
 has a code block of its own

---
 lsp-proxy/src/unit_formatter.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/lsp-proxy/src/unit_formatter.rs b/lsp-proxy/src/unit_formatter.rs
index 7c21698..3e526c3 100644
--- a/lsp-proxy/src/unit_formatter.rs
+++ b/lsp-proxy/src/unit_formatter.rs
@@ -59,8 +59,8 @@ impl UnitFormatter {
         }
 
         // Work within the existing markdown structure
-        // Find the first code block and replace its content
-        if let Some(code_start) = original_text.find("```rust") {
+        // Find the code block of the declaration and replace its content
+        if let Some(code_start) = self.find_declaration_block(original_text) {
             let after_code_start = &original_text[code_start + 7..]; // Skip "```rust"
             if let Some(code_end) = after_code_start.find("```") {
                 let code_content = &after_code_start[..code_end];
@@ -119,6 +119,28 @@ impl UnitFormatter {
         self.format_quantity_types(text, config.verbose, config.unicode, false)
     }
 
+    /// Find the code block of a hover that shows the declaration: the hovers of items (like
+    /// functions and fields) have another one before it, with the path of the item
+    fn find_declaration_block(&self, text: &str) -> Option<usize> {
+        let first = text.find("```rust")?;
+        let mut block = first;
+        loop {
+            let code = &text[block + 7..];
+            let Some(code_end) = code.find("```") else {
+                return Some(first);
+            };
+            if code[..code_end].contains("Quantity<") {
+                return Some(block);
+            }
+            // The blocks follow each other directly, and not behind a separator
+            let rest = &code[code_end + 3..];
+            if !rest.trim_start().starts_with("```rust") {
+                return Some(first);
+            }
+            block = text.len() - rest.trim_start().len();
+        }
+    }
+
     /// Format whippyunits types for inlay hints (compact format)
     pub fn format_types_inlay_hint(&self, text: &str, config: &DisplayConfig) -> String {
         self.format_quantity_types(text, config.verbose, config.unicode, true)
-- 
2.43.0


From 8a3a8c010823e417f2b6817abc79fb3768663e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:36 +0000
Subject: [PATCH 62/64] fix: find_by_literal finds the unit that quantity!
 means (cd was a centiday, kJ by accident, ft a femtoton)

---
 whippyunits-core/src/dimensions.rs | 68 ++++++++++++------------------
 1 file changed, 28 insertions(+), 40 deletions(-)

diff --git a/whippyunits-core/src/dimensions.rs b/whippyunits-core/src/dimensions.rs
index f70d9fd..70938f4 100644
--- a/whippyunits-core/src/dimensions.rs
+++ b/whippyunits-core/src/dimensions.rs
@@ -138,51 +138,39 @@ impl Dimension {
     pub fn find_by_literal(
         literal: &str,
     ) -> Option<(&'static Unit, &'static Dimension, Option<&'static SiPrefix>)> {
-        // First try the literal as-is
-        if let Some((prefix, base)) = SiPrefix::strip_any_prefix_name(literal)
-            && let Some((unit, dimension)) = Self::find_si_unit_by_name(base)
-        {
-            return Some((unit, dimension, Some(prefix)));
-        }
+        // If not found as it is, try with plural "s" stripped (but only if the result is not empty)
+        Self::find_by_singular_literal(literal).or_else(|| {
+            let singular = literal.strip_suffix('s').filter(|s| !s.is_empty())?;
+            Self::find_by_singular_literal(singular)
+        })
+    }
 
-        if let Some((prefix, base)) = SiPrefix::strip_any_prefix_symbol(literal)
-            && let Some((unit, dimension)) = Self::find_si_unit_by_symbol(base)
+    fn find_by_singular_literal(
+        literal: &str,
+    ) -> Option<(&'static Unit, &'static Dimension, Option<&'static SiPrefix>)> {
+        // First try the literal as-is (a `cd` is a candela, and not a centiday)
+        if let Some((unit, dimension)) =
+            Self::find_unit_by_name(literal).or_else(|| Self::find_unit_by_symbol(literal))
         {
-            return Some((unit, dimension, Some(prefix)));
-        }
-
-        if let Some((unit, dimension)) = Self::find_unit_by_name(literal) {
-            return Some((unit, dimension, None));
-        } else if let Some((unit, dimension)) = Self::find_unit_by_symbol(literal) {
             return Some((unit, dimension, None));
         }
 
-        // If not found, try with plural "s" stripped (but only if the result is not empty)
-        if literal.len() > 1 {
-            let literal_singular = literal.trim_end_matches("s");
-            if !literal_singular.is_empty() {
-                if let Some((prefix, base)) = SiPrefix::strip_any_prefix_name(literal_singular)
-                    && let Some((unit, dimension)) = Self::find_si_unit_by_name(base)
-                {
-                    return Some((unit, dimension, Some(prefix)));
-                }
-
-                if let Some((prefix, base)) = SiPrefix::strip_any_prefix_symbol(literal_singular)
-                    && let Some((unit, dimension)) = Self::find_si_unit_by_symbol(base)
-                {
-                    return Some((unit, dimension, Some(prefix)));
-                }
-
-                if let Some((unit, dimension)) = Self::find_unit_by_name(literal_singular) {
-                    return Some((unit, dimension, None));
-                } else if let Some((unit, dimension)) = Self::find_unit_by_symbol(literal_singular)
-                {
-                    return Some((unit, dimension, None));
-                }
-            }
-        }
-
-        None
+        // Then with a prefix, which only the first unit of a dimension takes
+        let prefixable =
+            |&(unit, dimension): &(&Unit, &Dimension)| dimension.units.first() == Some(unit);
+        SiPrefix::ALL.iter().find_map(|prefix| {
+            let by_name = prefix
+                .strip_prefix_name(literal)
+                .and_then(Self::find_unit_by_name)
+                .filter(prefixable);
+            let (unit, dimension) = by_name.or_else(|| {
+                prefix
+                    .strip_prefix_symbol(literal)
+                    .and_then(Self::find_unit_by_symbol)
+                    .filter(prefixable)
+            })?;
+            Some((unit, dimension, Some(prefix)))
+        })
     }
 }
 
-- 
2.43.0


From c854792a1230c6ffa99722dc43d096cfaa45a5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:36 +0000
Subject: [PATCH 63/64] fix: as_basis answers only for a basis (the force was
 taken for a Mass)

---
 whippyunits-core/src/dimension_exponents.rs | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/whippyunits-core/src/dimension_exponents.rs b/whippyunits-core/src/dimension_exponents.rs
index fa5458f..ac79c6e 100644
--- a/whippyunits-core/src/dimension_exponents.rs
+++ b/whippyunits-core/src/dimension_exponents.rs
@@ -90,18 +90,9 @@ pub trait DimensionExponents: exponents_seal::Sealed + 'static {
     ///
     /// This returns `None` for negative basis.
     fn as_basis(&self) -> Option<DimensionBasis> {
-        match self.value().0.iter().position(|&x| x == 1) {
-            Some(0) => Some(DimensionBasis::Mass),
-            Some(1) => Some(DimensionBasis::Length),
-            Some(2) => Some(DimensionBasis::Time),
-            Some(3) => Some(DimensionBasis::Current),
-            Some(4) => Some(DimensionBasis::Temperature),
-            Some(5) => Some(DimensionBasis::Amount),
-            Some(6) => Some(DimensionBasis::Luminosity),
-            Some(7) => Some(DimensionBasis::Angle),
-            Some(_) => unreachable!(),
-            None => None,
-        }
+        DimensionBasis::ALL
+            .into_iter()
+            .find(|basis| basis.exponents() == self.value())
     }
 }
 
-- 
2.43.0


From 57a6e468b10cdcad1eb684206b1a9980c25ead72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:09 +0000
Subject: [PATCH 64/64] fix: the difference of type-level dimension exponents
 subtracts (it added)

---
 whippyunits-core/src/dimension_exponents.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/whippyunits-core/src/dimension_exponents.rs b/whippyunits-core/src/dimension_exponents.rs
index ac79c6e..d9a7513 100644
--- a/whippyunits-core/src/dimension_exponents.rs
+++ b/whippyunits-core/src/dimension_exponents.rs
@@ -440,14 +440,14 @@ macro_rules! __exponents_impl_op {
             const ANGLE_EXP2: i16,
         > $op<__exponents!(@rhs)> for __exponents!(@lhs)
 where
-    N<MASS_EXP1>: Add<N<MASS_EXP2>, Output = N<MASS_EXP>>,
-    N<LENGTH_EXP1>: Add<N<LENGTH_EXP2>, Output = N<LENGTH_EXP>>,
-    N<TIME_EXP1>: Add<N<TIME_EXP2>, Output = N<TIME_EXP>>,
-    N<CURRENT_EXP1>: Add<N<CURRENT_EXP2>, Output = N<CURRENT_EXP>>,
-    N<TEMPERATURE_EXP1>: Add<N<TEMPERATURE_EXP2>, Output = N<TEMPERATURE_EXP>>,
-    N<AMOUNT_EXP1>: Add<N<AMOUNT_EXP2>, Output = N<AMOUNT_EXP>>,
-    N<LUMINOSITY_EXP1>: Add<N<LUMINOSITY_EXP2>, Output = N<LUMINOSITY_EXP>>,
-    N<ANGLE_EXP1>: Add<N<ANGLE_EXP2>, Output = N<ANGLE_EXP>>,
+    N<MASS_EXP1>: $op<N<MASS_EXP2>, Output = N<MASS_EXP>>,
+    N<LENGTH_EXP1>: $op<N<LENGTH_EXP2>, Output = N<LENGTH_EXP>>,
+    N<TIME_EXP1>: $op<N<TIME_EXP2>, Output = N<TIME_EXP>>,
+    N<CURRENT_EXP1>: $op<N<CURRENT_EXP2>, Output = N<CURRENT_EXP>>,
+    N<TEMPERATURE_EXP1>: $op<N<TEMPERATURE_EXP2>, Output = N<TEMPERATURE_EXP>>,
+    N<AMOUNT_EXP1>: $op<N<AMOUNT_EXP2>, Output = N<AMOUNT_EXP>>,
+    N<LUMINOSITY_EXP1>: $op<N<LUMINOSITY_EXP2>, Output = N<LUMINOSITY_EXP>>,
+    N<ANGLE_EXP1>: $op<N<ANGLE_EXP2>, Output = N<ANGLE_EXP>>,
 {
             $($t)*
         }
-- 
2.43.0

