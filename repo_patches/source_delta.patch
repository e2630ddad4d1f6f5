From d10fbe9ab2d0d80e988394b6f377cbdb6f1e79b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:00 +0000
Subject: [PATCH 01/18] fix: range bit operations no longer overflow when
 adding offset and length

---
 .../src/generating/bitfield/features/set_get_bit_ops_feature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs b/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs
index 4d4badc..3d83a3c 100644
--- a/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs
@@ -475,7 +475,7 @@ impl SetGetBitOpsFeature {
         let guard_return_tokens = Self::get_guard_return_tokens(bitfield, guard_return_type);
 
         quote! {
-            if offset + length > #bitfield_data_type_bits_tokens {
+            if length > #bitfield_data_type_bits_tokens - offset {
                 #guard_return_tokens
             }
         }
-- 
2.43.0


From 928360dff1bab2634495d4054b8a2d02b221fde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:00 +0000
Subject: [PATCH 02/18] fix: zero-length bit ranges on integer-backed bitfields
 are empty instead of overflowing a shift

---
 .../bitfield/features/set_get_bit_ops_feature.rs         | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs b/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs
index 3d83a3c..dd119b3 100644
--- a/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs
@@ -130,7 +130,8 @@ impl SetGetBitOpsFeature {
                     let this = self;
                     #check_offset_bitfield_range_tokens
                     #check_offset_and_length_bitfield_range_tokens
-                    let range_mask = (#bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - length)) << offset;
+                    let mask = if length == 0 { 0 } else { #bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - length) };
+                    let range_mask = mask << offset;
                     #protected_mask
                     let writable_mask = range_mask & !protected_mask;
                     #bitfield_internal_value_ident_tokens = (#bitfield_internal_value_ident_tokens & !writable_mask) | ((value << offset) & writable_mask);
@@ -145,7 +146,7 @@ impl SetGetBitOpsFeature {
                     let this = self;
                     #check_offset_bitfield_range_error_tokens
                     #check_offset_and_length_bitfield_range_error_tokens
-                    let mask = #bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - length);
+                    let mask = if length == 0 { 0 } else { #bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - length) };
                     #protected_mask
                     let range_mask = mask << offset;
                     if range_mask & protected_mask != 0 {
@@ -326,7 +327,7 @@ impl SetGetBitOpsFeature {
                     let this = self;
                     #check_offset_bitfield_range_return_zero_tokens
                     #check_offset_and_length_bitfield_range_return_zero_tokens
-                    let mask = #bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - length);
+                    let mask = if length == 0 { 0 } else { #bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - length) };
                     #protected_mask
                     let shifted_protected_mask = (protected_mask >> offset) & mask;
                     let readable_mask = mask & !shifted_protected_mask;
@@ -341,7 +342,7 @@ impl SetGetBitOpsFeature {
                     let this = self;
                     #check_offset_bitfield_range_error_tokens
                     #check_offset_and_length_bitfield_range_error_tokens
-                    let mask = #bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - length);
+                    let mask = if length == 0 { 0 } else { #bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - length) };
                     #protected_mask
                     let range_mask = mask << offset;
                     if range_mask & protected_mask != 0 {
-- 
2.43.0


From 5646e829a5a8b8942c67d841e783664673223ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:39 +0000
Subject: [PATCH 03/18] fix: sign-extend the inverted getter of signed fields

---
 .../generating/bitfield/features/invert_bit_ops_feature.rs  | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs b/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
index 1d087d4..b570a1b 100644
--- a/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
@@ -6,8 +6,8 @@ use crate::generating::bitfield::features::common::generator_helper::{
     BitsSource, ProtectionType,
     generate_extract_all_field_bits_from_variable_into_variable_tokens_and_set_fields_tokens,
     generate_extract_field_bits_from_source_into_variable_tokens,
-    generate_protected_bits_mask_tokens, get_bits_or_bytes_term, get_field_unit_terms,
-    get_function_modifier_tokens,
+    generate_protected_bits_mask_tokens, generate_sign_extend_bit_operation_tokens,
+    get_bits_or_bytes_term, get_field_unit_terms, get_function_modifier_tokens,
 };
 use crate::parsing::bitfields::bitfield::{Bitfield, Field};
 use crate::parsing::bitfields::bitfield_attribute::bitfield_arguments::BitOrder;
@@ -167,11 +167,13 @@ impl InvertBitOpsFeature {
                         /* invert_bits= */ true,
                         /* builder_caller= */ false,
                     );
+                let sign_extend_tokens = generate_sign_extend_bit_operation_tokens(field);
                 quote! {
                     #[doc = #documentation]
                     #visibility_tokens #function_modifier_tokens fn #field_inverted_ident_tokens(&self) -> #field_data_type_tokens {
                         let this = self;
                         #extract_field_bits_from_source_into_variable_tokens
+                        #sign_extend_tokens
                         #value_to_field_tokens
                     }
                 }
-- 
2.43.0


From 7e5d9c14c0ad38ef6d5b25f468af24394dade1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:39 +0000
Subject: [PATCH 04/18] fix: array fields of integer-backed bitfields keep
 their last partial byte and may exceed 16 bytes

---
 .../generating/bitfield/features/common/generator_helper.rs   | 4 ++--
 .../src/generating/bitfield/features/field_getters_feature.rs | 2 +-
 .../generating/bitfield/features/invert_bit_ops_feature.rs    | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index 18456b3..f7a6711 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -427,7 +427,7 @@ pub fn generate_extract_field_bits_from_source_into_variable_tokens(
                         } = field.spanned_data_type_token().data_type()
                         {
                             let len = length as usize;
-                            let pack_len = (field.bits() as usize / 8).min(len);
+                            let pack_len = (field.bits() as usize).div_ceil(8).min(len);
                             quote! {
                                 let bits = {
                                     let __arr = bits;
@@ -612,7 +612,7 @@ fn generate_field_setter_call_tokens(
                         let __int_val = (#value_tokens) as u128;
                         let mut __arr = [0u8; #len];
                         let mut __i: usize = 0;
-                        while __i < #len {
+                        while __i < #len && __i < 16 {
                             __arr[__i] = ((__int_val >> (__i * 8)) & 0xFF) as u8;
                             __i += 1;
                         }
diff --git a/bitfields_impl/src/generating/bitfield/features/field_getters_feature.rs b/bitfields_impl/src/generating/bitfield/features/field_getters_feature.rs
index 4051c24..efa6b09 100644
--- a/bitfields_impl/src/generating/bitfield/features/field_getters_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/field_getters_feature.rs
@@ -100,7 +100,7 @@ impl FieldGettersFeature {
                             let __val = value as u128;
                             let mut __arr = [0u8; #len];
                             let mut __i: usize = 0;
-                            while __i < #len {
+                            while __i < #len && __i < 16 {
                                 __arr[__i] = ((__val >> (__i * 8)) & 0xFF) as u8;
                                 __i += 1;
                             }
diff --git a/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs b/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
index b570a1b..72c6083 100644
--- a/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
@@ -202,7 +202,7 @@ impl InvertBitOpsFeature {
                             let __val = value as u128;
                             let mut __arr = [0u8; #len];
                             let mut __i: usize = 0;
-                            while __i < #len {
+                            while __i < #len && __i < 16 {
                                 __arr[__i] = ((__val >> (__i * 8)) & 0xFF) as u8;
                                 __i += 1;
                             }
-- 
2.43.0


From 8cc28a9a232a876f1a26f87fc140766def581f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:20 +0000
Subject: [PATCH 05/18] fix: checked setters reject values wider than the
 bitfield's integer type

---
 .../features/common/generator_helper.rs       | 21 +++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index f7a6711..e197539 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -252,7 +252,7 @@ pub fn generate_setting_field_from_variable_tokens(
         && !is_signed_integer
         && !is_bool_field
         && !is_array_field)
-        .then(generate_bit_size_check_tokens);
+        .then(|| generate_bit_size_check_tokens(bitfield));
 
     let extract_field_bits_into_variable_tokens =
         generate_extract_field_bits_from_source_into_variable_tokens(
@@ -336,8 +336,19 @@ fn get_value_variable_tokens(field: &Field) -> TokenStream {
 }
 
 /// Generates an overflow check for unsigned/custom fields.
-fn generate_bit_size_check_tokens() -> TokenStream {
+fn generate_bit_size_check_tokens(bitfield: &Bitfield) -> TokenStream {
+    // Casting to the bitfield type may have cut off bits of a wider field value.
+    let truncated_check_tokens = bitfield.is_integer_backed().then(|| {
+        quote! {
+            let cast_bits = [raw_bits, bits as _];
+            if cast_bits[0] != cast_bits[1] {
+                return Err("Value is too big to fit within the field bits.");
+            }
+        }
+    });
+
     quote! {
+        #truncated_check_tokens
         if bits > mask {
             return Err("Value is too big to fit within the field bits.");
         }
@@ -419,8 +430,9 @@ pub fn generate_extract_field_bits_from_source_into_variable_tokens(
                     (bits_source == BitsSource::IntegerVariable && cast_bits).then(|| {
                         if matches!(field.spanned_data_type_token().data_type(), DataType::Custom) {
                             quote! {
+                                let raw_bits = bits.into_bits();
                                 #[allow(clippy::unnecessary_cast)]
-                                let bits = bits.into_bits() as #bitfield_data_type_tokens;
+                                let bits = raw_bits as #bitfield_data_type_tokens;
                             }
                         } else if let DataType::Array {
                             length,
@@ -443,7 +455,8 @@ pub fn generate_extract_field_bits_from_source_into_variable_tokens(
                             }
                         } else {
                             quote! {
-                                let bits = bits as #bitfield_data_type_tokens;
+                                let raw_bits = bits;
+                                let bits = raw_bits as #bitfield_data_type_tokens;
                             }
                         }
                     });
-- 
2.43.0


From c50d14061039072b653e9a112d37d514731de76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:30 +0000
Subject: [PATCH 06/18] fix: checked setters of array fields reject values that
 do not fit the field

---
 .../features/common/generator_helper.rs       | 31 +++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index e197539..37f79ae 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -244,8 +244,14 @@ pub fn generate_setting_field_from_variable_tokens(
         return generate_builder_direct_setter_call_tokens(field, check_bit_size);
     }
 
-    let pre_extract_check_tokens = (!using_setter && check_bit_size && is_signed_integer)
-        .then(|| generate_signed_bit_size_check_tokens(field));
+    let pre_extract_check_tokens =
+        (!using_setter && check_bit_size && (is_signed_integer || is_array_field)).then(|| {
+            if is_array_field {
+                generate_array_bit_size_check_tokens(field)
+            } else {
+                generate_signed_bit_size_check_tokens(field)
+            }
+        });
 
     let post_extract_check_tokens = (!using_setter
         && check_bit_size
@@ -379,6 +385,27 @@ fn generate_signed_bit_size_check_tokens(field: &Field) -> TokenStream {
     }
 }
 
+/// Generates an overflow check for array fields.
+/// Skipped when the field's bit-width equals the full array width.
+fn generate_array_bit_size_check_tokens(field: &Field) -> TokenStream {
+    let field_bits = field.bits() as usize;
+    let type_bits = field.spanned_data_type_token().data_type().bit_size() as usize;
+
+    if field_bits >= type_bits {
+        return quote! {};
+    }
+
+    quote! {
+        let mut __i: usize = #field_bits;
+        while __i < #type_bits {
+            if (bits[__i / 8] >> (__i % 8)) & 1 != 0 {
+                return Err("Value is too big to fit within the field bits.");
+            }
+            __i += 1;
+        }
+    }
+}
+
 /// Creates a typed suffixed integer literal matching the signed integer type of
 /// `field`.
 fn make_signed_literal(field: &Field, value: i128) -> Literal {
-- 
2.43.0


From b276282aeab01a850e4d320781f2fd7e1f1e642a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:46 +0000
Subject: [PATCH 07/18] fix: default literals wider than 32 bits are no longer
 truncated

---
 .../generating/bitfield/features/common/generator_helper.rs   | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index 37f79ae..421f7ad 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -632,8 +632,10 @@ fn generate_field_setter_call_tokens(
                     #bitfield_variable_reference.#field_setter_ident_tokens(#value_tokens);
                 }
             } else {
+                // Name the type: a literal cast with `as _` falls back to `i32`.
+                let field_data_type_tokens = field.spanned_data_type_token().to_tokens();
                 quote! {
-                    #bitfield_variable_reference.#field_setter_ident_tokens(#value_tokens as _);
+                    #bitfield_variable_reference.#field_setter_ident_tokens(#value_tokens as #field_data_type_tokens);
                 }
             }
         },
-- 
2.43.0


From ce3364efaacb14e829913404135568fd4d5d25a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:40 +0000
Subject: [PATCH 08/18] fix: write_bit_ops decides whether the write operations
 are generated

---
 .../src/generating/bitfield/features/write_bit_ops_feature.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/write_bit_ops_feature.rs b/bitfields_impl/src/generating/bitfield/features/write_bit_ops_feature.rs
index 3421538..bedad8c 100644
--- a/bitfields_impl/src/generating/bitfield/features/write_bit_ops_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/write_bit_ops_feature.rs
@@ -23,8 +23,8 @@ impl Feature for WriteBitOpsFeature {
     fn enabled(&self, bitfield: &Bitfield) -> bool {
         is_bit_ops_feature_enabled(
             bitfield,
-            bitfield.arguments().generate_bit_ops(),
-            bitfield.arguments().generate_set_get_bit_ops(),
+            bitfield.arguments().generate_write_bit_ops(),
+            bitfield.arguments().user_set_generate_write_bit_ops(),
         )
     }
 
-- 
2.43.0


From 897810b93ddbb5ad7ad5984da01b1193f49af745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:40 +0000
Subject: [PATCH 09/18] fix: derive Copy through core so that generated types
 work without std

---
 .../src/generating/bitfield/features/bitfield_struct_feature.rs | 2 +-
 bitfields_impl/src/generating/bitflag/bitflag_generator.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/bitfield_struct_feature.rs b/bitfields_impl/src/generating/bitfield/features/bitfield_struct_feature.rs
index 1a99875..f88075e 100644
--- a/bitfields_impl/src/generating/bitfield/features/bitfield_struct_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/bitfield_struct_feature.rs
@@ -87,7 +87,7 @@ impl BitfieldStructFeatureGenerator {
                 });
             } else {
                 attributes_tokens.push(quote! {
-                    #[derive(std::marker::Copy, core::clone::Clone)]
+                    #[derive(core::marker::Copy, core::clone::Clone)]
                 });
             }
         }
diff --git a/bitfields_impl/src/generating/bitflag/bitflag_generator.rs b/bitfields_impl/src/generating/bitflag/bitflag_generator.rs
index 90afbd9..fe95e09 100644
--- a/bitfields_impl/src/generating/bitflag/bitflag_generator.rs
+++ b/bitfields_impl/src/generating/bitflag/bitflag_generator.rs
@@ -40,7 +40,7 @@ fn generate_repr_tokens(bitflag: &Bitflag) -> TokenStream {
 fn generate_copy_derive_tokens(bitflag: &Bitflag) -> TokenStream {
     if bitflag.arguments().derive_copy() {
         quote! {
-            #[derive(std::marker::Copy, core::clone::Clone)]
+            #[derive(core::marker::Copy, core::clone::Clone)]
         }
     } else {
         quote! {}
-- 
2.43.0


From 11a8bf24809404489cf8c3c8bcfc5f7e6272b5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:58 +0000
Subject: [PATCH 10/18] fix: ignored fields may be of any type that implements
 Default

---
 .../bitfield/features/common/generator_helper.rs         | 8 +-------
 bitfields_impl/src/parsing/bitfields/bitfield_parser.rs  | 3 +--
 bitfields_impl/src/parsing/common/spanned_data_type.rs   | 9 +++++++++
 3 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index 421f7ad..128a121 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -100,14 +100,8 @@ fn generate_ignored_fields_default_calls_token_list(bitfield: &Bitfield) -> Vec<
             let field_name_tokens = field.name_tokens();
             let field_data_type_tokens = field.spanned_data_type_token().to_tokens();
 
-            if matches!(field.spanned_data_type_token().data_type(), DataType::Integer(..)) {
-                return quote! {
-                    #field_name_tokens: <#field_data_type_tokens>::default()
-                };
-            }
-
             quote! {
-                #field_name_tokens: #field_data_type_tokens::default()
+                #field_name_tokens: <#field_data_type_tokens>::default()
             }
         })
         .collect()
diff --git a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
index e2a82b1..5ff87b2 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
@@ -149,8 +149,7 @@ fn parse_field_helper(
 }
 
 fn parse_ignored_field(field_tokens: &syn::Field) -> Field {
-    let spanned_data_type_token = SpannedDataTypeToken::new(&field_tokens.ty)
-        .expect("Expected field type kind for ignored field");
+    let spanned_data_type_token = SpannedDataTypeToken::new_ignored(&field_tokens.ty);
     let name_ident = field_tokens.ident.as_ref().expect("Expected field identifier").clone();
     Field::new(
         Visibility::new(&field_tokens.vis),
diff --git a/bitfields_impl/src/parsing/common/spanned_data_type.rs b/bitfields_impl/src/parsing/common/spanned_data_type.rs
index e64e509..0cbd1bf 100644
--- a/bitfields_impl/src/parsing/common/spanned_data_type.rs
+++ b/bitfields_impl/src/parsing/common/spanned_data_type.rs
@@ -33,6 +33,15 @@ impl SpannedDataTypeToken {
         })
     }
 
+    /// Creates the type of an ignored field, which may be any type.
+    pub fn new_ignored(syn_type: &Type) -> Self {
+        Self {
+            data_type: DataType::Custom,
+            spanned_token: SpannedToken::new(Self::get_syn_type_string(syn_type), syn_type.span()),
+            original_type_tokens: quote! { #syn_type },
+        }
+    }
+
     /// Returns a compact string representation of a `syn::Type` (e.g.
     /// `[u8;32]`).
     fn get_syn_type_string(syn_type: &Type) -> String {
-- 
2.43.0


From 617283069f72700d703d3b9a9a3ce6bcf743f2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:58 +0000
Subject: [PATCH 11/18] fix: ignored fields keep their visibility

---
 bitfields_impl/src/parsing/bitfields/bitfield.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitfields_impl/src/parsing/bitfields/bitfield.rs b/bitfields_impl/src/parsing/bitfields/bitfield.rs
index cabf078..b6f69a9 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield.rs
@@ -144,8 +144,8 @@ impl Field {
 
     /// Returns the visibility of the field.
     pub fn visibility(&self) -> Visibility {
-        let has_public_access =
-            matches!(self.access, FieldAccess::ReadWrite | FieldAccess::ReadOnly);
+        let has_public_access = self.ignored
+            || matches!(self.access, FieldAccess::ReadWrite | FieldAccess::ReadOnly);
         if !has_public_access {
             return Visibility::Private;
         }
-- 
2.43.0


From 6d5fadd2c06f4de319585d41e04cbe12f8aab435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:58 +0000
Subject: [PATCH 12/18] fix: builder without new refers to the field constants
 of the bitfield

---
 .../features/common/generator_helper.rs       | 24 +++++++------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index 128a121..8b8a60d 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -437,8 +437,8 @@ pub fn generate_extract_field_bits_from_source_into_variable_tokens(
 
             let bitfield_data_type_tokens = bitfield.spanned_data_type_token().to_tokens();
 
-            let field_bits_tokens = get_field_bits_tokens(bitfield, field, builder_caller);
-            let field_offset_tokens = get_field_offset_tokens(bitfield, field, builder_caller);
+            let field_bits_tokens = get_field_bits_tokens(bitfield, field);
+            let field_offset_tokens = get_field_offset_tokens(bitfield, field);
 
             let invert_value_tokens = invert_bits.then(|| {
                 quote! {
@@ -674,8 +674,8 @@ fn generate_setting_field_without_setter_tokens(
     let bitfield_internal_value_ident_tokens =
         bitfield.bitfield_internal_value_ident_tokens(builder_caller);
     let bitfield_data_type_tokens = bitfield.spanned_data_type_token().to_tokens();
-    let field_bits_tokens = get_field_bits_tokens(bitfield, field, builder_caller);
-    let field_offset_tokens = get_field_offset_tokens(bitfield, field, builder_caller);
+    let field_bits_tokens = get_field_bits_tokens(bitfield, field);
+    let field_offset_tokens = get_field_offset_tokens(bitfield, field);
 
     if !bitfield.is_integer_backed() {
         if let DataType::Array {
@@ -792,12 +792,8 @@ pub fn generate_extract_all_field_bits_from_variable_into_variable_tokens_and_se
 }
 
 /// Returns the field bits tokens, using the bits constant if available.
-pub fn get_field_bits_tokens(
-    bitfield: &Bitfield,
-    field: &Field,
-    builder_caller: bool,
-) -> TokenStream {
-    let bitfield_reference = get_bitfield_reference_tokens(bitfield, builder_caller);
+pub fn get_field_bits_tokens(bitfield: &Bitfield, field: &Field) -> TokenStream {
+    let bitfield_reference = bitfield.name_tokens();
 
     if field.has_constants() {
         let field_bits_constant_ident_tokens = field.bits_constant_ident_tokens();
@@ -814,12 +810,8 @@ pub fn get_field_bits_tokens(
 }
 
 /// Returns the field offset tokens, using the offset constant if available.
-pub fn get_field_offset_tokens(
-    bitfield: &Bitfield,
-    field: &Field,
-    builder_caller: bool,
-) -> TokenStream {
-    let bitfield_reference = get_bitfield_reference_tokens(bitfield, builder_caller);
+pub fn get_field_offset_tokens(bitfield: &Bitfield, field: &Field) -> TokenStream {
+    let bitfield_reference = bitfield.name_tokens();
 
     if field.has_constants() {
         let field_offset_constant_ident_tokens = field.offset_constant_ident_tokens();
-- 
2.43.0


From c0b69055fabad2f99ab8d44e01ad6e3dbc652735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:58 +0000
Subject: [PATCH 13/18] fix: defaults of fields without a setter may be
 negative or constants of the field type

---
 .../features/common/generator_helper.rs       | 32 ++++++++++++++++---
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index 8b8a60d..ec8f517 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -3,6 +3,7 @@ use quote::quote;
 
 use crate::parsing::bitfields::bitfield::{Bitfield, Field};
 use crate::parsing::bitfields::bitfield_attribute::bitfield_arguments::BitOrder;
+use crate::parsing::common::const_expr::ConstExpr;
 use crate::parsing::common::spanned_data_type::{DataType, IntegerType};
 use crate::parsing::common::to_tokens::ToTokens;
 
@@ -130,12 +131,12 @@ pub fn generate_setting_fields_to_default_value_tokens_list(
 
 /// Generates tokens for setting a field to default.
 pub fn generate_setting_field_to_default_tokens(bitfield: &Bitfield, field: &Field) -> TokenStream {
-    let field_default_value_tokens = field
+    let field_default_value_expr = field
         .arguments()
         .expect("Expected field arguments when setting default value")
         .default_value_expr()
-        .expect("Expected default value when setting field defaults")
-        .to_tokens();
+        .expect("Expected default value when setting field defaults");
+    let field_default_value_tokens = field_default_value_expr.to_tokens();
 
     if field.has_setter() {
         return generate_field_setter_call_tokens(
@@ -146,10 +147,33 @@ pub fn generate_setting_field_to_default_tokens(bitfield: &Bitfield, field: &Fie
         );
     }
 
+    let is_integer_field = matches!(
+        field.spanned_data_type_token().data_type(),
+        DataType::Integer(integer_type) if integer_type != IntegerType::Bool
+    );
+    let is_array_field =
+        matches!(field.spanned_data_type_token().data_type(), DataType::Array { .. });
+    let is_positive_literal =
+        matches!(field_default_value_expr, ConstExpr::Literal { negative_sign: false, .. });
+
+    // A negative literal has the field type.
+    let cast_to_field_type_tokens = (is_integer_field && !is_positive_literal).then(|| {
+        let field_data_type_tokens = field.spanned_data_type_token().to_tokens();
+        quote! { as #field_data_type_tokens }
+    });
+    // So does a constant, which then isn't a value of the bitfield type.
+    let cast_to_bitfield_type_tokens =
+        (bitfield.is_integer_backed() && (is_integer_field || is_array_field)).then(|| {
+            let bitfield_data_type_tokens = bitfield.spanned_data_type_token().to_tokens();
+            quote! { as #bitfield_data_type_tokens }
+        });
+
     generate_setting_field_without_setter_tokens(
         bitfield,
         field,
-        field_default_value_tokens,
+        quote! {
+            ((#field_default_value_tokens) #cast_to_field_type_tokens #cast_to_bitfield_type_tokens)
+        },
         /* builder_caller= */ false,
     )
 }
-- 
2.43.0


From 447e7177467ef75516209d6d01946043cdd41746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:58 +0000
Subject: [PATCH 14/18] fix: the smallest i128 default no longer panics the
 macro

---
 bitfields_impl/src/parsing/bitfields/bitfield_parser.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
index 5ff87b2..7023b5d 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
@@ -322,10 +322,7 @@ fn check_default_value_fit_in_field(
     let (negative_bits_min_value, positive_bits_max_value) = min_max_for_bits(bits);
 
     if *negative_sign {
-        let negative_default_value = (*number as i128)
-            .checked_neg()
-            .ok_or_else(|| unreachable!("The compiler won't allow a number less than -i128 exist"))
-            .expect("Expected a negative default value for negative default value checking");
+        let negative_default_value = (*number as i128).wrapping_neg();
 
         if negative_default_value < negative_bits_min_value {
             return Err(create_user_parsing_compiler_error(
-- 
2.43.0


From 44f5d8fd71a4516d413d1070e5cdf58c8c6b7308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:58 +0000
Subject: [PATCH 15/18] fix: negative hex defaults and constants that end like
 a float are not floats

---
 bitfields_impl/src/parsing/common/const_expr.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bitfields_impl/src/parsing/common/const_expr.rs b/bitfields_impl/src/parsing/common/const_expr.rs
index 0ab1eed..dca5875 100644
--- a/bitfields_impl/src/parsing/common/const_expr.rs
+++ b/bitfields_impl/src/parsing/common/const_expr.rs
@@ -78,7 +78,9 @@ impl ConstExpr {
     }
 
     fn check_float(number_str: &str, span: Span) -> syn::Result<()> {
-        if !number_str.starts_with(&IntegerPrefix::Hex.prefix()) {
+        let unsigned_number_str = Self::strip_negative_sign(number_str);
+        let is_number = unsigned_number_str.starts_with(|c: char| c.is_ascii_digit());
+        if is_number && !unsigned_number_str.starts_with(&IntegerPrefix::Hex.prefix()) {
             let contains_float_identifier =
                 FLOAT_IDENTIFIERS.iter().any(|&identifier| number_str.ends_with(identifier));
             if number_str.contains(FLOAT_DOT) || contains_float_identifier {
-- 
2.43.0


From f556d5bdd58cae46999b8877215b377a61d4b373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:16 +0000
Subject: [PATCH 16/18] fix: fields and bitfields may be named by raw
 identifiers

---
 bitfields_impl/src/parsing/bitfields/bitfield.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bitfields_impl/src/parsing/bitfields/bitfield.rs b/bitfields_impl/src/parsing/bitfields/bitfield.rs
index b6f69a9..f96f076 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield.rs
@@ -1,6 +1,7 @@
 use getset::{CloneGetters, Getters};
 use proc_macro2::{Ident, TokenStream};
 use quote::ToTokens;
+use syn::ext::IdentExt;
 
 use crate::parsing::bitfields::bitfield_attribute::bitfield_arguments::BitfieldArguments;
 use crate::parsing::bitfields::bits_attribute::bits_arguments::{BitsArguments, FieldAccess};
@@ -48,7 +49,7 @@ impl Bitfield {
         ignored_fields: Vec<Field>,
         arguments: BitfieldArguments,
     ) -> Self {
-        let name = name_ident.to_string();
+        let name = name_ident.unraw().to_string();
         Self {
             user_attributes_tokens,
             visibility,
@@ -127,7 +128,7 @@ impl Field {
         arguments: Option<BitsArguments>,
         ignored: bool,
     ) -> Self {
-        let name = name_ident.to_string();
+        let name = name_ident.unraw().to_string();
         Self {
             visibility,
             name,
-- 
2.43.0


From 7957e09deddeaded8681b09db9368d75badb03e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:16 +0000
Subject: [PATCH 17/18] fix: bitfields and fields may be visible in a path

---
 bitfields_impl/src/parsing/common/visibility.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/bitfields_impl/src/parsing/common/visibility.rs b/bitfields_impl/src/parsing/common/visibility.rs
index 25a220a..a666b66 100644
--- a/bitfields_impl/src/parsing/common/visibility.rs
+++ b/bitfields_impl/src/parsing/common/visibility.rs
@@ -1,5 +1,5 @@
 use proc_macro2::TokenStream;
-use quote::{format_ident, quote};
+use quote::quote;
 
 use crate::parsing::common::to_tokens::ToTokens;
 
@@ -22,13 +22,9 @@ impl Visibility {
         match vis {
             syn::Visibility::Public(_) => Self::Public,
             syn::Visibility::Restricted(r) => {
-                let path = r
-                    .path
-                    .segments
-                    .iter()
-                    .map(|segment| segment.ident.to_string())
-                    .collect::<String>();
-                Self::Restricted(path)
+                let path = &r.path;
+                let in_token = &r.in_token;
+                Self::Restricted(quote! { #in_token #path }.to_string())
             },
             syn::Visibility::Inherited => Self::Private,
         }
@@ -44,9 +40,10 @@ impl ToTokens for Visibility {
                 }
             },
             Self::Restricted(path) => {
-                let path_ident = format_ident!("{}", path);
+                let path_tokens: TokenStream =
+                    path.parse().expect("Failed to parse previously accepted visibility");
                 quote! {
-                    pub(#path_ident)
+                    pub(#path_tokens)
                 }
             },
             Self::Private => {
-- 
2.43.0


From 00be881f074eead7ea298eac90172effcdd53990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:36 +0000
Subject: [PATCH 18/18] fix: Default without new gives custom fields the value
 of zero bits, like the builder

---
 .../bitfield/features/default_trait_feature.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/default_trait_feature.rs b/bitfields_impl/src/generating/bitfield/features/default_trait_feature.rs
index 3efd4bd..59d7a81 100644
--- a/bitfields_impl/src/generating/bitfield/features/default_trait_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/default_trait_feature.rs
@@ -2,10 +2,7 @@ use proc_macro2::TokenStream;
 use quote::quote;
 
 use crate::generating::bitfield::feature::{Feature, FeaturePosition};
-use crate::generating::bitfield::features::common::generator_helper::{
-    generate_bitfield_struct_initialization_tokens,
-    generate_setting_fields_to_default_value_tokens_list,
-};
+use crate::generating::bitfield::features::common::generator_helper::generate_new_function_implementation_tokens;
 use crate::parsing::bitfields::bitfield::Bitfield;
 
 /// Generates `Default` trait implementation.
@@ -50,16 +47,13 @@ impl DefaultTraitFeature {
                 Self::new()
             }
         } else {
-            let bitfield_struct_initialization_tokens =
-                generate_bitfield_struct_initialization_tokens(
-                    bitfield, /* builder_caller= */ false,
-                );
-            let setting_fields_to_default_value_tokens_list =
-                generate_setting_fields_to_default_value_tokens_list(bitfield);
+            let new_implementation_tokens = generate_new_function_implementation_tokens(
+                bitfield, /* generate_setting_defaults= */ true,
+                /* builder_caller= */ false, /* existing_bitfield= */ false,
+            );
 
             quote! {
-                let mut this = #bitfield_struct_initialization_tokens;
-                #( #setting_fields_to_default_value_tokens_list )*
+                #new_implementation_tokens
                 this
             }
         }
-- 
2.43.0

