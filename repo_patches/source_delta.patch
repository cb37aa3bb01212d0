From dbfb1861abadfe3cbe63a2254972f7f6a4723e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:28:40 +0000
Subject: [PATCH 01/17] fix: require OS AVX state support for F16C and FMA4 on
 x86

Both extensions are VEX-encoded, so they fault unless the operating system
enabled the AVX register state. FMA4 was selected at run time by the fma
routines without that check. Also only read extended leaf 0x80000001 if the
processor says it exists.
---
 libm/src/math/arch/x86/detect.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/libm/src/math/arch/x86/detect.rs b/libm/src/math/arch/x86/detect.rs
index 983818b..445a08d 100644
--- a/libm/src/math/arch/x86/detect.rs
+++ b/libm/src/math/arch/x86/detect.rs
@@ -99,7 +99,7 @@ fn load_x86_features() -> Flags {
 
     // EAX = 0x8000_0001, ECX=0: Queries "Extended Processor Info and Feature Bits"
     let mut extended_proc_info_ecx = Flags::empty();
-    if extended_max_basic_leaf >= 1 {
+    if extended_max_basic_leaf >= 0x8000_0001 {
         let CpuidResult { ecx, .. } = unsafe { __cpuid(0x8000_0001_u32) };
         extended_proc_info_ecx = Flags::from_bits(ecx);
     }
@@ -111,13 +111,13 @@ fn load_x86_features() -> Flags {
     };
 
     enable(proc_info_ecx, 0, cpu_flags::SSE3);
-    enable(proc_info_ecx, 29, cpu_flags::F16C);
     enable(proc_info_edx, 25, cpu_flags::SSE);
     enable(proc_info_edx, 26, cpu_flags::SSE2);
     enable(extended_features_ebx, 9, cpu_flags::ERMSB);
     enable(extended_features_eax_leaf_1, 31, cpu_flags::MOVRS);
 
     // `XSAVE` and `AVX` support:
+    let mut os_avx_support = false;
     let cpu_xsave = proc_info_ecx.test_nth(26);
     if cpu_xsave {
         // 0. Here the CPU supports `XSAVE`.
@@ -147,7 +147,7 @@ fn load_x86_features() -> Flags {
             // This is safe because the CPU supports `xsave` and the OS has set `osxsave`.
             let xcr0 = unsafe { _xgetbv(0) };
             // Test `XCR0.SSE[1]` and `XCR0.AVX[2]` with the mask `0b110 == 6`:
-            let os_avx_support = xcr0 & 6 == 6;
+            os_avx_support = xcr0 & 6 == 6;
             // Test `XCR0.AVX-512[7:5]` with the mask `0b1110_0000 == 0xe0`:
             let os_avx512_support = xcr0 & 0xe0 == 0xe0;
 
@@ -166,6 +166,8 @@ fn load_x86_features() -> Flags {
 
                 // FMA (uses 256-bit wide registers):
                 enable(proc_info_ecx, 12, cpu_flags::FMA);
+                // F16C is VEX-encoded, so it needs the same OS support:
+                enable(proc_info_ecx, 29, cpu_flags::F16C);
 
                 // For AVX-512 the OS also needs to support saving/restoring
                 // the extended state, only then we enable AVX-512 support:
@@ -188,8 +190,8 @@ fn load_x86_features() -> Flags {
     // (AMD64 Architecture Programmer's Manual, Appendix E).
     // Related Hygon kernel patch can be found on
     // http://lkml.kernel.org/r/5ce86123a7b9dad925ac583d88d2f921040e859b.1538583282.git.puwen@hygon.cn
-    if vendor_id == *b"AuthenticAMD" || vendor_id == *b"HygonGenuine" {
-        // These features are available on AMD arch CPUs:
+    if os_avx_support && (vendor_id == *b"AuthenticAMD" || vendor_id == *b"HygonGenuine") {
+        // These features are available on AMD arch CPUs (also VEX-encoded):
         enable(extended_proc_info_ecx, 16, cpu_flags::FMA4);
     }
 
-- 
2.43.0


From 51eea09ff0888b8a874124ce972c4d24ac60f28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:33:46 +0000
Subject: [PATCH 02/17] fix: keep ebp and ecx intact for small frames in the
 x86 UEFI stack probe

The return address was copied to its new stack slot before the saved registers were popped. For allocations of 4 to 12 bytes the slot overlaps the saved registers, so the caller's ebp, ecx or edx was replaced by the return address.
---
 compiler-builtins/src/probestack.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/compiler-builtins/src/probestack.rs b/compiler-builtins/src/probestack.rs
index c4a2eeb..76f1dca 100644
--- a/compiler-builtins/src/probestack.rs
+++ b/compiler-builtins/src/probestack.rs
@@ -189,7 +189,6 @@ pub unsafe extern "custom" fn __rust_probestack() {
             mov    ebp, esp
             .cfi_def_cfa_register ebp
             push   ecx
-            push   edx
             mov    ecx, eax
 
             cmp    ecx, 0x1000
@@ -204,17 +203,19 @@ pub unsafe extern "custom" fn __rust_probestack() {
         3:
             sub    esp, ecx
             test   dword ptr [esp + 8], esp
-            mov    edx, dword ptr [ebp + 4]
-            mov    dword ptr [esp + 12], edx
+
             add    esp, eax
-            pop    edx
             pop    ecx
             leave
-
-            sub   esp, eax
             .cfi_def_cfa_register esp
             .cfi_adjust_cfa_offset -4
-            ret
+
+            // Return to the caller with its stack pointer lowered. The return
+            // address is copied only now: for small sizes its new place would
+            // have overlapped the registers saved above.
+            sub    esp, eax
+            push   dword ptr [esp + eax]
+            ret    4
             .cfi_endproc
         ",
     )
-- 
2.43.0


From 137032516a790a22d2eac8df877ac143b1b800e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:53:06 +0000
Subject: [PATCH 03/17] fix: avoid double rounding of subnormal results in
 fma_wide

---
 libm/src/math/generic/fma_wide.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/libm/src/math/generic/fma_wide.rs b/libm/src/math/generic/fma_wide.rs
index e7d5406..eab0db8 100644
--- a/libm/src/math/generic/fma_wide.rs
+++ b/libm/src/math/generic/fma_wide.rs
@@ -26,10 +26,12 @@ where
     let prec_diff = B::SIG_BITS - F::SIG_BITS;
     let excess_prec = ui & ((one << prec_diff) - one);
     let halfway = one << (prec_diff - 1);
+    // Results subnormal in `F` have fewer significant bits so halfway is not at a fixed position
+    let subnormal = re < (B::EXP_BIAS as i32 + F::EXP_MIN) as u32;
 
     // Common case: the larger precision is fine if...
     // This is not a halfway case
-    if excess_prec != halfway
+    if (excess_prec != halfway && !subnormal)
         // Or the result is NaN
         || re == B::EXP_SAT
         // Or the result is exact
@@ -66,10 +68,13 @@ where
     } else {
         zb - result + xy
     };
-    if neg == (err < B::ZERO) {
-        ui += one;
-    } else {
-        ui -= one;
+    // An odd result is already on the correct side of any halfway point
+    if ui & one == IntTy::<B>::ZERO {
+        if neg == (err < B::ZERO) {
+            ui += one;
+        } else {
+            ui -= one;
+        }
     }
 
     FpResult::ok(B::from_bits(ui).narrow())
-- 
2.43.0


From 35bd309967ca7cf8c64a0ecaf22973137bd5abe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:32:25 +0000
Subject: [PATCH 04/17] fix: compute the sticky bit of the product before
 shifting it in fma

---
 libm/src/math/generic/fma.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/libm/src/math/generic/fma.rs b/libm/src/math/generic/fma.rs
index aaf459d..803f6db 100644
--- a/libm/src/math/generic/fma.rs
+++ b/libm/src/math/generic/fma.rs
@@ -71,9 +71,8 @@ where
                 // Exactly `sbits`, nothing to do
             } else if d < sbits {
                 // Remaining shift fits within `sbits`. Leave `z` in place, shift `x * y`
-                rlo = (rhi << (sbits - d)) | (rlo >> d);
-                // Set the sticky bit
-                rlo |= IntTy::<F>::from((rlo << (sbits - d)) != zero);
+                let sticky = IntTy::<F>::from((rlo << (sbits - d)) != zero);
+                rlo = (rhi << (sbits - d)) | (rlo >> d) | sticky;
                 rhi = rhi >> d;
             } else {
                 // `z`'s magnitude is enough that `x * y` is irrelevant. It was nonzero, so set
-- 
2.43.0


From bba2ee715873c406b5e5a11cd434173eff433663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:52:41 +0000
Subject: [PATCH 05/17] fix: do not underflow in powf for bases just below one

With |y| just above 2^27 the result is still representable for bases down to
1 - 13 * 2^-24, so only take the early return below that.
---
 libm/src/math/powf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libm/src/math/powf.rs b/libm/src/math/powf.rs
index 17772ae..def6190 100644
--- a/libm/src/math/powf.rs
+++ b/libm/src/math/powf.rs
@@ -181,7 +181,7 @@ pub fn powf(x: f32, y: f32) -> f32 {
     if iy > 0x4d000000 {
         /* if |y| > 2**27 */
         /* over/underflow if x is not close to one */
-        if ix < 0x3f7ffff8 {
+        if ix < 0x3f7ffff3 {
             return if hy < 0 {
                 sn * HUGE * HUGE
             } else {
-- 
2.43.0


From 6214621b5b212cb888d7120f88a2f26c82996993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:52:57 +0000
Subject: [PATCH 06/17] fix: keep the product of the base and 1/ln2 exact in
 pow for huge exponents

For |y| > 2^31 the base minus one has up to 32 significant bits. The high part
of 1/ln2 had 24 bits, so the product was rounded and the result could be off
by about 500 units in the last place. Use 21 bits instead.
---
 libm/src/math/pow.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libm/src/math/pow.rs b/libm/src/math/pow.rs
index 87eaab3..2a39b38 100644
--- a/libm/src/math/pow.rs
+++ b/libm/src/math/pow.rs
@@ -86,8 +86,8 @@ const CP: f64 = 9.61796693925975554329e-01; /* 0x3feec709_dc3a03fd =2/(3ln2) */
 const CP_H: f64 = 9.61796700954437255859e-01; /* 0x3feec709_e0000000 =(float)cp */
 const CP_L: f64 = -7.02846165095275826516e-09; /* 0xbe3e2fe0_145b01f5 =tail of cp_h*/
 const IVLN2: f64 = 1.44269504088896338700e+00; /* 0x3ff71547_652b82fe =1/ln2 */
-const IVLN2_H: f64 = 1.44269502162933349609e+00; /* 0x3ff71547_60000000 =24b 1/ln2*/
-const IVLN2_L: f64 = 1.92596299112661746887e-08; /* 0x3e54ae0b_f85ddf44 =1/ln2 tail*/
+const IVLN2_H: f64 = 1.44269466400146484375e+00; /* 0x3ff71547_00000000 =21b 1/ln2*/
+const IVLN2_L: f64 = 3.76887498563609911454e-07; /* 0x3e994ae0_bf85ddf4 =1/ln2 tail*/
 
 /// Returns `x` to the power of `y` (f64).
 #[cfg_attr(assert_no_panic, no_panic::no_panic)]
-- 
2.43.0


From 83dcf001220e429c6229576b7ddfbe5e2160128a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:04:26 +0000
Subject: [PATCH 07/17] fix: saturate the exponent of hex float literals

Adding the next digit to a saturated exponent overflowed, so a literal like
0x1p-10000000001 panicked or was read with a small exponent.
---
 libm/src/math/support/hex_float.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libm/src/math/support/hex_float.rs b/libm/src/math/support/hex_float.rs
index 607ba79..f68a185 100644
--- a/libm/src/math/support/hex_float.rs
+++ b/libm/src/math/support/hex_float.rs
@@ -291,8 +291,7 @@ const fn parse_hex(mut b: &[u8]) -> Result<Parsed, HexFloatParseError> {
             None => return Err(HexFloatParseError("expected decimal digit")),
         };
         some_digits = true;
-        pexp = pexp.saturating_mul(10);
-        pexp += digit as u32;
+        pexp = pexp.saturating_mul(10).saturating_add(digit as u32);
     }
 
     if !some_digits {
-- 
2.43.0


From a9efaf6ac7320b34a1fc45d895697ce4a9879bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:05:02 +0000
Subject: [PATCH 08/17] fix: report overflow for hex float literals with huge
 exponents

For formats with a wide significand the exponent was shifted out of the upper
end of the result, so 0x1p65536 was read as 1.0 for f128. Exponents close to
the limits of i32 also overflowed the arithmetic.
---
 libm/src/math/support/hex_float.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/libm/src/math/support/hex_float.rs b/libm/src/math/support/hex_float.rs
index f68a185..9fa880f 100644
--- a/libm/src/math/support/hex_float.rs
+++ b/libm/src/math/support/hex_float.rs
@@ -120,6 +120,9 @@ const fn parse_finite(
     let (mut sig, mut exp) = match parse_hex(b) {
         Err(e) => return Err(e),
         Ok(Parsed { sig: 0, .. }) => return Ok((0, Status::OK)),
+        // Clamp the exponent to leave headroom, this much is out of range for any format
+        Ok(Parsed { sig, exp }) if exp > 1 << 30 => (sig, 1 << 30),
+        Ok(Parsed { sig, exp }) if exp < -1 << 30 => (sig, -1 << 30),
         Ok(Parsed { sig, exp }) => (sig, exp),
     };
 
@@ -154,16 +157,19 @@ const fn parse_finite(
     // The parsed value is X = sig * 2^exp
     // Expressed as a multiple U of the smallest subnormal value:
     // X = U * 2^min_lsb, so U = sig * 2^(exp-min_lsb)
-    let uexp = (exp - min_lsb) as u128;
-    let uexp = uexp << sig_bits;
+    let inf = ((1 << exp_bits) - 1) << sig_bits;
+    let uexp = exp - min_lsb;
+    let uexp = if uexp >> exp_bits == 0 {
+        (uexp as u128) << sig_bits
+    } else {
+        inf
+    };
 
     // Note that it is possible for the exponent bits to equal 2 here
     // if the value rounded up, but that means the mantissa is all zeroes
     // so the value is still correct
     debug_assert!(sig <= 2 << sig_bits);
 
-    let inf = ((1 << exp_bits) - 1) << sig_bits;
-
     let bits = match sig.checked_add(uexp) {
         Some(bits) if bits < inf => {
             // inexact subnormal or zero?
-- 
2.43.0


From 79a730c1c9ae75cec2655edd7466c5a326a9cb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:47:55 +0000
Subject: [PATCH 09/17] fix: do not report an inexact result from rint for NaN
 operands

---
 libm/src/math/generic/rint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libm/src/math/generic/rint.rs b/libm/src/math/generic/rint.rs
index aa3d94e..2ab5d0c 100644
--- a/libm/src/math/generic/rint.rs
+++ b/libm/src/math/generic/rint.rs
@@ -41,7 +41,7 @@ pub fn rint_status<F: Float>(x: F) -> FpResult<F> {
         }
     };
 
-    let status = if res == x {
+    let status = if res == x || x.is_nan() {
         Status::OK
     } else {
         Status::INEXACT
-- 
2.43.0


From 8a29ad58b22f4c66deb2a16525bd1d7b5957d7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:28:38 +0000
Subject: [PATCH 10/17] fix: strip every type suffix of an operation name to
 get its base name

---
 crates/libm-macros/src/lib.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/crates/libm-macros/src/lib.rs b/crates/libm-macros/src/lib.rs
index 7bafd0c..1df6876 100644
--- a/crates/libm-macros/src/lib.rs
+++ b/crates/libm-macros/src/lib.rs
@@ -505,11 +505,9 @@ fn base_name(name: &str) -> &str {
     let mut any_found = false;
     let mut ret = name;
 
-    for sfx in strip {
-        if let Some(stripped) = ret.strip_suffix(sfx) {
-            ret = stripped;
-            any_found = true;
-        }
+    while let Some(stripped) = strip.iter().find_map(|sfx| ret.strip_suffix(sfx)) {
+        ret = stripped;
+        any_found = true;
     }
 
     // Only if no suffix was stripped, try stripping the C-style float suffix.
-- 
2.43.0


From 131d7d4eca1c3817daf4878f24d92cf09036f620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:54:56 +0000
Subject: [PATCH 11/17] fix: keep the Bessel recurrence of the second kind from
 overflowing early

---
 libm/src/math/jn.rs  | 3 ++-
 libm/src/math/jnf.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/libm/src/math/jn.rs b/libm/src/math/jn.rs
index b87aeaf..45db06c 100644
--- a/libm/src/math/jn.rs
+++ b/libm/src/math/jn.rs
@@ -329,7 +329,8 @@ pub fn yn(n: i32, x: f64) -> f64 {
         while i < nm1 && ib != 0xfff00000 {
             i += 1;
             temp = b;
-            b = (2.0 * (i as f64) / x) * b - a;
+            /* halved, so that the product can exceed the range if the result does not */
+            b = 2.0 * (((i as f64) / x) * b - 0.5 * a);
             ib = get_high_word(b);
             a = temp;
         }
diff --git a/libm/src/math/jnf.rs b/libm/src/math/jnf.rs
index 34fdc51..4130fec 100644
--- a/libm/src/math/jnf.rs
+++ b/libm/src/math/jnf.rs
@@ -244,7 +244,8 @@ pub fn ynf(n: i32, x: f32) -> f32 {
     while i < nm1 && ib != 0xff800000 {
         i += 1;
         temp = b;
-        b = (2.0 * (i as f32) / x) * b - a;
+        /* halved, so that the product can exceed the range if the result does not */
+        b = 2.0 * (((i as f32) / x) * b - 0.5 * a);
         ib = b.to_bits();
         a = temp;
     }
-- 
2.43.0


From d762e808b55f2461cc33bc36a22c9a2a6ec24f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:01:42 +0000
Subject: [PATCH 12/17] fix: accept negative hexadecimal integers in util

Integers such as -0x3 were recognised as hexadecimal but the prefix was
looked for before the sign, so parsing panicked.
---
 crates/util/src/main.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/crates/util/src/main.rs b/crates/util/src/main.rs
index aa79354..6182aa0 100644
--- a/crates/util/src/main.rs
+++ b/crates/util/src/main.rs
@@ -338,7 +338,7 @@ macro_rules! impl_parse_tuple_int {
         impl FromStrRadix for $ty {
             fn from_str_radix(s: &str, radix: u32) -> Result<Self, ParseIntError> {
                 let s = strip_radix_prefix(s, radix);
-                <$ty>::from_str_radix(s, radix)
+                <$ty>::from_str_radix(&s, radix)
             }
         }
     };
@@ -415,7 +415,7 @@ impl FromStrRadix for f16 {
         }
 
         let s = strip_radix_prefix(s, radix);
-        u16::from_str_radix(s, radix).map(Self::from_bits)
+        u16::from_str_radix(&s, radix).map(Self::from_bits)
     }
 }
 
@@ -427,7 +427,7 @@ impl FromStrRadix for f32 {
         }
 
         let s = strip_radix_prefix(s, radix);
-        u32::from_str_radix(s, radix).map(Self::from_bits)
+        u32::from_str_radix(&s, radix).map(Self::from_bits)
     }
 }
 
@@ -438,7 +438,7 @@ impl FromStrRadix for f64 {
         }
 
         let s = strip_radix_prefix(s, radix);
-        u64::from_str_radix(s, radix).map(Self::from_bits)
+        u64::from_str_radix(&s, radix).map(Self::from_bits)
     }
 }
 
@@ -449,16 +449,19 @@ impl FromStrRadix for f128 {
             return Ok(libm::support::hf128(s));
         }
         let s = strip_radix_prefix(s, radix);
-        u128::from_str_radix(s, radix).map(Self::from_bits)
+        u128::from_str_radix(&s, radix).map(Self::from_bits)
     }
 }
 
-fn strip_radix_prefix(s: &str, radix: u32) -> &str {
-    if radix == 16 {
+/// Remove the radix prefix but keep a sign before it.
+fn strip_radix_prefix(s: &str, radix: u32) -> String {
+    let (sign, s) = s.split_at(s.starts_with('-').into());
+    let s = if radix == 16 {
         s.strip_prefix("0x").unwrap()
     } else if radix == 2 {
         s.strip_prefix("0b").unwrap()
     } else {
         s
-    }
+    };
+    format!("{sign}{s}")
 }
-- 
2.43.0


From a0b5b9c0ff77c07ab7f927d8bfb887901496e7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:01:42 +0000
Subject: [PATCH 13/17] fix: strip only the type suffix from function names in
 update-api-list

rstrip removes any trailing characters of the given set. A name such as
exp2f128 became exp instead of exp2, so the tool failed or listed the
wrong generic source file.
---
 etc/update-api-list.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/etc/update-api-list.py b/etc/update-api-list.py
index 2d8ad29..a2c9008 100755
--- a/etc/update-api-list.py
+++ b/etc/update-api-list.py
@@ -257,15 +257,15 @@ def base_name(name: str) -> tuple[str, str]:
         return found
 
     if name.endswith("f"):
-        return (name.rstrip("f"), "f32")
+        return (name.removesuffix("f"), "f32")
     elif name.endswith("f16"):
-        return (name.rstrip("f16"), "f16")
+        return (name.removesuffix("f16"), "f16")
     elif name.endswith("f32"):
-        return (name.rstrip("f32"), "f32")
+        return (name.removesuffix("f32"), "f32")
     elif name.endswith("f64"):
-        return (name.rstrip("f64"), "f64")
+        return (name.removesuffix("f64"), "f64")
     elif name.endswith("f128"):
-        return (name.rstrip("f128"), "f128")
+        return (name.removesuffix("f128"), "f128")
 
     return (name, "f64")
 
-- 
2.43.0


From 64565dccb59f645f57ca83a112949794a0ecb866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:18:02 +0000
Subject: [PATCH 14/17] fix: accept negative hexadecimal f128 operands in the
 util command

Operands of the other float types may be negative hexadecimal literals such as -0x1p1, but f128 operands of that form were refused as invalid.
---
 crates/util/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/util/src/main.rs b/crates/util/src/main.rs
index 6182aa0..a6211dc 100644
--- a/crates/util/src/main.rs
+++ b/crates/util/src/main.rs
@@ -390,7 +390,7 @@ where
 
     let msg = || format!("invalid {} input '{s}'", type_name::<F>());
 
-    if s.starts_with("0x") {
+    if s.starts_with("0x") || s.starts_with("-0x") {
         return F::from_str_radix(s, 16).unwrap_or_else(|_| panic!("{}", msg()));
     }
 
-- 
2.43.0


From d49e296b28e6a17141ae9b4b6bb1f32d6bae2493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:18:02 +0000
Subject: [PATCH 15/17] fix: round decimal f128 operands of the util command
 only once

The operand was first rounded to 128 bits and then to the 113 bits of f128, so that a value just above the middle between two floats could become the lower one.
---
 crates/util/src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/util/src/main.rs b/crates/util/src/main.rs
index a6211dc..fc54403 100644
--- a/crates/util/src/main.rs
+++ b/crates/util/src/main.rs
@@ -399,7 +399,10 @@ where
     }
 
     let x = rug::Float::parse(s).unwrap_or_else(|_| panic!("{}", msg()));
-    let x = rug::Float::with_val(F::BITS, x);
+    // Round only once, to the precision of `F` (subnormals have less).
+    let nearest = rug::float::Round::Nearest;
+    let (mut x, ord) = rug::Float::with_val_round(F::SIG_BITS + 1, x, nearest);
+    x.subnormalize_ieee_round(ord, nearest);
     x.az()
 }
 
-- 
2.43.0


From f4fee04b600c0b9d934304f3c456f64eb7369962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:13:31 +0000
Subject: [PATCH 16/17] fix: count a function both changed and asked for only
 once in generate-matrix

The limit on extensive tests counted a function twice when it was changed and
also named in the request, although it is tested once.
---
 ci/ci-util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ci/ci-util.py b/ci/ci-util.py
index 97f563d..f1caadb 100755
--- a/ci/ci-util.py
+++ b/ci/ci-util.py
@@ -323,7 +323,7 @@ class Context:
             ty_changed = changed.get(ty, [])
             ty_to_test = [] if skip_tests else ty_changed.copy()
             ty_to_test.extend(extra_tests.get(ty, []))
-            total_to_test += len(ty_to_test)
+            total_to_test += len(set(ty_to_test))
 
             item = {
                 "ty": ty,
-- 
2.43.0


From e0b8845657cf0fbdbd2fdbbea6b2857853ae31ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:10:06 +0000
Subject: [PATCH 17/17] fix: select the tests of every listed function in
 run-extensive.sh

The list of functions is separated by commas but was passed as a single test
filter. With more than one function the run of the ordinary tests selected
nothing.
---
 ci/run-extensive.sh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ci/run-extensive.sh b/ci/run-extensive.sh
index 9bdf8bc..89823ea 100755
--- a/ci/run-extensive.sh
+++ b/ci/run-extensive.sh
@@ -27,6 +27,7 @@ test_cmd=(
 )
 
 # Run the non-extensive tests first to catch any easy failures
-"${test_cmd[@]}" -- "$TO_TEST"
+IFS=, read -ra filters <<<"$TO_TEST"
+"${test_cmd[@]}" -- "${filters[@]}"
 
 LIBM_EXTENSIVE_TESTS="$TO_TEST" "${test_cmd[@]}" -- extensive
-- 
2.43.0

