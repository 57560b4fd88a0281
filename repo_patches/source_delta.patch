From 8d4a38bd6578ef74b8f60f5386373d16064c1221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:34 +0000
Subject: [PATCH 01/32] fix: terminate the ldg, stg and texture type tables

find_in_table scans until a null pointer; a modifier that is in none of the
entries read past the end of these tables.
---
 src/operand.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/operand.h b/src/operand.h
index ecc6dda..f560b20 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -686,7 +686,7 @@ namespace stg
     DEFINE_OPERAND(size)
     {
         static const char* table[] = {
-            "U8", "S8", "U16", "S16", "32", "64", "128",
+            "U8", "S8", "U16", "S16", "32", "64", "128", nullptr,
         };
         std::optional<uint64_t> size = find_in_table(token, table, ".");
         if (size) {
@@ -1207,7 +1207,7 @@ namespace ldg
 {
     DEFINE_OPERAND(size)
     {
-        static const char* table[] = {"U8", "S8", "U16", "S16", "32", "64", "128", "U"};
+        static const char* table[] = {"U8", "S8", "U16", "S16", "32", "64", "128", "U", nullptr};
         static const char* msg = "expected .U8, .S8, .U16, .S16, .32, .64, .128 or .U.128";
 
         const std::optional result = find_in_table(token, table, ".");
@@ -1496,7 +1496,7 @@ template <int address>
 DEFINE_OPERAND(tex_type)
 {
     static const char* types[]{
-        "1D", "ARRAY_1D", "2D", "ARRAY_2D", "3D", "ARRAY_3D", "CUBE", "ARRAY_CUBE",
+        "1D", "ARRAY_1D", "2D", "ARRAY_2D", "3D", "ARRAY_3D", "CUBE", "ARRAY_CUBE", nullptr,
     };
     const std::optional<uint64_t> result = find_in_table(token, types, "");
     if (!result) {
-- 
2.43.0


From c1b1c5c91cfb79c6f03fcaa6ba171c98c36a3ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:34 +0000
Subject: [PATCH 02/32] fix: .num_gprs expects a number

The check was inverted: every number was rejected and anything else was
read as one.
---
 src/options.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/options.cpp b/src/options.cpp
index 63805a6..7208d9f 100644
--- a/src/options.cpp
+++ b/src/options.cpp
@@ -42,7 +42,7 @@ void context::parse_option(token& token)
         parse_type();
     } else if (equal(token, ".num_gprs")) {
         token = tokenize();
-        if (token.type == token_type::immediate) {
+        if (token.type != token_type::immediate) {
             fatal_error(token, "expected number of general purpose registers");
         }
         num_gprs = static_cast<int>(token.data.immediate);
-- 
2.43.0


From f180f9285c3e7f0029070cb5c095c7edf309eec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:34 +0000
Subject: [PATCH 03/32] fix: do not let the 20-bit unsigned immediate take
 0x100000

It spilled into the next field.
---
 src/operand.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operand.h b/src/operand.h
index f560b20..640182e 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -89,7 +89,7 @@ inline error assemble_uint(context& ctx, opcode& op, token& token, int64_t max_s
 DEFINE_OPERAND(uimm_extended)
 {
     uint64_t value;
-    CHECK(convert_integer(token, 0, 1ULL << 20, &value));
+    CHECK(convert_integer(token, 0, max_bits(20), &value));
     if (value >= 0x80000) {
         value -= 0x80000;
         op.add_bits(1ULL << 56);
-- 
2.43.0


From 7b0d0d3de0dd66a7c80798b7b4c46e7344f23c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:34 +0000
Subject: [PATCH 04/32] fix: opcode of ICMP with a constant buffer as second
 source

It had the opcode of the form with the constant buffer as third source, so
two different instructions shared an encoding.
---
 src/table.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/table.h b/src/table.h
index cb6eff2..3de7502 100644
--- a/src/table.h
+++ b/src/table.h
@@ -179,7 +179,7 @@ const insn table[]{
     INSN(0x38C0000000000000ULL, 0, "IADD3",               x<48>, dgpr<0>, cc, comma, neg<51>, sgpr<8>,                  comma,          uimm_extended, post_neg<50>, comma, neg<49>, sgpr<39>),
     INSN(0x5B40000000000000ULL, 0, "ICMP", integer_compare<49>, int_sign, dgpr<0>, comma, sgpr<8>, comma, sgpr<20>, comma, sgpr<39>),
     INSN(0x5340000000000000ULL, 0, "ICMP", integer_compare<49>, int_sign, dgpr<0>, comma, sgpr<8>, comma, sgpr<39>, comma, cbuf),
-    INSN(0x5340000000000000ULL, 0, "ICMP", integer_compare<49>, int_sign, dgpr<0>, comma, sgpr<8>, comma, cbuf,     comma, sgpr<39>),
+    INSN(0x4B40000000000000ULL, 0, "ICMP", integer_compare<49>, int_sign, dgpr<0>, comma, sgpr<8>, comma, cbuf,     comma, sgpr<39>),
     INSN(0x3640000000000000ULL, 0, "ICMP", integer_compare<49>, int_sign, dgpr<0>, comma, sgpr<8>, comma, imm,      comma, sgpr<39>),
     INSN(0x5C20000000000000ULL, 0, "IMNMX", int_sign, imnmx::mode, dgpr<0>, cc, comma, sgpr<8>, comma, sgpr<20>, comma, pred<39, true>),
     INSN(0x4C20000000000000ULL, 0, "IMNMX", int_sign, imnmx::mode, dgpr<0>, cc, comma, sgpr<8>, comma, cbuf,     comma, pred<39, true>),
-- 
2.43.0


From 20834e4b2377662a84fa503a016644cc50ad9bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:34 +0000
Subject: [PATCH 05/32] fix: bit of SUST.D.BA

Bit 52 is the one of .D and tripped an assertion; .BA is bit 23 as in SULD.
---
 src/table.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/table.h b/src/table.h
index 3de7502..de18855 100644
--- a/src/table.h
+++ b/src/table.h
@@ -254,8 +254,8 @@ const insn table[]{
     INSN(0x3890000000000000ULL, 0, "RRO", rro::mode, dgpr<0>, comma, fimm, post_neg<45>, post_abs<49>),
     INSN(0xEB20000000000000ULL, 0, "SUST", image::p, image::type, store_cache<24>, image::rgba, image::clamp, memory::address<false>, comma, sgpr<0>, comma, sgpr<39>),
     INSN(0xEB28000000000000ULL, 0, "SUST", image::p, image::type, store_cache<24>, image::rgba, image::clamp, memory::address<false>, comma, sgpr<0>, comma, uinteger<13, 36>),
-    INSN(0xEB20000000000000ULL, 0, "SUST", image::d, image::ba<52>, image::type, store_cache<24>, image::size, image::clamp, memory::address<false>, comma, sgpr<0>, comma, sgpr<39>),
-    INSN(0xEB28000000000000ULL, 0, "SUST", image::d, image::ba<52>, image::type, store_cache<24>, image::size, image::clamp, memory::address<false>, comma, sgpr<0>, comma, uinteger<13, 36>),
+    INSN(0xEB20000000000000ULL, 0, "SUST", image::d, image::ba<23>, image::type, store_cache<24>, image::size, image::clamp, memory::address<false>, comma, sgpr<0>, comma, sgpr<39>),
+    INSN(0xEB28000000000000ULL, 0, "SUST", image::d, image::ba<23>, image::type, store_cache<24>, image::size, image::clamp, memory::address<false>, comma, sgpr<0>, comma, uinteger<13, 36>),
     INSN(0xEB00000000000000ULL, 0, "SULD", image::p, image::type, load_cache<24>, image::rgba, image::clamp, dgpr<0>, comma, memory::address<false>, comma, sgpr<39>),
     INSN(0xEB08000000000000ULL, 0, "SULD", image::p, image::type, load_cache<24>, image::rgba, image::clamp, dgpr<0>, comma, memory::address<false>, comma, uinteger<13, 36>),
     INSN(0xEB00000000000000ULL, 0, "SULD", image::d, image::ba<23>, image::type, load_cache<24>, image::size, image::clamp, dgpr<0>, comma, memory::address<false>, comma, sgpr<39>),
-- 
2.43.0


From 1dcb3a24f835c6cd4380594d398d5755318472b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:34 +0000
Subject: [PATCH 06/32] fix: I2I source selector with a signed destination

The source format has two bits; the third one read here is the sign of the
destination, which made .H1 of a 16-bit source illegal.
---
 src/operand.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operand.h b/src/operand.h
index 640182e..03f0076 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -1289,7 +1289,7 @@ namespace i2i
         static const char* bytes[] = {"B0", "B1", "B2", "B3", nullptr};
         static const char* shorts[] = {"H0", "INVALIDSIZE1", "H1", "INVALIDSIZE3", nullptr};
 
-        const uint64_t type = (op.value >> 10) & 0b111;
+        const uint64_t type = (op.value >> 10) & 0b11;
         const char* const* const table = type == 1 ? shorts : bytes;
         const std::optional result = find_in_table(token, table, ".");
         if (result) {
-- 
2.43.0


From a60fb240599ffbbfa7dc65b3b0d8a4fba4bed978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:34 +0000
Subject: [PATCH 07/32] fix: reject TLDS.LL with 3D and ARRAY_2D

These encodings have no explicit level of detail; .LL was silently dropped.
---
 src/operand.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/operand.h b/src/operand.h
index 03f0076..d390d99 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -1622,6 +1622,9 @@ DEFINE_OPERAND(tlds_type)
         if (ms) {
             return fail(token, "MS can't be used in 3D");
         }
+        if (ll) {
+            return fail(token, "LL can't be used in 3D");
+        }
         mode = 7;
         break;
     case 3: // ARRAY_2D
@@ -1631,6 +1634,9 @@ DEFINE_OPERAND(tlds_type)
         if (ms) {
             return fail(token, "MS can't be used in ARRAY_2D");
         }
+        if (ll) {
+            return fail(token, "LL can't be used in ARRAY_2D");
+        }
         mode = 8;
         break;
     }
-- 
2.43.0


From 900d82fd84fb4ba2df65f43426747906c5b20a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:16 +0000
Subject: [PATCH 08/32] fix: reject negations together with .PO or with each
 other

.PO is encoded as both negation bits. Writing .PO and a negation tripped an
assertion, and negating both sources was silently assembled as .PO.
---
 src/operand.h | 30 ++++++++++++++++++++++++++++++
 src/table.h   | 18 +++++++++---------
 2 files changed, 39 insertions(+), 9 deletions(-)

diff --git a/src/operand.h b/src/operand.h
index d390d99..98de490 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -389,6 +389,36 @@ DEFINE_OPERAND(po)
     return {};
 }
 
+// Negations of an instruction with .PO. As setting both bits is how .PO is encoded, a negation can't
+// be used with it or with the other negation.
+inline error assemble_po_neg(context& ctx, token& token, opcode& op, int address, int other)
+{
+    if (op.value & ((1ULL << address) | (1ULL << other))) {
+        return fail(token, "negation can't be used with .PO or with another negation");
+    }
+    op.add_bits(1ULL << address);
+    token = ctx.tokenize();
+    return {};
+}
+
+template <int address, int other>
+DEFINE_OPERAND(po_neg)
+{
+    if (token.type != token_type::minus) {
+        return {};
+    }
+    return assemble_po_neg(ctx, token, op, address, other);
+}
+
+template <int address, int other>
+DEFINE_OPERAND(po_post_neg)
+{
+    if (!equal(token, ".NEG")) {
+        return {};
+    }
+    return assemble_po_neg(ctx, token, op, address, other);
+}
+
 template <int address>
 DEFINE_FLAG(sh, ".SH", address);
 
diff --git a/src/table.h b/src/table.h
index de18855..64e09a0 100644
--- a/src/table.h
+++ b/src/table.h
@@ -170,10 +170,10 @@ const insn table[]{
     INSN(0x5CF0000000000000ULL, 0, "R2P", p2r::mode<40>, comma, sgpr<8>, byte_selector<41>, comma, sgpr<20>),
     INSN(0x4CF0000000000000ULL, 0, "R2P", p2r::mode<40>, comma, sgpr<8>, byte_selector<41>, comma, cbuf),
     INSN(0x38F0000000000000ULL, 0, "R2P", p2r::mode<40>, comma, sgpr<8>, byte_selector<41>, comma, imm),
-    INSN(0x5C10000000000000ULL, 0, "IADD", po<48, 49>, sat<50>, x<43>, dgpr<0>, cc, comma, neg<49>, sgpr<8>, comma, neg<48>, sgpr<20>),
-    INSN(0x4C10000000000000ULL, 0, "IADD", po<48, 49>, sat<50>, x<43>, dgpr<0>, cc, comma, neg<49>, sgpr<8>, comma, neg<48>, cbuf),
-    INSN(0x3810000000000000ULL, 0, "IADD", po<48, 49>, sat<50>, x<43>, dgpr<0>, cc, comma, neg<49>, sgpr<8>, comma, imm, post_neg<48>),
-    INSN(0x1C00000000000000ULL, 0, "IADD32I", po<55, 56>, sat<54>, x<53>, dgpr<0>, cc<52>, comma, neg<56>, sgpr<8>, comma, simm32),
+    INSN(0x5C10000000000000ULL, 0, "IADD", po<48, 49>, sat<50>, x<43>, dgpr<0>, cc, comma, po_neg<49, 48>, sgpr<8>, comma, po_neg<48, 49>, sgpr<20>),
+    INSN(0x4C10000000000000ULL, 0, "IADD", po<48, 49>, sat<50>, x<43>, dgpr<0>, cc, comma, po_neg<49, 48>, sgpr<8>, comma, po_neg<48, 49>, cbuf),
+    INSN(0x3810000000000000ULL, 0, "IADD", po<48, 49>, sat<50>, x<43>, dgpr<0>, cc, comma, po_neg<49, 48>, sgpr<8>, comma, imm, po_post_neg<48, 49>),
+    INSN(0x1C00000000000000ULL, 0, "IADD32I", po<55, 56>, sat<54>, x<53>, dgpr<0>, cc<52>, comma, po_neg<56, 55>, sgpr<8>, comma, simm32),
     INSN(0x5CC0000000000000ULL, 0, "IADD3", iadd3::shift, x<48>, dgpr<0>, cc, comma, neg<51>, sgpr<8>, iadd3::half<35>, comma, neg<50>, sgpr<20>, iadd3::half<33>,   comma, neg<49>, sgpr<39>, iadd3::half<31>),
     INSN(0x4CC0000000000000ULL, 0, "IADD3",               x<48>, dgpr<0>, cc, comma, neg<51>, sgpr<8>,                  comma, neg<50>, cbuf,                        comma, neg<49>, sgpr<39>),
     INSN(0x38C0000000000000ULL, 0, "IADD3",               x<48>, dgpr<0>, cc, comma, neg<51>, sgpr<8>,                  comma,          uimm_extended, post_neg<50>, comma, neg<49>, sgpr<39>),
@@ -184,9 +184,9 @@ const insn table[]{
     INSN(0x5C20000000000000ULL, 0, "IMNMX", int_sign, imnmx::mode, dgpr<0>, cc, comma, sgpr<8>, comma, sgpr<20>, comma, pred<39, true>),
     INSN(0x4C20000000000000ULL, 0, "IMNMX", int_sign, imnmx::mode, dgpr<0>, cc, comma, sgpr<8>, comma, cbuf,     comma, pred<39, true>),
     INSN(0x3820000000000000ULL, 0, "IMNMX", int_sign, imnmx::mode, dgpr<0>, cc, comma, sgpr<8>, comma, imm,      comma, pred<39, true>),
-    INSN(0x5C18000000000000ULL, 0, "ISCADD", po<48, 49>, dgpr<0>, cc, comma, neg<49>, sgpr<8>, comma, neg<48>, sgpr<20>, comma, uinteger<5, 39>),
-    INSN(0x4C18000000000000ULL, 0, "ISCADD", po<48, 49>, dgpr<0>, cc, comma, neg<49>, sgpr<8>, comma, neg<48>, cbuf,     comma, uinteger<5, 39>),
-    INSN(0x3818000000000000ULL, 0, "ISCADD", po<48, 49>, dgpr<0>, cc, comma, neg<49>, sgpr<8>, comma, neg<48>, imm,      comma, uinteger<5, 39>),
+    INSN(0x5C18000000000000ULL, 0, "ISCADD", po<48, 49>, dgpr<0>, cc, comma, po_neg<49, 48>, sgpr<8>, comma, po_neg<48, 49>, sgpr<20>, comma, uinteger<5, 39>),
+    INSN(0x4C18000000000000ULL, 0, "ISCADD", po<48, 49>, dgpr<0>, cc, comma, po_neg<49, 48>, sgpr<8>, comma, po_neg<48, 49>, cbuf,     comma, uinteger<5, 39>),
+    INSN(0x3818000000000000ULL, 0, "ISCADD", po<48, 49>, dgpr<0>, cc, comma, po_neg<49, 48>, sgpr<8>, comma, po_neg<48, 49>, imm,      comma, uinteger<5, 39>),
     INSN(0x5B50000000000000ULL, 0, "ISET", bf<44>, integer_compare<49>, int_sign, x<43>, bop<45>, dgpr<0>, cc, comma, sgpr<8>, comma, sgpr<20>, comma, pred<39, true>),
     INSN(0x4B50000000000000ULL, 0, "ISET", bf<44>, integer_compare<49>, int_sign, x<43>, bop<45>, dgpr<0>, cc, comma, sgpr<8>, comma, cbuf,     comma, pred<39, true>),
     INSN(0x3650000000000000ULL, 0, "ISET", bf<44>, integer_compare<49>, int_sign, x<43>, bop<45>, dgpr<0>, cc, comma, sgpr<8>, comma, imm,      comma, pred<39, true>),
@@ -261,8 +261,8 @@ const insn table[]{
     INSN(0xEB00000000000000ULL, 0, "SULD", image::d, image::ba<23>, image::type, load_cache<24>, image::size, image::clamp, dgpr<0>, comma, memory::address<false>, comma, sgpr<39>),
     INSN(0xEB08000000000000ULL, 0, "SULD", image::d, image::ba<23>, image::type, load_cache<24>, image::size, image::clamp, dgpr<0>, comma, memory::address<false>, comma, uinteger<13, 36>),
     INSN(0x50D8000000000000ULL, 0, "VOTE", vote::operation, dgpr<0>, comma, pred<45, false>, comma, pred<39, true>),
-    INSN(0x5F04000000000000ULL, 0, "VMAD", video::src_format<37, 48>, video::src_format<29, 49>, po<53, 54>, vmad::scale, sat<55>, dgpr<0>, cc, comma, neg<54>, sgpr<8>, video::selector<36, 37>, comma, sgpr<20>, video::selector<28, 29>, comma, neg<53>, sgpr<39>),
-    INSN(0x5F00000000000000ULL, 0, "VMAD", video::src_format<37, 48>, video::imm_format<29, 49>, po<53, 54>, vmad::scale, sat<55>, dgpr<0>, cc, comma, neg<54>, sgpr<8>, video::selector<36, 37>, comma, uinteger<16, 20>,                  comma, neg<53>, sgpr<39>),
+    INSN(0x5F04000000000000ULL, 0, "VMAD", video::src_format<37, 48>, video::src_format<29, 49>, po<53, 54>, vmad::scale, sat<55>, dgpr<0>, cc, comma, po_neg<54, 53>, sgpr<8>, video::selector<36, 37>, comma, sgpr<20>, video::selector<28, 29>, comma, po_neg<53, 54>, sgpr<39>),
+    INSN(0x5F00000000000000ULL, 0, "VMAD", video::src_format<37, 48>, video::imm_format<29, 49>, po<53, 54>, vmad::scale, sat<55>, dgpr<0>, cc, comma, po_neg<54, 53>, sgpr<8>, video::selector<36, 37>, comma, uinteger<16, 20>,                  comma, po_neg<53, 54>, sgpr<39>),
     INSN(0x3A04000000000000ULL, 0, "VMNMX", video::dest_sign, video::src_format<37, 48>, video::src_format<29, 49>, video::mx<56>, sat<55>, video::vmnmx_op<51>, dgpr<0>, cc, comma, sgpr<8>, video::selector<36, 37>, comma, sgpr<20>, video::selector<28, 29>, comma, sgpr<39>),
     INSN(0x3A00000000000000ULL, 0, "VMNMX", video::dest_sign, video::src_format<37, 48>, video::imm_format<29, 49>, video::mx<56>, sat<55>, video::vmnmx_op<51>, dgpr<0>, cc, comma, sgpr<8>, video::selector<36, 37>, comma, uinteger<16, 20>,                  comma, sgpr<39>),
     INSN(0x50F4000000000000ULL, 0, "VSETP", vsetp::integer_compare<43>, video::src_format<37, 48>, video::src_format<29, 49>, bop<45>, pred<3>, comma, pred<0>, comma, sgpr<8>, video::selector<36, 37>, comma, sgpr<20>, video::selector<28, 29>, comma, pred<39, true>),
-- 
2.43.0


From 10730137a1806f1f6d46d104ec52fb6cebf866c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:16 +0000
Subject: [PATCH 09/32] fix: do not scan past the end of the word P

A word that starts like a predicate or register can already be at its end
here; the next separator was swallowed, even the terminator of the text.
---
 src/context.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/context.cpp b/src/context.cpp
index dc82453..b6d9b4e 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -210,9 +210,12 @@ token context::tokenize()
             return token;
         }
     }
-    do {
+    if (text == contents) {
         next();
-    } while (!is_separator(*text));
+    }
+    while (!is_separator(*text)) {
+        next();
+    }
 
     if (text[-1] == ':') {
         // ignore labels
-- 
2.43.0


From 5474b3c3d4ef7dedcd29b0cd8cb93c0ce740919a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:16 +0000
Subject: [PATCH 10/32] fix: do not step over the end of the text when looking
 for labels

A text that ends in a word at the start of a line was read past its end.
---
 src/context.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/context.cpp b/src/context.cpp
index b6d9b4e..312fc7d 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -272,9 +272,12 @@ void context::generate_labels()
         next();
     };
     const auto next_line = [this, advance] {
-        do {
+        while (*text) {
             advance();
-        } while (*text && column > 0);
+            if (column == 0) {
+                break;
+            }
+        }
     };
 
     assert(line == 0 && column == 0);
-- 
2.43.0


From d9c99dff26b6ba085411592cf8082938337ac36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:16 +0000
Subject: [PATCH 11/32] fix: video instructions have no byte selector for
 32-bit sources

The selector shares its bits with the format: .B2 and .B3 tripped an
assertion and .B1 gave an invalid format.
---
 src/operand.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/operand.h b/src/operand.h
index 98de490..24ece73 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -1468,8 +1468,10 @@ namespace video
         static const char* bytes[] = {"B0", "B1", "B2", "B3", nullptr};
         static const char* shorts[] = {"H0", "H1", nullptr};
 
-        const uint64_t type = (op.value >> type_address) & 0b111;
-        const char* const* const table = type == 2 ? shorts : bytes;
+        static const char* words[] = {nullptr};
+
+        const uint64_t type = (op.value >> type_address) & 0b11;
+        const char* const* const table = type == 0 ? bytes : type == 2 ? shorts : words;
         const std::optional result = find_in_table(token, table, ".");
         if (result) {
             token = ctx.tokenize();
-- 
2.43.0


From 654832b500e79e34903a5301bf72d4929bccbabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:16 +0000
Subject: [PATCH 12/32] fix: keep the sign of -0.0 in double and short half
 immediates

---
 src/helper.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/helper.cpp b/src/helper.cpp
index ebb0110..83645d6 100644
--- a/src/helper.cpp
+++ b/src/helper.cpp
@@ -1,3 +1,4 @@
+#include <bit>
 #include <cinttypes>
 #include <cstdint>
 #include <cstdlib>
@@ -10,6 +11,11 @@
 #include "operand.h"
 #include "token.h"
 
+static bool is_negative(double value)
+{
+    return (std::bit_cast<uint64_t>(value) >> 63) != 0;
+}
+
 static error assemble_gpr(context& ctx, token& token, opcode& op, int address)
 {
     CHECK(confirm_type(token, token_type::regster));
@@ -207,7 +213,7 @@ error assemble_double_immediate(context& ctx, token& token, opcode& op)
     switch (token.type) {
     case token_type::float_immediate:
         value = token.data.float_immediate;
-        if (value < 0) {
+        if (is_negative(value)) {
             op.add_bits(1ULL << 56);
         }
         break;
@@ -255,7 +261,7 @@ error assemble_half_float_immediate(context& ctx, token& token, opcode& op, int
     switch (token.type) {
     case token_type::float_immediate:
         value = fp32_to_fp16(token.data.float_immediate);
-        if (token.data.float_immediate < 0 && neg_bit >= 0) {
+        if (is_negative(token.data.float_immediate) && neg_bit >= 0) {
             op.add_bits(1ULL << neg_bit);
         }
         break;
-- 
2.43.0


From 6d5219040feb4c94d659ced9b8b3202e39fbdc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:16 +0000
Subject: [PATCH 13/32] fix: a lone dot is not a modifier

It matched the placeholders of the modifier tables and was accepted.
---
 src/helper.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/helper.cpp b/src/helper.cpp
index 83645d6..8d9db61 100644
--- a/src/helper.cpp
+++ b/src/helper.cpp
@@ -85,6 +85,11 @@ std::optional<uint64_t> find_in_table(const token& token, const char* const* tab
         text = text.substr(std::size(prefix));
     }
 
+    if (text.empty()) {
+        // empty entries are placeholders, they can't be written
+        return {};
+    }
+
     for (size_t i = 0; table[i]; ++i) {
         if (text.compare(table[i]) != 0) {
             continue;
-- 
2.43.0


From 1b3716445983985d98b086e8790299d37ffc421b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:16 +0000
Subject: [PATCH 14/32] fix: no extra padding after code that already fills 256
 byte blocks

The file was 256 bytes longer than its header says.
---
 src/write.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/write.cpp b/src/write.cpp
index aaeedb6..19612c3 100644
--- a/src/write.cpp
+++ b/src/write.cpp
@@ -22,7 +22,7 @@ std::vector<uint64_t> context::binary(std::span<const uint64_t> code) const
     }
     result.insert(result.end(), code.begin(), code.end());
     if (is_dksh) {
-        result.resize(result.size() + 32 - code.size() % 32);
+        result.resize(result.size() + (32 - code.size() % 32) % 32);
     }
     return result;
 }
-- 
2.43.0


From 423e6d9b3fe42ff6542e2b06c04eebd26d115b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:16 +0000
Subject: [PATCH 15/32] fix: a lone R is not register 0

It made the R swizzle of TEXS and TLDS impossible to write.
---
 src/context.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/context.cpp b/src/context.cpp
index 312fc7d..5626ebb 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -183,7 +183,8 @@ token context::tokenize()
             token.data.regster = ZERO_REGISTER;
             return token;
         }
-        bool invalid_register = false;
+        // a lone R is an identifier (e.g. the swizzle of TEXS)
+        bool invalid_register = is_separator(*text);
         while (!is_separator(*text)) {
             if (!is_decimal(*text)) {
                 invalid_register = true;
-- 
2.43.0


From 571bc7f4e5d40e02c4d20d7f3a3bea0ba49c6943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:38 +0000
Subject: [PATCH 16/32] fix: say which input file failed to open

The format string was passed as an argument of a null format string.
---
 src/command_line.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/command_line.cpp b/src/command_line.cpp
index 7444c78..3fb97ee 100644
--- a/src/command_line.cpp
+++ b/src/command_line.cpp
@@ -11,7 +11,7 @@ static std::string read_file(const char* filename)
 {
     std::ifstream file(filename, std::ios::binary);
     if (!file.is_open()) {
-        fatal_error(nullptr, "%s: failed to open", filename);
+        fatal_error("%s: failed to open", filename);
     }
     file.seekg(0, std::ios::end);
     std::string text(file.tellg(), ' ');
-- 
2.43.0


From 92e366b806ca4dbec8c35b9e1347e6dbbcd56368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:38 +0000
Subject: [PATCH 17/32] fix: read the whole input file or fail

Read errors and short reads went unnoticed, and inputs that have no size
(pipes, directories) aborted.
---
 src/command_line.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/command_line.cpp b/src/command_line.cpp
index 3fb97ee..243d74f 100644
--- a/src/command_line.cpp
+++ b/src/command_line.cpp
@@ -13,11 +13,15 @@ static std::string read_file(const char* filename)
     if (!file.is_open()) {
         fatal_error("%s: failed to open", filename);
     }
-    file.seekg(0, std::ios::end);
-    std::string text(file.tellg(), ' ');
-
-    file.seekg(0, std::ios::beg);
-    file.read(std::data(text), std::size(text));
+    std::string text;
+    char buffer[4096];
+    do {
+        file.read(buffer, sizeof(buffer));
+        text.append(buffer, static_cast<size_t>(file.gcount()));
+    } while (file);
+    if (file.bad()) {
+        fatal_error("%s: failed to read", filename);
+    }
     return text;
 }
 
-- 
2.43.0


From 84d4eff2b5e321222a40cfb0592575693707633a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:38 +0000
Subject: [PATCH 18/32] fix: report a failure to write the output file

The stream does not throw; a full disk ended with exit status 0 and an
incomplete file.
---
 src/command_line.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/command_line.cpp b/src/command_line.cpp
index 243d74f..88f7e9f 100644
--- a/src/command_line.cpp
+++ b/src/command_line.cpp
@@ -62,6 +62,10 @@ int main(int argc, char** argv)
             fatal_error("%s: failed to open", output_file);
         }
         outfp.write(reinterpret_cast<const char*>(binary.data()), binary.size() * sizeof(uint64_t));
+        outfp.close();
+        if (!outfp) {
+            fatal_error("%s: failed to write", output_file);
+        }
     } catch (const std::ios_base::failure& e) {
         fatal_error("failed to write output file: %s", e.what());
     }
-- 
2.43.0


From 6fc7bc9c1380419f3628417b72be560369abeb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:38 +0000
Subject: [PATCH 19/32] fix: reject integers that a float immediate cannot
 represent

The comparison converted the integer to float again, so it never differed.
---
 src/helper.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/helper.cpp b/src/helper.cpp
index 8d9db61..e943375 100644
--- a/src/helper.cpp
+++ b/src/helper.cpp
@@ -165,8 +165,9 @@ error assemble_float_immediate(context& ctx, token& token, opcode& op, int bits)
         break;
     case token_type::immediate:
         value = static_cast<float>(token.data.immediate);
-        if (static_cast<int64_t>(token.data.immediate) != value) {
-            return fail(token, "integer immediate " PRId64 "cannot be represented as float",
+        // 2^63 is the nearest float of integers that are out of the range of the cast back
+        if (value >= 9223372036854775808.0f || static_cast<int64_t>(value) != token.data.immediate) {
+            return fail(token, "integer immediate %" PRId64 " cannot be represented as float",
                         token.data.immediate);
         }
         break;
-- 
2.43.0


From 8185d8c23c9d4738fe94e64f8975ad0079d15cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:38 +0000
Subject: [PATCH 20/32] fix: signed overflow in the range check of branch
 targets

---
 src/operand.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/operand.h b/src/operand.h
index 24ece73..f4a7a6d 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -142,10 +142,11 @@ DEFINE_OPERAND(label)
 
     static constexpr int64_t max = max_bits(23);
     static constexpr int64_t min = -static_cast<int64_t>(max_bits(23)) - 1;
-    const int64_t value = absolute - ctx.pc - 8;
-    if (value > max || value < min) {
+    const int64_t origin = ctx.pc + 8;
+    if (absolute > origin + max || absolute < origin + min) {
         return fail(token, "label out of range");
     }
+    const int64_t value = absolute - origin;
     op.add_bits((static_cast<uint64_t>(value) & 0x7FFFFF) << 20);
     op.add_bits((value < 0 ? 1ULL : 0ULL) << 43);
 
-- 
2.43.0


From 0596a5ccdcabd089926b29cd2b47b27746b6f9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:38 +0000
Subject: [PATCH 21/32] fix: count the instructions of the text that is parsed

Semicolons after a null character were counted too, which tripped the
assertion below.
---
 src/nxas.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nxas.cpp b/src/nxas.cpp
index 6d19636..b24f08a 100644
--- a/src/nxas.cpp
+++ b/src/nxas.cpp
@@ -31,7 +31,8 @@ std::vector<uint64_t> assemble(const std::string& code, const char* filename)
     // is possible because every instruction ends with a semicolon on the number of decoding
     // instructions we allocate one extra because one instruction might be bugged and it won't have
     // a semicolon (which will trigger a fatal)
-    const size_t max_decode_instructions = std::ranges::count(code, ';') + 1;
+    const std::string_view text(code.c_str()); // a null character ends the text
+    const size_t max_decode_instructions = std::ranges::count(text, ';') + 1;
     std::vector<opcode> opcodes(max_decode_instructions);
 
     size_t index = 0;
-- 
2.43.0


From 8c7db56659d70954b79fbc50e3b1f66d2cbd7e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:38 +0000
Subject: [PATCH 22/32] fix: skip labels without recursion

A long run of labels overflowed the stack.
---
 src/context.cpp | 15 ++++++++++-----
 src/context.h   |  2 ++
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/context.cpp b/src/context.cpp
index 5626ebb..ad077f5 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -78,6 +78,16 @@ context::context(const char* filename_, const char* text_)
 context::~context() = default;
 
 token context::tokenize()
+{
+    token token = scan();
+    while (token.type == token_type::identifier && token.data.string.ends_with(':')) {
+        // ignore labels
+        token = scan();
+    }
+    return token;
+}
+
+token context::scan()
 {
     while (is_contained(" \t\r\n", *text)) {
         next();
@@ -217,11 +227,6 @@ token context::tokenize()
     while (!is_separator(*text)) {
         next();
     }
-
-    if (text[-1] == ':') {
-        // ignore labels
-        return tokenize();
-    }
     token.type = token_type::identifier;
     token.data.string = std::string_view(contents, static_cast<size_t>(text - contents));
     return token;
diff --git a/src/context.h b/src/context.h
index 1869be5..c75a628 100644
--- a/src/context.h
+++ b/src/context.h
@@ -39,6 +39,8 @@ class context
         compute = 5,
     };
 
+    token scan();
+
     void next() noexcept;
 
     void reset();
-- 
2.43.0


From 9b7d22510d767a015723246bff3157e2410130aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:38 +0000
Subject: [PATCH 23/32] fix: arguments of diagnostics match their formats

Wrong integer types were passed, and the string of tokens that have none.
---
 src/helper.cpp  | 2 +-
 src/operand.h   | 9 ++++++---
 src/options.cpp | 3 ++-
 src/parse.cpp   | 4 ++--
 4 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/helper.cpp b/src/helper.cpp
index e943375..fa3953a 100644
--- a/src/helper.cpp
+++ b/src/helper.cpp
@@ -61,7 +61,7 @@ error convert_integer(const token& token, int64_t min, int64_t max, uint64_t* re
     int64_t value = token.data.immediate;
     if (value < min || value > max) {
         return fail(token,
-                    "integer \33[1m%d\33[0m is out of range, expected to be "
+                    "integer \33[1m%" PRId64 "\33[0m is out of range, expected to be "
                     "from %" PRId64 " to %" PRId64 " inclusively",
                     value, min, max);
     }
diff --git a/src/operand.h b/src/operand.h
index f4a7a6d..f4ff686 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -59,7 +59,8 @@ inline error assemble_cc_tests(context& ctx, opcode& op, token& token, const cha
 
         test_index = find_in_table(token, tests, ".");
         if (!test_index) {
-            return fail(token, "unexpected test %.*s", std::size(token.data.string),
+            return fail(token, "unexpected test %.*s",
+                        static_cast<int>(std::size(token.data.string)),
                         std::data(token.data.string));
         }
         token = ctx.tokenize();
@@ -127,7 +128,8 @@ DEFINE_OPERAND(label)
     case token_type::identifier: {
         const std::optional label = ctx.find_label(token.data.string);
         if (!label) {
-            return fail(token, "label \33[1m%.*s\33[0m not defined", std::size(token.data.string),
+            return fail(token, "label \33[1m%.*s\33[0m not defined",
+                        static_cast<int>(std::size(token.data.string)),
                         std::data(token.data.string));
         }
         absolute = *label;
@@ -1218,8 +1220,9 @@ DEFINE_OPERAND(s2r)
     } else {
         value = find_in_table(token, table, "");
         if (!value) {
+            const std::string_view tkninfo = info(token);
             return fail(token, "invalid system register \33[1m%.*s\33[0m",
-                        static_cast<int>(token.data.string.size()), token.data.string.data());
+                        static_cast<int>(std::size(tkninfo)), std::data(tkninfo));
         }
         token = ctx.tokenize();
     }
diff --git a/src/options.cpp b/src/options.cpp
index 7208d9f..520a938 100644
--- a/src/options.cpp
+++ b/src/options.cpp
@@ -31,8 +31,9 @@ void context::parse_option(token& token)
         } else if (equal(token, "compute")) {
             type = program_type::compute;
         } else {
+            const std::string_view tkninfo = info(token);
             fatal_error(token, "invalid program type \33[1m%.*s\33[0m",
-                        static_cast<int>(token.data.string.size()), token.data.string.data());
+                        static_cast<int>(std::size(tkninfo)), std::data(tkninfo));
         }
     };
     if (equal(token, ".dksh")) {
diff --git a/src/parse.cpp b/src/parse.cpp
index 72567ed..c2ce2a2 100644
--- a/src/parse.cpp
+++ b/src/parse.cpp
@@ -179,7 +179,7 @@ bool parse_instruction(context& ctx, opcode& op)
     if (error_message) {
         error_message.raise();
     } else {
-        fatal_error(token, "unknown mnemonic \33[1m%.*s\33[0m", std::size(token.data.string),
-                    std::data(token.data.string));
+        fatal_error(token, "unknown mnemonic \33[1m%.*s\33[0m",
+                    static_cast<int>(std::size(token.data.string)), std::data(token.data.string));
     }
 }
-- 
2.43.0


From 244cd1b6186d77d585a4f5b60e7b115398eef767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:38 +0000
Subject: [PATCH 24/32] fix: reject unknown options

A misspelled option was silently ignored.
---
 src/options.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/options.cpp b/src/options.cpp
index 520a938..f937ba6 100644
--- a/src/options.cpp
+++ b/src/options.cpp
@@ -69,6 +69,10 @@ void context::parse_option(token& token)
             fatal_error(token, "expected local memory size");
         }
         local_mem_size = static_cast<int>(token.data.immediate);
+    } else {
+        const std::string_view tkninfo = info(token);
+        fatal_error(token, "unknown option \33[1m%.*s\33[0m",
+                    static_cast<int>(std::size(tkninfo)), std::data(tkninfo));
     }
     token = tokenize();
     if (option_line == token.line) {
-- 
2.43.0


From ff9742d4a81ac59b5e4f61d9957c5cc27aad39bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:38 +0000
Subject: [PATCH 25/32] fix: check the range and the line of option values

Values were truncated to 32 bits, negative ones were accepted, and the
scratch size could overflow. The memory sizes also took their value from
the following line.
---
 src/options.cpp | 43 +++++++++++++++++++++----------------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/src/options.cpp b/src/options.cpp
index f937ba6..59aa2cf 100644
--- a/src/options.cpp
+++ b/src/options.cpp
@@ -1,6 +1,10 @@
+#include <cstdint>
+#include <string_view>
+
 #include "context.h"
 #include "error.h"
 #include "helper.h"
+#include "opcode.h"
 #include "token.h"
 
 void context::parse_option(token& token)
@@ -36,39 +40,34 @@ void context::parse_option(token& token)
                         static_cast<int>(std::size(tkninfo)), std::data(tkninfo));
         }
     };
+    const auto parse_integer = [this, &check_option_line, &token](int64_t max, const char* expected) {
+        token = tokenize();
+        check_option_line();
+
+        if (token.type != token_type::immediate) {
+            fatal_error(token, "%s", expected);
+        }
+        uint64_t value;
+        if (error message = convert_integer(token, 0, max, &value); message) {
+            message.raise();
+        }
+        return static_cast<int>(value);
+    };
     if (equal(token, ".dksh")) {
         is_dksh = true;
         parse_type();
     } else if (equal(token, ".type")) {
         parse_type();
     } else if (equal(token, ".num_gprs")) {
-        token = tokenize();
-        if (token.type != token_type::immediate) {
-            fatal_error(token, "expected number of general purpose registers");
-        }
-        num_gprs = static_cast<int>(token.data.immediate);
-        check_option_line();
+        num_gprs = parse_integer(NUM_REGISTERS, "expected number of general purpose registers");
     } else if (equal(token, ".workgroup_size")) {
         for (int i = 0; i < 3; ++i) {
-            token = tokenize();
-            if (token.type != token_type::immediate) {
-                fatal_error(token, "expected workgroup sizes");
-            }
-            block_dimensions[i] = static_cast<int>(token.data.immediate);
+            block_dimensions[i] = parse_integer(UINT16_MAX, "expected workgroup sizes");
         }
-        check_option_line();
     } else if (equal(token, ".shared_memory")) {
-        token = tokenize();
-        if (token.type != token_type::immediate) {
-            fatal_error(token, "expected shared memory size");
-        }
-        shared_mem_size = static_cast<int>(token.data.immediate);
+        shared_mem_size = parse_integer(max_bits(24), "expected shared memory size");
     } else if (equal(token, ".local_memory")) {
-        token = tokenize();
-        if (token.type != token_type::immediate) {
-            fatal_error(token, "expected local memory size");
-        }
-        local_mem_size = static_cast<int>(token.data.immediate);
+        local_mem_size = parse_integer(max_bits(24), "expected local memory size");
     } else {
         const std::string_view tkninfo = info(token);
         fatal_error(token, "unknown option \33[1m%.*s\33[0m",
-- 
2.43.0


From 19a60981b74296a2105e7ca142c3f01bff91eb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:38 +0000
Subject: [PATCH 26/32] fix: reject @!PT where predicated execution is not
 supported

Only the index was looked at, not the negation.
---
 src/parse.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.cpp b/src/parse.cpp
index c2ce2a2..1ad9e68 100644
--- a/src/parse.cpp
+++ b/src/parse.cpp
@@ -108,7 +108,7 @@ static std::pair<error, int> parse_insn(context& ctx, opcode& op, const insn& in
     op.add_bits(insn.opcode);
 
     token token = ctx.tokenize();
-    if ((insn.flags & NO_PRED) && (~op.value & (7ULL << 16))) {
+    if ((insn.flags & NO_PRED) && (op.value & (15ULL << 16)) != (7ULL << 16)) {
         return {fail(token, "%s does not support predicated execution", insn.mnemonic), 0};
     }
     int score = 1;
-- 
2.43.0


From 44f0b2e430e95c40df1ca45d71b108dc28742faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:38 +0000
Subject: [PATCH 27/32] fix: reject unaligned ATOMS offsets

The low bits were silently dropped.
---
 src/operand.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/operand.h b/src/operand.h
index f4ff686..6f18947 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -462,6 +462,9 @@ namespace memory
 
                 uint64_t value;
                 CHECK(convert_integer(token, min, max, &value));
+                if (value & max_bits(shr)) {
+                    return fail(token, "offset has to be aligned to %d bytes", 1 << shr);
+                }
                 value >>= shr;
                 op.add_bits((value & max_bits(size)) << addr);
                 token = ctx.tokenize();
-- 
2.43.0


From 9db4491c3a1cf356989b7b93bc880d48bf38b145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:38 +0000
Subject: [PATCH 28/32] fix: reject a comma before the target of BRA

The test before the comma was optional.
---
 src/operand.h | 8 ++++++++
 src/table.h   | 2 +-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/operand.h b/src/operand.h
index 6f18947..6b1b068 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -487,6 +487,14 @@ DEFINE_OPERAND(flow_tests)
     return assemble_cc_tests(ctx, op, token, tests, 0);
 }
 
+DEFINE_OPERAND(required_flow_tests)
+{
+    if (!equal(token, "CC")) {
+        return fail(token, "expected CC");
+    }
+    return flow_tests(ctx, token, op);
+}
+
 DEFINE_FLAG(keeprefcount, ".KEEPREFCOUNT", 5);
 
 template <int address>
diff --git a/src/table.h b/src/table.h
index 64e09a0..774ae45 100644
--- a/src/table.h
+++ b/src/table.h
@@ -290,7 +290,7 @@ const insn table[]{
     INSN(0xEF48000000000000ULL, RD|WR, "LDS", lds::u, memory::size, dgpr<0>, comma, memory::address),
     INSN(0xEF40000000000000ULL, RD|WR, "LDL", ldl::cache, memory::size, dgpr<0>, comma, memory::address),
     INSN(0xEBF8000000000000ULL, RD|WR, "RED", red::e, red::operation, atomic_size<20>, memory::address<true, 28, 20, 0>, comma, sgpr<0>),
-    INSN(0xE240000000000000ULL, 0, "BRA", u<7>, lmt<6>, flow_tests, comma, label),
+    INSN(0xE240000000000000ULL, 0, "BRA", u<7>, lmt<6>, required_flow_tests, comma, label),
     INSN(0xE24000000000000FULL, 0, "BRA", u<7>, lmt<6>, label),
     INSN(0xE2A0000000000000ULL, NO_PRED, "PBK", label),
     // TODO: PBK constant buffer
-- 
2.43.0


From b960a616214ff6e136b77908fcfe67cc8b0a3c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:38 +0000
Subject: [PATCH 29/32] fix: reject an empty address

[] was assembled as [RZ].
---
 src/operand.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/operand.h b/src/operand.h
index 6b1b068..a912ff8 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -445,6 +445,9 @@ namespace memory
         CHECK(confirm_type(token, token_type::bracket_left));
 
         token = ctx.tokenize();
+        if (token.type == token_type::bracket_right) {
+            return fail(token, "expected an address");
+        }
         uint8_t regster = ZERO_REGISTER;
         if (token.type == token_type::regster) {
             regster = token.data.regster;
-- 
2.43.0


From c70666133a79357e14ad9fd14b03b0ffe435c015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:38 +0000
Subject: [PATCH 30/32] fix: reject integer literals that do not fit 64 bits

They were read as the nearest 64-bit integer, which floating-point operands
accepted.
---
 src/context.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/context.cpp b/src/context.cpp
index ad077f5..abc9328 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -1,6 +1,7 @@
 #include <algorithm>
 #include <cassert>
 #include <cctype>
+#include <cerrno>
 #include <cstddef>
 #include <cstdint>
 #include <cstdio>
@@ -171,8 +172,13 @@ token context::scan()
             token.data.float_immediate = std::strtof(contents, &conversion_end);
         } else {
             token.type = token_type::immediate;
+            errno = 0;
             token.data.immediate = static_cast<int64_t>(std::strtoll(contents, &conversion_end, 0));
         }
+        if (!is_floating_point && errno == ERANGE) {
+            fatal_error(token, "integer literal \33[1;31m%.*s\33[0m is too large",
+                        (int)(text - contents), contents);
+        }
         if (conversion_end != text) {
             fatal_error(token, "failed to parse literal \33[1;31m%.*s\33[0m",
                         (int)(text - contents), contents);
-- 
2.43.0


From 81c1b4f9de6d0261dd201aaf5a43961eddd0b89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:38 +0000
Subject: [PATCH 31/32] fix: point at the register that is not mirrored

The diagnostic had the position of the token after it.
---
 src/operand.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/operand.h b/src/operand.h
index a912ff8..5d3cecb 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -172,13 +172,14 @@ template <int address>
 DEFINE_OPERAND(mirror_dgpr)
 {
     // Hack mirror detecting by restoring the bits and then comparing
+    const struct token regster = token;
     const uint64_t old_op_value = op.value;
     op.value &= ~(uint64_t{0xff} << address);
     if (auto err = dgpr<address>(ctx, token, op)) {
         return err;
     }
     if (op.value != old_op_value) {
-        return fail(token, "source register is not mirrored to destination register");
+        return fail(regster, "source register is not mirrored to destination register");
     }
     return {};
 }
-- 
2.43.0


From fd523065d12e1da4c3b6f6549de36abaf87982c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:58 +0000
Subject: [PATCH 32/32] fix: parse float literals independently of the locale

strtof expects the decimal separator of the process' locale, so a library user that calls
setlocale() with e.g. de_DE got every float literal rejected.
---
 src/context.cpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/context.cpp b/src/context.cpp
index abc9328..27c97c0 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -2,13 +2,16 @@
 #include <cassert>
 #include <cctype>
 #include <cerrno>
+#include <charconv>
 #include <cstddef>
 #include <cstdint>
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
+#include <limits>
 #include <optional>
 #include <string_view>
+#include <system_error>
 
 #include "context.h"
 #include "error.h"
@@ -44,6 +47,22 @@ static bool is_alnum(int character) noexcept
     return is_alpha(character) || is_decimal(character);
 }
 
+// Like strtof for literals without an exponent, but independent of the locale of the process
+static float parse_float(const char* begin, const char* end, char** conversion_end) noexcept
+{
+    const bool is_negative = *begin == '-';
+    const char* const digits = begin + (is_contained("+-", *begin) ? 1 : 0);
+    float value = 0.0f;
+    const auto [ptr, code] = std::from_chars(digits, end, value, std::chars_format::fixed);
+    if (code == std::errc::result_out_of_range) {
+        // either too large or too close to zero, the first digit that is not zero tells
+        const char first = *std::find_if(digits, end, [](char digit) { return digit != '0'; });
+        value = is_decimal(first) ? std::numeric_limits<float>::infinity() : 0.0f;
+    }
+    *conversion_end = const_cast<char*>(ptr);
+    return is_negative ? -value : value;
+}
+
 static token_type get_operator_type(int character) noexcept
 {
     switch (character) {
@@ -169,7 +188,7 @@ token context::scan()
         char* conversion_end = nullptr;
         if (is_floating_point) {
             token.type = token_type::float_immediate;
-            token.data.float_immediate = std::strtof(contents, &conversion_end);
+            token.data.float_immediate = parse_float(contents, text, &conversion_end);
         } else {
             token.type = token_type::immediate;
             errno = 0;
-- 
2.43.0

