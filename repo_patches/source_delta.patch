From 28afb16d453ecb0d12f65b9dc765e2917a60dd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:32 +0000
Subject: [PATCH 01/29] fix: define vld2_s32, veor_u32, vsub_f64, vsubl_s32 and
 vsubl_u32 as declared in the header

The definitions had another name or other parameter types, so programs using the declared functions did not link.
---
 neon_sim.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 0e015e7..aa465bd 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -233,7 +233,7 @@ uint32x2x2_t vld2_u32(uint32_t const* ptr)
     }
     return r;
 }
-int32x2x2_t vld_s32(int32_t const* ptr)
+int32x2x2_t vld2_s32(int32_t const* ptr)
 {
     int32x2x2_t r;
     for (int i = 0; i < 2; i++)
@@ -1869,7 +1869,7 @@ float32x2_t vsub_f32(float32x2_t N, float32x2_t M)
     return D;
 }
 
-float64x1_t vsub_f32(float64x1_t N, float64x1_t M)
+float64x1_t vsub_f64(float64x1_t N, float64x1_t M)
 {
     float64x1_t D;
     for (size_t i = 0; i < 1; i++)
@@ -2256,7 +2256,7 @@ int32x4_t vsubl_s16(int16x4_t N, int16x4_t M)
     return D;
 }
 
-int64x2_t vsubl_s32(int32x4_t N, int32x2_t M)
+int64x2_t vsubl_s32(int32x2_t N, int32x2_t M)
 {
     int64x2_t D;
     for (size_t i = 0; i < 2; i++)
@@ -2286,7 +2286,7 @@ uint32x4_t vsubl_u16(uint16x4_t N, uint16x4_t M)
     return D;
 }
 
-uint64x2_t vsubl_u32(uint32x4_t N, uint32x2_t M)
+uint64x2_t vsubl_u32(uint32x2_t N, uint32x2_t M)
 {
     uint64x2_t D;
     for (size_t i = 0; i < 2; i++)
@@ -5317,7 +5317,7 @@ uint16x4_t veor_u16(uint16x4_t a, uint16x4_t b)
     return r;
 }
 
-uint32x2_t ver_u32(uint32x2_t a, uint32x2_t b)
+uint32x2_t veor_u32(uint32x2_t a, uint32x2_t b)
 {
     uint32x2_t r;
     for (int i = 0; i < 2; i++)
-- 
2.43.0


From 0d373c7e0ce2057d73a467e963b6c5ad5a70f027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:35 +0000
Subject: [PATCH 02/29] fix: define vsubhn_s32/s64/u32/u64 and take the most
 significant half

They were named vsubn_* (no link) and always shifted by 8.
---
 neon_sim.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index aa465bd..89c0b00 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -1974,22 +1974,22 @@ int8x8_t vsubhn_s16(int16x8_t N, int16x8_t M)
     return D;
 }
 
-int16x4_t vsubn_s32(int32x4_t N, int32x4_t M)
+int16x4_t vsubhn_s32(int32x4_t N, int32x4_t M)
 {
     int16x4_t D;
     for (size_t i = 0; i < 4; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i]) >> 8;
+        D.val[i] = ((uint32_t)N.val[i] - (uint32_t)M.val[i]) >> 16;
     }
     return D;
 }
 
-int32x2_t vsubn_s64(int64x2_t N, int64x2_t M)
+int32x2_t vsubhn_s64(int64x2_t N, int64x2_t M)
 {
     int32x2_t D;
     for (size_t i = 0; i < 2; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i]) >> 8;
+        D.val[i] = ((uint64_t)N.val[i] - (uint64_t)M.val[i]) >> 32;
     }
     return D;
 }
@@ -2004,22 +2004,22 @@ uint8x8_t vsubhn_u16(uint16x8_t N, uint16x8_t M)
     return D;
 }
 
-uint16x4_t vsubn_u32(uint32x4_t N, uint32x4_t M)
+uint16x4_t vsubhn_u32(uint32x4_t N, uint32x4_t M)
 {
     uint16x4_t D;
     for (size_t i = 0; i < 4; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i]) >> 8;
+        D.val[i] = (N.val[i] - M.val[i]) >> 16;
     }
     return D;
 }
 
-uint32x2_t vsubn_u64(uint64x2_t N, uint64x2_t M)
+uint32x2_t vsubhn_u64(uint64x2_t N, uint64x2_t M)
 {
     uint32x2_t D;
     for (size_t i = 0; i < 2; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i]) >> 8;
+        D.val[i] = (N.val[i] - M.val[i]) >> 32;
     }
     return D;
 }
-- 
2.43.0


From 5186156f400ada7e9c327ea79f75f5cf8cd9e563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:38 +0000
Subject: [PATCH 03/29] fix: vmaxq/vminq_u8/u16/u32 take and return unsigned
 vectors

The definitions used the signed types: they did not link and compared signed.
---
 neon_sim.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 89c0b00..87e23e3 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -1239,9 +1239,9 @@ int32x4_t vmaxq_s32(int32x4_t N, int32x4_t M)
     return D;
 }
 
-int8x16_t vmaxq_u8(int8x16_t N, int8x16_t M)
+uint8x16_t vmaxq_u8(uint8x16_t N, uint8x16_t M)
 {
-    int8x16_t D;
+    uint8x16_t D;
     for (int i = 0; i < 16; i++)
     {
         D.val[i] = N.val[i] > M.val[i] ? N.val[i] : M.val[i];
@@ -1249,9 +1249,9 @@ int8x16_t vmaxq_u8(int8x16_t N, int8x16_t M)
     return D;
 }
 
-int16x8_t vmaxq_u16(int16x8_t N, int16x8_t M)
+uint16x8_t vmaxq_u16(uint16x8_t N, uint16x8_t M)
 {
-    int16x8_t D;
+    uint16x8_t D;
     for (int i = 0; i < 8; i++)
     {
         D.val[i] = N.val[i] > M.val[i] ? N.val[i] : M.val[i];
@@ -1259,9 +1259,9 @@ int16x8_t vmaxq_u16(int16x8_t N, int16x8_t M)
     return D;
 }
 
-int32x4_t vmaxq_u32(int32x4_t N, int32x4_t M)
+uint32x4_t vmaxq_u32(uint32x4_t N, uint32x4_t M)
 {
-    int32x4_t D;
+    uint32x4_t D;
     for (int i = 0; i < 4; i++)
     {
         D.val[i] = N.val[i] > M.val[i] ? N.val[i] : M.val[i];
@@ -3683,9 +3683,9 @@ int32x4_t vminq_s32(int32x4_t N, int32x4_t M)
     return D;
 }
 
-int8x16_t vminq_u8(int8x16_t N, int8x16_t M)
+uint8x16_t vminq_u8(uint8x16_t N, uint8x16_t M)
 {
-    int8x16_t D;
+    uint8x16_t D;
     for (int i = 0; i < 16; i++)
     {
         D.val[i] = N.val[i] < M.val[i] ? N.val[i] : M.val[i];
@@ -3693,9 +3693,9 @@ int8x16_t vminq_u8(int8x16_t N, int8x16_t M)
     return D;
 }
 
-int16x8_t vminq_u16(int16x8_t N, int16x8_t M)
+uint16x8_t vminq_u16(uint16x8_t N, uint16x8_t M)
 {
-    int16x8_t D;
+    uint16x8_t D;
     for (int i = 0; i < 8; i++)
     {
         D.val[i] = N.val[i] < M.val[i] ? N.val[i] : M.val[i];
@@ -3703,9 +3703,9 @@ int16x8_t vminq_u16(int16x8_t N, int16x8_t M)
     return D;
 }
 
-int32x4_t vminq_u32(int32x4_t N, int32x4_t M)
+uint32x4_t vminq_u32(uint32x4_t N, uint32x4_t M)
 {
-    int32x4_t D;
+    uint32x4_t D;
     for (int i = 0; i < 4; i++)
     {
         D.val[i] = N.val[i] < M.val[i] ? N.val[i] : M.val[i];
-- 
2.43.0


From 5b6004a8de4ed657360f2e4f5342dcd56d3404ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:42 +0000
Subject: [PATCH 04/29] fix: vst4_u8 and vst4_u32 store the fourth register at
 its own place

vst4_u8 also wrote one element past the end of the array.
---
 neon_sim.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 87e23e3..0d7fdc8 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -1112,7 +1112,7 @@ void vst4_u8(uint8_t* ptr, uint8x8x4_t val)
         ptr[4 * i + 0] = val.val[0].val[i];
         ptr[4 * i + 1] = val.val[1].val[i];
         ptr[4 * i + 2] = val.val[2].val[i];
-        ptr[4 * i + 4] = val.val[3].val[i];
+        ptr[4 * i + 3] = val.val[3].val[i];
     }
 }
 void vst4_u16(uint16_t* ptr, uint16x4x4_t val)
@@ -1132,7 +1132,7 @@ void vst4_u32(uint32_t* ptr, uint32x2x4_t val)
         ptr[4 * i + 0] = val.val[0].val[i];
         ptr[4 * i + 1] = val.val[1].val[i];
         ptr[4 * i + 2] = val.val[2].val[i];
-        ptr[4 * i + 2] = val.val[3].val[i];
+        ptr[4 * i + 3] = val.val[3].val[i];
     }
 }
 
-- 
2.43.0


From c1f8e1dad4b13499455ca1a579e5d2a2a5e22db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:12 +0000
Subject: [PATCH 05/29] fix: wrapping additions and subtractions of signed
 lanes without signed overflow

vadd/vsub(q)_s32/s64, vaddw(_high)_s16/s32 and vsubw_s16/s32 wrap on overflow; the signed arithmetic they used has undefined behaviour then.
---
 neon_sim.cpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 0d7fdc8..60677a9 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -1307,7 +1307,7 @@ int32x2_t vadd_s32(int32x2_t N, int32x2_t M)
     int32x2_t D;
     for (size_t i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] + M.val[i];
+        D.val[i] = (uint32_t)N.val[i] + (uint32_t)M.val[i];
     }
     return D;
 }
@@ -1315,7 +1315,7 @@ int32x2_t vadd_s32(int32x2_t N, int32x2_t M)
 int64x1_t vadd_s64(int64x1_t N, int64x1_t M)
 {
     int64x1_t D;
-    D.val[0] = N.val[0] + M.val[0];
+    D.val[0] = (uint64_t)N.val[0] + (uint64_t)M.val[0];
     return D;
 }
 
@@ -1382,7 +1382,7 @@ int32x4_t vaddw_s16(int32x4_t a, int16x4_t b)
     int32x4_t r;
     for (int i = 0; i < 4; i++)
     {
-        r.val[i] =  a.val[i] + b.val[i];
+        r.val[i] =  (uint32_t)a.val[i] + (uint32_t)b.val[i];
     }
     return r;
 }
@@ -1392,7 +1392,7 @@ int64x2_t vaddw_s32(int64x2_t a, int32x2_t b)
     int64x2_t r;
     for (int i = 0; i < 2; i++)
     {
-        r.val[i] =  a.val[i] + b.val[i];
+        r.val[i] =  (uint64_t)a.val[i] + (uint64_t)b.val[i];
     }
     return r;
 }
@@ -1445,7 +1445,7 @@ int32x4_t vaddw_high_s16(int32x4_t a, int16x8_t b)
     const int ofs = 4;
     for (int i = 0; i < 4; i++)
     {
-        r.val[i] =  a.val[i] + b.val[ofs + i];
+        r.val[i] =  (uint32_t)a.val[i] + (uint32_t)b.val[ofs + i];
     }
     return r;
 }
@@ -1456,7 +1456,7 @@ int64x2_t vaddw_high_s32(int64x2_t a, int32x4_t b)
     const int ofs = 2;
     for (int i = 0; i < 2; i++)
     {
-        r.val[i] =  a.val[i] + b.val[ofs + i];
+        r.val[i] =  (uint64_t)a.val[i] + (uint64_t)b.val[ofs + i];
     }
     return r;
 }
@@ -1585,7 +1585,7 @@ int32x4_t vaddq_s32(int32x4_t N, int32x4_t M)
     int32x4_t D;
     for (size_t i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] + M.val[i];
+        D.val[i] = (uint32_t)N.val[i] + (uint32_t)M.val[i];
     }
     return D;
 }
@@ -1595,7 +1595,7 @@ int64x2_t vaddq_s64(int64x2_t N, int64x2_t M)
     int64x2_t D;
     for (size_t i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] + M.val[i];
+        D.val[i] = (uint64_t)N.val[i] + (uint64_t)M.val[i];
     }
     return D;
 }
@@ -1809,7 +1809,7 @@ int32x2_t vsub_s32(int32x2_t N, int32x2_t M)
     int32x2_t D;
     for (size_t i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] - M.val[i];
+        D.val[i] = (uint32_t)N.val[i] - (uint32_t)M.val[i];
     }
     return D;
 }
@@ -1818,7 +1818,7 @@ int64x1_t vsub_s64(int64x1_t N, int64x1_t M)
     int64x1_t D;
     for (size_t i = 0; i < 1; i++)
     {
-        D.val[i] = N.val[i] - M.val[i];
+        D.val[i] = (uint64_t)N.val[i] - (uint64_t)M.val[i];
     }
     return D;
 }
@@ -1903,7 +1903,7 @@ int32x4_t vsubq_s32(int32x4_t N, int32x4_t M)
     int32x4_t D;
     for (size_t i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] - M.val[i];
+        D.val[i] = (uint32_t)N.val[i] - (uint32_t)M.val[i];
     }
     return D;
 }
@@ -1912,7 +1912,7 @@ int64x2_t vsubq_s64(int64x2_t N, int64x2_t M)
     int64x2_t D;
     for (size_t i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] - M.val[i];
+        D.val[i] = (uint64_t)N.val[i] - (uint64_t)M.val[i];
     }
     return D;
 }
@@ -2312,7 +2312,7 @@ int32x4_t vsubw_s16(int32x4_t N, int16x4_t M)
     int32x4_t D;
     for (size_t i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] - (int32_t)(M.val[i]);
+        D.val[i] = (uint32_t)N.val[i] - (uint32_t)(M.val[i]);
     }
     return D;
 }
@@ -2322,7 +2322,7 @@ int64x2_t vsubw_s32(int64x2_t N, int32x2_t M)
     int64x2_t D;
     for (size_t i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] - (int64_t)(M.val[i]);
+        D.val[i] = (uint64_t)N.val[i] - (uint64_t)(M.val[i]);
     }
     return D;
 }
-- 
2.43.0


From 951d80a87c5e1e6aff085d3ae22b56129e283ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:15 +0000
Subject: [PATCH 06/29] fix: vaddl_high_s32/u32 add in 64 bits

The 32-bit sum lost the carry into the upper half.
---
 neon_sim.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 60677a9..3195478 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -1697,7 +1697,7 @@ int64x2_t vaddl_high_s32(int32x4_t a, int32x4_t b)
     const int ofs = 4 / 2;
     for (int i = 0; i < 2; i++)
     {
-        r.val[i] =  a.val[ofs + i] + b.val[ofs + i];
+        r.val[i] =  (int64_t)a.val[ofs + i] + b.val[ofs + i];
     }
     return r;
 }
@@ -1730,7 +1730,7 @@ uint64x2_t vaddl_high_u32(uint32x4_t a, uint32x4_t b)
     const int ofs = 4 / 2;
     for (int i = 0; i < 2; i++)
     {
-        r.val[i] =  a.val[ofs + i] + b.val[ofs + i];
+        r.val[i] =  (uint64_t)a.val[ofs + i] + b.val[ofs + i];
     }
     return r;
 }
-- 
2.43.0


From a3573f65b0797c3a940e1d318544effecae25b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:18 +0000
Subject: [PATCH 07/29] fix: vhsub/vhsubq_s32/u32 halve the exact difference

The 32-bit difference wrapped before the shift.
---
 neon_sim.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 3195478..16e45f5 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -2050,7 +2050,7 @@ int32x2_t vhsub_s32(int32x2_t N, int32x2_t M)
     int32x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i]) >> 1;
+        D.val[i] = ((int64_t)N.val[i] - M.val[i]) >> 1;
     }
     return D;
 }
@@ -2080,7 +2080,7 @@ uint32x2_t vhsub_u32(uint32x2_t N, uint32x2_t M)
     uint32x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i]) >> 1;
+        D.val[i] = ((uint64_t)N.val[i] - M.val[i]) >> 1;
     }
     return D;
 }
@@ -2111,7 +2111,7 @@ int32x4_t vhsubq_s32(int32x4_t N, int32x4_t M)
     int32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i]) >> 1;
+        D.val[i] = ((int64_t)N.val[i] - M.val[i]) >> 1;
     }
     return D;
 }
@@ -2141,7 +2141,7 @@ uint32x4_t vhsubq_u32(uint32x4_t N, uint32x4_t M)
     uint32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i]) >> 1;
+        D.val[i] = ((uint64_t)N.val[i] - M.val[i]) >> 1;
     }
     return D;
 }
-- 
2.43.0


From 036f5a324c959db630d4d0d73b93872b9e50033a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:21 +0000
Subject: [PATCH 08/29] fix: vaddhn_high_s32/s64/u32/u64 keep the most
 significant half of the sum

They shifted by the number of lanes instead of by half the lane width.
---
 neon_sim.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 16e45f5..7b45357 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -1513,7 +1513,7 @@ int16x8_t vaddhn_high_s32(int16x4_t r, int32x4_t a, int32x4_t b)
     for (int i = 0; i < 4; i++)
         ret.val[i] = r.val[i];
     for (int i = 0; i < 4; i++)
-        ret.val[i + 4] = (int16_t)((a.val[i] + b.val[i]) >> 4);
+        ret.val[i + 4] = (int16_t)(((uint32_t)a.val[i] + (uint32_t)b.val[i]) >> 16);
     return ret;
 }
 
@@ -1523,7 +1523,7 @@ int32x4_t vaddhn_high_s64(int32x2_t r, int64x2_t a, int64x2_t b)
     for (int i = 0; i < 2; i++)
         ret.val[i] = r.val[i];
     for (int i = 0; i < 2; i++)
-        ret.val[i + 2] = (int32_t)((a.val[i] + b.val[i]) >> 2);
+        ret.val[i + 2] = (int32_t)(((uint64_t)a.val[i] + (uint64_t)b.val[i]) >> 32);
     return ret;
 }
 
@@ -1543,7 +1543,7 @@ uint16x8_t vaddhn_high_u32(uint16x4_t r, uint32x4_t a, uint32x4_t b)
     for (int i = 0; i < 4; i++)
         ret.val[i] = r.val[i];
     for (int i = 0; i < 4; i++)
-        ret.val[i + 4] = (uint16_t)((a.val[i] + b.val[i]) >> 4);
+        ret.val[i + 4] = (uint16_t)((a.val[i] + b.val[i]) >> 16);
     return ret;
 }
 
@@ -1553,7 +1553,7 @@ uint32x4_t vaddhn_high_u64(uint32x2_t r, uint64x2_t a, uint64x2_t b)
     for (int i = 0; i < 2; i++)
         ret.val[i] = r.val[i];
     for (int i = 0; i < 2; i++)
-        ret.val[i + 2] = (uint32_t)((a.val[i] + b.val[i]) >> 2);
+        ret.val[i + 2] = (uint32_t)((a.val[i] + b.val[i]) >> 32);
     return ret;
 }
 #endif // __aarch64__
-- 
2.43.0


From 6445befc92affb25e0854a7abf628172414fcbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:25 +0000
Subject: [PATCH 09/29] fix: vrsubhn_s64/u64 round with the right constant,
 vrsubhn_s32/s64 wrap without overflow

1 << 31 is a negative int: the rounding term was subtracted.
---
 neon_sim.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 7b45357..b73d511 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -2641,7 +2641,7 @@ int16x4_t vrsubhn_s32(int32x4_t N, int32x4_t M)
     const int32_t delta = (1 << (shift - 1));
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i] + delta) >> shift;
+        D.val[i] = ((uint32_t)N.val[i] - (uint32_t)M.val[i] + delta) >> shift;
     }
     return D;
 }
@@ -2650,10 +2650,10 @@ int32x2_t vrsubhn_s64(int64x2_t N, int64x2_t M)
 {
     int32x2_t D;
     const int64_t shift = 32;
-    const int64_t delta = (1 << (shift - 1));
+    const int64_t delta = ((int64_t)1 << (shift - 1));
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i] + delta) >> shift;
+        D.val[i] = ((uint64_t)N.val[i] - (uint64_t)M.val[i] + delta) >> shift;
     }
     return D;
 }
@@ -2686,7 +2686,7 @@ uint32x2_t vrsubhn_u64(uint64x2_t N, uint64x2_t M)
 {
     uint32x2_t D;
     const uint64_t shift = 32;
-    const uint64_t delta = (1 << (shift - 1));
+    const uint64_t delta = ((uint64_t)1 << (shift - 1));
     for (int i = 0; i < 2; i++)
     {
         D.val[i] = (N.val[i] - M.val[i] + delta) >> shift;
-- 
2.43.0


From c8dbb3880ab40f83b5a19fa97bacb5c29361836d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:27 +0000
Subject: [PATCH 10/29] fix: wrapping multiplications without signed overflow

vmul(q)_s32, vmlaq_s32, vmlal/vmlsl_s16 overflowed int; uint16_t operands are promoted to int, whose product overflows from 46341 * 46341 on.
---
 neon_sim.cpp | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index b73d511..8953431 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -2720,7 +2720,7 @@ int32x2_t vmul_s32(int32x2_t N, int32x2_t M)
     int32x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] * M.val[i];
+        D.val[i] = (uint32_t)N.val[i] * (uint32_t)M.val[i];
     }
     return D;
 }
@@ -2740,7 +2740,7 @@ uint16x4_t vmul_u16(uint16x4_t N, uint16x4_t M)
     uint16x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] * M.val[i];
+        D.val[i] = (uint32_t)N.val[i] * (uint32_t)M.val[i];
     }
     return D;
 }
@@ -2779,7 +2779,7 @@ int32x4_t vmulq_s32(int32x4_t N, int32x4_t M)
     int32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] * M.val[i];
+        D.val[i] = (uint32_t)N.val[i] * (uint32_t)M.val[i];
     }
     return D;
 }
@@ -2797,7 +2797,7 @@ uint16x8_t vmulq_u16(uint16x8_t N, uint16x8_t M)
     uint16x8_t D;
     for (int i = 0; i < 8; i++)
     {
-        D.val[i] = N.val[i] * M.val[i];
+        D.val[i] = (uint32_t)N.val[i] * (uint32_t)M.val[i];
     }
     return D;
 }
@@ -2837,7 +2837,7 @@ int32x2_t vmul_n_s32(int32x2_t N, int32_t M)
     int32x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] * M;
+        D.val[i] = (uint32_t)N.val[i] * (uint32_t)M;
     }
     return D;
 }
@@ -2847,7 +2847,7 @@ uint16x4_t vmul_n_u16(uint16x4_t N, uint16_t M)
     uint16x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] * M;
+        D.val[i] = (uint32_t)N.val[i] * (uint32_t)M;
     }
     return D;
 }
@@ -2900,7 +2900,7 @@ int32x4_t vmulq_n_s32(int32x4_t N, int32_t M)
     int32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] * M;
+        D.val[i] = (uint32_t)N.val[i] * (uint32_t)M;
     }
     return D;
 }
@@ -2910,7 +2910,7 @@ uint16x8_t vmulq_n_u16(uint16x8_t N, uint16_t M)
     uint16x8_t D;
     for (int i = 0; i < 8; i++)
     {
-        D.val[i] = N.val[i] * M;
+        D.val[i] = (uint32_t)N.val[i] * (uint32_t)M;
     }
     return D;
 }
@@ -2962,7 +2962,7 @@ uint32x4_t vmull_u16(uint16x4_t a, uint16x4_t b)
     uint32x4_t r;
     for (int i = 0; i < 4; i++)
     {
-        r.val[i] =  a.val[i] * b.val[i];
+        r.val[i] =  (uint32_t)a.val[i] * b.val[i];
     }
     return r;
 }
@@ -3030,7 +3030,7 @@ uint32x4_t vmull_n_u16(uint16x4_t N, uint16_t M)
     uint32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] * M;
+        D.val[i] = (uint32_t)N.val[i] * M;
     }
     return D;
 }
@@ -3080,7 +3080,7 @@ int32x4_t vmlal_s16(int32x4_t N, int16x4_t M, int16x4_t P)
     int32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] + (M.val[i] * P.val[i]);
+        D.val[i] = (uint32_t)N.val[i] + ((uint32_t)M.val[i] * (uint32_t)P.val[i]);
     }
     return D;
 }
@@ -3110,7 +3110,7 @@ uint32x4_t vmlal_u16(uint32x4_t N, uint16x4_t M, uint16x4_t P)
     uint32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] + (M.val[i] * P.val[i]);
+        D.val[i] = (uint32_t)N.val[i] + ((uint32_t)M.val[i] * (uint32_t)P.val[i]);
     }
     return D;
 }
@@ -3141,7 +3141,7 @@ int32x4_t vmlsl_s16(int32x4_t N, int16x4_t M, int16x4_t P)
     int32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] - (M.val[i] * P.val[i]);
+        D.val[i] = (uint32_t)N.val[i] - ((uint32_t)M.val[i] * (uint32_t)P.val[i]);
     }
     return D;
 }
@@ -3171,7 +3171,7 @@ uint32x4_t vmlsl_u16(uint32x4_t N, uint16x4_t M, uint16x4_t P)
     uint32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] - (M.val[i] * P.val[i]);
+        D.val[i] = (uint32_t)N.val[i] - ((uint32_t)M.val[i] * (uint32_t)P.val[i]);
     }
     return D;
 }
@@ -3212,7 +3212,7 @@ int32x4_t vmlaq_s32(int32x4_t N, int32x4_t M, int32x4_t P)
     int32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] + M.val[i] * P.val[i];
+        D.val[i] = (uint32_t)N.val[i] + (uint32_t)M.val[i] * (uint32_t)P.val[i];
     }
     return D;
 }
@@ -3232,7 +3232,7 @@ uint16x8_t vmlaq_u16(uint16x8_t N, uint16x8_t M, uint16x8_t P)
     uint16x8_t D;
     for (int i = 0; i < 8; i++)
     {
-        D.val[i] = N.val[i] + M.val[i] * P.val[i];
+        D.val[i] = (uint32_t)N.val[i] + (uint32_t)M.val[i] * (uint32_t)P.val[i];
     }
     return D;
 }
-- 
2.43.0


From d675dd109933bfbab524b3101c85e7d4ea5ddea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:30 +0000
Subject: [PATCH 11/29] fix: vmull, vmull_n, vmlal and vmlsl of 32-bit lanes
 multiply in 64 bits

The 32-bit product lost its upper half.
---
 neon_sim.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 8953431..93a1ca0 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -2971,7 +2971,7 @@ uint64x2_t vmull_u32(uint32x2_t a, uint32x2_t b)
     uint64x2_t r;
     for (int i = 0; i < 2; i++)
     {
-        r.val[i] =  a.val[i] * b.val[i];
+        r.val[i] =  (uint64_t)a.val[i] * b.val[i];
     }
     return r;
 }
@@ -2999,7 +2999,7 @@ int64x2_t vmull_s32(int32x2_t a, int32x2_t b)
     int64x2_t r;
     for (int i = 0; i < 2; i++)
     {
-        r.val[i] =  a.val[i] * b.val[i];
+        r.val[i] =  (int64_t)a.val[i] * b.val[i];
     }
     return r;
 }
@@ -3020,7 +3020,7 @@ int64x2_t vmull_n_s32(int32x2_t N, int32_t M)
     int64x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] * M;
+        D.val[i] = (int64_t)N.val[i] * M;
     }
     return D;
 }
@@ -3040,7 +3040,7 @@ uint64x2_t vmull_n_u32(uint32x2_t N, uint32_t M)
     uint64x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] * M;
+        D.val[i] = (uint64_t)N.val[i] * M;
     }
     return D;
 }
@@ -3090,7 +3090,7 @@ int64x2_t vmlal_s32(int64x2_t N, int32x2_t M, int32x2_t P)
     int64x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] + (M.val[i] * P.val[i]);
+        D.val[i] = (uint64_t)N.val[i] + (uint64_t)((int64_t)M.val[i] * P.val[i]);
     }
     return D;
 }
@@ -3120,7 +3120,7 @@ uint64x2_t vmlal_u32(uint64x2_t N, uint32x2_t M, uint32x2_t P)
     uint64x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] + (M.val[i] * P.val[i]);
+        D.val[i] = N.val[i] + ((uint64_t)M.val[i] * P.val[i]);
     }
     return D;
 }
@@ -3151,7 +3151,7 @@ int64x2_t vmlsl_s32(int64x2_t N, int32x2_t M, int32x2_t P)
     int64x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] - (M.val[i] * P.val[i]);
+        D.val[i] = (uint64_t)N.val[i] - (uint64_t)((int64_t)M.val[i] * P.val[i]);
     }
     return D;
 }
@@ -3181,7 +3181,7 @@ uint64x2_t vmlsl_u32(uint64x2_t N, uint32x2_t M, uint32x2_t P)
     uint64x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] - (M.val[i] * P.val[i]);
+        D.val[i] = N.val[i] - ((uint64_t)M.val[i] * P.val[i]);
     }
     return D;
 }
-- 
2.43.0


From c33238a0bf80a281e5143b6d3a2d9fe81cecf45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:33 +0000
Subject: [PATCH 12/29] fix: vqsub/vqsubq_s64/u64 subtract exactly

The difference was computed in double, which keeps 53 bits.
---
 neon_sim.cpp | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 93a1ca0..7608cfd 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -2218,18 +2218,17 @@ int64x1_t vqsub_s64(int64x1_t N, int64x1_t M)
     int64x1_t D;
     for (size_t i = 0; i < 1; i++)
     {
-        double temp = (double)N.val[i] - (double)M.val[i];
-        if (temp > (double)(INT64_MAX))
+        if (M.val[i] < 0 && N.val[i] > INT64_MAX + M.val[i])
         {
             D.val[i] = INT64_MAX;
         }
-        else if (temp < INT64_MIN)
+        else if (M.val[i] > 0 && N.val[i] < INT64_MIN + M.val[i])
         {
             D.val[i] = INT64_MIN;
         }
         else
         {
-            D.val[i] = temp;
+            D.val[i] = N.val[i] - M.val[i];
         }
     }
     return D;
@@ -2428,18 +2427,13 @@ uint64x1_t vqsub_u64(uint64x1_t N, uint64x1_t M)
     uint64x1_t D;
     for (size_t i = 0; i < 1; i++)
     {
-        double temp = (double)N.val[i] - (double)M.val[i];
-        if (temp > (double)(UINT64_MAX))
-        {
-            D.val[i] = UINT64_MAX;
-        }
-        else if (temp < 0)
+        if (N.val[i] < M.val[i])
         {
             D.val[i] = 0;
         }
         else
         {
-            D.val[i] = temp;
+            D.val[i] = N.val[i] - M.val[i];
         }
     }
     return D;
@@ -2517,18 +2511,17 @@ int64x2_t vqsubq_s64(int64x2_t N, int64x2_t M)
     int64x2_t D;
     for (size_t i = 0; i < 2; i++)
     {
-        double temp = (double)N.val[i] - (double)M.val[i];
-        if (temp > (double)(INT64_MAX))
+        if (M.val[i] < 0 && N.val[i] > INT64_MAX + M.val[i])
         {
             D.val[i] = INT64_MAX;
         }
-        else if (temp < INT64_MIN)
+        else if (M.val[i] > 0 && N.val[i] < INT64_MIN + M.val[i])
         {
             D.val[i] = INT64_MIN;
         }
         else
         {
-            D.val[i] = temp;
+            D.val[i] = N.val[i] - M.val[i];
         }
     }
     return D;
@@ -2605,18 +2598,13 @@ uint64x2_t vqsubq_u64(uint64x2_t N, uint64x2_t M)
     uint64x2_t D;
     for (size_t i = 0; i < 2; i++)
     {
-        double temp = (double)N.val[i] - (double)M.val[i];
-        if (temp > (double)(UINT64_MAX))
-        {
-            D.val[i] = UINT64_MAX;
-        }
-        else if (temp < 0)
+        if (N.val[i] < M.val[i])
         {
             D.val[i] = 0;
         }
         else
         {
-            D.val[i] = temp;
+            D.val[i] = N.val[i] - M.val[i];
         }
     }
     return D;
-- 
2.43.0


From 0d6c4dbea4a19eaf1fdf62c365b7cec7921499f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:25 +0000
Subject: [PATCH 13/29] fix: vqshrun_n_s32/s64 store the saturated, truncated
 shift result

---
 neon_sim.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 7608cfd..1e4a9fd 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -3887,7 +3887,7 @@ uint16x4_t vqshrun_n_s32(int32x4_t v, const int n)
     uint16x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        int32_t temp = (v.val[i] + (1 << (n - 1))) >> n;
+        int32_t temp = v.val[i] >> n;
         if (temp > UINT16_MAX)
         {
             temp = UINT16_MAX;
@@ -3896,6 +3896,7 @@ uint16x4_t vqshrun_n_s32(int32x4_t v, const int n)
         {
             temp = 0;
         }
+        D.val[i] = temp;
     }
     return D;
 }
@@ -3911,7 +3912,7 @@ uint32x2_t vqshrun_n_s64(int64x2_t v, const int n)
     uint32x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        int64_t temp = (v.val[i] + (1 << (n - 1))) >> n;
+        int64_t temp = v.val[i] >> n;
         if (temp > UINT32_MAX)
         {
             temp = UINT32_MAX;
@@ -3920,6 +3921,7 @@ uint32x2_t vqshrun_n_s64(int64x2_t v, const int n)
         {
             temp = 0;
         }
+        D.val[i] = temp;
     }
     return D;
 }
-- 
2.43.0


From 815e11a0413b154affeb98b07d1b64b3b34f5a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:28 +0000
Subject: [PATCH 14/29] fix: vqshrn_n_s64 saturates before it narrows

---
 neon_sim.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 1e4a9fd..298512b 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -6013,7 +6013,7 @@ int32x2_t vqshrn_n_s64(int64x2_t a, const int n)
     int32x2_t r;
     for (int i = 0; i < 2; i++)
     {
-        r.val[i] =  std::min<int32_t>(std::max<int64_t>(a.val[i] >> n, INT32_MIN), INT32_MAX);
+        r.val[i] =  std::min<int64_t>(std::max<int64_t>(a.val[i] >> n, INT32_MIN), INT32_MAX);
     }
     return r;
 }
-- 
2.43.0


From 0f2a241b9b640470e2e98c9560ac4178b4cadc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:30 +0000
Subject: [PATCH 15/29] fix: vsraq_n_s32 accumulates the shifted second operand
 onto the first

---
 neon_sim.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 298512b..8f1534f 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -3963,10 +3963,15 @@ uint8x8_t vrshrn_n_u16(uint16x8_t a, const int n)
 
 int32x4_t vsraq_n_s32(int32x4_t a, int32x4_t b, const int n)
 {
+    if (n < 1 || n > 32)
+    {
+        fprintf(stderr, "%s: param n out of range\n", __FUNCTION__);
+        abort();
+    }
     int32x4_t r;
     for (int i = 0; i < 4; i++)
     {
-        r.val[i] =  (a.val[i] >> n) + (b.val[i] >> n);
+        r.val[i] =  (uint32_t)a.val[i] + (uint32_t)((int64_t)b.val[i] >> n);
     }
     return r;
 }
-- 
2.43.0


From 0b01760be9fa8dd6177d7ff760101d95da8a533f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:33 +0000
Subject: [PATCH 16/29] fix: vshr_n_u16 accepts every shift in [1, 16]

---
 neon_sim.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 8f1534f..c09d194 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -3757,9 +3757,9 @@ int8x8_t vshrn_n_s16(int16x8_t a, const int n)
 
 uint16x4_t vshr_n_u16(uint16x4_t v, const int n)
 {
-    if (n < 1 || n > 8)
+    if (n < 1 || n > 16)
     {
-        fprintf(stderr, "%s: param n not in range [1, 8]\n", __FUNCTION__);
+        fprintf(stderr, "%s: param n not in range [1, 16]\n", __FUNCTION__);
         abort();
     }
 
-- 
2.43.0


From f5b8c303ceb7daa958e28c1b161ec2e38aa8dd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:36 +0000
Subject: [PATCH 17/29] fix: vbslq_f32 selects bit by bit

---
 neon_sim.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index c09d194..7d3103b 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -3733,7 +3733,11 @@ float32x4_t vbslq_f32(uint32x4_t mask, float32x4_t a, float32x4_t b)
     float32x4_t r;
     for (int i = 0; i < 4; i++)
     {
-        r.val[i] =  mask.val[i] ? a.val[i] : b.val[i];
+        uint32_t a_bits, b_bits;
+        memcpy(&a_bits, &a.val[i], sizeof(float32_t));
+        memcpy(&b_bits, &b.val[i], sizeof(float32_t));
+        uint32_t bits = (mask.val[i] & a_bits) | (~mask.val[i] & b_bits);
+        memcpy(&r.val[i], &bits, sizeof(float32_t));
     }
     return r;
 }
-- 
2.43.0


From 085167aaad6a3bc756e59529138d3c08e0dfbf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:38 +0000
Subject: [PATCH 18/29] fix: vrev64q_s8/s16 reverse both halves of the vector

---
 neon_sim.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 7d3103b..c976af6 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -5857,7 +5857,7 @@ float32x2_t vrev64_f32(float32x2_t vec)
 int8x16_t vrev64q_s8(int8x16_t vec)
 {
     int8x16_t r;
-    for (int i = 0; i < 8; i += 8)
+    for (int i = 0; i < 16; i += 8)
     {
         r.val[i + 0] = vec.val[i + 7];
         r.val[i + 1] = vec.val[i + 6];
@@ -5874,7 +5874,7 @@ int8x16_t vrev64q_s8(int8x16_t vec)
 int16x8_t vrev64q_s16(int16x8_t vec)
 {
     int16x8_t r;
-    for (int i = 0; i < 4; i += 4)
+    for (int i = 0; i < 8; i += 4)
     {
         r.val[i + 0] = vec.val[i + 3];
         r.val[i + 1] = vec.val[i + 2];
-- 
2.43.0


From 94af1a7b6cfa576ea531ba3c48977d05434c50df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:42 +0000
Subject: [PATCH 19/29] fix: vrev32_s8 stays within its 8 lanes

---
 neon_sim.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index c976af6..e71b0f3 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -5665,7 +5665,7 @@ uint8x16_t vrev16q_u8(uint8x16_t vec)
 int8x8_t vrev32_s8(int8x8_t vec)
 {
     int8x8_t r;
-    for (int i = 0; i < 16; i += 4)
+    for (int i = 0; i < 8; i += 4)
     {
         r.val[i + 0] = vec.val[i + 3];
         r.val[i + 1] = vec.val[i + 2];
-- 
2.43.0


From 906a772fa5a8a5b1a0c716ca6e5c99fcee0788dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:44 +0000
Subject: [PATCH 20/29] fix: vqtbl1_u8 yields 0 for an out-of-range index

---
 neon_sim.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index e71b0f3..324a7e5 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -4734,7 +4734,7 @@ uint8x8_t vqtbl1_u8(uint8x16_t t, uint8x8_t idx)
     uint8x8_t r;
     for (int i = 0; i < 8; i++)
     {
-        r.val[i] =  t.val[idx.val[i]];
+        r.val[i] =  idx.val[i] < 16 ? t.val[idx.val[i]] : 0;
     }
     return r;
 }
-- 
2.43.0


From a5a90d43eec462e64e1f88ee55ee1b50fd4152d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:29 +0000
Subject: [PATCH 21/29] fix: vmaxq, vminq, vpmax and vpmin of f32 propagate NaN
 and order the signed zeros

---
 neon_sim.cpp | 40 ++++++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 324a7e5..e780d95 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -7,8 +7,36 @@
 #include <math.h>
 
 #include <algorithm>
+#include <cmath>
 #include <string>
 
+// Maximum and minimum of two floats: a NaN operand gives NaN, and +0 is greater than -0
+static float32_t max_f32(float32_t a, float32_t b)
+{
+    if (std::isnan(a) || std::isnan(b))
+    {
+        return a + b;
+    }
+    if (a == b)
+    {
+        return std::signbit(a) ? b : a;
+    }
+    return a > b ? a : b;
+}
+
+static float32_t min_f32(float32_t a, float32_t b)
+{
+    if (std::isnan(a) || std::isnan(b))
+    {
+        return a + b;
+    }
+    if (a == b)
+    {
+        return std::signbit(a) ? a : b;
+    }
+    return a < b ? a : b;
+}
+
 ////// Load
 // vld1
 uint8x8_t vld1_u8(uint8_t const* ptr)
@@ -1274,7 +1302,7 @@ float32x4_t vmaxq_f32(float32x4_t N, float32x4_t M)
     float32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] > M.val[i] ? N.val[i] : M.val[i];
+        D.val[i] = max_f32(N.val[i], M.val[i]);
     }
     return D;
 }
@@ -3566,16 +3594,16 @@ uint8x8_t vget_high_u8(uint8x16_t a)
 float32x2_t vpmax_f32(float32x2_t a, float32x2_t b)
 {
     float32x2_t r;
-    r.val[0] = a.val[0] > a.val[1] ? a.val[0] : a.val[1];
-    r.val[1] = b.val[0] > b.val[1] ? b.val[0] : b.val[1];
+    r.val[0] = max_f32(a.val[0], a.val[1]);
+    r.val[1] = max_f32(b.val[0], b.val[1]);
     return r;
 }
 
 float32x2_t vpmin_f32(float32x2_t a, float32x2_t b)
 {
     float32x2_t r;
-    r.val[0] = a.val[0] < a.val[1] ? a.val[0] : a.val[1];
-    r.val[1] = b.val[0] < b.val[1] ? b.val[0] : b.val[1];
+    r.val[0] = min_f32(a.val[0], a.val[1]);
+    r.val[1] = min_f32(b.val[0], b.val[1]);
     return r;
 }
 
@@ -3706,7 +3734,7 @@ float32x4_t vminq_f32(float32x4_t N, float32x4_t M)
     float32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] < M.val[i] ? N.val[i] : M.val[i];
+        D.val[i] = min_f32(N.val[i], M.val[i]);
     }
     return D;
 }
-- 
2.43.0


From e1de9e668f41f33c4db683d47db3e9ba348a826e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:33 +0000
Subject: [PATCH 22/29] fix: vcvtq_s32_f32 and vcvtq_u32_f32 saturate and turn
 NaN into 0

---
 neon_sim.cpp | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index e780d95..19b4a82 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -4252,12 +4252,43 @@ float32x4_t vcvtq_f32_s32(int32x4_t a)
     return r;
 }
 
+// Saturating conversions of an integral (or about to be truncated) float; NaN gives 0
+static int32_t f32_to_s32(float32_t v)
+{
+    if (std::isnan(v))
+    {
+        return 0;
+    }
+    if (v >= 2147483648.0f)
+    {
+        return INT32_MAX;
+    }
+    if (v < -2147483648.0f)
+    {
+        return INT32_MIN;
+    }
+    return (int32_t)v;
+}
+
+static uint32_t f32_to_u32(float32_t v)
+{
+    if (std::isnan(v) || v < 0.0f)
+    {
+        return 0;
+    }
+    if (v >= 4294967296.0f)
+    {
+        return UINT32_MAX;
+    }
+    return (uint32_t)v;
+}
+
 int32x4_t vcvtq_s32_f32(float32x4_t a)
 {
     int32x4_t r;
     for (int i = 0; i < 4; i++)
     {
-        r.val[i] =  a.val[i];
+        r.val[i] =  f32_to_s32(a.val[i]);
     }
     return r;
 }
@@ -4267,7 +4298,7 @@ uint32x4_t vcvtq_u32_f32(float32x4_t a)
     uint32x4_t r;
     for (int i = 0; i < 4; i++)
     {
-        r.val[i] =  a.val[i];
+        r.val[i] =  f32_to_u32(a.val[i]);
     }
     return r;
 }
-- 
2.43.0


From 63962608f9b45c60ab4045833cb18c9ac5571bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:36 +0000
Subject: [PATCH 23/29] fix: vcvtnq_s32_f32 rounds to nearest, ties to even

---
 neon_sim.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 19b4a82..7f39e09 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -4308,7 +4308,7 @@ int32x4_t vcvtnq_s32_f32(float32x4_t a)
     int32x4_t r;
     for (int i = 0; i < 4; i++)
     {
-        r.val[i] =  a.val[i];
+        r.val[i] =  f32_to_s32(std::nearbyint(a.val[i]));
     }
     return r;
 }
-- 
2.43.0


From 3d05a11a43840d2472ff9c27140c7c325b727f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:40 +0000
Subject: [PATCH 24/29] fix: vrecpeq_f32 handles zeros, infinities, NaN,
 subnormals and subnormal results

---
 neon_sim.cpp | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 7f39e09..aa2e823 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -4351,10 +4351,40 @@ uint32_t RecipEstimate(uint32_t a)
 float FPRecipEstimate(float operand)
 {
     float_parts parts{operand};
-    parts.exp = 253 - parts.exp;
-    uint32_t scaled = 0x100 | ((parts.fraction >> 15) & 0xFF);
+    if (parts.exp == 255)
+    {
+        // the reciprocal of an infinity is a zero; a NaN stays a NaN
+        return parts.fraction != 0 ? operand + operand : std::copysign(0.0f, operand);
+    }
+    if (parts.exp == 0 && (parts.fraction >> 21) == 0)
+    {
+        // zero, or too small for its reciprocal to be finite
+        return std::copysign(INFINITY, operand);
+    }
+    int exp = parts.exp;
+    uint32_t fraction = parts.fraction;
+    if (exp == 0)
+    {
+        // normalize a subnormal operand
+        exp = 1;
+        do
+        {
+            fraction <<= 1;
+            exp--;
+        } while ((fraction & (1 << 23)) == 0);
+    }
+    uint32_t scaled = 0x100 | ((fraction >> 15) & 0xFF);
     uint32_t estimate = RecipEstimate(scaled);
-    parts.fraction = (estimate & 0xff) << 15;
+    fraction = (estimate & 0xff) << 15;
+    exp = 253 - exp;
+    if (exp <= 0)
+    {
+        // the estimate itself is subnormal
+        fraction = (fraction | (1 << 23)) >> (1 - exp);
+        exp = 0;
+    }
+    parts.exp = exp;
+    parts.fraction = fraction;
     return float(parts);
 }
 
-- 
2.43.0


From 17a89b7b166d4074effb584a31afdb8b7a5fc106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:43 +0000
Subject: [PATCH 25/29] fix: vrecpsq_f32 gives 2 for infinity times zero

---
 neon_sim.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index aa2e823..42ac811 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -4434,7 +4434,14 @@ float32x4_t vrecpsq_f32(float32x4_t a, float32x4_t b)
     float32x4_t r;
     for (int i = 0; i < 4; i++)
     {
-        r.val[i] =  2.0 - (a.val[i] * b.val[i]);
+        if ((std::isinf(a.val[i]) && b.val[i] == 0) || (a.val[i] == 0 && std::isinf(b.val[i])))
+        {
+            r.val[i] =  2.0;
+        }
+        else
+        {
+            r.val[i] =  2.0 - (a.val[i] * b.val[i]);
+        }
     }
     return r;
 }
-- 
2.43.0


From 0abf993e2de72c711815291a191a113c860c63e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:07 +0000
Subject: [PATCH 26/29] fix: check the shift count of vqshrn_n, vrshrn_n_u16,
 vshlq_n_s32 and vshll_n_u8

---
 neon_sim.cpp | 47 ++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 46 insertions(+), 1 deletion(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 42ac811..bd662e4 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -3984,6 +3984,11 @@ uint8x8_t vqrshrun_n_s16(int16x8_t v, const int n)
 
 uint8x8_t vrshrn_n_u16(uint16x8_t a, const int n)
 {
+    if (n < 1 || n > 8)
+    {
+        fprintf(stderr, "%s: param n out of range\n", __FUNCTION__);
+        abort();
+    }
     uint8x8_t r;
     const int delta = (1 << (n - 1));
     for (int i = 0; i < 8; i++)
@@ -4011,16 +4016,26 @@ int32x4_t vsraq_n_s32(int32x4_t a, int32x4_t b, const int n)
 // shift left
 int32x4_t vshlq_n_s32(int32x4_t M, const int n)
 {
+    if (n < 0 || n > 31)
+    {
+        fprintf(stderr, "%s: param n out of range\n", __FUNCTION__);
+        abort();
+    }
     int32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = M.val[i] << n;
+        D.val[i] = (uint32_t)M.val[i] << n;
     }
     return D;
 }
 
 uint16x8_t vshll_n_u8(uint8x8_t a, const int n)
 {
+    if (n < 0 || n > 7)
+    {
+        fprintf(stderr, "%s: param n out of range\n", __FUNCTION__);
+        abort();
+    }
     uint16x8_t r;
     for (int i = 0; i < 8; i++)
     {
@@ -6095,6 +6110,11 @@ float64x2_t vdivq_f64(float64x2_t a, float64x2_t b)
 // saturated shift right and narrow
 int8x8_t vqshrn_n_s16(int16x8_t a, const int n)
 {
+    if (n < 1 || n > 8)
+    {
+        fprintf(stderr, "%s: param n out of range\n", __FUNCTION__);
+        abort();
+    }
     int8x8_t r;
     for (int i = 0; i < 8; i++)
     {
@@ -6105,6 +6125,11 @@ int8x8_t vqshrn_n_s16(int16x8_t a, const int n)
 
 int16x4_t vqshrn_n_s32(int32x4_t a, const int n)
 {
+    if (n < 1 || n > 16)
+    {
+        fprintf(stderr, "%s: param n out of range\n", __FUNCTION__);
+        abort();
+    }
     int16x4_t r;
     for (int i = 0; i < 4; i++)
     {
@@ -6115,6 +6140,11 @@ int16x4_t vqshrn_n_s32(int32x4_t a, const int n)
 
 int32x2_t vqshrn_n_s64(int64x2_t a, const int n)
 {
+    if (n < 1 || n > 32)
+    {
+        fprintf(stderr, "%s: param n out of range\n", __FUNCTION__);
+        abort();
+    }
     int32x2_t r;
     for (int i = 0; i < 2; i++)
     {
@@ -6125,6 +6155,11 @@ int32x2_t vqshrn_n_s64(int64x2_t a, const int n)
 
 uint8x8_t vqshrn_n_u16(uint16x8_t a, const int n)
 {
+    if (n < 1 || n > 8)
+    {
+        fprintf(stderr, "%s: param n out of range\n", __FUNCTION__);
+        abort();
+    }
     uint8x8_t r;
     for (int i = 0; i < 8; i++)
     {
@@ -6135,6 +6170,11 @@ uint8x8_t vqshrn_n_u16(uint16x8_t a, const int n)
 
 uint16x4_t vqshrn_n_u32(uint32x4_t a, const int n)
 {
+    if (n < 1 || n > 16)
+    {
+        fprintf(stderr, "%s: param n out of range\n", __FUNCTION__);
+        abort();
+    }
     uint16x4_t r;
     for (int i = 0; i < 4; i++)
     {
@@ -6145,6 +6185,11 @@ uint16x4_t vqshrn_n_u32(uint32x4_t a, const int n)
 
 uint32x2_t vqshrn_n_u64(uint64x2_t a, const int n)
 {
+    if (n < 1 || n > 32)
+    {
+        fprintf(stderr, "%s: param n out of range\n", __FUNCTION__);
+        abort();
+    }
     uint32x2_t r;
     for (int i = 0; i < 2; i++)
     {
-- 
2.43.0


From f471b3c7a7c1262c0a580b4d705af8fd2aa3622e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:10 +0000
Subject: [PATCH 27/29] fix: check the lane index of vget_lane_f32, vgetq_lane,
 vld1_lane_s8/u8 and vst4q_lane_f32

---
 neon_sim.cpp | 65 ++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 65 insertions(+)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index bd662e4..da80efc 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -665,6 +665,11 @@ float32x4_t vld1q_dup_f32(float32_t const* ptr)
 
 int8x8_t vld1_lane_s8(int8_t const* ptr, int8x8_t src, const int lane)
 {
+    if (lane < 0 || lane > 7)
+    {
+        fprintf(stderr, "%s: lane out of range\n", __FUNCTION__);
+        abort();
+    }
     int8x8_t r;
     for (int i = 0; i < 8; i++)
     {
@@ -676,6 +681,11 @@ int8x8_t vld1_lane_s8(int8_t const* ptr, int8x8_t src, const int lane)
 
 uint8x8_t vld1_lane_u8(uint8_t const* ptr, uint8x8_t src, const int lane)
 {
+    if (lane < 0 || lane > 7)
+    {
+        fprintf(stderr, "%s: lane out of range\n", __FUNCTION__);
+        abort();
+    }
     uint8x8_t r;
     for (int i = 0; i < 8; i++)
     {
@@ -1230,6 +1240,11 @@ void vst4q_u32(uint32_t* ptr, uint32x4x4_t val)
 // vst4q_lane
 void vst4q_lane_f32(float32_t* ptr, float32x4x4_t val, const int lane)
 {
+    if (lane < 0 || lane > 3)
+    {
+        fprintf(stderr, "%s: lane out of range\n", __FUNCTION__);
+        abort();
+    }
     for (int i = 0; i < 4; i++)
     {
         ptr[i] = val.val[i].val[lane];
@@ -3609,6 +3624,11 @@ float32x2_t vpmin_f32(float32x2_t a, float32x2_t b)
 
 float32_t vget_lane_f32(float32x2_t v, const int lane)
 {
+    if (lane < 0 || lane > 1)
+    {
+        fprintf(stderr, "%s: lane out of range\n", __FUNCTION__);
+        abort();
+    }
     return v.val[lane];
 }
 
@@ -3625,46 +3645,91 @@ float32_t vgetq_lane_f32(float32x4_t v, int lane)
 // vgetq_lane_type
 uint8_t vgetq_lane_u8(uint8x16_t v, const int lane)
 {
+    if (lane < 0 || lane > 15)
+    {
+        fprintf(stderr, "%s: lane out of range\n", __FUNCTION__);
+        abort();
+    }
     return v.val[lane];
 }
 
 uint16_t vgetq_lane_u16(uint16x8_t v, const int lane)
 {
+    if (lane < 0 || lane > 7)
+    {
+        fprintf(stderr, "%s: lane out of range\n", __FUNCTION__);
+        abort();
+    }
     return v.val[lane];
 }
 
 uint32_t vgetq_lane_u32(uint32x4_t v, const int lane)
 {
+    if (lane < 0 || lane > 3)
+    {
+        fprintf(stderr, "%s: lane out of range\n", __FUNCTION__);
+        abort();
+    }
     return v.val[lane];
 }
 
 uint64_t vgetq_lane_u64(uint64x2_t v, const int lane)
 {
+    if (lane < 0 || lane > 1)
+    {
+        fprintf(stderr, "%s: lane out of range\n", __FUNCTION__);
+        abort();
+    }
     return v.val[lane];
 }
 
 int8_t vgetq_lane_s8(int8x16_t v, const int lane)
 {
+    if (lane < 0 || lane > 15)
+    {
+        fprintf(stderr, "%s: lane out of range\n", __FUNCTION__);
+        abort();
+    }
     return v.val[lane];
 }
 
 int16_t vgetq_lane_s16(int16x8_t v, const int lane)
 {
+    if (lane < 0 || lane > 7)
+    {
+        fprintf(stderr, "%s: lane out of range\n", __FUNCTION__);
+        abort();
+    }
     return v.val[lane];
 }
 
 int32_t vgetq_lane_s32(int32x4_t v, const int lane)
 {
+    if (lane < 0 || lane > 3)
+    {
+        fprintf(stderr, "%s: lane out of range\n", __FUNCTION__);
+        abort();
+    }
     return v.val[lane];
 }
 
 int64_t vgetq_lane_s64(int64x2_t v, const int lane)
 {
+    if (lane < 0 || lane > 1)
+    {
+        fprintf(stderr, "%s: lane out of range\n", __FUNCTION__);
+        abort();
+    }
     return v.val[lane];
 }
 
 float64_t vgetq_lane_f64(float64x2_t v, const int lane)
 {
+    if (lane < 0 || lane > 1)
+    {
+        fprintf(stderr, "%s: lane out of range\n", __FUNCTION__);
+        abort();
+    }
     return v.val[lane];
 }
 
-- 
2.43.0


From 9cbaa8a65977dcebf331636ebe8cda40a4e39862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:46 +0000
Subject: [PATCH 28/29] fix: vext_u8 and vextq_u16 accept offsets up to 7 only

---
 neon_sim.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index da80efc..bbc3405 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -4920,9 +4920,9 @@ uint8x8_t vext_u8(uint8x8_t a, uint8x8_t b, const int n)
 {
     uint8x8_t r;
     int len = 8;
-    if (n > 8 || n < 0)
+    if (n > 7 || n < 0)
     {
-        fprintf(stderr, "%s: param n is not in range [0, 8]\n", __FUNCTION__);
+        fprintf(stderr, "%s: param n is not in range [0, 7]\n", __FUNCTION__);
         abort();
     }
     for (int i = 0; i < len - n; i++)
@@ -4981,9 +4981,9 @@ uint16x8_t vextq_u16(uint16x8_t a, uint16x8_t b, const int n)
 {
     uint16x8_t r;
     int len = 8;
-    if (n > 8 || n < 0)
+    if (n > 7 || n < 0)
     {
-        fprintf(stderr, "%s: param n is not in range [0, 8]\n", __FUNCTION__);
+        fprintf(stderr, "%s: param n is not in range [0, 7]\n", __FUNCTION__);
         abort();
     }
     for (int i = 0; i < len - n; i++)
-- 
2.43.0


From 3c20cb8f6735fe6cf6fb74bd5dd174fa71fd2746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:39 +0000
Subject: [PATCH 29/29] fix: vshll_n_u8 accepts a shift of 8 (SHLL)

---
 neon_sim.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index bbc3405..47a857c 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -4096,7 +4096,7 @@ int32x4_t vshlq_n_s32(int32x4_t M, const int n)
 
 uint16x8_t vshll_n_u8(uint8x8_t a, const int n)
 {
-    if (n < 0 || n > 7)
+    if (n < 0 || n > 8)
     {
         fprintf(stderr, "%s: param n out of range\n", __FUNCTION__);
         abort();
-- 
2.43.0

