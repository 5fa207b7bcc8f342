From 47f7b51dde41dfcc31b0b1c66010c11b35695cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:30 +0000
Subject: [PATCH 01/57] fix: i64.div_u returns quotients of 2^63 and above

---
 pywasm/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index ddb7bdd..78d9b63 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -2307,7 +2307,7 @@ class Machine:
                 case pywasm.opcode.i64_div_u:
                     b = self.stack.value.pop().into_u64()
                     a = self.stack.value.pop().into_u64()
-                    c = ValInst.from_i64(pywasm.arith.u64.div(a, b))
+                    c = ValInst.from_u64(pywasm.arith.u64.div(a, b))
                     self.stack.value.append(c)
                 case pywasm.opcode.i64_rem_s:
                     b = self.stack.value.pop().into_i64()
-- 
2.43.0


From f74e2e0b50187564b38d577360e248a73721867f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:05 +0000
Subject: [PATCH 02/57] fix: float rounding instructions keep the sign of zero

---
 pywasm/core.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 78d9b63..c2dbb6f 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -2371,22 +2371,22 @@ class Machine:
                     self.stack.value.append(b)
                 case pywasm.opcode.f32_ceil:
                     a = self.stack.value.pop().into_f32()
-                    b = a if math.isnan(a) or math.isinf(a) else float(math.ceil(a))
+                    b = a if math.isnan(a) or math.isinf(a) else math.copysign(math.ceil(a), a)
                     c = ValInst.from_f32(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f32_floor:
                     a = self.stack.value.pop().into_f32()
-                    b = a if math.isnan(a) or math.isinf(a) else float(math.floor(a))
+                    b = a if math.isnan(a) or math.isinf(a) else math.copysign(math.floor(a), a)
                     c = ValInst.from_f32(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f32_trunc:
                     a = self.stack.value.pop().into_f32()
-                    b = a if math.isnan(a) or math.isinf(a) else float(math.trunc(a))
+                    b = a if math.isnan(a) or math.isinf(a) else math.copysign(math.trunc(a), a)
                     c = ValInst.from_f32(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f32_nearest:
                     a = self.stack.value.pop().into_f32()
-                    b = a if math.isnan(a) or math.isinf(a) else float(round(a))
+                    b = a if math.isnan(a) or math.isinf(a) else math.copysign(round(a), a)
                     c = ValInst.from_f32(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f32_sqrt:
@@ -2444,22 +2444,22 @@ class Machine:
                     self.stack.value.append(b)
                 case pywasm.opcode.f64_ceil:
                     a = self.stack.value.pop().into_f64()
-                    b = a if math.isnan(a) or math.isinf(a) else float(math.ceil(a))
+                    b = a if math.isnan(a) or math.isinf(a) else math.copysign(math.ceil(a), a)
                     c = ValInst.from_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f64_floor:
                     a = self.stack.value.pop().into_f64()
-                    b = a if math.isnan(a) or math.isinf(a) else float(math.floor(a))
+                    b = a if math.isnan(a) or math.isinf(a) else math.copysign(math.floor(a), a)
                     c = ValInst.from_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f64_trunc:
                     a = self.stack.value.pop().into_f64()
-                    b = a if math.isnan(a) or math.isinf(a) else float(math.trunc(a))
+                    b = a if math.isnan(a) or math.isinf(a) else math.copysign(math.trunc(a), a)
                     c = ValInst.from_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f64_nearest:
                     a = self.stack.value.pop().into_f64()
-                    b = a if math.isnan(a) or math.isinf(a) else float(round(a))
+                    b = a if math.isnan(a) or math.isinf(a) else math.copysign(round(a), a)
                     c = ValInst.from_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f64_sqrt:
@@ -3368,22 +3368,22 @@ class Machine:
                     self.stack.value.append(e)
                 case pywasm.opcode.f32x4_ceil:
                     a = self.stack.value.pop().into_v128_f32()
-                    b = [e if math.isnan(e) or math.isinf(e) else float(math.ceil(e)) for e in a]
+                    b = [e if math.isnan(e) or math.isinf(e) else math.copysign(math.ceil(e), e) for e in a]
                     c = ValInst.from_v128_f32(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f32x4_floor:
                     a = self.stack.value.pop().into_v128_f32()
-                    b = [e if math.isnan(e) or math.isinf(e) else float(math.floor(e)) for e in a]
+                    b = [e if math.isnan(e) or math.isinf(e) else math.copysign(math.floor(e), e) for e in a]
                     c = ValInst.from_v128_f32(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f32x4_trunc:
                     a = self.stack.value.pop().into_v128_f32()
-                    b = [e if math.isnan(e) or math.isinf(e) else float(math.trunc(e)) for e in a]
+                    b = [e if math.isnan(e) or math.isinf(e) else math.copysign(math.trunc(e), e) for e in a]
                     c = ValInst.from_v128_f32(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f32x4_nearest:
                     a = self.stack.value.pop().into_v128_f32()
-                    b = [e if math.isnan(e) or math.isinf(e) else float(round(e)) for e in a]
+                    b = [e if math.isnan(e) or math.isinf(e) else math.copysign(round(e), e) for e in a]
                     c = ValInst.from_v128_f32(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.i8x16_shl:
@@ -3439,12 +3439,12 @@ class Machine:
                     self.stack.value.append(d)
                 case pywasm.opcode.f64x2_ceil:
                     a = self.stack.value.pop().into_v128_f64()
-                    b = [e if math.isnan(e) or math.isinf(e) else float(math.ceil(e)) for e in a]
+                    b = [e if math.isnan(e) or math.isinf(e) else math.copysign(math.ceil(e), e) for e in a]
                     c = ValInst.from_v128_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f64x2_floor:
                     a = self.stack.value.pop().into_v128_f64()
-                    b = [e if math.isnan(e) or math.isinf(e) else float(math.floor(e)) for e in a]
+                    b = [e if math.isnan(e) or math.isinf(e) else math.copysign(math.floor(e), e) for e in a]
                     c = ValInst.from_v128_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.i8x16_min_s:
@@ -3473,7 +3473,7 @@ class Machine:
                     self.stack.value.append(d)
                 case pywasm.opcode.f64x2_trunc:
                     a = self.stack.value.pop().into_v128_f64()
-                    b = [e if math.isnan(e) or math.isinf(e) else float(math.trunc(e)) for e in a]
+                    b = [e if math.isnan(e) or math.isinf(e) else math.copysign(math.trunc(e), e) for e in a]
                     c = ValInst.from_v128_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.i8x16_avgr_u:
@@ -3614,7 +3614,7 @@ class Machine:
                     self.stack.value.append(d)
                 case pywasm.opcode.f64x2_nearest:
                     a = self.stack.value.pop().into_v128_f64()
-                    b = [e if math.isnan(e) or math.isinf(e) else float(round(e)) for e in a]
+                    b = [e if math.isnan(e) or math.isinf(e) else math.copysign(round(e), e) for e in a]
                     c = ValInst.from_v128_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.i16x8_mul:
-- 
2.43.0


From 9e40c85113cbbcfcdcf0e2adc9f28a5820825876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:05 +0000
Subject: [PATCH 03/57] fix: f64 rounding instructions return quiet NaNs

---
 pywasm/core.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index c2dbb6f..83de58e 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -2444,22 +2444,22 @@ class Machine:
                     self.stack.value.append(b)
                 case pywasm.opcode.f64_ceil:
                     a = self.stack.value.pop().into_f64()
-                    b = a if math.isnan(a) or math.isinf(a) else math.copysign(math.ceil(a), a)
+                    b = a + 0.0 if math.isnan(a) or math.isinf(a) else math.copysign(math.ceil(a), a)
                     c = ValInst.from_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f64_floor:
                     a = self.stack.value.pop().into_f64()
-                    b = a if math.isnan(a) or math.isinf(a) else math.copysign(math.floor(a), a)
+                    b = a + 0.0 if math.isnan(a) or math.isinf(a) else math.copysign(math.floor(a), a)
                     c = ValInst.from_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f64_trunc:
                     a = self.stack.value.pop().into_f64()
-                    b = a if math.isnan(a) or math.isinf(a) else math.copysign(math.trunc(a), a)
+                    b = a + 0.0 if math.isnan(a) or math.isinf(a) else math.copysign(math.trunc(a), a)
                     c = ValInst.from_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f64_nearest:
                     a = self.stack.value.pop().into_f64()
-                    b = a if math.isnan(a) or math.isinf(a) else math.copysign(round(a), a)
+                    b = a + 0.0 if math.isnan(a) or math.isinf(a) else math.copysign(round(a), a)
                     c = ValInst.from_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f64_sqrt:
@@ -3439,12 +3439,12 @@ class Machine:
                     self.stack.value.append(d)
                 case pywasm.opcode.f64x2_ceil:
                     a = self.stack.value.pop().into_v128_f64()
-                    b = [e if math.isnan(e) or math.isinf(e) else math.copysign(math.ceil(e), e) for e in a]
+                    b = [e + 0.0 if math.isnan(e) or math.isinf(e) else math.copysign(math.ceil(e), e) for e in a]
                     c = ValInst.from_v128_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f64x2_floor:
                     a = self.stack.value.pop().into_v128_f64()
-                    b = [e if math.isnan(e) or math.isinf(e) else math.copysign(math.floor(e), e) for e in a]
+                    b = [e + 0.0 if math.isnan(e) or math.isinf(e) else math.copysign(math.floor(e), e) for e in a]
                     c = ValInst.from_v128_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.i8x16_min_s:
@@ -3473,7 +3473,7 @@ class Machine:
                     self.stack.value.append(d)
                 case pywasm.opcode.f64x2_trunc:
                     a = self.stack.value.pop().into_v128_f64()
-                    b = [e if math.isnan(e) or math.isinf(e) else math.copysign(math.trunc(e), e) for e in a]
+                    b = [e + 0.0 if math.isnan(e) or math.isinf(e) else math.copysign(math.trunc(e), e) for e in a]
                     c = ValInst.from_v128_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.i8x16_avgr_u:
@@ -3614,7 +3614,7 @@ class Machine:
                     self.stack.value.append(d)
                 case pywasm.opcode.f64x2_nearest:
                     a = self.stack.value.pop().into_v128_f64()
-                    b = [e if math.isnan(e) or math.isinf(e) else math.copysign(round(e), e) for e in a]
+                    b = [e + 0.0 if math.isnan(e) or math.isinf(e) else math.copysign(round(e), e) for e in a]
                     c = ValInst.from_v128_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.i16x8_mul:
-- 
2.43.0


From 1c7e57ae36bbef23f0bdfbaa538a416fd1079745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:05 +0000
Subject: [PATCH 04/57] fix: float min and max order signed zeros and return
 quiet NaNs

---
 pywasm/arith.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pywasm/arith.py b/pywasm/arith.py
index ce54dee..03147be 100644
--- a/pywasm/arith.py
+++ b/pywasm/arith.py
@@ -195,18 +195,22 @@ class F64:
 
     def min(self, a: float, b: float) -> float:
         c = min(a, b)
-        if math.isnan(a):
+        if a == b and math.copysign(1, a) < math.copysign(1, b):
             c = a
-        if math.isnan(b):
+        if a == b and math.copysign(1, b) < math.copysign(1, a):
             c = b
+        if math.isnan(a) or math.isnan(b):
+            c = a + b
         return c
 
     def max(self, a: float, b: float) -> float:
         c = max(a, b)
-        if math.isnan(a):
+        if a == b and math.copysign(1, a) > math.copysign(1, b):
             c = a
-        if math.isnan(b):
+        if a == b and math.copysign(1, b) > math.copysign(1, a):
             c = b
+        if math.isnan(a) or math.isnan(b):
+            c = a + b
         return c
 
 
-- 
2.43.0


From 6761045a8732d982a8fcca0107ad1469b4cb2f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:05 +0000
Subject: [PATCH 05/57] fix: f32.copysign keeps NaN payloads

---
 pywasm/core.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 83de58e..f52e991 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -2428,9 +2428,10 @@ class Machine:
                     d = ValInst.from_f32(c)
                     self.stack.value.append(d)
                 case pywasm.opcode.f32_copysign:
-                    b = self.stack.value.pop().into_f32()
-                    a = self.stack.value.pop().into_f32()
-                    c = ValInst.from_f32(math.copysign(a, b))
+                    b = self.stack.value.pop()
+                    a = self.stack.value.pop()
+                    c = ValInst(ValType.f32(), a.data.copy())
+                    c.data[3] = (a.data[3] & 0x7f) | (b.data[3] & 0x80)
                     self.stack.value.append(c)
                 case pywasm.opcode.f64_abs:
                     a = self.stack.value.pop()
-- 
2.43.0


From ff26df5624599d1668572d9d8a3df0a9564654c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:05 +0000
Subject: [PATCH 06/57] fix: f32.convert_i64 rounds once

---
 pywasm/arith.py | 7 +++++++
 pywasm/core.py  | 4 ++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/pywasm/arith.py b/pywasm/arith.py
index 03147be..883a041 100644
--- a/pywasm/arith.py
+++ b/pywasm/arith.py
@@ -158,6 +158,13 @@ class F32:
     def fit(self, n: float) -> float:
         return ctypes.c_float(n).value
 
+    def from_int(self, n: int) -> float:
+        # The conversion to a python float rounds to 53 bits, rounding a second time to 24 bits may be off by one unit.
+        # Fold the bits that do not fit into a sticky bit first, so that only the second rounding is inexact.
+        if not -1 << 53 <= n <= 1 << 53:
+            n = n >> 11 << 11 | (0x800 if n & 0x7ff else 0)
+        return self.fit(float(n))
+
     def div(self, a: float, b: float) -> float:
         return self.fit(f64.div(a, b))
 
diff --git a/pywasm/core.py b/pywasm/core.py
index f52e991..49f726c 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -2576,11 +2576,11 @@ class Machine:
                     self.stack.value.append(b)
                 case pywasm.opcode.f32_convert_i64_s:
                     a = self.stack.value.pop().into_i64()
-                    b = ValInst.from_f32(float(a))
+                    b = ValInst.from_f32(pywasm.arith.f32.from_int(a))
                     self.stack.value.append(b)
                 case pywasm.opcode.f32_convert_i64_u:
                     a = self.stack.value.pop().into_u64()
-                    b = ValInst.from_f32(float(a))
+                    b = ValInst.from_f32(pywasm.arith.f32.from_int(a))
                     self.stack.value.append(b)
                 case pywasm.opcode.f32_demote_f64:
                     a = self.stack.value.pop().into_f64()
-- 
2.43.0


From f424c0831f9ea737e79d6b1f0b933a1aaca5fa2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:15 +0000
Subject: [PATCH 07/57] fix: f32x4.abs and f32x4.neg keep NaN payloads

---
 pywasm/core.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 49f726c..ae3db32 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -3937,14 +3937,14 @@ class Machine:
                     d = ValInst.from_v128_u64(c)
                     self.stack.value.append(d)
                 case pywasm.opcode.f32x4_abs:
-                    a = self.stack.value.pop().into_v128_f32()
-                    b = [abs(e) for e in a]
-                    c = ValInst.from_v128_f32(b)
+                    a = self.stack.value.pop().into_v128_u32()
+                    b = [e & 0x7fffffff for e in a]
+                    c = ValInst.from_v128_u32(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f32x4_neg:
-                    a = self.stack.value.pop().into_v128_f32()
-                    b = [-e for e in a]
-                    c = ValInst.from_v128_f32(b)
+                    a = self.stack.value.pop().into_v128_u32()
+                    b = [e ^ 0x80000000 for e in a]
+                    c = ValInst.from_v128_u32(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f32x4_sqrt:
                     a = self.stack.value.pop().into_v128_f32()
-- 
2.43.0


From 60bec7264ad1371ccc4c9d2618cdf4b664caceb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:15 +0000
Subject: [PATCH 08/57] fix: f32x4.pmin and f32x4.pmax return an operand
 unchanged

---
 pywasm/core.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index ae3db32..83a347a 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -3988,16 +3988,20 @@ class Machine:
                     d = ValInst.from_v128_f32(c)
                     self.stack.value.append(d)
                 case pywasm.opcode.f32x4_pmin:
-                    b = self.stack.value.pop().into_v128_f32()
-                    a = self.stack.value.pop().into_v128_f32()
-                    c = [min(a[i], b[i]) for i in range(4)]
-                    d = ValInst.from_v128_f32(c)
+                    b = self.stack.value.pop()
+                    a = self.stack.value.pop()
+                    x, y = a.into_v128_f32(), b.into_v128_f32()
+                    a, b = a.into_v128_u32(), b.into_v128_u32()
+                    c = [b[i] if y[i] < x[i] else a[i] for i in range(4)]
+                    d = ValInst.from_v128_u32(c)
                     self.stack.value.append(d)
                 case pywasm.opcode.f32x4_pmax:
-                    b = self.stack.value.pop().into_v128_f32()
-                    a = self.stack.value.pop().into_v128_f32()
-                    c = [max(a[i], b[i]) for i in range(4)]
-                    d = ValInst.from_v128_f32(c)
+                    b = self.stack.value.pop()
+                    a = self.stack.value.pop()
+                    x, y = a.into_v128_f32(), b.into_v128_f32()
+                    a, b = a.into_v128_u32(), b.into_v128_u32()
+                    c = [b[i] if x[i] < y[i] else a[i] for i in range(4)]
+                    d = ValInst.from_v128_u32(c)
                     self.stack.value.append(d)
                 case pywasm.opcode.f64x2_abs:
                     a = self.stack.value.pop().into_v128_f64()
-- 
2.43.0


From 98e1555741d648ad1d8a8db703a247eb296b2764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:47 +0000
Subject: [PATCH 09/57] fix: a trap leaves nothing on the stack of the machine

---
 pywasm/core.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 83a347a..5b0d18d 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -4159,7 +4159,12 @@ class Runtime:
         extern: typing.List[Extern] = []
         for e in module.imps:
             extern.append(self.imports[e.module][e.name])
-        return self.machine.instance(module, extern)
+        # Run on a stack of its own: nothing remains of it if a trap occurs.
+        stack, self.machine.stack = self.machine.stack, Stack()
+        try:
+            return self.machine.instance(module, extern)
+        finally:
+            self.machine.stack = stack
 
     def instance_from_file(self, path: str) -> ModuleInst:
         # Instantiated a module from a local file.
@@ -4178,5 +4183,10 @@ class Runtime:
         func = self.machine.store.func[addr]
         assert len(func.type.args) == len(args)
         args = [ValInst.from_all(a, b) for a, b in zip(func.type.args, args)]
-        rets = self.machine.invocate(addr, args)
+        # Run on a stack of its own: nothing remains of it if a trap occurs.
+        stack, self.machine.stack = self.machine.stack, Stack()
+        try:
+            rets = self.machine.invocate(addr, args)
+        finally:
+            self.machine.stack = stack
         return [e.into_all() for e in rets]
-- 
2.43.0


From 83dbe7fbaed709c16ba4c56108e6fd63d55658f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:38 +0000
Subject: [PATCH 10/57] fix: a declared maximum of 0 is a maximum

---
 pywasm/core.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 5b0d18d..6348422 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -817,24 +817,30 @@ class FuncDesc:
 class Limits:
     # Limits are encoded with a preceding flag indicating whether a maximum is present.
 
-    def __init__(self, n: int, m: int) -> typing.Self:
+    def __init__(self, n: int, m: int, flag: typing.Optional[bool] = None) -> typing.Self:
+        # A maximum of 0 means that there is no maximum, unless the flag says that it is present.
         self.n = n
         self.m = m
+        self.flag = m != 0 if flag is None else flag
 
     def __repr__(self) -> str:
-        m = 'inf' if self.m == 0 else repr(self.m)
+        m = repr(self.m) if self.flag else 'inf'
         return f'[{self.n}, {m}]'
 
     def suit(self, value: typing.Self) -> bool:
         c1 = self.n >= value.n
-        c2 = value.m == 0
-        c3 = self.m != 0 and value.m != 0 and self.m <= value.m
+        c2 = not value.flag
+        c3 = self.flag and value.flag and self.m <= value.m
         return c1 and (c2 or c3)
 
     @classmethod
     def from_reader(cls, r: typing.BinaryIO) -> typing.Self:
-        flag = ord(r.read(1))
-        return cls(pywasm.leb128.u.decode_reader(r)[0],  pywasm.leb128.u.decode_reader(r)[0] if flag else 0x00)
+        flag = ord(r.read(1)) != 0
+        return cls(
+            pywasm.leb128.u.decode_reader(r)[0],
+            pywasm.leb128.u.decode_reader(r)[0] if flag else 0x00,
+            flag,
+        )
 
 
 class MemType:
@@ -894,7 +900,7 @@ class MemInst:
         return self.data[addr:addr+size].copy()
 
     def grow(self, n: int) -> None:
-        if self.type.limits.m:
+        if self.type.limits.flag:
             assert self.size + n <= self.type.limits.m
         assert self.size + n <= 65536
         self.data.extend(bytearray(n * 64 * 1024))
@@ -923,7 +929,7 @@ class MemInst:
         self.data[addr:addr+len(data)] = data.copy()
 
     def suit(self, l: Limits) -> bool:
-        return Limits(self.size, self.type.limits.m).suit(l)
+        return Limits(self.size, self.type.limits.m, self.type.limits.flag).suit(l)
 
 
 class TableType:
@@ -962,14 +968,14 @@ class TableInst:
         self.grow(type.limits.n, ValInst.zero(self.type.type))
 
     def grow(self, n: int, v: ValInst) -> None:
-        if self.type.limits.m:
+        if self.type.limits.flag:
             assert self.size + n <= self.type.limits.m
         assert v.type == self.type.type
         self.elem.extend([v for _ in range(n)])
         self.size += n
 
     def suit(self, l: Limits) -> bool:
-        return Limits(self.size, self.type.limits.m).suit(l)
+        return Limits(self.size, self.type.limits.m, self.type.limits.flag).suit(l)
 
 
 class GlobalType:
@@ -1992,7 +1998,7 @@ class Machine:
                     rets = -1
                     # Limit memory size to 64m.
                     cnda = size + incr <= 1024
-                    cndb = mems.type.limits.m == 0 or size + incr <= mems.type.limits.m
+                    cndb = not mems.type.limits.flag or size + incr <= mems.type.limits.m
                     if cnda and cndb:
                         rets = size
                         mems.grow(incr)
@@ -2775,7 +2781,7 @@ class Machine:
                     init = self.stack.value.pop()
                     rets = -1
                     cnda = size + incr <= 1024
-                    cndb = tabl.type.limits.m == 0 or size + incr <= tabl.type.limits.m
+                    cndb = not tabl.type.limits.flag or size + incr <= tabl.type.limits.m
                     if cnda and cndb:
                         rets = size
                         tabl.grow(incr, init)
-- 
2.43.0


From 918a8af04de24a0d2f5bea2a34a65b840c43d80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:44 +0000
Subject: [PATCH 11/57] fix: br to the outermost label of a called function
 leaves its frame

---
 pywasm/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 6348422..bb143ea 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -1770,7 +1770,7 @@ class Machine:
                 ))
                 self.stack.label.append(Label(
                     nret,
-                    len(self.stack.frame),
+                    len(self.stack.frame) - 1,
                     len(self.stack.value),
                     3,
                     func.code.expr.data,
-- 
2.43.0


From 03d0075c13c541db7c94c3deb89120fd47940ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:50 +0000
Subject: [PATCH 12/57] fix: every section of a module is read, however many
 there are

---
 pywasm/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index bb143ea..ac628e1 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -1322,7 +1322,7 @@ class ModuleDesc:
         imps: typing.List[Import] = []
         exps: typing.List[ExportDesc] = []
 
-        for _ in range(32):
+        for _ in range(1 << 32):
             section_id_byte = r.read(1)
             if not section_id_byte:
                 break
-- 
2.43.0


From b976ca4824afa0b81f152f855c8c83966c32f652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:56 +0000
Subject: [PATCH 13/57] fix: names, data and code that end early are rejected

---
 pywasm/core.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index ac628e1..edce38e 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -9,6 +9,13 @@ import struct
 import typing
 
 
+def read(r: typing.BinaryIO, n: int) -> bytes:
+    # Read exactly n bytes.
+    b = r.read(n)
+    assert len(b) == n
+    return b
+
+
 class ValType:
     # Value types are encoded by a single byte.
 
@@ -611,7 +618,7 @@ class Inst:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 assert o.args[0] < 5
             case pywasm.opcode.v128_const:
-                o.args.append(bytearray(r.read(16)))
+                o.args.append(bytearray(read(r, 16)))
             case pywasm.opcode.i8x16_shuffle:
                 for _ in range(16):
                     o.args.append(pywasm.leb128.u.decode_reader(r)[0])
@@ -1035,7 +1042,7 @@ class Custom:
     @classmethod
     def from_reader(cls, r: typing.BinaryIO) -> typing.Self:
         n = pywasm.leb128.u.decode_reader(r)[0]
-        return cls(r.read(n).decode(), bytearray(r.read(-1)))
+        return cls(read(r, n).decode(), bytearray(r.read(-1)))
 
 
 class Import:
@@ -1065,9 +1072,9 @@ class Import:
     @classmethod
     def from_reader(cls, r: typing.BinaryIO) -> typing.Self:
         n = pywasm.leb128.u.decode_reader(r)[0]
-        module = r.read(n).decode()
+        module = read(r, n).decode()
         n = pywasm.leb128.u.decode_reader(r)[0]
-        name = r.read(n).decode()
+        name = read(r, n).decode()
         type = ord(r.read(1))
         desc = {
             0x00: lambda r: pywasm.leb128.u.decode_reader(r)[0],
@@ -1121,7 +1128,7 @@ class ExportDesc:
 
     @classmethod
     def from_reader(cls, r: typing.BinaryIO) -> typing.Self:
-        name = bytearray(r.read(pywasm.leb128.u.decode_reader(r)[0])).decode()
+        name = bytearray(read(r, pywasm.leb128.u.decode_reader(r)[0])).decode()
         kind = ord(r.read(1))
         desc = pywasm.leb128.u.decode_reader(r)[0]
         return cls(name, kind, desc)
@@ -1255,15 +1262,15 @@ class DataDesc:
             case 0x00:
                 midx = 0
                 offset = Expr.from_reader(r)
-                init = bytearray(r.read(pywasm.leb128.u.decode_reader(r)[0]))
+                init = bytearray(read(r, pywasm.leb128.u.decode_reader(r)[0]))
             case 0x01:
                 midx = 0
                 offset = Expr([])
-                init = bytearray(r.read(pywasm.leb128.u.decode_reader(r)[0]))
+                init = bytearray(read(r, pywasm.leb128.u.decode_reader(r)[0]))
             case 0x02:
                 midx = pywasm.leb128.u.decode_reader(r)[0]
                 offset = Expr.from_reader(r)
-                init = bytearray(r.read(pywasm.leb128.u.decode_reader(r)[0]))
+                init = bytearray(read(r, pywasm.leb128.u.decode_reader(r)[0]))
         return cls(kind, midx, offset, init)
 
 
@@ -1383,7 +1390,7 @@ class ModuleDesc:
                 case 0x0a:
                     for i in range(pywasm.leb128.u.decode_reader(section_reader)[0]):
                         size = pywasm.leb128.u.decode_reader(section_reader)[0]
-                        desc = FuncDesc.from_reader_code(io.BytesIO(section_reader.read(size)))
+                        desc = FuncDesc.from_reader_code(io.BytesIO(read(section_reader, size)))
                         func[i].locals = desc.locals
                         func[i].expr = desc.expr
                         pywasm.log.debugln('section code', desc)
-- 
2.43.0


From 4798ca7e9e146fe61fd492f6d738588dcf9dbc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:56 +0000
Subject: [PATCH 14/57] fix: sections and function bodies that do not have
 their declared size are rejected

---
 pywasm/core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index edce38e..5cb67a0 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -1390,7 +1390,9 @@ class ModuleDesc:
                 case 0x0a:
                     for i in range(pywasm.leb128.u.decode_reader(section_reader)[0]):
                         size = pywasm.leb128.u.decode_reader(section_reader)[0]
-                        desc = FuncDesc.from_reader_code(io.BytesIO(read(section_reader, size)))
+                        code_reader = io.BytesIO(read(section_reader, size))
+                        desc = FuncDesc.from_reader_code(code_reader)
+                        assert not code_reader.read(1)
                         func[i].locals = desc.locals
                         func[i].expr = desc.expr
                         pywasm.log.debugln('section code', desc)
@@ -1403,6 +1405,9 @@ class ModuleDesc:
                 case 0x0c:
                     n = pywasm.leb128.u.decode_reader(section_reader)[0]
                     pywasm.log.debugln('section data count', n)
+                case _:
+                    assert 0
+            assert not section_reader.read(1)
 
         return cls(type, func, tabl, mems, glob, elem, data, star, imps, exps)
 
-- 
2.43.0


From 031416e00ef61b83b77cb25d86fab4abaa675a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:56 +0000
Subject: [PATCH 15/57] fix: modules whose functions and code or data and data
 count disagree are rejected

---
 pywasm/core.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 5cb67a0..ca30f67 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -1328,6 +1328,8 @@ class ModuleDesc:
         star: int = -1
         imps: typing.List[Import] = []
         exps: typing.List[ExportDesc] = []
+        ncode: int = 0
+        ndata: int = -1
 
         for _ in range(1 << 32):
             section_id_byte = r.read(1)
@@ -1389,6 +1391,7 @@ class ModuleDesc:
                         pywasm.log.debugln('section elem', desc)
                 case 0x0a:
                     for i in range(pywasm.leb128.u.decode_reader(section_reader)[0]):
+                        ncode += 1
                         size = pywasm.leb128.u.decode_reader(section_reader)[0]
                         code_reader = io.BytesIO(read(section_reader, size))
                         desc = FuncDesc.from_reader_code(code_reader)
@@ -1403,12 +1406,14 @@ class ModuleDesc:
                         data.append(desc)
                         pywasm.log.debugln('section data', desc)
                 case 0x0c:
-                    n = pywasm.leb128.u.decode_reader(section_reader)[0]
-                    pywasm.log.debugln('section data count', n)
+                    ndata = pywasm.leb128.u.decode_reader(section_reader)[0]
+                    pywasm.log.debugln('section data count', ndata)
                 case _:
                     assert 0
             assert not section_reader.read(1)
 
+        assert len(func) == ncode
+        assert ndata in [-1, len(data)]
         return cls(type, func, tabl, mems, glob, elem, data, star, imps, exps)
 
 
-- 
2.43.0


From 5250300e8a87db26d7747ec16bc02026c0d15613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:56 +0000
Subject: [PATCH 16/57] fix: invalid block, reference and select types are
 rejected

---
 pywasm/core.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index ca30f67..a3ea675 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -337,7 +337,9 @@ class Bype:
         if n in [0x7f, 0x7e, 0x7d, 0x7c, 0x7b, 0x70, 0x6f]:
             return cls(0x01, n)
         r.seek(-1, 1)
-        return cls(0x02, pywasm.leb128.i.decode_reader(r)[0])
+        n = pywasm.leb128.i.decode_reader(r)[0]
+        assert n >= 0
+        return cls(0x02, n)
 
 
 class Inst:
@@ -419,7 +421,7 @@ class Inst:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
             case pywasm.opcode.select_type:
-                o.args.append([pywasm.leb128.u.decode_reader(r)[0] for _ in range(pywasm.leb128.u.decode_reader(r)[0])])
+                o.args.append([ValType.from_reader(r).data for _ in range(pywasm.leb128.u.decode_reader(r)[0])])
             case pywasm.opcode.local_get:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
             case pywasm.opcode.local_set:
@@ -543,6 +545,7 @@ class Inst:
                 o.args.append(struct.unpack('<q', r.read(8))[0])
             case pywasm.opcode.ref_null:
                 o.args.append(ord(r.read(1)))
+                assert o.args[0] in [0x70, 0x6f]
             case pywasm.opcode.ref_func:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
             case pywasm.opcode.memory_init:
-- 
2.43.0


From c969249ba3dc5bc53c503a5eb33f2b43979ca5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:56 +0000
Subject: [PATCH 17/57] fix: over-aligned v128 lane and zero loads and stores
 are rejected

---
 pywasm/core.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pywasm/core.py b/pywasm/core.py
index a3ea675..d83a4e3 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -673,48 +673,58 @@ class Inst:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                assert o.args[0] < 1
                 assert o.args[2] < 16
             case pywasm.opcode.v128_load16_lane:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                assert o.args[0] < 2
                 assert o.args[2] < 8
             case pywasm.opcode.v128_load32_lane:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                assert o.args[0] < 3
                 assert o.args[2] < 4
             case pywasm.opcode.v128_load64_lane:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                assert o.args[0] < 4
                 assert o.args[2] < 2
             case pywasm.opcode.v128_store8_lane:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                assert o.args[0] < 1
                 assert o.args[2] < 16
             case pywasm.opcode.v128_store16_lane:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                assert o.args[0] < 2
                 assert o.args[2] < 8
             case pywasm.opcode.v128_store32_lane:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                assert o.args[0] < 3
                 assert o.args[2] < 4
             case pywasm.opcode.v128_store64_lane:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                assert o.args[0] < 4
                 assert o.args[2] < 2
             case pywasm.opcode.v128_load32_zero:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                assert o.args[0] < 3
             case pywasm.opcode.v128_load64_zero:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                assert o.args[0] < 4
         return o
 
 
-- 
2.43.0


From adf712f911bec11dc90efd3aaf30f30367827a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:56 +0000
Subject: [PATCH 18/57] fix: undefined limits flags and reserved bytes are
 rejected

---
 pywasm/core.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index d83a4e3..239f4cb 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -531,8 +531,10 @@ class Inst:
                 assert o.args[0] < 3
             case pywasm.opcode.memory_size:
                 o.args.append(ord(r.read(1)))
+                assert o.args[0] == 0x00
             case pywasm.opcode.memory_grow:
                 o.args.append(ord(r.read(1)))
+                assert o.args[0] == 0x00
             case pywasm.opcode.i32_const:
                 o.args.append(pywasm.leb128.i.decode_reader(r)[0])
             case pywasm.opcode.i64_const:
@@ -855,11 +857,12 @@ class Limits:
 
     @classmethod
     def from_reader(cls, r: typing.BinaryIO) -> typing.Self:
-        flag = ord(r.read(1)) != 0
+        flag = ord(r.read(1))
+        assert flag in [0x00, 0x01]
         return cls(
             pywasm.leb128.u.decode_reader(r)[0],
             pywasm.leb128.u.decode_reader(r)[0] if flag else 0x00,
-            flag,
+            flag == 0x01,
         )
 
 
-- 
2.43.0


From 1043458423b9061b555efe84224aac85b9fa9fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:56 +0000
Subject: [PATCH 19/57] fix: an else outside of an if is rejected

---
 pywasm/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pywasm/core.py b/pywasm/core.py
index 239f4cb..27a2745 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -386,6 +386,7 @@ class Inst:
                     i = Inst.from_reader(r)
                     if i.opcode == pywasm.opcode.end:
                         break
+                    assert i.opcode != pywasm.opcode.else_fi
                     o.args[1].append(i)
             case pywasm.opcode.loop:
                 o.args.append(Bype.from_reader(r))
@@ -394,6 +395,7 @@ class Inst:
                     i = Inst.from_reader(r)
                     if i.opcode == pywasm.opcode.end:
                         break
+                    assert i.opcode != pywasm.opcode.else_fi
                     o.args[1].append(i)
             case pywasm.opcode.if_then:
                 o.args.append(Bype.from_reader(r))
@@ -405,6 +407,7 @@ class Inst:
                     if i.opcode == pywasm.opcode.end:
                         break
                     if i.opcode == pywasm.opcode.else_fi:
+                        assert argidx == 1
                         argidx = 2
                         continue
                     o.args[argidx].append(i)
@@ -751,6 +754,7 @@ class Expr:
             i = Inst.from_reader(r)
             if i.opcode == pywasm.opcode.end:
                 break
+            assert i.opcode != pywasm.opcode.else_fi
             s.append(i)
         return cls(s)
 
-- 
2.43.0


From 5a9773d314082c9563afe7458e54afebf463921d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:39 +0000
Subject: [PATCH 20/57] fix: element segments of a number type are rejected at
 load

---
 pywasm/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pywasm/core.py b/pywasm/core.py
index 27a2745..516dea6 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -1174,6 +1174,7 @@ class ElemDesc:
     def __init__(self, kind: int, type: ValType, tidx: int, offset: Expr, init: typing.List[Expr]) -> typing.Self:
         assert kind >= 0x00
         assert kind <= 0x07
+        assert type in [ValType.ref_func(), ValType.ref_extern()]
         self.kind = kind
         self.type = type
         self.tidx = tidx
-- 
2.43.0


From 22924aa915e3c7363c6b7e75b231858107e95804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:48 +0000
Subject: [PATCH 21/57] fix: an instance keeps its own copy of the data
 segments of its module

---
 pywasm/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 516dea6..cc039af 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -1629,7 +1629,7 @@ class Machine:
             addr = self.store.allocate_elem(e.type, elemin[i])
             inst.elem.append(addr)
         for i, e in enumerate(module.data):
-            addr = self.store.allocate_data(e.init)
+            addr = self.store.allocate_data(e.init.copy())
             inst.data.append(addr)
         for _, e in enumerate(module.exps):
             expi = ExportInst(e.name, Extern(e.kind, 0))
-- 
2.43.0


From ef3b4320ac413e79803d7ff0694ef1a6fed2a4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:35 +0000
Subject: [PATCH 22/57] fix: invocate refuses an export that is not a function

---
 pywasm/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index cc039af..7f1269c 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -4223,7 +4223,9 @@ class Runtime:
     ) -> typing.List[int | float | bytearray]:
         # Once a module has been instantiated, any exported function can be invoked externally via its function address
         # in the store and an appropriate list of argument values.
-        addr = [e for e in module.exps if e.name == func][0].data.data
+        inst = [e for e in module.exps if e.name == func][0].data
+        assert inst.kind == 0x00
+        addr = inst.data
         func = self.machine.store.func[addr]
         assert len(func.type.args) == len(args)
         args = [ValInst.from_all(a, b) for a, b in zip(func.type.args, args)]
-- 
2.43.0


From ca595d4789857b242e6652225e1146f51a38c4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:35 +0000
Subject: [PATCH 23/57] fix: a host function that returns the wrong number of
 results traps

---
 pywasm/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pywasm/core.py b/pywasm/core.py
index 7f1269c..d4ccfa0 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -1816,6 +1816,7 @@ class Machine:
                 ))
             case 0x01:
                 rets = func.hostcode(self, [e.into_all() for e in args])
+                assert len(rets) == nret
                 rets = [ValInst.from_all(a, b) for a, b in zip(func.type.rets, rets)]
                 self.stack.value.extend(rets)
             case _:
-- 
2.43.0


From 1bc9d6e4fff1df7289365f4e3e99901ee95f9f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:49 +0000
Subject: [PATCH 24/57] fix: null references cross the boundary to the embedder
 as None

---
 pywasm/core.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index d4ccfa0..36ebd58 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -224,10 +224,8 @@ class ValInst:
                 return cls.from_f64(n)
             case 0x7b:
                 return cls.from_v128(n)
-            case 0x70:
-                return cls.from_ref(type, n)
-            case 0x6f:
-                return cls.from_ref(type, n)
+            case 0x70 | 0x6f:
+                return cls.zero(type) if n is None else cls.from_ref(type, n)
             case _:
                 assert 0
 
@@ -298,10 +296,9 @@ class ValInst:
                 return self.into_f64()
             case 0x7b:
                 return self.into_v128()
-            case 0x70:
-                return self.into_ref()
-            case 0x6f:
-                return self.into_ref()
+            case 0x70 | 0x6f:
+                # A null reference is None.
+                return self.into_ref() if self.data[4] == 0x01 else None
             case _:
                 assert 0
 
-- 
2.43.0


From 60fb8168130368755a6aaf2ae5da8cc0f232a00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:58 +0000
Subject: [PATCH 25/57] fix: invocate checks the number of arguments and leaves
 the list of the caller alone

---
 pywasm/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 36ebd58..b59dfa2 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -1742,11 +1742,12 @@ class Machine:
     def invocate(self, addr: int, args: typing.List[ValInst]) -> typing.List[ValInst]:
         func = self.store.func[addr]
         assert func.kind == 0x00
+        assert len(func.type.args) == len(args)
         for a, b in zip(func.type.args, args):
             assert a == b.type
         self.stack.frame.append(Frame(ModuleInst(), LocalsInst([]), 0, 0, 0))
         pywasm.log.debugln('invocate', addr, args)
-        locals = LocalsInst(args)
+        locals = LocalsInst(args.copy())
         for e in func.code.locals:
             locals.data.extend([ValInst.zero(e.type) for _ in range(e.n)])
         self.stack.frame.append(Frame(func.module, locals, len(func.type.rets), 0, 0))
-- 
2.43.0


From 7f0e360f24807a3b14ec4d4465eee07b3ecbfc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:58 +0000
Subject: [PATCH 26/57] fix: an exported host function can be invoked

---
 pywasm/core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index b59dfa2..0bba08a 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -1741,12 +1741,17 @@ class Machine:
 
     def invocate(self, addr: int, args: typing.List[ValInst]) -> typing.List[ValInst]:
         func = self.store.func[addr]
-        assert func.kind == 0x00
         assert len(func.type.args) == len(args)
         for a, b in zip(func.type.args, args):
             assert a == b.type
         self.stack.frame.append(Frame(ModuleInst(), LocalsInst([]), 0, 0, 0))
         pywasm.log.debugln('invocate', addr, args)
+        if func.kind == 0x01:
+            self.stack.value.extend(args)
+            self.evaluate_call(addr)
+            rets = [self.stack.value.pop() for _ in range(len(func.type.rets))][::-1]
+            self.stack.frame.pop()
+            return rets
         locals = LocalsInst(args.copy())
         for e in func.code.locals:
             locals.data.extend([ValInst.zero(e.type) for _ in range(e.n)])
-- 
2.43.0


From 25a4cf97b003b9f215c0129360625d1c80f4241f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:51 +0000
Subject: [PATCH 27/57] fix: wasi paths stay inside the directory they are
 relative to

Paths were checked by comparing string prefixes, so that a sibling directory
with the same prefix was let through, a directory mapped as '.' refused
everything, and a symbolic link followed by '..' led out of the directory.
Resolve links below the directory before handing a path to the host.
---
 pywasm/wasi.py | 91 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 59 insertions(+), 32 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index d4243e3..f958539 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -973,8 +973,8 @@ class Preview1:
     def help_badf(self, fd: int) -> bool:
         return fd < 0 or fd >= len(self.fd) or self.fd[fd].wasm_status != self.FILE_STATUS_OPENED
 
-    def help_escp(self, root: str, name: str) -> bool:
-        return not os.path.normpath(os.path.join(root, name)).startswith(root)
+    def help_escp(self, name: str) -> bool:
+        return os.path.isabs(name) or os.path.normpath(name).split('/')[0] == '..'
 
     def help_wasm_type(self, info: os.stat_result) -> int:
         match info.st_mode:
@@ -996,6 +996,38 @@ class Preview1:
     def help_idir(self, fd: int) -> bool:
         return self.fd[fd].wasm_type == self.FILETYPE_DIRECTORY
 
+    def help_path(self, fd: int, name: str, follow: int) -> typing.Optional[str]:
+        # Replace the symbolic links in a path by their targets, so that the host has none left to follow. Returns none if
+        # the path leads out of the directory, or has too many links.
+        todo = name.split('/')
+        done = []
+        deep = 0
+        hops = 0
+        if os.path.isabs(name):
+            return None
+        while todo:
+            part = todo.pop(0)
+            if part == '..':
+                deep -= 1
+                if deep < 0:
+                    return None
+            if part not in ['', '.', '..']:
+                link = None
+                if todo or follow:
+                    try:
+                        link = os.readlink('/'.join(done + [part]), dir_fd=self.fd[fd].host_fd)
+                    except OSError:
+                        pass
+                if link is not None:
+                    hops += 1
+                    if os.path.isabs(link) or hops > 40:
+                        return None
+                    todo = link.split('/') + todo
+                    continue
+                deep += 1
+            done.append(part)
+        return '/'.join(done)
+
     def help_perm(self, fd: int, perm: int) -> bool:
         return self.fd[fd].wasm_rights_base & perm == 0
 
@@ -1051,8 +1083,8 @@ class Preview1:
             return [self.ERRNO_NOTCAPABLE]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
-        name = mems.get(args[1], args[2]).decode()
-        if self.help_escp(file.wasm_name, name):
+        name = self.help_path(args[0], mems.get(args[1], args[2]).decode(), 0)
+        if name is None:
             return [self.ERRNO_PERM]
         try:
             os.mkdir(name, dir_fd=file.host_fd)
@@ -1069,8 +1101,8 @@ class Preview1:
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
         flag = args[1]
-        name = mems.get(args[2], args[3]).decode()
-        if self.help_escp(file.wasm_name, name):
+        name = self.help_path(args[0], mems.get(args[2], args[3]).decode(), flag & self.LOOKUPFLAGS_SYMLINK_FOLLOW)
+        if name is None:
             return [self.ERRNO_PERM]
         try:
             info = os.stat(name, dir_fd=file.host_fd, follow_symlinks=flag & self.LOOKUPFLAGS_SYMLINK_FOLLOW)
@@ -1099,8 +1131,8 @@ class Preview1:
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
         flag = args[1]
-        name = mems.get(args[2], args[3]).decode()
-        if self.help_escp(file.wasm_name, name):
+        name = self.help_path(args[0], mems.get(args[2], args[3]).decode(), flag & self.LOOKUPFLAGS_SYMLINK_FOLLOW)
+        if name is None:
             return [self.ERRNO_PERM]
         info = os.stat(name, dir_fd=file.host_fd)
         atim = info.st_atime_ns
@@ -1130,13 +1162,11 @@ class Preview1:
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         stem = self.fd[args[0]]
         dest = self.fd[args[4]]
-        stem_name = mems.get(args[2], args[3]).decode()
-        dest_name = mems.get(args[5], args[6]).decode()
-        if self.help_escp(stem.wasm_name, stem_name):
-            return [self.ERRNO_PERM]
-        if self.help_escp(dest.wasm_name, dest_name):
-            return [self.ERRNO_PERM]
         foll = args[1] & self.LOOKUPFLAGS_SYMLINK_FOLLOW
+        stem_name = self.help_path(args[0], mems.get(args[2], args[3]).decode(), foll)
+        dest_name = self.help_path(args[4], mems.get(args[5], args[6]).decode(), 0)
+        if stem_name is None or dest_name is None:
+            return [self.ERRNO_PERM]
         try:
             os.link(stem_name, dest_name, src_dir_fd=stem.host_fd, dst_dir_fd=dest.host_fd, follow_symlinks=foll)
         except FileExistsError:
@@ -1156,12 +1186,13 @@ class Preview1:
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
         name = mems.get(args[2], args[3]).decode()
-        wasm_name = os.path.normpath(os.path.join(file.wasm_name, name))
-        host_name = os.path.normpath(os.path.join(file.host_name, name))
         if '\0' in name:
             return [self.ERRNO_ILSEQ]
-        if self.help_escp(file.host_name, name):
+        name = self.help_path(args[0], name, args[1] & self.LOOKUPFLAGS_SYMLINK_FOLLOW)
+        if name is None:
             return [self.ERRNO_PERM]
+        wasm_name = os.path.normpath(os.path.join(file.wasm_name, name))
+        host_name = os.path.normpath(os.path.join(file.host_name, name))
         flag = 0
         if args[1] & self.LOOKUPFLAGS_SYMLINK_FOLLOW == 0:
             flag |= os.O_NOFOLLOW
@@ -1252,8 +1283,8 @@ class Preview1:
             return [self.ERRNO_NOTCAPABLE]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
-        name = mems.get(args[1], args[2]).decode()
-        if self.help_escp(file.wasm_name, name):
+        name = self.help_path(args[0], mems.get(args[1], args[2]).decode(), 0)
+        if name is None:
             return [self.ERRNO_PERM]
         try:
             data = os.readlink(name, dir_fd=file.host_fd)
@@ -1272,8 +1303,8 @@ class Preview1:
             return [self.ERRNO_NOTCAPABLE]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
-        name = mems.get(args[1], args[2]).decode()
-        if self.help_escp(file.wasm_name, name):
+        name = self.help_path(args[0], mems.get(args[1], args[2]).decode(), 0)
+        if name is None:
             return [self.ERRNO_PERM]
         try:
             os.rmdir(name, dir_fd=file.host_fd)
@@ -1298,11 +1329,9 @@ class Preview1:
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         stem = self.fd[args[0]]
         dest = self.fd[args[3]]
-        stem_name = mems.get(args[1], args[2]).decode()
-        dest_name = mems.get(args[4], args[5]).decode()
-        if self.help_escp(stem.wasm_name, stem_name):
-            return [self.ERRNO_PERM]
-        if self.help_escp(dest.wasm_name, dest_name):
+        stem_name = self.help_path(args[0], mems.get(args[1], args[2]).decode(), 0)
+        dest_name = self.help_path(args[3], mems.get(args[4], args[5]).decode(), 0)
+        if stem_name is None or dest_name is None:
             return [self.ERRNO_PERM]
         try:
             os.rename(stem_name, dest_name, src_dir_fd=stem.host_fd, dst_dir_fd=dest.host_fd)
@@ -1331,10 +1360,8 @@ class Preview1:
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[2]]
         stem = mems.get(args[0], args[1]).decode()
-        dest = mems.get(args[3], args[4]).decode()
-        if self.help_escp(file.wasm_name, stem):
-            return [self.ERRNO_PERM]
-        if self.help_escp(file.wasm_name, dest):
+        dest = self.help_path(args[2], mems.get(args[3], args[4]).decode(), 0)
+        if self.help_escp(stem) or dest is None:
             return [self.ERRNO_PERM]
         try:
             os.symlink(stem, dest, dir_fd=file.host_fd)
@@ -1354,8 +1381,8 @@ class Preview1:
             return [self.ERRNO_NOTCAPABLE]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
-        name = mems.get(args[1], args[2]).decode()
-        if self.help_escp(file.wasm_name, name):
+        name = self.help_path(args[0], mems.get(args[1], args[2]).decode(), 0)
+        if name is None:
             return [self.ERRNO_PERM]
         try:
             os.unlink(name, dir_fd=file.host_fd)
-- 
2.43.0


From bed9dba7a3977eca93095bde4f4e9eefaf82a089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:51 +0000
Subject: [PATCH 28/57] fix: wasi path_filestat_set_times keeps the other time
 of a symbolic link itself, and reports a missing file

---
 pywasm/wasi.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index f958539..a4a295b 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1134,7 +1134,10 @@ class Preview1:
         name = self.help_path(args[0], mems.get(args[2], args[3]).decode(), flag & self.LOOKUPFLAGS_SYMLINK_FOLLOW)
         if name is None:
             return [self.ERRNO_PERM]
-        info = os.stat(name, dir_fd=file.host_fd)
+        try:
+            info = os.stat(name, dir_fd=file.host_fd, follow_symlinks=flag & self.LOOKUPFLAGS_SYMLINK_FOLLOW)
+        except FileNotFoundError:
+            return [self.ERRNO_NOENT]
         atim = info.st_atime_ns
         if args[6] & self.FSTFLAGS_ATIM:
             atim = args[4]
@@ -1145,10 +1148,7 @@ class Preview1:
             mtim = args[5]
         if args[6] & self.FSTFLAGS_MTIM_NOW:
             mtim = time.time_ns()
-        try:
-            os.utime(name, ns=(atim, mtim), dir_fd=file.host_fd, follow_symlinks=flag & self.LOOKUPFLAGS_SYMLINK_FOLLOW)
-        except FileNotFoundError:
-            return [self.ERRNO_NOENT]
+        os.utime(name, ns=(atim, mtim), dir_fd=file.host_fd, follow_symlinks=flag & self.LOOKUPFLAGS_SYMLINK_FOLLOW)
         return [self.ERRNO_SUCCESS]
 
     def path_link(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
-- 
2.43.0


From 67775878509df361b6b6ffd5c75c590dc684f523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:33 +0000
Subject: [PATCH 29/57] fix: wasi path_open gives no more rights than the
 directory's inheriting rights

---
 pywasm/wasi.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index a4a295b..4a3c40b 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1193,6 +1193,9 @@ class Preview1:
             return [self.ERRNO_PERM]
         wasm_name = os.path.normpath(os.path.join(file.wasm_name, name))
         host_name = os.path.normpath(os.path.join(file.host_name, name))
+        # A descriptor never has more rights than the inheriting rights of the directory it is opened from.
+        rights_base = args[5] & file.wasm_rights_root
+        rights_root = args[6] & file.wasm_rights_root
         flag = 0
         if args[1] & self.LOOKUPFLAGS_SYMLINK_FOLLOW == 0:
             flag |= os.O_NOFOLLOW
@@ -1206,11 +1209,11 @@ class Preview1:
             flag |= os.O_TRUNC
             if file.wasm_rights_base & self.RIGHTS_PATH_FILESTAT_SET_SIZE == 0:
                 return [self.ERRNO_PERM]
-        if args[5] & self.RIGHTS_FD_READ + self.RIGHTS_FD_WRITE == self.RIGHTS_FD_READ:
+        if rights_base & self.RIGHTS_FD_READ + self.RIGHTS_FD_WRITE == self.RIGHTS_FD_READ:
             flag |= os.O_RDONLY
-        if args[5] & self.RIGHTS_FD_READ + self.RIGHTS_FD_WRITE == self.RIGHTS_FD_WRITE:
+        if rights_base & self.RIGHTS_FD_READ + self.RIGHTS_FD_WRITE == self.RIGHTS_FD_WRITE:
             flag |= os.O_WRONLY
-        if args[5] & self.RIGHTS_FD_READ + self.RIGHTS_FD_WRITE == self.RIGHTS_FD_READ + self.RIGHTS_FD_WRITE:
+        if rights_base & self.RIGHTS_FD_READ + self.RIGHTS_FD_WRITE == self.RIGHTS_FD_READ + self.RIGHTS_FD_WRITE:
             flag |= os.O_RDWR
         if args[7] & self.FDFLAGS_APPEND:
             flag |= os.O_APPEND
@@ -1231,8 +1234,6 @@ class Preview1:
             if platform.system().lower() == 'linux' and e.errno == 40:
                 return [self.ERRNO_LOOP]
             raise e
-        rights_base = args[5]
-        rights_root = args[6]
         # Drectory does not have the seek right.
         if os.path.isdir(host_fd):
             void = self.RIGHTS_FD_SEEK
-- 
2.43.0


From a89ffee40a6d40d6788212d31a879cf25c1a9253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:33 +0000
Subject: [PATCH 30/57] fix: wasi path_open creates a file only with the right
 to

---
 pywasm/wasi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 4a3c40b..fc190a0 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1201,6 +1201,8 @@ class Preview1:
             flag |= os.O_NOFOLLOW
         if args[4] & self.OFLAGS_CREAT:
             flag |= os.O_CREAT
+            if self.help_perm(args[0], self.RIGHTS_PATH_CREATE_FILE):
+                return [self.ERRNO_NOTCAPABLE]
         if args[4] & self.OFLAGS_DIRECTORY:
             flag |= os.O_DIRECTORY
         if args[4] & self.OFLAGS_EXCL:
-- 
2.43.0


From 2830ec87446b8f997c4e7eb82cad0eccb2dfe6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:33 +0000
Subject: [PATCH 31/57] fix: wasi sock_accept returns a working descriptor

---
 pywasm/wasi.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index fc190a0..de9d534 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1512,13 +1512,17 @@ class Preview1:
             self.FILETYPE_SOCKET_DGRAM: socket.SOCK_DGRAM,
         }[file.wasm_type]
         sock = socket.fromfd(file.host_fd, socket.AF_INET, kype)
-        if args[1] & self.FDFLAGS_NONBLOCK:
-            sock.setblocking(False)
         conn, _ = sock.accept()
-        host_fd = conn.fileno()
+        flag = os.O_RDWR
+        if args[1] & self.FDFLAGS_NONBLOCK:
+            flag |= os.O_NONBLOCK
+        conn.setblocking(args[1] & self.FDFLAGS_NONBLOCK == 0)
+        # The descriptor outlives the socket object.
+        host_fd = conn.detach()
         wasm_fd = len(self.fd)
         self.fd.append(self.File(
             host_fd=host_fd,
+            host_flag=flag,
             host_name=file.host_name,
             host_status=self.FILE_STATUS_OPENED,
             pipe=None,
-- 
2.43.0


From 050d8950b5f802626ac7faa66709805bdb2066ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:38 +0000
Subject: [PATCH 32/57] fix: wasi fd_renumber onto itself keeps the descriptor

---
 pywasm/wasi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index de9d534..1f081e0 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -877,6 +877,8 @@ class Preview1:
     def fd_renumber(self, _: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
         if self.help_badf(args[0]) or self.help_badf(args[1]):
             return [self.ERRNO_BADF]
+        if args[0] == args[1]:
+            return [self.ERRNO_SUCCESS]
         stem = self.fd[args[0]]
         dest = self.fd[args[1]]
         if dest.wasm_type != self.FILETYPE_CHARACTER_DEVICE:
-- 
2.43.0


From e17f445416aac9030c1f716ca76ccf1311137865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:38 +0000
Subject: [PATCH 33/57] fix: wasi closes every host file it opened, character
 devices and renumbered ones included

---
 pywasm/wasi.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 1f081e0..4f5d7f8 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -456,6 +456,8 @@ class Preview1:
             wasm_status=self.FILE_STATUS_OPENED,
             wasm_type=self.FILETYPE_CHARACTER_DEVICE,
         ))
+        # The standard streams belong to the python process, they are never closed.
+        self.host_stdio = [e.host_fd for e in self.fd]
         for k, v in sorted(self.dirs.items()):
             k = os.path.normpath(k)
             v = os.path.abspath(os.path.normpath(v))
@@ -621,7 +623,7 @@ class Preview1:
         if self.help_badf(args[0]):
             return [self.ERRNO_BADF]
         file = self.fd[args[0]]
-        if file.wasm_type != self.FILETYPE_CHARACTER_DEVICE:
+        if file.host_fd not in self.host_stdio:
             os.close(file.host_fd)
             file.host_status = self.FILE_STATUS_CLOSED
         file.wasm_status = self.FILE_STATUS_CLOSED
@@ -881,7 +883,7 @@ class Preview1:
             return [self.ERRNO_SUCCESS]
         stem = self.fd[args[0]]
         dest = self.fd[args[1]]
-        if dest.wasm_type != self.FILETYPE_CHARACTER_DEVICE:
+        if dest.host_fd not in self.host_stdio:
             os.close(dest.host_fd)
         dest.host_fd = stem.host_fd
         dest.host_flag = stem.host_flag
@@ -1070,8 +1072,8 @@ class Preview1:
             for e in self.fd[self.FD_STDOUT: self.FD_STDERR + 1]:
                 if e.pipe:
                     e.pipe.seek(0)
-            for e in self.fd[self.FD_STDERR + 1:]:
-                if e.wasm_type == self.FILETYPE_CHARACTER_DEVICE:
+            for e in self.fd:
+                if e.host_fd in self.host_stdio:
                     continue
                 if e.host_status != self.FILE_STATUS_CLOSED:
                     os.close(e.host_fd)
-- 
2.43.0


From 11286fa1ef4d32354d812c9939ebd9821bfa83c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:38 +0000
Subject: [PATCH 34/57] fix: wasi renumbered pipe stays a pipe

---
 pywasm/wasi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 4f5d7f8..778c9e3 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1036,7 +1036,7 @@ class Preview1:
         return self.fd[fd].wasm_rights_base & perm == 0
 
     def help_pipe(self, fd: int) -> bool:
-        return fd < 3 and self.fd[fd].pipe is not None
+        return self.fd[fd].pipe is not None
 
     def help_sock(self, fd: int) -> bool:
         return self.fd[fd].wasm_type not in [self.FILETYPE_SOCKET_DGRAM, self.FILETYPE_SOCKET_STREAM]
-- 
2.43.0


From 655e6203b7f8757d16d0a99cfe9551fcda782325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:19 +0000
Subject: [PATCH 35/57] fix: memory accessors refuse ranges outside the memory

---
 pywasm/core.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 0bba08a..886ee5b 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -903,24 +903,25 @@ class MemInst:
         self.grow(type.limits.n)
 
     def get_i32(self, addr: int) -> int:
-        return struct.unpack('<i', self.data[addr:addr+4])[0]
+        return struct.unpack('<i', self.get(addr, 4))[0]
 
     def get_i64(self, addr: int) -> int:
-        return struct.unpack('<q', self.data[addr:addr+8])[0]
+        return struct.unpack('<q', self.get(addr, 8))[0]
 
     def get_u8(self, addr: int) -> int:
-        return self.data[addr]
+        return self.get(addr, 1)[0]
 
     def get_u16(self, addr: int) -> int:
-        return struct.unpack('<H', self.data[addr:addr+2])[0]
+        return struct.unpack('<H', self.get(addr, 2))[0]
 
     def get_u32(self, addr: int) -> int:
-        return struct.unpack('<I', self.data[addr:addr+4])[0]
+        return struct.unpack('<I', self.get(addr, 4))[0]
 
     def get_u64(self, addr: int) -> int:
-        return struct.unpack('<Q', self.data[addr:addr+8])[0]
+        return struct.unpack('<Q', self.get(addr, 8))[0]
 
     def get(self, addr: int, size: int) -> bytearray:
+        assert 0 <= addr <= addr + size <= len(self.data)
         return self.data[addr:addr+size].copy()
 
     def grow(self, n: int) -> None:
@@ -931,25 +932,26 @@ class MemInst:
         self.size += n
 
     def put_i32(self, addr: int, data: int) -> None:
-        self.data[addr:addr+4] = struct.pack('<i', data)
+        self.put(addr, bytearray(struct.pack('<i', data)))
 
     def put_i64(self, addr: int, data: int) -> None:
-        self.data[addr:addr+8] = struct.pack('<q', data)
+        self.put(addr, bytearray(struct.pack('<q', data)))
 
     def put_u8(self, addr: int, data: int) -> None:
-        self.data[addr] = data
+        self.put(addr, bytearray([data]))
 
     def put_u16(self, addr: int, data: int) -> None:
-        self.data[addr:addr+2] = struct.pack('<H', data)
+        self.put(addr, bytearray(struct.pack('<H', data)))
 
     def put_u32(self, addr: int, data: int) -> None:
-        self.data[addr:addr+4] = struct.pack('<I', data)
+        self.put(addr, bytearray(struct.pack('<I', data)))
 
     def put_u64(self, addr: int, data: int) -> None:
-        self.data[addr:addr+8] = struct.pack('<Q', data)
+        self.put(addr, bytearray(struct.pack('<Q', data)))
 
     def put(self, addr: int, data: bytearray) -> None:
         assert isinstance(data, bytearray)
+        assert 0 <= addr <= addr + len(data) <= len(self.data)
         self.data[addr:addr+len(data)] = data.copy()
 
     def suit(self, l: Limits) -> bool:
-- 
2.43.0


From 1f2fbaec252f6d8811c3e04af57f786c3ad29f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:45 +0000
Subject: [PATCH 36/57] fix: wasi counts arguments and environment variables in
 bytes

---
 pywasm/wasi.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 778c9e3..6f2e53c 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -489,8 +489,9 @@ class Preview1:
         for e in self.args:
             mems.put_u32(argv, argv_buf)
             argv += 4
-            mems.put(argv_buf, bytearray(e.encode()))
-            argv_buf += len(e)
+            data = bytearray(e.encode())
+            mems.put(argv_buf, data)
+            argv_buf += len(data)
             mems.put_u8(argv_buf, 0)
             argv_buf += 1
         return [self.ERRNO_SUCCESS]
@@ -499,7 +500,7 @@ class Preview1:
         # Return command-line argument data sizes.
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         mems.put_u32(args[0], len(self.args))
-        mems.put_u32(args[1], sum([len(e) + 1 for e in self.args]))
+        mems.put_u32(args[1], sum([len(e.encode()) + 1 for e in self.args]))
         return [self.ERRNO_SUCCESS]
 
     def bind(self, runtime: pywasm.core.Runtime) -> None:
@@ -579,8 +580,9 @@ class Preview1:
         for e in self.envs:
             mems.put_u32(environ, environ_buf)
             environ += 4
-            mems.put(environ_buf, bytearray(e.encode()))
-            environ_buf += len(e)
+            data = bytearray(e.encode())
+            mems.put(environ_buf, data)
+            environ_buf += len(data)
             mems.put_u8(environ_buf, 0)
             environ_buf += 1
         return [self.ERRNO_SUCCESS]
@@ -589,7 +591,7 @@ class Preview1:
         # Return environment variable data sizes.
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         mems.put_u32(args[0], len(self.envs))
-        mems.put_u32(args[1], sum([len(e) + 1 for e in self.envs]))
+        mems.put_u32(args[1], sum([len(e.encode()) + 1 for e in self.envs]))
         return [self.ERRNO_SUCCESS]
 
     def fd_advise(self, _: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
-- 
2.43.0


From 25b93be959d3cacb622c004c0a95b91da79fe945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:45 +0000
Subject: [PATCH 37/57] fix: wasi fd_prestat reports the preopened directories
 only

---
 pywasm/wasi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 6f2e53c..6af27aa 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -774,7 +774,7 @@ class Preview1:
 
     def fd_prestat_dir_name(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
         # Return a description of the given preopened file descriptor.
-        if self.help_badf(args[0]) or args[0] - 2 > len(self.dirs):
+        if self.help_badf(args[0]) or args[0] < 3 or args[0] - 3 >= len(self.dirs):
             return [self.ERRNO_BADF]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
@@ -786,7 +786,7 @@ class Preview1:
 
     def fd_prestat_get(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
         # Return a description of the given preopened file descriptor.
-        if self.help_badf(args[0]) or args[0] - 2 > len(self.dirs):
+        if self.help_badf(args[0]) or args[0] < 3 or args[0] - 3 >= len(self.dirs):
             return [self.ERRNO_BADF]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
-- 
2.43.0


From 7ec1e44a68c5f568679d3cb40fe76e35cbb0fdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:45 +0000
Subject: [PATCH 38/57] fix: wasi fd_filestat_get reports the open file,
 whatever its name denotes now

---
 pywasm/wasi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 6af27aa..3477533 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -697,7 +697,7 @@ class Preview1:
             return [self.ERRNO_NOTCAPABLE]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
-        info = os.stat(file.host_name)
+        info = os.fstat(file.host_fd)
         mems.put_u64(args[1], 1)
         mems.put_u64(args[1] + 8, info.st_ino)
         mems.put_u8(args[1] + 16, file.wasm_type)
-- 
2.43.0


From 795e7bf87fd9ce0247db8209f389bf8ae2b5ddf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:45 +0000
Subject: [PATCH 39/57] fix: wasi path_readlink counts in bytes

---
 pywasm/wasi.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 3477533..c36ff62 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1299,8 +1299,9 @@ class Preview1:
             data = os.readlink(name, dir_fd=file.host_fd)
         except FileNotFoundError:
             return [self.ERRNO_NOENT]
-        size = min(len(data), args[4])
-        mems.put(args[3], bytearray(data[:size].encode()))
+        data = bytearray(data.encode())
+        size = min(len(data), args[4] & 0xffffffff)
+        mems.put(args[3], data[:size])
         mems.put_u32(args[5], size)
         return [self.ERRNO_SUCCESS]
 
-- 
2.43.0


From ce54e9eb4c2ead7139ae226e0fafe8c6c0127c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:45 +0000
Subject: [PATCH 40/57] fix: wasi fd_readdir fills the buffer with whole names
 counted in bytes, and does not follow links

---
 pywasm/wasi.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index c36ff62..459e768 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -856,26 +856,25 @@ class Preview1:
             return [self.ERRNO_NOTCAPABLE]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
-        dirent = args[1]
-        buflen = args[2]
-        bufend = dirent + buflen
-        cookie = args[3]
+        dirent = bytearray()
+        buflen = args[2] & 0xffffffff
+        cookie = args[3] & 0xffffffffffffffff
         result = ['.', '..', *sorted(os.listdir(file.host_fd))]
         for name in result[cookie:]:
-            if dirent + 24 > bufend:
+            if len(dirent) >= buflen:
                 break
-            info = os.stat(os.path.normpath(os.path.join(file.host_name, name)))
-            mems.put_u64(dirent, cookie + 1)
-            mems.put_u64(dirent + 8, info.st_ino)
-            mems.put_u32(dirent + 16, len(name))
-            mems.put_u8(dirent + 20, self.help_wasm_type(info))
-            dirent += 24
-            if dirent + len(name) > bufend:
-                break
-            mems.put(dirent, bytearray(name.encode()))
-            dirent += len(name)
+            info = os.stat(name, dir_fd=file.host_fd, follow_symlinks=False)
+            data = name.encode()
             cookie += 1
-        mems.put_u32(args[4], dirent - args[1] if cookie >= len(result) else buflen)
+            dirent.extend(cookie.to_bytes(8, 'little'))
+            dirent.extend(info.st_ino.to_bytes(8, 'little'))
+            dirent.extend(len(data).to_bytes(4, 'little'))
+            dirent.extend(self.help_wasm_type(info).to_bytes(4, 'little'))
+            dirent.extend(data)
+        # The last entry may be truncated.
+        dirent = dirent[:buflen]
+        mems.put(args[1], dirent)
+        mems.put_u32(args[4], len(dirent))
         return [self.ERRNO_SUCCESS]
 
     def fd_renumber(self, _: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
-- 
2.43.0


From 4b91e115ec9582dc5b9ff61f4a08ff83374fab58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:30 +0000
Subject: [PATCH 41/57] fix: wasi sock_recv reports truncation of a datagram
 only, in 16 bits

---
 pywasm/wasi.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 459e768..fabdb5f 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1573,13 +1573,10 @@ class Preview1:
             size_all += elem_len
             iovs_ptr += 8
         try:
-            data = sock.recv(size_all, ri_flags)
+            data, _, msg_flags, _ = sock.recvmsg(size_all, 0, ri_flags)
         except BrokenPipeError:
             return [self.ERRNO_PIPE]
         data_len = len(data)
-        # If no data received, check for connection closure.
-        if data_len == 0 and file.wasm_type == self.FILETYPE_SOCKET_STREAM:
-            ro_flags |= self.EVENTRWFLAGS_FD_READWRITE_HANGUP
         # Distribute data across iovec buffers.
         iovs_ptr = args[1]
         offs = 0
@@ -1593,10 +1590,10 @@ class Preview1:
                 mems.put(elem_ptr, bytearray(data[offs:offs + size]))
                 offs += size
             iovs_ptr += 8
-        if data_len < size_all:
+        if msg_flags & socket.MSG_TRUNC:
             ro_flags |= self.ROFLAGS_RECV_DATA_TRUNCATED
         mems.put_u32(args[4], data_len)
-        mems.put_u32(args[5], ro_flags)
+        mems.put_u16(args[5], ro_flags)
         return [self.ERRNO_SUCCESS]
 
     def sock_send(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
-- 
2.43.0


From b440adc71949003e17d2ef26339f45533cf1fb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:32 +0000
Subject: [PATCH 42/57] fix: wasi reports host errors and ill-formed names to
 the program instead of aborting it

---
 pywasm/wasi.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index fabdb5f..f49fdc3 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1,4 +1,5 @@
 import dataclasses
+import errno
 import fcntl
 import os
 import platform
@@ -557,7 +558,7 @@ class Preview1:
         runtime.imports['wasi_snapshot_preview1'] = {}
         for e in vec:
             funkype = pywasm.core.FuncType(e[1], e[2])
-            runtime.imports['wasi_snapshot_preview1'][e[0]] = runtime.allocate_func_host(funkype, e[3])
+            runtime.imports['wasi_snapshot_preview1'][e[0]] = runtime.allocate_func_host(funkype, self.help_call(e[3]))
 
     def clock_res_get(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
         # Return the resolution of a clock.
@@ -978,6 +979,26 @@ class Preview1:
     def help_badf(self, fd: int) -> bool:
         return fd < 0 or fd >= len(self.fd) or self.fd[fd].wasm_status != self.FILE_STATUS_OPENED
 
+    def help_call(self, func: typing.Callable) -> typing.Callable:
+        # Errors of the host are reported to the program by number.
+        def call(m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
+            try:
+                return func(m, args)
+            except OSError as e:
+                return [self.help_errno(e.errno)]
+            except OverflowError:
+                return [self.ERRNO_OVERFLOW]
+            except ValueError:
+                # A name that is not valid utf-8, or contains zeros.
+                return [self.ERRNO_ILSEQ]
+        return call
+
+    def help_errno(self, code: int) -> int:
+        for k, v in vars(Preview1).items():
+            if k.startswith('ERRNO_') and getattr(errno, 'E' + k.removeprefix('ERRNO_'), -1) == code:
+                return v
+        return self.ERRNO_IO
+
     def help_escp(self, name: str) -> bool:
         return os.path.isabs(name) or os.path.normpath(name).split('/')[0] == '..'
 
-- 
2.43.0


From fd33a50ea8fc51a56f59ecb6cfc976ad32b446e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:49 +0000
Subject: [PATCH 43/57] fix: wasi reads fill every buffer, and lose nothing
 when the host fails

---
 pywasm/wasi.py | 65 +++++++++++++++++++++++++-------------------------
 1 file changed, 32 insertions(+), 33 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index f49fdc3..568af65 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -756,21 +756,10 @@ class Preview1:
             return [self.ERRNO_NOTCAPABLE]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
-        iovs_ptr = args[1]
-        iovs_len = args[2]
-        offs = args[3]
-        for _ in range(iovs_len):
-            elem_ptr = mems.get_u32(iovs_ptr)
-            elem_len = mems.get_u32(iovs_ptr + 4)
-            data = os.pread(file.host_fd, elem_len, offs)
-            if len(data) == 0:
-                break
-            mems.put(elem_ptr, bytearray(data))
-            iovs_ptr += 8
-            offs += len(data)
-            if len(data) < elem_len:
-                break
-        mems.put_u32(args[4], offs - args[3])
+        iovs = self.help_iovs(mems, args[1], args[2])
+        data = os.pread(file.host_fd, sum([e[1] for e in iovs]), args[3])
+        self.help_scat(mems, iovs, data)
+        mems.put_u32(args[4], len(data))
         return [self.ERRNO_SUCCESS]
 
     def fd_prestat_dir_name(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
@@ -829,24 +818,14 @@ class Preview1:
             return [self.ERRNO_NOTCAPABLE]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
-        iovs_ptr = args[1]
-        iovs_len = args[2]
-        size = 0
-        for _ in range(iovs_len):
-            elem_ptr = mems.get_u32(iovs_ptr)
-            elem_len = mems.get_u32(iovs_ptr + 4)
-            data = [
-                lambda: os.read(file.host_fd, elem_len),
-                lambda: file.pipe.read(elem_len),
-            ][self.help_pipe(args[0])]()
-            if len(data) == 0:
-                break
-            mems.put(elem_ptr, bytearray(data))
-            iovs_ptr += 8
-            size += len(data)
-            if len(data) < elem_len:
-                break
-        mems.put_u32(args[3], size)
+        iovs = self.help_iovs(mems, args[1], args[2])
+        size = sum([e[1] for e in iovs])
+        data = [
+            lambda: os.read(file.host_fd, size),
+            lambda: file.pipe.read(size),
+        ][self.help_pipe(args[0])]()
+        self.help_scat(mems, iovs, data)
+        mems.put_u32(args[3], len(data))
         return [self.ERRNO_SUCCESS]
 
     def fd_readdir(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
@@ -1022,6 +1001,16 @@ class Preview1:
     def help_idir(self, fd: int) -> bool:
         return self.fd[fd].wasm_type == self.FILETYPE_DIRECTORY
 
+    def help_iovs(self, mems: pywasm.core.MemInst, ptr: int, num: int) -> typing.List[typing.Tuple[int, int]]:
+        # Get the address and the size of each buffer. All of them have to be inside the memory.
+        iovs = []
+        for i in range(num):
+            elem_ptr = mems.get_u32(ptr + i * 8)
+            elem_len = mems.get_u32(ptr + i * 8 + 4)
+            assert elem_ptr + elem_len <= len(mems.data)
+            iovs.append((elem_ptr, elem_len))
+        return iovs
+
     def help_path(self, fd: int, name: str, follow: int) -> typing.Optional[str]:
         # Replace the symbolic links in a path by their targets, so that the host has none left to follow. Returns none if
         # the path leads out of the directory, or has too many links.
@@ -1060,6 +1049,16 @@ class Preview1:
     def help_pipe(self, fd: int) -> bool:
         return self.fd[fd].pipe is not None
 
+    def help_scat(
+        self, mems: pywasm.core.MemInst, iovs: typing.List[typing.Tuple[int, int]], data: typing.ByteString,
+    ) -> None:
+        # Distribute data across buffers.
+        offs = 0
+        for elem_ptr, elem_len in iovs:
+            size = min(elem_len, len(data) - offs)
+            mems.put(elem_ptr, bytearray(data[offs:offs + size]))
+            offs += size
+
     def help_sock(self, fd: int) -> bool:
         return self.fd[fd].wasm_type not in [self.FILETYPE_SOCKET_DGRAM, self.FILETYPE_SOCKET_STREAM]
 
-- 
2.43.0


From 5160be96ca1ca8d42c05b2a28a4ab1cdad9ffe9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:49 +0000
Subject: [PATCH 44/57] fix: wasi fd_seek leaves the offset alone when it fails

---
 pywasm/wasi.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 568af65..01f055a 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -895,10 +895,9 @@ class Preview1:
         assert self.WHENCE_END == os.SEEK_END
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
-        ocur = os.lseek(file.host_fd, 0, args[2])
-        # Seek before byte 0 is an error though.
-        if ocur + args[1] < 0:
+        if args[2] not in [self.WHENCE_SET, self.WHENCE_CUR, self.WHENCE_END]:
             return [self.ERRNO_INVAL]
+        # Seek before byte 0 is an error though, the host reports it.
         offs = os.lseek(file.host_fd, args[1], args[2])
         mems.put_u64(args[3], offs)
         return [self.ERRNO_SUCCESS]
-- 
2.43.0


From a1c0edaff1b8a06da3ddc7eed16fa5effb8584b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:49 +0000
Subject: [PATCH 45/57] fix: wasi fd_allocate refuses negative ranges and
 allocates all of the range

---
 pywasm/wasi.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 01f055a..a789299 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -612,13 +612,11 @@ class Preview1:
         if self.help_perm(args[0], self.RIGHTS_FD_ALLOCATE):
             return [self.ERRNO_NOTCAPABLE]
         file = self.fd[args[0]]
-        size = args[1] + args[2] - os.stat(file.host_fd).st_size
-        if size <= 0:
-            return [self.ERRNO_SUCCESS]
-        offs = os.lseek(file.host_fd, 0, os.SEEK_CUR)
-        os.lseek(file.host_fd, 0, os.SEEK_END)
-        os.write(file.host_fd, bytearray(size))
-        os.lseek(file.host_fd, offs, os.SEEK_SET)
+        if args[1] < 0 or args[2] < 0:
+            return [self.ERRNO_INVAL]
+        size = args[1] + args[2]
+        if size > os.fstat(file.host_fd).st_size:
+            os.ftruncate(file.host_fd, size)
         return [self.ERRNO_SUCCESS]
 
     def fd_close(self, _: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
-- 
2.43.0


From 1557b3cff89c857a865e0263bea9d11bc62b1b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:08 +0000
Subject: [PATCH 46/57] fix: wasi sets timestamps to the current time when
 asked, and takes them as unsigned

---
 pywasm/wasi.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index a789299..eb7b0ae 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -733,14 +733,14 @@ class Preview1:
         info = os.stat(file.host_fd)
         atim = info.st_atime_ns
         if args[3] & self.FSTFLAGS_ATIM:
-            atim = args[1]
+            atim = args[1] & 0xffffffffffffffff
         if args[3] & self.FSTFLAGS_ATIM_NOW:
             atim = time.time_ns()
         mtim = info.st_mtime_ns
         if args[3] & self.FSTFLAGS_MTIM:
-            mtim = args[2]
+            mtim = args[2] & 0xffffffffffffffff
         if args[3] & self.FSTFLAGS_MTIM_NOW:
-            mtim = args[2]
+            mtim = time.time_ns()
         os.utime(file.host_fd, ns=(atim, mtim))
         return [self.ERRNO_SUCCESS]
 
@@ -1162,12 +1162,12 @@ class Preview1:
             return [self.ERRNO_NOENT]
         atim = info.st_atime_ns
         if args[6] & self.FSTFLAGS_ATIM:
-            atim = args[4]
+            atim = args[4] & 0xffffffffffffffff
         if args[6] & self.FSTFLAGS_ATIM_NOW:
             atim = time.time_ns()
         mtim = info.st_mtime_ns
         if args[6] & self.FSTFLAGS_MTIM:
-            mtim = args[5]
+            mtim = args[5] & 0xffffffffffffffff
         if args[6] & self.FSTFLAGS_MTIM_NOW:
             mtim = time.time_ns()
         os.utime(name, ns=(atim, mtim), dir_fd=file.host_fd, follow_symlinks=flag & self.LOOKUPFLAGS_SYMLINK_FOLLOW)
-- 
2.43.0


From 11dc2a406b57e28bebf28ed62ed9847c653b946f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:08 +0000
Subject: [PATCH 47/57] fix: wasi fd_fdstat_set_flags can change the nonblock
 flag

---
 pywasm/wasi.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index eb7b0ae..d79e1ad 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -657,21 +657,18 @@ class Preview1:
         if self.help_perm(args[0], self.RIGHTS_FD_FDSTAT_SET_FLAGS):
             return [self.ERRNO_NOTCAPABLE]
         file = self.fd[args[0]]
-        fyes = self.FDFLAGS_APPEND | self.FDFLAGS_APPEND
+        fyes = self.FDFLAGS_APPEND | self.FDFLAGS_NONBLOCK
         if file.wasm_flag ^ args[1] | fyes != fyes:
             # Only support changing the NONBLOCK or APPEND flags.
             return [self.ERRNO_INVAL]
-        file.host_flag &= ~os.O_APPEND
-        file.host_flag &= ~os.O_NONBLOCK
-        file.wasm_flag &= ~self.FDFLAGS_APPEND
-        file.wasm_flag &= ~self.FDFLAGS_NONBLOCK
+        flag = file.host_flag & ~(os.O_APPEND | os.O_NONBLOCK)
         if args[1] & self.FDFLAGS_APPEND:
-            file.host_flag |= os.O_APPEND
-            file.wasm_flag |= self.FDFLAGS_APPEND
+            flag |= os.O_APPEND
         if args[1] & self.FDFLAGS_NONBLOCK:
-            file.host_flag |= os.O_NONBLOCK
-            file.wasm_flag |= self.FDFLAGS_NONBLOCK
-        fcntl.fcntl(file.host_fd, fcntl.F_SETFL, file.host_flag)
+            flag |= os.O_NONBLOCK
+        fcntl.fcntl(file.host_fd, fcntl.F_SETFL, flag)
+        file.host_flag = flag
+        file.wasm_flag = args[1]
         return [self.ERRNO_SUCCESS]
 
     def fd_fdstat_set_rights(self, _: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
-- 
2.43.0


From 5395e141c1af00475def34e2481a8849ec865f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:08 +0000
Subject: [PATCH 48/57] fix: wasi path_open passes on every descriptor flag

---
 pywasm/wasi.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index d79e1ad..16e3c31 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1238,6 +1238,14 @@ class Preview1:
             flag |= os.O_RDWR
         if args[7] & self.FDFLAGS_APPEND:
             flag |= os.O_APPEND
+        if args[7] & self.FDFLAGS_DSYNC:
+            flag |= os.O_DSYNC
+        if args[7] & self.FDFLAGS_NONBLOCK:
+            flag |= os.O_NONBLOCK
+        if args[7] & self.FDFLAGS_RSYNC:
+            flag |= getattr(os, 'O_RSYNC', os.O_SYNC)
+        if args[7] & self.FDFLAGS_SYNC:
+            flag |= os.O_SYNC
         wasm_fd = len(self.fd)
         try:
             host_fd = os.open(name, flag, 0o644, dir_fd=self.fd[args[0]].host_fd)
-- 
2.43.0


From ff12289a73f4ad903d3f341bbcb108e5eab4e2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:08 +0000
Subject: [PATCH 49/57] fix: wasi refuses clocks that do not exist

---
 pywasm/wasi.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 16e3c31..c193b65 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -46,6 +46,8 @@ class Preview1:
     CLOCKID_PROCESS_CPUTIME_ID = 2
     # The CPU-time clock associated with the current thread.
     CLOCKID_THREAD_CPUTIME_ID = 3
+    # All of the clocks.
+    CLOCKIDS = [CLOCKID_REALTIME, CLOCKID_MONOTONIC, CLOCKID_PROCESS_CPUTIME_ID, CLOCKID_THREAD_CPUTIME_ID]
 
     # Special Dircookie value indicating the start of a directory.
     DIRCOOKIE_START = 0
@@ -562,12 +564,16 @@ class Preview1:
 
     def clock_res_get(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
         # Return the resolution of a clock.
+        if args[0] not in self.CLOCKIDS:
+            return [self.ERRNO_INVAL]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         mems.put_u64(args[1], 1)
         return [self.ERRNO_SUCCESS]
 
     def clock_time_get(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
         # Return the time value of a clock.
+        if args[0] not in self.CLOCKIDS:
+            return [self.ERRNO_INVAL]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         mems.put_u64(args[2], self.help_time(args[0]))
         return [self.ERRNO_SUCCESS]
-- 
2.43.0


From 60d12388a8989ee063439284e4b1eebbd83ca240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:08 +0000
Subject: [PATCH 50/57] fix: wasi poll_oneoff waits until the deadlines and
 writes whole events

---
 pywasm/wasi.py | 94 ++++++++++++++++++++++++--------------------------
 1 file changed, 46 insertions(+), 48 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index c193b65..03622fe 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1441,6 +1441,9 @@ class Preview1:
         csub = []
         rsub = []
         wsub = []
+        if nsub == 0:
+            # There would be nothing to wait for.
+            return [self.ERRNO_INVAL]
         for i in range(nsub):
             # Each subscription is 48 bytes
             addr = subs + i * 48
@@ -1448,63 +1451,58 @@ class Preview1:
             eype = mems.get_u8(addr + 8)
             match eype:
                 case self.EVENTTYPE_CLOCK:
-                    ckid = mems.get_u64(addr + 16)
+                    ckid = mems.get_u32(addr + 16)
                     nval = mems.get_u64(addr + 24)
-                    flag = mems.get_u32(addr + 40)
-                    ctim = self.help_time(ckid)
-                    delt = ctim - nval if flag & self.SUBCLOCKFLAGS_SUBSCRIPTION_CLOCK_ABSTIME else nval
-                    ends = nval if flag & self.SUBCLOCKFLAGS_SUBSCRIPTION_CLOCK_ABSTIME else ctim + nval
-                    csub.append([userdata, ckid, delt, ends])
-                case self.EVENTTYPE_FD_READ:
-                    file = mems.get_u32(addr + 16)
-                    if self.help_badf(file):
-                        return [self.ERRNO_BADF]
-                    if self.help_perm(file, self.RIGHTS_POLL_FD_READWRITE):
-                        return [self.ERRNO_NOTCAPABLE]
-                    rsub.append([userdata, file])
-                case self.EVENTTYPE_FD_WRITE:
+                    flag = mems.get_u16(addr + 40)
+                    if ckid not in self.CLOCKIDS:
+                        return [self.ERRNO_INVAL]
+                    ends = nval if flag & self.SUBCLOCKFLAGS_SUBSCRIPTION_CLOCK_ABSTIME else self.help_time(ckid) + nval
+                    csub.append([userdata, ckid, ends])
+                case self.EVENTTYPE_FD_READ | self.EVENTTYPE_FD_WRITE:
                     file = mems.get_u32(addr + 16)
                     if self.help_badf(file):
                         return [self.ERRNO_BADF]
                     if self.help_perm(file, self.RIGHTS_POLL_FD_READWRITE):
                         return [self.ERRNO_NOTCAPABLE]
-                    wsub.append([userdata, file])
-        # Calculate minimum timeout.
-        delt = 8
-        if csub:
-            delt = min([e[2] for e in csub]) / 1000000000.0
-        ryes, wyes, _ = select.select(
-            [self.fd[fd].host_fd for _, fd in rsub],
-            [self.fd[fd].host_fd for _, fd in wsub],
-            [],
-            delt,
-        )
-        neve = 0
-        for e in csub:
-            if self.help_time(e[1]) < e[3]:
-                continue
-            mems.put_u64(outs, e[0])
-            mems.put_u16(outs + 8, self.ERRNO_SUCCESS)
-            mems.put_u8(outs + 10, self.EVENTTYPE_CLOCK)
-            outs += 32
-            neve += 1
-        for e in rsub:
-            if self.fd[e[1]].host_fd not in ryes:
-                continue
-            mems.put_u64(outs, e[0])
-            mems.put_u16(outs + 8, self.ERRNO_SUCCESS)
-            mems.put_u8(outs + 10, self.EVENTTYPE_FD_READ)
-            outs += 32
-            neve += 1
-        for e in wsub:
-            if self.fd[e[1]].host_fd not in wyes:
-                continue
+                    if eype == self.EVENTTYPE_FD_READ:
+                        rsub.append([userdata, file])
+                    else:
+                        wsub.append([userdata, file])
+                case _:
+                    return [self.ERRNO_INVAL]
+        # Redirected streams are always ready.
+        pipe = [e[1] for e in rsub + wsub if self.help_pipe(e[1])]
+        evts = []
+        while not evts:
+            # Wait for the earliest of the clocks, or forever if there is none.
+            delt = None
+            if csub:
+                delt = min(max(0, min([e[2] - self.help_time(e[1]) for e in csub])), 1 << 62) / 1000000000
+            if pipe:
+                delt = 0
+            ryes, wyes, _ = select.select(
+                [self.fd[e[1]].host_fd for e in rsub if e[1] not in pipe],
+                [self.fd[e[1]].host_fd for e in wsub if e[1] not in pipe],
+                [],
+                delt,
+            )
+            for e in csub:
+                if self.help_time(e[1]) >= e[2]:
+                    evts.append([e[0], self.EVENTTYPE_CLOCK])
+            for e in rsub:
+                if e[1] in pipe or self.fd[e[1]].host_fd in ryes:
+                    evts.append([e[0], self.EVENTTYPE_FD_READ])
+            for e in wsub:
+                if e[1] in pipe or self.fd[e[1]].host_fd in wyes:
+                    evts.append([e[0], self.EVENTTYPE_FD_WRITE])
+        for e in evts:
+            # Each event is 32 bytes
+            mems.put(outs, bytearray(32))
             mems.put_u64(outs, e[0])
             mems.put_u16(outs + 8, self.ERRNO_SUCCESS)
-            mems.put_u8(outs + 10, self.EVENTTYPE_FD_WRITE)
+            mems.put_u8(outs + 10, e[1])
             outs += 32
-            neve += 1
-        mems.put_u32(nout, neve)
+        mems.put_u32(nout, len(evts))
         return [self.ERRNO_SUCCESS]
 
     def proc_exit(self, _: pywasm.core.Machine, args: typing.List[int]) -> None:
-- 
2.43.0


From 814de887cda8e80359dbf12cf590d1393e81d6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:35 +0000
Subject: [PATCH 51/57] fix: wasi sock_recv takes data only if the buffers are
 inside the memory

---
 pywasm/wasi.py | 23 +++--------------------
 1 file changed, 3 insertions(+), 20 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 03622fe..0af0493 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1584,8 +1584,7 @@ class Preview1:
             self.FILETYPE_SOCKET_DGRAM: socket.SOCK_DGRAM,
         }[file.wasm_type]
         sock = socket.fromfd(file.host_fd, socket.AF_INET, kype)
-        iovs_ptr = args[1]
-        iovs_len = args[2]
+        iovs = self.help_iovs(mems, args[1], args[2])
         ro_flags = 0
         ri_flags = 0
         if args[3] & self.RIFLAGS_RECV_PEEK:
@@ -1593,29 +1592,13 @@ class Preview1:
         if args[3] & self.RIFLAGS_RECV_WAITALL and file.wasm_type == self.FILETYPE_SOCKET_STREAM:
             # Only meaningful for stream sockets.
             ri_flags |= socket.MSG_WAITALL
-        size_all = 0
-        for _ in range(iovs_len):
-            elem_len = mems.get_u32(iovs_ptr + 4)
-            size_all += elem_len
-            iovs_ptr += 8
+        size_all = sum([e[1] for e in iovs])
         try:
             data, _, msg_flags, _ = sock.recvmsg(size_all, 0, ri_flags)
         except BrokenPipeError:
             return [self.ERRNO_PIPE]
         data_len = len(data)
-        # Distribute data across iovec buffers.
-        iovs_ptr = args[1]
-        offs = 0
-        for _ in range(iovs_len):
-            if offs >= data_len:
-                break
-            elem_ptr = mems.get_u32(iovs_ptr)
-            elem_len = mems.get_u32(iovs_ptr + 4)
-            size = min(elem_len, data_len - offs)
-            if size > 0:
-                mems.put(elem_ptr, bytearray(data[offs:offs + size]))
-                offs += size
-            iovs_ptr += 8
+        self.help_scat(mems, iovs, data)
         if msg_flags & socket.MSG_TRUNC:
             ro_flags |= self.ROFLAGS_RECV_DATA_TRUNCATED
         mems.put_u32(args[4], data_len)
-- 
2.43.0


From 43b41da0f304df5e66c2deda4460f0dab94bc30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:35 +0000
Subject: [PATCH 52/57] fix: wasi takes counts of buffers and subscriptions as
 unsigned

---
 pywasm/wasi.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 0af0493..eb4d791 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -797,7 +797,7 @@ class Preview1:
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
         iovs_ptr = args[1]
-        iovs_len = args[2]
+        iovs_len = args[2] & 0xffffffff
         data = bytearray()
         for _ in range(iovs_len):
             elem_ptr = mems.get_u32(iovs_ptr)
@@ -940,7 +940,7 @@ class Preview1:
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
         iovs_ptr = args[1]
-        iovs_len = args[2]
+        iovs_len = args[2] & 0xffffffff
         data = bytearray()
         for _ in range(iovs_len):
             elem_ptr = mems.get_u32(iovs_ptr)
@@ -1004,7 +1004,7 @@ class Preview1:
     def help_iovs(self, mems: pywasm.core.MemInst, ptr: int, num: int) -> typing.List[typing.Tuple[int, int]]:
         # Get the address and the size of each buffer. All of them have to be inside the memory.
         iovs = []
-        for i in range(num):
+        for i in range(num & 0xffffffff):
             elem_ptr = mems.get_u32(ptr + i * 8)
             elem_len = mems.get_u32(ptr + i * 8 + 4)
             assert elem_ptr + elem_len <= len(mems.data)
@@ -1435,7 +1435,7 @@ class Preview1:
         # Concurrently poll for the occurrence of a set of events.
         subs = args[0]
         outs = args[1]
-        nsub = args[2]
+        nsub = args[2] & 0xffffffff
         nout = args[3]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         csub = []
@@ -1621,7 +1621,7 @@ class Preview1:
         }[file.wasm_type]
         sock = socket.fromfd(file.host_fd, socket.AF_INET, kype)
         iovs_ptr = args[1]
-        iovs_len = args[2]
+        iovs_len = args[2] & 0xffffffff
         data = bytearray()
         for _ in range(iovs_len):
             elem_ptr = mems.get_u32(iovs_ptr)
-- 
2.43.0


From 9484ba2071ffdfc14d23afad456b692475bfd383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:35 +0000
Subject: [PATCH 53/57] fix: wasi poll_oneoff refuses subscriptions that lie
 partly outside the memory

---
 pywasm/wasi.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index eb4d791..7242f4f 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1447,6 +1447,7 @@ class Preview1:
         for i in range(nsub):
             # Each subscription is 48 bytes
             addr = subs + i * 48
+            assert addr + 48 <= len(mems.data)
             userdata = mems.get_u64(addr)
             eype = mems.get_u8(addr + 8)
             match eype:
-- 
2.43.0


From 734c23ee6649d756deb802817db5fda72c21c059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:47 +0000
Subject: [PATCH 54/57] fix: wasi reports errors of the host while it resolves
 a path

---
 pywasm/wasi.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 7242f4f..19fc35a 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1031,8 +1031,10 @@ class Preview1:
                 if todo or follow:
                     try:
                         link = os.readlink('/'.join(done + [part]), dir_fd=self.fd[fd].host_fd)
-                    except OSError:
-                        pass
+                    except OSError as e:
+                        # Not a link, or not there. The host reports the latter if it matters.
+                        if e.errno not in [errno.EINVAL, errno.ENOENT, errno.ENOTDIR]:
+                            raise
                 if link is not None:
                     hops += 1
                     if os.path.isabs(link) or hops > 40:
-- 
2.43.0


From b82a267367ee47e7d19d5b12dc3da9f336d3dadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:47 +0000
Subject: [PATCH 55/57] fix: wasi path_open closes the host file again if it
 cannot tell what it is

---
 pywasm/wasi.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 19fc35a..85e8dab 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1271,13 +1271,18 @@ class Preview1:
             if platform.system().lower() == 'linux' and e.errno == 40:
                 return [self.ERRNO_LOOP]
             raise e
+        try:
+            info = os.fstat(host_fd)
+        except OSError:
+            os.close(host_fd)
+            raise
         # Drectory does not have the seek right.
-        if os.path.isdir(host_fd):
+        if stat.S_ISDIR(info.st_mode):
             void = self.RIGHTS_FD_SEEK
             rights_base &= ~void
             rights_root &= ~void
         # Files shouldn't have rights for path_* syscalls even if manually given.
-        if os.path.isfile(host_fd):
+        if stat.S_ISREG(info.st_mode):
             void = sum([
                 self.RIGHTS_PATH_CREATE_DIRECTORY,
                 self.RIGHTS_PATH_CREATE_FILE,
@@ -1308,7 +1313,7 @@ class Preview1:
             wasm_rights_base=rights_base,
             wasm_rights_root=rights_root,
             wasm_status=self.FILE_STATUS_OPENED,
-            wasm_type=self.help_wasm_type(os.fstat(host_fd)),
+            wasm_type=self.help_wasm_type(info),
         ))
         mems.put_u32(args[8], wasm_fd)
         return [self.ERRNO_SUCCESS]
-- 
2.43.0


From 0b6fe8b0f1a80a8375cca96b7fd44f342470de89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:44 +0000
Subject: [PATCH 56/57] fix: wasi reports an error for timestamps before 1970
 instead of aborting the program

---
 pywasm/wasi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 85e8dab..69dcec9 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -8,6 +8,7 @@ import random
 import select
 import socket
 import stat
+import struct
 import sys
 import time
 import typing
@@ -965,7 +966,7 @@ class Preview1:
                 return func(m, args)
             except OSError as e:
                 return [self.help_errno(e.errno)]
-            except OverflowError:
+            except (OverflowError, struct.error):
                 return [self.ERRNO_OVERFLOW]
             except ValueError:
                 # A name that is not valid utf-8, or contains zeros.
-- 
2.43.0


From cafb70ec44ce684cf4041460c0d8c13104c657ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:47 +0000
Subject: [PATCH 57/57] fix: wasi passes arguments, variables and directory
 names that are not utf-8 as the bytes they are

---
 pywasm/wasi.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 69dcec9..be59b07 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -493,7 +493,7 @@ class Preview1:
         for e in self.args:
             mems.put_u32(argv, argv_buf)
             argv += 4
-            data = bytearray(e.encode())
+            data = bytearray(e.encode('utf-8', 'surrogateescape'))
             mems.put(argv_buf, data)
             argv_buf += len(data)
             mems.put_u8(argv_buf, 0)
@@ -504,7 +504,7 @@ class Preview1:
         # Return command-line argument data sizes.
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         mems.put_u32(args[0], len(self.args))
-        mems.put_u32(args[1], sum([len(e.encode()) + 1 for e in self.args]))
+        mems.put_u32(args[1], sum([len(e.encode('utf-8', 'surrogateescape')) + 1 for e in self.args]))
         return [self.ERRNO_SUCCESS]
 
     def bind(self, runtime: pywasm.core.Runtime) -> None:
@@ -588,7 +588,7 @@ class Preview1:
         for e in self.envs:
             mems.put_u32(environ, environ_buf)
             environ += 4
-            data = bytearray(e.encode())
+            data = bytearray(e.encode('utf-8', 'surrogateescape'))
             mems.put(environ_buf, data)
             environ_buf += len(data)
             mems.put_u8(environ_buf, 0)
@@ -599,7 +599,7 @@ class Preview1:
         # Return environment variable data sizes.
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         mems.put_u32(args[0], len(self.envs))
-        mems.put_u32(args[1], sum([len(e.encode()) + 1 for e in self.envs]))
+        mems.put_u32(args[1], sum([len(e.encode('utf-8', 'surrogateescape')) + 1 for e in self.envs]))
         return [self.ERRNO_SUCCESS]
 
     def fd_advise(self, _: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
@@ -770,7 +770,7 @@ class Preview1:
             return [self.ERRNO_BADF]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
-        name = bytearray(file.wasm_name.encode())
+        name = bytearray(file.wasm_name.encode('utf-8', 'surrogateescape'))
         if len(name) > args[2]:
             return [self.ERRNO_NAMETOOLONG]
         mems.put(args[1], name)
@@ -782,7 +782,7 @@ class Preview1:
             return [self.ERRNO_BADF]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
-        name = bytearray(file.wasm_name.encode())
+        name = bytearray(file.wasm_name.encode('utf-8', 'surrogateescape'))
         mems.put_u8(args[1], self.PREOPENTYPE_DIR)
         mems.put_u32(args[1] + 4, len(name))
         return [self.ERRNO_SUCCESS]
-- 
2.43.0

