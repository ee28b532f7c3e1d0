From 979ab478d36bc8e7cf25916581d31db68b10dbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:12 +0000
Subject: [PATCH 01/48] fix: biski64_mul.c: seed the `mix` state word (it was
 left uninitialised)

---
 generators/biski64_mul.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/generators/biski64_mul.c b/generators/biski64_mul.c
index e6a5204..8890724 100644
--- a/generators/biski64_mul.c
+++ b/generators/biski64_mul.c
@@ -37,6 +37,7 @@ static void *create(const CallerAPI *intf)
     obj->old_mix = 0;
     obj->old_rot = 0;
     obj->last_mix = 0;
+    obj->mix = intf->get_seed64();
     obj->ctr = intf->get_seed64();
     obj->output = intf->get_seed64();
     return obj;
-- 
2.43.0


From 75ec564d0f4822f6c1d64ab10bfa7dd86037b60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:12 +0000
Subject: [PATCH 02/48] fix: smwc192.c: seed the `x2` state word (it was left
 uninitialised)

---
 generators/smwc192.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/generators/smwc192.c b/generators/smwc192.c
index 3c9c973..5c528c3 100644
--- a/generators/smwc192.c
+++ b/generators/smwc192.c
@@ -61,6 +61,7 @@ static void *create(const CallerAPI *intf)
 {
     MWC192State *obj = intf->malloc(sizeof(MWC192State));
     obj->x = intf->get_seed64();
+    obj->x2 = intf->get_seed64();
     obj->c = 1;
     return (void *) obj;
 }
-- 
2.43.0


From 28cf6660f32d0089298026bcd7dc53747fc80307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:12 +0000
Subject: [PATCH 03/48] fix: smwc192lux.c: seed the `x2` state word (it was
 left uninitialised)

---
 generators/smwc192lux.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/generators/smwc192lux.c b/generators/smwc192lux.c
index 8f41555..08cc7c7 100644
--- a/generators/smwc192lux.c
+++ b/generators/smwc192lux.c
@@ -62,6 +62,7 @@ static void *create(const CallerAPI *intf)
 {
     MWC192State *obj = intf->malloc(sizeof(MWC192State));
     obj->x = intf->get_seed64();
+    obj->x2 = intf->get_seed64();
     obj->c = 1;
     return (void *) obj;
 }
-- 
2.43.0


From 140b6924b60e214f65ac561b5e3bc787235a342c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:12 +0000
Subject: [PATCH 04/48] fix: mularx256.c: seed the state (it was left
 uninitialised)

---
 generators/mularx256.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/generators/mularx256.c b/generators/mularx256.c
index 33189aa..d2aa442 100644
--- a/generators/mularx256.c
+++ b/generators/mularx256.c
@@ -65,8 +65,9 @@ static void *create(const CallerAPI *intf)
 {
     Mularx256State *obj = intf->malloc(sizeof(Mularx256State));
     obj->pos = 4;
-    obj->x[0] = obj->x[1] = obj->x[2];
-    obj->x[3] = 0;//intf->get_seed64();
+    for (int i = 0; i < 4; i++) {
+        obj->x[i] = intf->get_seed64();
+    }
     return (void *) obj;
 }
 
-- 
2.43.0


From 3b807df0f16c0677b967a139739692fa5e9534ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:13 +0000
Subject: [PATCH 05/48] fix: superduper64.c: terminate the list of variants
 (out-of-bounds read for unknown --param)

---
 generators/superduper64.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/generators/superduper64.c b/generators/superduper64.c
index 470fd80..8a4b68a 100644
--- a/generators/superduper64.c
+++ b/generators/superduper64.c
@@ -100,6 +100,7 @@ static const GeneratorParamVariant gen_list[] = {
     {"",      "SuperDuper64:u64", 64, default_create, get_bits_u64, get_sum_u64},
     {"u64",   "SuperDuper64:u64", 64, default_create, get_bits_u64, get_sum_u64},
     {"u32",   "SuperDuper64:u32", 32, default_create, get_bits_u32, get_sum_u32},
+    {NULL, NULL, 0, NULL, NULL, NULL}
 };
 
 
-- 
2.43.0


From 9a142d4c9ab055dd550126f248a8451e6af50cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:13 +0000
Subject: [PATCH 06/48] fix: lxm_64x128.c: use the rotation from the
 L64X128MixRandom reference (shift by 64 is UB)

---
 generators/lxm_64x128.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generators/lxm_64x128.c b/generators/lxm_64x128.c
index ca43263..e34893f 100644
--- a/generators/lxm_64x128.c
+++ b/generators/lxm_64x128.c
@@ -52,7 +52,7 @@ static inline uint64_t get_bits_raw(LXMState *obj)
     // Update the XBG subgenerator (xoroshiro128v1_0)
     uint64_t x0 = obj->x0, x1 = obj->x1;
     x1 ^= x0;
-    x0 = rotl64(x0, 64) ^ x1 ^ (x1 << 16);
+    x0 = rotl64(x0, 24) ^ x1 ^ (x1 << 16);
     x1 = rotl64(x1, 37);
     obj->x0 = x0; obj->x1 = x1;
     // Return result
-- 
2.43.0


From 7dc6769831fb2f5d4977f69ae468301bed24967e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:13 +0000
Subject: [PATCH 07/48] fix: pcg32_xsl_rr.c: take 5 bits for the rotation
 (rotation by 32 and more is UB)

---
 generators/pcg32_xsl_rr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generators/pcg32_xsl_rr.c b/generators/pcg32_xsl_rr.c
index e08ec57..14e7016 100644
--- a/generators/pcg32_xsl_rr.c
+++ b/generators/pcg32_xsl_rr.c
@@ -17,7 +17,7 @@ static inline uint64_t get_bits_raw(Lcg64State *obj)
 {
     obj->x = obj->x * 6906969069ull + 1ull;
     const uint32_t xored = (uint32_t) ((obj->x >> 32) ^ (obj->x & 0xFFFFFFFF));
-    return rotr32(xored, (int) (obj->x >> 58));
+    return rotr32(xored, (int) (obj->x >> 59));
 }
 
 static void *create(const CallerAPI *intf)
-- 
2.43.0


From 5b202a45769b1385309895497e842728087a1c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:13 +0000
Subject: [PATCH 08/48] fix: mrg32k3a.c: make_seed must be static (undefined
 symbol if it is not inlined)

---
 generators/mrg32k3a.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generators/mrg32k3a.c b/generators/mrg32k3a.c
index 161c8b1..01bb34b 100644
--- a/generators/mrg32k3a.c
+++ b/generators/mrg32k3a.c
@@ -87,7 +87,7 @@ static inline int64_t component(uint32_t *s,
     return p;
 }
 
-inline uint32_t make_seed(const CallerAPI *intf, const uint64_t m)
+static inline uint32_t make_seed(const CallerAPI *intf, const uint64_t m)
 {
     uint32_t seed;
     do {
-- 
2.43.0


From 43d382b049bf1d0d97efa6886f77f07865b4ba0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:13 +0000
Subject: [PATCH 09/48] fix: threefry2x64.c: initialise the output buffer
 position in the scalar version

---
 generators/threefry2x64.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/generators/threefry2x64.c b/generators/threefry2x64.c
index c6a98d3..8f1c37e 100644
--- a/generators/threefry2x64.c
+++ b/generators/threefry2x64.c
@@ -108,6 +108,7 @@ static void Threefry2x64State_init(Threefry2x64State *obj, const uint64_t *k)
         obj->p[i] = 0;
         obj->k[NWORDS] ^= obj->k[i];
     }
+    obj->pos = NWORDS;
 }
 
 
-- 
2.43.0


From cc52a1857e942bb76b9e715048fbd69fe84eef05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:31 +0000
Subject: [PATCH 10/48] fix: xxtea.c: initialise all counters in the 256-bit
 vectorized version

---
 generators/xxtea.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generators/xxtea.c b/generators/xxtea.c
index ecd46c9..d54078c 100644
--- a/generators/xxtea.c
+++ b/generators/xxtea.c
@@ -448,7 +448,7 @@ void Xxtea256VecState_init(Xxtea256VecState *obj, const uint32_t *key)
     for (unsigned int i = 0; i < XXTEA_NCOPIES; i++) {
         obj->ctr[i] = i;
     }
-    for (size_t i = XXTEA_NCOPIES; i < 4 * XXTEA_NCOPIES; i++) {
+    for (size_t i = XXTEA_NCOPIES; i < 8 * XXTEA_NCOPIES; i++) {
         obj->ctr[i] = 0;
     }
     obj->intf.iter_func = Xxtea256VecState_iter_func;
-- 
2.43.0


From 878fff47c2e930f293189f9c3195ad211fea891f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:31 +0000
Subject: [PATCH 11/48] fix: xoroshiro128pp.c: use the seed in the vectorized
 version (the state was left uninitialised)

---
 generators/xoroshiro128pp.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generators/xoroshiro128pp.c b/generators/xoroshiro128pp.c
index f963879..c51f99b 100644
--- a/generators/xoroshiro128pp.c
+++ b/generators/xoroshiro128pp.c
@@ -229,6 +229,9 @@ static void Xoroshiro128PPVecState_init(Xoroshiro128PPVecState *obj, uint64_t s0
     if (s0 == 0 && s1 == 0) {
         obj->s0[0] = 0x0123456789ABCDEFULL;
         obj->s1[0] = 0xDEADBEEFDEADBEEFULL;
+    } else {
+        obj->s0[0] = s0;
+        obj->s1[0] = s1;
     }
     for (int i = 0; i < NCOPIES - 1; i++) {
         long_jump(obj->s0 + i + 1, obj->s1 + i + 1, obj->s0[i], obj->s1[i]);
-- 
2.43.0


From 031d0b949fb50ac1292c4047a78d05925df4d5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:31 +0000
Subject: [PATCH 12/48] fix: xorshift128pp.c: use the seed in the vectorized
 version (the state was left uninitialised)

---
 generators/xorshift128pp.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generators/xorshift128pp.c b/generators/xorshift128pp.c
index 018fc56..182a9cd 100644
--- a/generators/xorshift128pp.c
+++ b/generators/xorshift128pp.c
@@ -197,6 +197,9 @@ static void Xorshift128PPVecState_init(Xorshift128PPVecState *obj, uint64_t s0,
     if (s0 == 0 && s1 == 0) {
         obj->s0[0] = 0x0123456789ABCDEFULL;
         obj->s1[0] = 0xDEADBEEFDEADBEEFULL;
+    } else {
+        obj->s0[0] = s0;
+        obj->s1[0] = s1;
     }
     for (int i = 0; i < NCOPIES - 1; i++) {
         jump(obj->s0 + i + 1, obj->s1 + i + 1, obj->s0[i], obj->s1[i]);
-- 
2.43.0


From aa4db922fc80ccd02ba54baabd776cea2d890125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:31 +0000
Subject: [PATCH 13/48] fix: ranrot32.c: initialise the whole lagged buffer

---
 generators/ranrot32.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generators/ranrot32.c b/generators/ranrot32.c
index 9f97af1..28fdba9 100644
--- a/generators/ranrot32.c
+++ b/generators/ranrot32.c
@@ -83,7 +83,7 @@ static void *create_ranrot32(const CallerAPI *intf, int lag1, int lag2)
     // pcg_rxs_m_xs64 for initialization
     uint64_t state = intf->get_seed64();
     obj->lag1 = lag1; obj->lag2 = lag2;
-    for (int i = 0; i < obj->lag2; i++) {
+    for (int i = 0; i < obj->lag1; i++) {
         obj->x[i] = (uint32_t) (pcg_bits64(&state) >> 32);
     }
     obj->pos = 0; // Mark buffer uninitialized
-- 
2.43.0


From cfcb1bc8f3056f137a9b250609ae1bc6d5bdab22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:31 +0000
Subject: [PATCH 14/48] fix: lfib4.c: use the seed

---
 generators/lfib4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generators/lfib4.c b/generators/lfib4.c
index 6c1253e..add0be5 100644
--- a/generators/lfib4.c
+++ b/generators/lfib4.c
@@ -59,7 +59,7 @@ static void LFib4State_init(LFib4State *obj, uint32_t jcong0)
 static void *create(const CallerAPI *intf)
 {
     LFib4State *obj = intf->malloc(sizeof(LFib4State));
-    LFib4State_init(obj, 12345);
+    LFib4State_init(obj, intf->get_seed32());
     return (void *) obj;
 }
 
-- 
2.43.0


From f6a5fab7c05afa1bdaacaee08f14547e36e57c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:31 +0000
Subject: [PATCH 15/48] fix: xoroshiro128pp_vec.c: use the seed

---
 generators/xoroshiro128pp_vec.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/generators/xoroshiro128pp_vec.c b/generators/xoroshiro128pp_vec.c
index 465a90d..ed6aba5 100644
--- a/generators/xoroshiro128pp_vec.c
+++ b/generators/xoroshiro128pp_vec.c
@@ -55,8 +55,8 @@ static inline void *create(const CallerAPI *intf)
 {
     Xs128ppVecState *obj = intf->malloc(sizeof(Xs128ppVecState));
     for (int i = 0; i < XOROSHIRO128_UNROLL; i++) {
-        obj->s[0][i] = 1ull << i;
-        obj->s[1][i] = 0;
+        obj->s[0][i] = intf->get_seed64();
+        obj->s[1][i] = intf->get_seed64() | 0x1;
     }
     obj->pos = BUF_LEN;
     return obj;
-- 
2.43.0


From 4685348dc33c483054367e515a33099b099e1ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:24 +0000
Subject: [PATCH 16/48] fix: smwc48.c: multiply as unsigned (uint16_t operands
 overflowed int)

---
 generators/smwc48.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generators/smwc48.c b/generators/smwc48.c
index 8ac276b..384b102 100644
--- a/generators/smwc48.c
+++ b/generators/smwc48.c
@@ -44,7 +44,7 @@ typedef struct {
 static inline uint16_t get_bits16(Smwc48State *obj)
 {
     static const uint32_t MWC_A1 = 0xfefa;//0xe8c5;
-    static const uint16_t LCG_A1 = 62317u;
+    static const uint32_t LCG_A1 = 62317u;
     uint16_t out = (uint16_t) ((LCG_A1 * obj->x) ^ ((obj->x2 << 5) | (obj->x2 >> 11)));
 //    uint16_t out = obj->x ^ obj->x2;
     uint32_t mul = MWC_A1 * obj->x + obj->c;
-- 
2.43.0


From 69e5ecc7df6faee249b8ac7075ffc73343e3e78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:24 +0000
Subject: [PATCH 17/48] fix: smwc48lux.c: multiply as unsigned (uint16_t
 operands overflowed int)

---
 generators/smwc48lux.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generators/smwc48lux.c b/generators/smwc48lux.c
index 702724c..26a1241 100644
--- a/generators/smwc48lux.c
+++ b/generators/smwc48lux.c
@@ -44,7 +44,7 @@ typedef struct {
 static inline uint16_t get_bits16(Smwc48State *obj)
 {
     static const uint32_t MWC_A1 = 0xfefa;//0xe8c5;
-    static const uint16_t LCG_A1 = 62317u;
+    static const uint32_t LCG_A1 = 62317u;
     uint16_t out = (uint16_t) ((LCG_A1 * obj->x) ^ rotl16(obj->x2, 5));
     for (int i = 0; i < 3; i++) {
         uint32_t mul = MWC_A1 * obj->x + obj->c;
-- 
2.43.0


From 72f8f5642e78086691b663beed47332ca74766f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:48 +0000
Subject: [PATCH 18/48] fix: bspace: no shift by the full word width in 1D
 tests

---
 src/coretests.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/coretests.c b/src/coretests.c
index be73692..dd097f7 100644
--- a/src/coretests.c
+++ b/src/coretests.c
@@ -43,7 +43,7 @@ static inline void bspace_make_tuples64(const BSpaceNDOptions *opts,
         for (size_t j = 0; j < len; j++) {
             u[j] = 0;
             for (size_t k = 0; k < opts->ndims; k++) {
-                u[j] <<= opts->nbits_per_dim;
+                if (k > 0) u[j] <<= opts->nbits_per_dim;
                 u[j] |= gi->get_bits(state) & mask;
             }
         }
@@ -53,7 +53,7 @@ static inline void bspace_make_tuples64(const BSpaceNDOptions *opts,
         for (size_t j = 0; j < len; j++) {
             u[j] = 0;
             for (size_t k = 0; k < opts->ndims; k++) {
-                u[j] <<= opts->nbits_per_dim;
+                if (k > 0) u[j] <<= opts->nbits_per_dim;
                 u[j] |= gi->get_bits(state) >> shl;
             }
         }
@@ -79,7 +79,7 @@ static inline void bspace_make_tuples32(const BSpaceNDOptions *opts,
         for (size_t j = 0; j < len; j++) {
             u[j] = 0;
             for (size_t k = 0; k < opts->ndims; k++) {
-                u[j] <<= opts->nbits_per_dim;
+                if (k > 0) u[j] <<= opts->nbits_per_dim;
                 u[j] |= (uint32_t) (gi->get_bits(state) & mask);
             }
         }
@@ -89,7 +89,7 @@ static inline void bspace_make_tuples32(const BSpaceNDOptions *opts,
         for (size_t j = 0; j < len; j++) {
             u[j] = 0;
             for (size_t k = 0; k < opts->ndims; k++) {
-                u[j] <<= opts->nbits_per_dim;
+                if (k > 0) u[j] <<= opts->nbits_per_dim;
                 u[j] |= (uint32_t) (gi->get_bits(state) >> shl);
             }
         }
-- 
2.43.0


From 7ec65ea92812abf9fd4af4e4fe0c8b44f5d99d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:48 +0000
Subject: [PATCH 19/48] fix: gap_test: an output that never hits the gap must
 be penalised

---
 src/coretests.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coretests.c b/src/coretests.c
index dd097f7..7149bf2 100644
--- a/src/coretests.c
+++ b/src/coretests.c
@@ -568,6 +568,7 @@ TestResults gap_test(GeneratorState *obj, const GapOptions *opts)
     unsigned long long nvalues = 0;
     const unsigned long long max_gap_len = GapOptions_max_gaplen(opts, pgap_fail);
     TestResults ans = TestResults_create("Gap");
+    ans.penalty = PENALTY_GAP;
     obj->intf->printf("Gap test\n");
     obj->intf->printf("  alpha = 0.0; beta = %g; shl = %u;\n", p, opts->shl);
     obj->intf->printf("  ngaps = %llu (2^%.2f or 10^%.2f); nbins = %llu\n",
@@ -594,7 +595,6 @@ TestResults gap_test(GeneratorState *obj, const GapOptions *opts)
         }
         Oi[(gap_len < nbins) ? gap_len : nbins]++;
     }
-    ans.penalty = PENALTY_GAP;
     ans.x = 0.0; // chi2emp
     for (size_t i = 0; i < nbins; i++) {
         const double Ei = p * pow(1.0 - p, (double) i) * (double) ngaps;
-- 
2.43.0


From 0b1de27c34e919798e7e2c668282beabc0e9438a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:48 +0000
Subject: [PATCH 20/48] fix: nbit_words_freq_test: check allocations,
 initialise the whole result

---
 src/coretests.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/coretests.c b/src/coretests.c
index 7149bf2..8d2fca2 100644
--- a/src/coretests.c
+++ b/src/coretests.c
@@ -1191,13 +1191,16 @@ TestResults nbit_words_freq_test(GeneratorState *obj,
     const uint64_t mask = nbins - 1;
     double *chi2 = calloc(opts->nblocks, sizeof(double));
     size_t *wfreq = calloc(nbins, sizeof(size_t));
+    if (chi2 == NULL || wfreq == NULL) {
+        fprintf(stderr, "***** nbit_words_freq_test: not enough memory *****\n");
+        exit(EXIT_FAILURE);
+    }
 
-    TestResults ans;
+    TestResults ans = TestResults_create("WordsFreq");
     if (opts->bits_per_word == 8) {
         ans.name = "BytesFreq";
         obj->intf->printf("Byte frequency test\n");
     } else {
-        ans.name = "WordsFreq";
         obj->intf->printf("%u-bit words frequency test\n", opts->bits_per_word);
     }
     obj->intf->printf("  nblocks = %lld; block_len = %lld\n",
-- 
2.43.0


From 69db74be9ad92c4865f25ef2f4bfda5b96692c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:48 +0000
Subject: [PATCH 21/48] fix: monobit_freq_test: initialise the whole result

---
 src/coretests.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/coretests.c b/src/coretests.c
index 8d2fca2..f2d5379 100644
--- a/src/coretests.c
+++ b/src/coretests.c
@@ -1133,8 +1133,7 @@ TestResults monobit_freq_test(GeneratorState *obj, const MonobitFreqOptions *opt
     int sum_per_byte[256];
     unsigned long long len = opts->nvalues;
     unsigned long long nbits_total = len * obj->gi->nbits;
-    TestResults ans;
-    ans.name = "MonobitFreq";
+    TestResults ans = TestResults_create("MonobitFreq");
     obj->intf->printf("Monobit frequency test\n");
     obj->intf->printf("  Number of bits: %llu (2^%.2f)\n", nbits_total,
         log((double) nbits_total) / log(2.0));
-- 
2.43.0


From c97f5cd41de42b3b1469c027fa3ffd005021cea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:48 +0000
Subject: [PATCH 22/48] fix: matrixrank_test: check allocations, no leak for
 unsupported word sizes

---
 src/lineardep.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lineardep.c b/src/lineardep.c
index c92c602..73e6091 100644
--- a/src/lineardep.c
+++ b/src/lineardep.c
@@ -56,6 +56,10 @@ static inline void swap_rows(uint32_t **row_ptr, size_t i, size_t j)
 static size_t calc_bin_matrix_rank(uint32_t *a, size_t n)
 {
     uint32_t **row_ptr = calloc(n, sizeof(uint32_t *));
+    if (row_ptr == NULL) {
+        fprintf(stderr, "***** calc_bin_matrix_rank: not enough memory *****\n");
+        exit(EXIT_FAILURE);
+    }
     // Initialize some intermediate buffers
     for (size_t i = 0; i < n; i++) {
         row_ptr[i] = a + i * n / 32;
@@ -112,6 +116,10 @@ TestResults matrixrank_test(GeneratorState *obj, const MatrixRankOptions *opts)
     const size_t mat_len = n * n / 32;
     size_t min_rank = n + 1;
     uint32_t *a = calloc(mat_len, sizeof(uint32_t));
+    if (a == NULL) {
+        fprintf(stderr, "***** matrixrank_test: not enough memory *****\n");
+        exit(EXIT_FAILURE);
+    }
     obj->intf->printf("Matrix rank test\n");
     obj->intf->printf("  n = %d. Number of matrices: %d; max_nbits: %u\n",
         (int) n, nmat, opts->max_nbits);
@@ -140,6 +148,7 @@ TestResults matrixrank_test(GeneratorState *obj, const MatrixRankOptions *opts)
                 (int) obj->gi->nbits,
                 (int) opts->max_nbits
             );
+            free(a);
             return ans;
         }
         // Calculate matrix rank
-- 
2.43.0


From c5ef5796abbdab5087990ed5a0259d4ac8ca4124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:48 +0000
Subject: [PATCH 23/48] fix: berlekamp_massey: buffers overflow when only the
 last bit is set

---
 src/lineardep.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lineardep.c b/src/lineardep.c
index 73e6091..87dfec5 100644
--- a/src/lineardep.c
+++ b/src/lineardep.c
@@ -210,9 +210,9 @@ size_t berlekamp_massey(const uint8_t *s, size_t n)
     size_t L = 0; // Complexity
     size_t N = 0; // Current position
     long m = -1;
-    uint8_t *C = calloc(n, sizeof(uint8_t)); // Coeffs.
-    uint8_t *B = calloc(n, sizeof(uint8_t)); // Prev.coeffs.
-    uint8_t *T = calloc(n, sizeof(uint8_t)); // Temp. copy of coeffs.
+    uint8_t *C = calloc(n + 1, sizeof(uint8_t)); // Coeffs.
+    uint8_t *B = calloc(n + 1, sizeof(uint8_t)); // Prev.coeffs.
+    uint8_t *T = calloc(n + 1, sizeof(uint8_t)); // Temp. copy of coeffs.
     if (C == NULL || B == NULL || T == NULL) {
         fprintf(stderr, "***** berlekamp_massey: not enough memory *****");
         free(C); free(B); free(T);
-- 
2.43.0


From c2b1626f74b09e390da3dbd4f1135d7b0d926aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:48 +0000
Subject: [PATCH 24/48] fix: collisionover_test: initialise the whole result

---
 src/coretests.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/coretests.c b/src/coretests.c
index f2d5379..b8f4292 100644
--- a/src/coretests.c
+++ b/src/coretests.c
@@ -481,8 +481,7 @@ TestResults collisionover_test(GeneratorState *obj, const CollOverNDOptions *opt
     double nstates = (double) nstates_u64;
     double lambda = ((double) n - (double) opts->ndims + 1.0) / nstates;
     double mu = nstates * (lambda - 1 + exp(-lambda));
-    TestResults ans;
-    ans.name = "CollisionOver";
+    TestResults ans = TestResults_create("CollisionOver");
     obj->intf->printf("CollisionOver test\n");
     obj->intf->printf("  ndims = %d; nbits_per_dim = %d; n = %lu, get_lower = %d\n",
         opts->ndims, opts->nbits_per_dim, opts->n, opts->get_lower);
-- 
2.43.0


From 2f00cda22760ccaf013210a0efc69c168115f683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:48 +0000
Subject: [PATCH 25/48] fix: hamming_distr_test: check allocations

---
 src/hwtests.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/hwtests.c b/src/hwtests.c
index da224b4..f1bf0a5 100644
--- a/src/hwtests.c
+++ b/src/hwtests.c
@@ -640,6 +640,10 @@ double hamming_distr_calc_zemp(const unsigned long long *o, size_t nbits)
         npoints += o[i];
     }
     double *p = calloc(nbits + 1, sizeof(double));
+    if (p == NULL) {
+        fprintf(stderr, "***** hamming_distr: not enough memory *****\n");
+        exit(EXIT_FAILURE);
+    }
     sr_binomial_pdf_all(p, (unsigned long) nbits, 0.5);
     for (size_t i = 0; i < nbits; i++) {
         double e_i = (double) npoints * p[i];
@@ -677,6 +681,10 @@ static void HammingDistrHist_init(HammingDistrHist *obj, size_t nbits)
 {
     obj->o     = calloc(nbits + 1, sizeof(unsigned long long));
     obj->o_xor = calloc(nbits + 1, sizeof(unsigned long long));
+    if (obj->o == NULL || obj->o_xor == NULL) {
+        fprintf(stderr, "***** hamming_distr: not enough memory *****\n");
+        exit(EXIT_FAILURE);
+    }
     obj->nbits = nbits;
     obj->z = NAN;     obj->p = NAN;
     obj->z_xor = NAN; obj->p_xor = NAN;
@@ -764,6 +772,10 @@ TestResults hamming_distr_test(GeneratorState *obj, const HammingDistrOptions *o
     HammingDistrHist *h = calloc((size_t) opts->nlevels, sizeof(HammingDistrHist));
     uint64_t *x = calloc(block_len, sizeof(uint64_t));
     int *hw = calloc(block_len, sizeof(int));
+    if (h == NULL || x == NULL || hw == NULL) {
+        fprintf(stderr, "***** hamming_distr: not enough memory *****\n");
+        exit(EXIT_FAILURE);
+    }
     for (int i = 0; i < opts->nlevels; i++) {
         HammingDistrHist_init(&h[i], nbits << i);
     }
-- 
2.43.0


From 3b251547957ec3e78565471111a3aad7bff8b91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:16 +0000
Subject: [PATCH 26/48] fix: ising2d: probability 1 for 64-bit generators
 didn't fit to uint64_t

---
 src/extratests.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/extratests.c b/src/extratests.c
index 8c4cc19..5ead5c8 100644
--- a/src/extratests.c
+++ b/src/extratests.c
@@ -584,7 +584,9 @@ void Ising2DLattice_pass_metropolis(Ising2DLattice *obj, GeneratorState *gs)
     uint64_t n_same_to_p_int[5];
     for (int i = 2; i <= 4; i++) {
         const double dE = (i - 2) * 4;
-        n_same_to_p_int[i] = (uint64_t) (exp(-dE * jc) * p_mul);
+        const double p_scaled = exp(-dE * jc) * p_mul;
+        // p = 1 for 64-bit PRNGs: 2^64 doesn't fit to uint64_t
+        n_same_to_p_int[i] = (p_scaled < 18446744073709551616.0) ? (uint64_t) p_scaled : UINT64_MAX;
     }
 
     for (size_t ii = 0; ii < obj->N; ii++) {
-- 
2.43.0


From fb4ecd70e30194c8d240ebe029a3cdb4be200fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:29 +0000
Subject: [PATCH 27/48] fix: blockfreq battery: check allocations

---
 src/extratests.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/extratests.c b/src/extratests.c
index 5ead5c8..e0f39d5 100644
--- a/src/extratests.c
+++ b/src/extratests.c
@@ -337,6 +337,10 @@ void BlockFrequency_init(BlockFrequency *obj)
 {
     obj->bytefreq = calloc(256, sizeof(unsigned long long));
     obj->w16freq = calloc(65536, sizeof(unsigned long long));
+    if (obj->bytefreq == NULL || obj->w16freq == NULL) {
+        fprintf(stderr, "***** BlockFrequency_init: not enough memory *****\n");
+        exit(EXIT_FAILURE);
+    }
     obj->nbytes = 0;
     obj->nw16 = 0;
 }
-- 
2.43.0


From fb11875be91ae35bd528b9b35dbbff1521228d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:29 +0000
Subject: [PATCH 28/48] fix: birthday battery: out of memory is an error, not
 PASSED

---
 src/extratests.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/extratests.c b/src/extratests.c
index e0f39d5..7fa5491 100644
--- a/src/extratests.c
+++ b/src/extratests.c
@@ -315,6 +315,9 @@ BatteryExitCode battery_birthday(const GeneratorInfo *gen, const CallerAPI *intf
         intf->printf("  x = %g (ndups); p = %g; 1-p=%g\n", ans.x, ans.p, ans.alpha);
     }
     GeneratorState_destruct(&obj);
+    if (ans.p != ans.p) { // NaN: the test was not run
+        return BATTERY_ERROR;
+    }
     if (ans.p < 1e-6 || ans.p > 1.0 - 1e-6) {
         return BATTERY_FAILED;
     } else {
-- 
2.43.0


From 7c908d300906ffcec9a6e946df4a6af01e475fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:21 +0000
Subject: [PATCH 29/48] fix: threads registry: register a thread before it
 runs, lock all accesses

---
 src/core.c         |  1 +
 src/threads_intf.c | 27 +++++++++++++++++++--------
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/core.c b/src/core.c
index 3d5d784..df02c66 100644
--- a/src/core.c
+++ b/src/core.c
@@ -113,6 +113,7 @@ static void init_mutexes()
 {
     INIT_MUTEX(get_seed64_mt_mutex)
     INIT_MUTEX(printf_mt_mutex)
+    init_thread_dispatcher(); // Mutex for ThreadObj_current
 }
 
 static void destroy_mutexes()
diff --git a/src/threads_intf.c b/src/threads_intf.c
index 24b43b1..dac4317 100644
--- a/src/threads_intf.c
+++ b/src/threads_intf.c
@@ -47,8 +47,17 @@ ThreadObj ThreadObj_create(ThreadFuncPtr thr_func, void *udata, unsigned int ord
     ThreadObj obj;
     obj.ord = ord;
     obj.exists = 1;
+    // The thread must not see the registry before it is registered there
+    MUTEX_LOCK(thread_ord_mutex);
+    if (nthreads >= NTHREADS_MAX) {
+        fprintf(stderr, "***** ThreadObj_create: too many threads *****\n");
+        exit(EXIT_FAILURE);
+    }
 #ifdef USE_PTHREADS
-    pthread_create(&obj.id, NULL, thr_func, udata);
+    if (pthread_create(&obj.id, NULL, thr_func, udata) != 0) {
+        fprintf(stderr, "***** ThreadObj_create: cannot create a thread *****\n");
+        exit(EXIT_FAILURE);
+    }
     // Get data from threads
 #elif defined(USE_WINTHREADS)
     obj.handle = CreateThread(NULL, 0, thr_func, udata, 0, &obj.id);
@@ -56,11 +65,7 @@ ThreadObj ThreadObj_create(ThreadFuncPtr thr_func, void *udata, unsigned int ord
     obj.id = ord;
     thr_func(udata);
 #endif
-
-    MUTEX_LOCK(thread_ord_mutex);
-    if (nthreads < NTHREADS_MAX) {
-        threads[nthreads++] = obj;
-    }
+    threads[nthreads++] = obj;
     MUTEX_UNLOCK(thread_ord_mutex);
     return obj;
 }
@@ -89,11 +94,13 @@ void ThreadObj_wait(ThreadObj *obj)
 #else
     (void) obj;
 #endif
+    MUTEX_LOCK(thread_ord_mutex);
     for (int i = 0; i < nthreads; i++) {
         if (ThreadObj_equal(obj, &threads[i]) && threads[i].exists) {
             threads[i].exists = 0;
         }
     }
+    MUTEX_UNLOCK(thread_ord_mutex);
 }
 
 /**
@@ -109,12 +116,16 @@ ThreadObj ThreadObj_current(void)
 #else
     obj.id = THREAD_ID_UNKNOWN;
 #endif
+    obj.ord = THREAD_ORD_UNKNOWN;
+    obj.exists = 0;
+    MUTEX_LOCK(thread_ord_mutex);
     for (int i = 0; i < nthreads; i++) {
         if (ThreadObj_equal(&obj, &threads[i]) && threads[i].exists) {
-            return threads[i];
+            obj = threads[i];
+            break;
         }
     }
-    obj.ord = THREAD_ORD_UNKNOWN;
+    MUTEX_UNLOCK(thread_ord_mutex);
     return obj;
 }
 
-- 
2.43.0


From d17cd2a3349b276930c4f8bb65584c75c8000db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:33 +0000
Subject: [PATCH 30/48] fix: tests dispatcher and enveloped generators: check
 allocations

---
 src/core.c | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/core.c b/src/core.c
index df02c66..c115674 100644
--- a/src/core.c
+++ b/src/core.c
@@ -573,6 +573,10 @@ void ThreadQueue_init(ThreadQueue *obj, const GeneratorInfo *gi,
     obj->front = 0;
     obj->thread_ord = thread_ord;
     obj->tests_inds = calloc(1, sizeof(TestIndex));
+    if (obj->tests_inds == NULL) {
+        fprintf(stderr, "***** ThreadQueue_init: not enough memory *****\n");
+        exit(EXIT_FAILURE);
+    }
     obj->gen = GeneratorState_create(gi, intf);
 }
 
@@ -581,6 +585,10 @@ void ThreadQueue_push_back(ThreadQueue *obj, TestIndex index)
 {
     obj->ntests++;
     obj->tests_inds = realloc(obj->tests_inds, obj->ntests * sizeof(TestIndex));
+    if (obj->tests_inds == NULL) {
+        fprintf(stderr, "***** ThreadQueue_push_back: not enough memory *****\n");
+        exit(EXIT_FAILURE);
+    }
     obj->tests_inds[obj->ntests - 1] = index;
 }
 
@@ -634,6 +642,10 @@ void TestsDispatcher_init(TestsDispatcher *obj, const TestsBattery *bat,
     obj->intf = intf;
     obj->nthreads = nthreads;
     obj->queues = calloc(nthreads, sizeof(ThreadQueue));
+    if (obj->res_thrd_ord == NULL || obj->queues == NULL) {
+        fprintf(stderr, "***** TestsDispatcher_init: not enough memory *****\n");
+        exit(EXIT_FAILURE);
+    }
 
     // They should be initialized BEFORE shuffling: shuffling
     // uses get_seed64 from entropy generator.
@@ -645,6 +657,10 @@ void TestsDispatcher_init(TestsDispatcher *obj, const TestsBattery *bat,
     seed64_mt_current_thread_ord = 0;
     // Prepare an unshuffled array of indexes
     TestIndex *inds = calloc(ntests, sizeof(TestIndex));
+    if (inds == NULL) {
+        fprintf(stderr, "***** TestsDispatcher_init: not enough memory *****\n");
+        exit(EXIT_FAILURE);
+    }
     for (size_t i = 0; i < ntests; i++) {
         inds[i].ind = i;
         inds[i].ord = i + THREAD_ORD_OFFSET;
@@ -773,6 +789,10 @@ static void TestsBattery_run_threads(const TestsBattery *bat,
     // Run threads
     init_thread_dispatcher();
     ThreadObj *thrd = calloc(opts->nthreads, sizeof(ThreadObj));
+    if (thrd == NULL) {
+        fprintf(stderr, "***** TestsBattery_run_threads: not enough memory *****\n");
+        exit(EXIT_FAILURE);
+    }
     for (unsigned int i = 0; i < opts->nthreads; i++) {
         const unsigned int ord = tdisp.queues[i].thread_ord;
         thrd[i] = ThreadObj_create(battery_thread, &tdisp, ord);
@@ -1056,8 +1076,15 @@ typedef struct {
 void *create_enveloped(const GeneratorInfo *gi, const CallerAPI *intf)
 {
     EnvelopedGeneratorState *obj = intf->malloc(sizeof(EnvelopedGeneratorState));
+    if (obj == NULL) {
+        return NULL;
+    }
     obj->parent_gi = gi->parent;
     obj->parent_state = gi->parent->create(gi->parent, intf);
+    if (obj->parent_state == NULL) {
+        intf->free(obj);
+        return NULL;
+    }
     obj->i32buf.pos = 2; // Invalidate buffer for interleaved output
     return obj;
 }
-- 
2.43.0


From c4942a46ad87fb378f3fbe91074f911767cafb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:45 +0000
Subject: [PATCH 31/48] fix: stdout modes: a generator that cannot be created
 was used

---
 src/core.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/core.c b/src/core.c
index c115674..e85dd80 100644
--- a/src/core.c
+++ b/src/core.c
@@ -1238,6 +1238,16 @@ maxlen_log2_to_nfloats(unsigned int maxlen_log2)
 }
 
 
+static void *create_for_output(const GeneratorInfo *gen, const CallerAPI *intf)
+{
+    void *state = gen->create(gen, intf);
+    if (state == NULL) {
+        fprintf(stderr, "Cannot create an example of generator '%s'\n", gen->name);
+        exit(EXIT_FAILURE);
+    }
+    return state;
+}
+
 /**
  * @brief Dump a PRNG output to the stdout in the format suitable
  * for PractRand.
@@ -1246,7 +1256,7 @@ void GeneratorInfo_bits_to_file(GeneratorInfo *gen,
     const CallerAPI *intf, unsigned int maxlen_log2)
 {
     set_bin_stdout();
-    void *state = gen->create(gen, intf);
+    void *state = create_for_output(gen, intf);
     unsigned int shl = maxlen_log2_to_nblocks32_log2(maxlen_log2);
     if (gen->nbits == 32) {
         uint32_t buf[256];        
@@ -1278,7 +1288,7 @@ void GeneratorInfo_bits_to_file(GeneratorInfo *gen,
 void GeneratorInfo_floats_to_file(GeneratorInfo *gen,
     const CallerAPI *intf, unsigned int maxlen_log2)
 {
-    void *state = gen->create(gen, intf);
+    void *state = create_for_output(gen, intf);
     const unsigned long long nfloats = maxlen_log2_to_nfloats(maxlen_log2);
     if (gen->nbits == 32) {
         const double inv32 = pow(2.0, -32.0);
@@ -1342,7 +1352,7 @@ static double make_accurate_float(GeneratorInfo *gen, void *state)
 void GeneratorInfo_accurate_floats_to_file(GeneratorInfo *gen,
     const CallerAPI *intf, unsigned int maxlen_log2)
 {
-    void *state = gen->create(gen, intf);
+    void *state = create_for_output(gen, intf);
     const unsigned long long nfloats = maxlen_log2_to_nfloats(maxlen_log2);
     for (unsigned long long i = 0; i < nfloats; i++) {
         const double f = make_accurate_float(gen, state);
-- 
2.43.0


From 78fe5ca583836d7972b34082736c934521b3dde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:00 +0000
Subject: [PATCH 32/48] fix: base64: check results of memory allocation

---
 src/base64.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/base64.c b/src/base64.c
index f7cff8f..a5da145 100644
--- a/src/base64.c
+++ b/src/base64.c
@@ -42,6 +42,9 @@ char *sr_u32_bigendian_to_base64(const uint32_t *in, size_t len)
     const size_t base64_len = calc_base64_len(len * 4);
     size_t pos = 0;
     char *base64_txt = calloc(base64_len + 1, sizeof(char));
+    if (base64_txt == NULL) {
+        return NULL;
+    }
     // Encode to base64
     for (size_t i = 0; i < len; i++) {
         queue |= ((uint64_t) in[i]) << (32 - queue_nbits);
@@ -123,6 +126,9 @@ uint32_t *sr_base64_to_u32_bigendian(const char *in, size_t *u32_len)
         return NULL;
     }
     uint32_t *u32_out = calloc(*u32_len, sizeof(uint32_t));    
+    if (u32_out == NULL) {
+        return NULL;
+    }
     uint64_t queue = 0;
     int queue_nbits = 0;
     for (size_t i = 0; i < len; i++) {
-- 
2.43.0


From 664a7f4e7303744bd59b4c3d4e1bf2c6f5888fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:00 +0000
Subject: [PATCH 33/48] fix: entropy: check results of memory allocation

---
 src/entropy.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/entropy.c b/src/entropy.c
index f8b52f7..2a63fe5 100644
--- a/src/entropy.c
+++ b/src/entropy.c
@@ -425,6 +425,10 @@ void Entropy_init_from_key(Entropy *obj, const uint32_t *key, uint64_t nonce)
     obj->slog_len = 1 << 8;
     obj->slog_maxlen = 1 << 20;
     obj->slog = calloc(obj->slog_len, sizeof(SeedLogEntry));
+    if (obj->slog == NULL) {
+        fprintf(stderr, "***** Entropy_init_from_key: not enough memory *****\n");
+        exit(EXIT_FAILURE);
+    }
     obj->slog_pos = 0;
     fprintf(stderr, "Entropy pool (seed generator) initialized\n");
     fprintf(stderr, "ChaCha20 initial state\n");
@@ -501,6 +505,10 @@ int Entropy_init_from_base64_seed(Entropy *obj, const char *seed)
 void Entropy_init(Entropy *obj)
 {
     EntropyBuffer *ent_buf = calloc(1, sizeof(EntropyBuffer));
+    if (ent_buf == NULL) {
+        fprintf(stderr, "***** Entropy_init: not enough memory *****\n");
+        exit(EXIT_FAILURE);
+    }
     uint32_t key[8] = {0, 0, 0, 0,  0, 0, 0, 0};
     // 256 bits of entropy from system CSPRNG
     int csprng_present = fill_from_random_device(&ent_buf->u8[0], 8 * sizeof(uint32_t));
@@ -593,6 +601,10 @@ uint64_t Entropy_seed64(Entropy *obj, uint64_t thread_id)
             if (newlen > obj->slog_maxlen) newlen = obj->slog_maxlen;
             obj->slog_len = newlen;
             obj->slog = realloc(obj->slog, newlen * sizeof(SeedLogEntry));
+            if (obj->slog == NULL) {
+                fprintf(stderr, "***** Entropy_seed64: not enough memory *****\n");
+                exit(EXIT_FAILURE);
+            }
         }
         // Save seed to the log
         SeedLogEntry log_entry;
-- 
2.43.0


From 0ce8072272306bf6a1892d010f0e0af28144626c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:00 +0000
Subject: [PATCH 34/48] fix: stdin generator: check result of memory allocation

---
 src/fileio.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fileio.c b/src/fileio.c
index 97df81d..a11afe7 100644
--- a/src/fileio.c
+++ b/src/fileio.c
@@ -38,6 +38,9 @@ static void *StdinCollector_create(const GeneratorInfo *gi, const CallerAPI *int
 {
     StdinCollector *obj = intf->malloc(sizeof(StdinCollector));
     (void) *gi;
+    if (obj == NULL) {
+        return NULL;
+    }
     obj->pos = STDIN_COLLECTOR_BUFFER_SIZE;
     set_bin_stdin();
     return (void *) obj;
-- 
2.43.0


From a3aff7ba837ba54e60e314fa8085f6299f8c6f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:00 +0000
Subject: [PATCH 35/48] fix: custom battery: check results of memory allocation

---
 src/bat_file.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/bat_file.c b/src/bat_file.c
index be0f240..dfc3fdb 100644
--- a/src/bat_file.c
+++ b/src/bat_file.c
@@ -66,6 +66,10 @@ static void erase_comments(char *linetxt, size_t len)
 void TestInfo_init(TestInfo *obj, const char *testname)
 {
     obj->args = malloc(sizeof(TestArgument));
+    if (obj->args == NULL) {
+        fprintf(stderr, "***** TestInfo_init: not enough memory *****");
+        exit(EXIT_FAILURE);
+    }
     obj->nargs = 0;
     xstrcpy_s(obj->testname, 64, testname);
 }
@@ -111,6 +115,10 @@ static long long txtvalue_to_int(const char *txtvalue)
     }
     size_t buflen = strlen(txtvalue) + 1;
     char *stripped = malloc(buflen);
+    if (stripped == NULL) {
+        fprintf(stderr, "***** txtvalue_to_int: not enough memory *****");
+        exit(EXIT_FAILURE);
+    }
     xstrcpy_s(stripped, buflen, txtvalue);
     for (size_t i = 0, j = 0; i < buflen - 1; i++) {
         while (stripped[j] == '_') j++;
@@ -193,6 +201,10 @@ void TestInfo_print(const TestInfo *obj)
 void TestInfoArray_init(TestInfoArray *obj)
 {
     obj->tests = malloc(sizeof(TestInfo));
+    if (obj->tests == NULL) {
+        fprintf(stderr, "***** TestInfoArray_init: not enough memory *****");
+        exit(EXIT_FAILURE);
+    }
     obj->ntests = 0;
     xstrcpy_s(obj->battery_name, 64, "CUSTOM");
 }
@@ -694,6 +706,10 @@ static int parse_usphere(TestDescription *out, const TestInfo *obj, char *errmsg
     GET_LIMITED_INTVALUE(ndims, 2, 20);
     GET_LIMITED_INTVALUE(npoints, 1000, 1ull << 40ull);
     UnitSphereOptions *opts = calloc(1, sizeof(UnitSphereOptions));
+    if (opts == NULL) {
+        fprintf(stderr, "***** parse_usphere: not enough memory *****");
+        exit(EXIT_FAILURE);
+    }
     opts->ndims = (unsigned int) ndims;
     opts->npoints = (unsigned long long) npoints;
     out->name = obj->testname;
-- 
2.43.0


From 85b5dc2e2318bd7f6dab835ce7b539f55bb8ded3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:00 +0000
Subject: [PATCH 36/48] fix: custom battery: buffer overflow in long names of
 parameters

---
 src/bat_file.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bat_file.c b/src/bat_file.c
index dfc3fdb..14b16d9 100644
--- a/src/bat_file.c
+++ b/src/bat_file.c
@@ -324,7 +324,7 @@ static int ParserState_process_token(ParserState *state, const char *token)
                 state->linenum, token);
             return 0;
         }
-        for (i = 0; i < 64 && token[i] != '='; i++) {
+        for (i = 0; i < 63 && token[i] != '='; i++) {
             name[i] = token[i];
         }
         name[i] = '\0';
-- 
2.43.0


From cbe2f07f5bdbf125587e57413679f0fc87c8f27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:00 +0000
Subject: [PATCH 37/48] fix: custom battery: null pointer if 'test' or 'bitpos'
 is absent

---
 src/bat_file.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/bat_file.c b/src/bat_file.c
index 14b16d9..bba7a99 100644
--- a/src/bat_file.c
+++ b/src/bat_file.c
@@ -596,6 +596,10 @@ static int parse_linearcomp(TestDescription *out, const TestInfo *obj, char *err
     GET_LIMITED_INTVALUE(nbits, 8, 1ll << 30ll);
     const char *bitpos_descr = TestInfo_get_value(obj, "bitpos");
     long long bitpos;
+    if (bitpos_descr == NULL) {
+        snprintf(errmsg, ERRMSG_BUF_SIZE, "Argument 'bitpos' not found");
+        return 0;
+    }
     if (!strcmp(bitpos_descr, "low")) {
         bitpos = LINEARCOMP_BITPOS_LOW;
     } else if (!strcmp(bitpos_descr, "mid")) {
@@ -777,6 +781,11 @@ BatteryExitCode battery_file(const char *filename, const GeneratorInfo *gen,
         const char *name = TestInfo_get_value(&tests_args.tests[i], "test");
         const TestInfo *curtest = &tests_args.tests[i];
         int parsed = 0;
+        if (name == NULL) {
+            fprintf(stderr, "Error in line %d. Parameter 'test' not found\n", curtest->linenum);
+            ans = BATTERY_ERROR;
+            goto battery_file_freemem;
+        }
         for (const TestFunc *parser = parsers; parser->name != NULL; parser++) {
             if (!strcmp(name, parser->name)) {
                 is_ok = parser->func(&tests[i], curtest, errmsg);
-- 
2.43.0


From a663b95309a0c0cd69d5b0cba408e9f23f8a1c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:00 +0000
Subject: [PATCH 38/48] fix: custom battery: refuse parameters that lead to
 invalid shifts and sizes

---
 src/bat_file.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/bat_file.c b/src/bat_file.c
index bba7a99..5ac1f89 100644
--- a/src/bat_file.c
+++ b/src/bat_file.c
@@ -407,6 +407,10 @@ static int parse_collover_nd(TestDescription *out, const TestInfo *obj, char *er
     GET_LIMITED_INTVALUE(nsamples, 1, 1ll << 30ll)
     GET_LIMITED_INTVALUE(get_lower, 0, 1)
     GET_LIMITED_INTVALUE(n, 1000, 1ll << 30ll)
+    if (nbits_per_dim * ndims > 63) {
+        snprintf(errmsg, ERRMSG_BUF_SIZE, "nbits_per_dim * ndims must be less than 64");
+        return 0;
+    }
     CollOverNDOptions *opts = calloc(1, sizeof(CollOverNDOptions));
     if (opts == NULL) {
         fprintf(stderr, "***** parse_collover_nd: not enough memory *****");
@@ -488,8 +492,12 @@ static int parse_bspace4_8d_decimated(TestDescription *out, const TestInfo *obj,
 
 static int parse_gap(TestDescription *out, const TestInfo *obj, char *errmsg)
 {
-    GET_LIMITED_INTVALUE(shl, 1, 64)
+    GET_LIMITED_INTVALUE(shl, 1, 31)
     GET_LIMITED_INTVALUE(ngaps, 10000, 1ll << 40ll)
+    if ((ngaps >> shl) < 20) {
+        snprintf(errmsg, ERRMSG_BUF_SIZE, "'ngaps' is too small for this 'shl'");
+        return 0;
+    }
     GapOptions *opts = calloc(1, sizeof(GapOptions));
     if (opts == NULL) {
         fprintf(stderr, "***** parse_gap: not enough memory *****");
-- 
2.43.0


From 6510c16ac1a2dd6ee8386b32642dc02cb00560d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:45 +0000
Subject: [PATCH 39/48] fix: mod3_test: out of memory was reported as success

---
 src/coretests.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coretests.c b/src/coretests.c
index b8f4292..1560c08 100644
--- a/src/coretests.c
+++ b/src/coretests.c
@@ -1092,7 +1092,7 @@ TestResults mod3_test(GeneratorState *obj, const Mod3Options *opts)
     unsigned long long *Oi = calloc(ntuples, sizeof(unsigned long long));
     if (Oi == NULL) {
         fprintf(stderr, "***** mod3_test: not enough memory *****\n");
-        exit(EXIT_SUCCESS);
+        exit(EXIT_FAILURE);
     }
     uint32_t tuple = 0;
     obj->intf->printf("mod3 test\n");
-- 
2.43.0


From b8cc210878cdc9a9a4fb58cad696c67193ac3076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:45 +0000
Subject: [PATCH 40/48] fix: custom battery: bit position in linearcomp must be
 less than 64

---
 src/bat_file.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bat_file.c b/src/bat_file.c
index 5ac1f89..9c3fb5b 100644
--- a/src/bat_file.c
+++ b/src/bat_file.c
@@ -615,7 +615,7 @@ static int parse_linearcomp(TestDescription *out, const TestInfo *obj, char *err
     } else if (!strcmp(bitpos_descr, "high")) {
         bitpos = LINEARCOMP_BITPOS_HIGH;
     } else {
-        bitpos = TestInfo_get_limited_intvalue(obj, "bitpos", 0, 64, errmsg);
+        bitpos = TestInfo_get_limited_intvalue(obj, "bitpos", 0, 63, errmsg);
         if (bitpos == LLONG_MAX) {
             return 0;
         }
-- 
2.43.0


From 3ea14d122a60cb045c7546827e12344196c56ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:45 +0000
Subject: [PATCH 41/48] fix: --maxlen_log2: check both limits

---
 apps/smokerand.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/smokerand.c b/apps/smokerand.c
index f8bce30..c8c2199 100644
--- a/apps/smokerand.c
+++ b/apps/smokerand.c
@@ -168,7 +168,7 @@ static BatteryExitCode process_argument(SmokeRandSettings *obj,
 
 DEFINE_NUMARG_CALLBACK(nthreads, "nthreads", argval > 0)
 DEFINE_NUMARG_CALLBACK(testid, "testid", argval > 0)
-DEFINE_NUMARG_CALLBACK(maxlen_log2, "maxlen_log2", 12 <= argval || argval <= 63)
+DEFINE_NUMARG_CALLBACK(maxlen_log2, "maxlen_log2", 12 <= argval && argval <= 63)
 
 
 static BatteryExitCode SmokeRandSettings_numarg_load(SmokeRandSettings *obj,
-- 
2.43.0


From a85dc7f2ac0377a3d1d1f2847e0171da9593c696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:45 +0000
Subject: [PATCH 42/48] fix: stdout modes: exit code of a successful run

---
 apps/smokerand.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/apps/smokerand.c b/apps/smokerand.c
index c8c2199..0e160f2 100644
--- a/apps/smokerand.c
+++ b/apps/smokerand.c
@@ -445,10 +445,13 @@ BatteryExitCode run_battery(const char *battery_name, GeneratorInfo *gi,
         ans = battery_shared_lib(filename, gi, intf, &bat_opts);
     } else if (!strcmp(battery_name, "stdout")) {
         GeneratorInfo_bits_to_file(gi, intf, opts->maxlen_log2);
+        ans = BATTERY_PASSED;
     } else if (!strcmp(battery_name, "stdoutfl")) {
         GeneratorInfo_floats_to_file(gi, intf, opts->maxlen_log2);
+        ans = BATTERY_PASSED;
     } else if (!strcmp(battery_name, "stdoutflx")) {
         GeneratorInfo_accurate_floats_to_file(gi, intf, opts->maxlen_log2);
+        ans = BATTERY_PASSED;
     } else {
         for (const BatteryEntry *entry = batteries; entry->name != NULL; entry++) {
             if (!strcmp(battery_name, entry->name)) {
-- 
2.43.0


From 20ae1459b9dfae78c935adcc995314f67feae734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:45 +0000
Subject: [PATCH 43/48] fix: stdin generators: the report mustn't be in the
 binary output

---
 apps/smokerand.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apps/smokerand.c b/apps/smokerand.c
index 0e160f2..3e32ac9 100644
--- a/apps/smokerand.c
+++ b/apps/smokerand.c
@@ -599,7 +599,9 @@ int main(int argc, char *argv[])
         }
         GeneratorInfo_print(&stdin_gi, is_stdout);
         BatteryExitCode ans = run_battery(battery_name, &stdin_gi, &intf, &opts);
-        StdinCollector_print_report();
+        if (!is_stdout) {
+            StdinCollector_print_report();
+        }
         CallerAPI_free();
         return ans;
     } else {
-- 
2.43.0


From 0038b9f6c83e7055b7307c7c590f84239304b84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:45 +0000
Subject: [PATCH 44/48] fix: stdout mode: check for output errors

---
 src/core.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/core.c b/src/core.c
index e85dd80..5560a89 100644
--- a/src/core.c
+++ b/src/core.c
@@ -1265,7 +1265,10 @@ void GeneratorInfo_bits_to_file(GeneratorInfo *gen,
             for (size_t j = 0; j < 256; j++) {
                 buf[j] = (uint32_t) gen->get_bits(state);
             }
-            fwrite(buf, sizeof(uint32_t), 256, stdout);
+            if (fwrite(buf, sizeof(uint32_t), 256, stdout) != 256) {
+                fprintf(stderr, "Writing to stdout failed\n");
+                exit(EXIT_FAILURE);
+            }
         }
     } else {
         uint64_t buf[256];
@@ -1274,7 +1277,10 @@ void GeneratorInfo_bits_to_file(GeneratorInfo *gen,
             for (size_t j = 0; j < 256; j++) {
                 buf[j] = gen->get_bits(state);
             }
-            fwrite(buf, sizeof(uint64_t), 256, stdout);
+            if (fwrite(buf, sizeof(uint64_t), 256, stdout) != 256) {
+                fprintf(stderr, "Writing to stdout failed\n");
+                exit(EXIT_FAILURE);
+            }
         }
     }
     gen->free(state, gen, intf);
-- 
2.43.0


From 49ef3e9c92601fd59680e1c35c135e70e803e966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:45 +0000
Subject: [PATCH 45/48] fix: number of threads must fit to the format of the
 seed

---
 apps/smokerand.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/apps/smokerand.c b/apps/smokerand.c
index 3e32ac9..4872c79 100644
--- a/apps/smokerand.c
+++ b/apps/smokerand.c
@@ -166,7 +166,10 @@ static BatteryExitCode process_argument(SmokeRandSettings *obj,
 
 
 
-DEFINE_NUMARG_CALLBACK(nthreads, "nthreads", argval > 0)
+/// Number of threads is stored as two hexadecimal digits in the `_` seeds.
+#define NTHREADS_LIMIT 255
+
+DEFINE_NUMARG_CALLBACK(nthreads, "nthreads", 0 < argval && argval <= NTHREADS_LIMIT)
 DEFINE_NUMARG_CALLBACK(testid, "testid", argval > 0)
 DEFINE_NUMARG_CALLBACK(maxlen_log2, "maxlen_log2", 12 <= argval && argval <= 63)
 
-- 
2.43.0


From 3920662a39f2511bfad7e81431321f94e55c9317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:45 +0000
Subject: [PATCH 46/48] fix: --filter was ignored for stdin32 and stdin64

---
 apps/smokerand.c | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/apps/smokerand.c b/apps/smokerand.c
index 4872c79..f2975bc 100644
--- a/apps/smokerand.c
+++ b/apps/smokerand.c
@@ -529,6 +529,18 @@ static void apply_filter(GeneratorInfo **gi, GeneratorFilter filter, GeneratorIn
 }
 
 
+static int is_filter_supported(const GeneratorInfo *gi, GeneratorFilter filter)
+{
+    if (gi->nbits != 64 && (filter == FILTER_INTERLEAVED32 ||
+        filter == FILTER_HIGH32 || filter == FILTER_LOW32)) {
+        fprintf(stderr, "This filter is supported only for 64-bit generators\n");
+        return 0;
+    } else {
+        return 1;
+    }
+}
+
+
 static void print_ram_size(const CallerAPI *intf)
 {
     RamInfo info;
@@ -594,14 +606,20 @@ int main(int argc, char *argv[])
 
     if (is_stdin32 || is_stdin64) {
         CallerAPI intf = CallerAPI_init();
-        GeneratorInfo stdin_gi;
+        GeneratorInfo stdin_gi, filter_gen;
+        GeneratorInfo *gi = &stdin_gi;
         if (is_stdin32) {
             stdin_gi = StdinCollector_get_info(stdin_collector_32bit);
         } else {
             stdin_gi = StdinCollector_get_info(stdin_collector_64bit);
         }
-        GeneratorInfo_print(&stdin_gi, is_stdout);
-        BatteryExitCode ans = run_battery(battery_name, &stdin_gi, &intf, &opts);
+        if (!is_filter_supported(gi, opts.filter)) {
+            CallerAPI_free();
+            return BATTERY_ERROR;
+        }
+        apply_filter(&gi, opts.filter, &filter_gen);
+        GeneratorInfo_print(gi, is_stdout);
+        BatteryExitCode ans = run_battery(battery_name, gi, &intf, &opts);
         if (!is_stdout) {
             StdinCollector_print_report();
         }
@@ -616,9 +634,8 @@ int main(int argc, char *argv[])
             return BATTERY_ERROR;
         }
         GeneratorInfo *gi = &mod.gen;
-        if (gi->nbits != 64 && (opts.filter == FILTER_INTERLEAVED32 ||
-            opts.filter == FILTER_HIGH32 || opts.filter == FILTER_LOW32)) {
-            fprintf(stderr, "This filter is supported only for 64-bit generators\n");
+        if (!is_filter_supported(gi, opts.filter)) {
+            GeneratorModule_unload(&mod);
             CallerAPI_free();
             return BATTERY_ERROR;
         }
-- 
2.43.0


From 3f19e6fd59a76d6ecf8ab647114b6e312b2cce18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:01 +0000
Subject: [PATCH 47/48] fix: custom battery: memory leak in the 'battery' entry

---
 src/bat_file.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bat_file.c b/src/bat_file.c
index 9c3fb5b..c18eb5b 100644
--- a/src/bat_file.c
+++ b/src/bat_file.c
@@ -311,6 +311,7 @@ static int ParserState_process_token(ParserState *state, const char *token)
                 return 0;
             }
             xstrcpy_s(state->tests.battery_name, 64, battery_name);
+            TestInfo_destruct(&state->testinfo);
         } else {
             TestInfoArray_addtest(&state->tests, &state->testinfo);
         }
-- 
2.43.0


From 4a5d92269cf1f41fbaac41e33d1f6e7b9006a56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:01 +0000
Subject: [PATCH 48/48] fix: default number of threads must fit to the format
 of the seed

---
 apps/smokerand.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/apps/smokerand.c b/apps/smokerand.c
index f2975bc..361cefb 100644
--- a/apps/smokerand.c
+++ b/apps/smokerand.c
@@ -102,6 +102,9 @@ typedef struct {
     ReportType report_type;
 } SmokeRandSettings;
 
+/// Number of threads is stored as two hexadecimal digits in the `_` seeds.
+#define NTHREADS_LIMIT 255
+
 /**
  * @brief Returns a default number of threads suitable for the current
  * hardware configuration.
@@ -122,6 +125,8 @@ static unsigned int get_default_nthreads(unsigned int *ncores)
     }
     if (nthreads > 4)
         nthreads--;
+    if (nthreads > NTHREADS_LIMIT)
+        nthreads = NTHREADS_LIMIT;
     return nthreads;
 }
 
@@ -166,9 +171,6 @@ static BatteryExitCode process_argument(SmokeRandSettings *obj,
 
 
 
-/// Number of threads is stored as two hexadecimal digits in the `_` seeds.
-#define NTHREADS_LIMIT 255
-
 DEFINE_NUMARG_CALLBACK(nthreads, "nthreads", 0 < argval && argval <= NTHREADS_LIMIT)
 DEFINE_NUMARG_CALLBACK(testid, "testid", argval > 0)
 DEFINE_NUMARG_CALLBACK(maxlen_log2, "maxlen_log2", 12 <= argval && argval <= 63)
-- 
2.43.0

