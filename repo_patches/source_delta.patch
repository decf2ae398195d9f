From d7fd49ca7920716004f992e4f0365b050d30b908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 01/15] fix: Artin-Schreier table skipped a solvable equation

The all-ones field element was left out of the table, so in every field
where it has trace zero (GF(32) with 100101 or GF(256) with 100101011, for
example) decoding failed for the patterns of two errors or erasures whose
locator polynomial leads to it.
---
 reed_solomon_error_correction.hh | 2 --
 1 file changed, 2 deletions(-)

diff --git a/reed_solomon_error_correction.hh b/reed_solomon_error_correction.hh
index 4796adf..1bb1d47 100644
--- a/reed_solomon_error_correction.hh
+++ b/reed_solomon_error_correction.hh
@@ -44,8 +44,6 @@ struct ArtinSchreier
 		for (int i = 2; i < GF::N; i += 2) {
 			ValueType x(i);
 			ValueType xxx(x * x + x);
-			if (xxx == ValueType(GF::N))
-				continue;
 			assert(xxx.v);
 			assert(!imap[xxx.v].v);
 			imap[xxx.v] = x;
-- 
2.43.0


From 6770ae9a4951bf1154382884faaae95b81b39c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 02/15] fix: report failure when the locator is shorter than
 the register

If the degree of the connection polynomial is below the length of the shift
register found by Berlekamp-Massey, then no error pattern of the locator's
roots has the computed syndromes. Lowering the degree until the leading
coefficient is nonzero made the decoders return success (even zero, for no
errors at all) for words that are not codewords.
---
 reed_solomon_error_correction.hh | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/reed_solomon_error_correction.hh b/reed_solomon_error_correction.hh
index 1bb1d47..a5b06c1 100644
--- a/reed_solomon_error_correction.hh
+++ b/reed_solomon_error_correction.hh
@@ -205,9 +205,8 @@ struct ReedSolomonErrorCorrection
 		assert(locator_degree);
 		assert(locator_degree <= NR);
 		assert(locator[0] == ValueType(1));
-		while (!locator[locator_degree])
-			if (--locator_degree < 0)
-				return -1;
+		if (!locator[locator_degree])
+			return -1;
 		int count = search(locator, locator_degree, locations);
 		if (count < locator_degree)
 			return -1;
-- 
2.43.0


From c3894e1c6bcc1ea6b9176b7dc2920416a2109697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:50 +0000
Subject: [PATCH 03/15] fix: find the least reliable positions also when the
 first bit is one of them

The list started out filled with position zero, so that a first bit of low
reliability kept the other unreliable positions from being tested.
---
 short_bch_code_decoder.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/short_bch_code_decoder.hh b/short_bch_code_decoder.hh
index 6e68966..e6db72b 100644
--- a/short_bch_code_decoder.hh
+++ b/short_bch_code_decoder.hh
@@ -98,7 +98,7 @@ public:
 			int worst[L] = { 0 };
 			for (int k = 0; k < N; ++k) {
 				int j = 0;
-				while (j < L && std::abs(code[worst[j]]) < std::abs(code[k]))
+				while (j < L && j < k && std::abs(code[worst[j]]) < std::abs(code[k]))
 					++j;
 				for (int i = L-1; i > j; --i)
 					worst[i] = worst[i-1];
-- 
2.43.0


From 0cbcfcad2a1d0cc22af331e1377ca6c8330c7901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:50 +0000
Subject: [PATCH 04/15] fix: failed test patterns must not outrank codewords

Correlations may be negative, so a failed decode needs a metric below all of
them, or the same noise is decoded on one codeword and not on another.
---
 short_bch_code_decoder.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/short_bch_code_decoder.hh b/short_bch_code_decoder.hh
index e6db72b..bbedb6e 100644
--- a/short_bch_code_decoder.hh
+++ b/short_bch_code_decoder.hh
@@ -30,7 +30,7 @@ class ShortBCHCodeDecoder
 	static int metric(const int8_t *soft, int hard)
 	{
 		if (hard < 0)
-			return -1;
+			return -128 * N - 1;
 		int lol = 8 * sizeof(hard) - 1;
 		int sum = 0;
 		for (int i = 0; i < N; ++i)
@@ -71,7 +71,7 @@ public:
 			return word;
 		// metric of hard decision
 		int best = metric(code, word);
-		int next = -2;
+		int next = -128 * N - 2;
 		auto update = [code, &word, &best, &next](int hard) {
 			if (hard == word)
 				return;
-- 
2.43.0


From f44c58634ec49cdfcbe9d51a2fa91dc13b7f4e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:50 +0000
Subject: [PATCH 05/15] fix: avoid shifting bits out of a signed integer

---
 short_bch_code_decoder.hh | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/short_bch_code_decoder.hh b/short_bch_code_decoder.hh
index bbedb6e..e9c9171 100644
--- a/short_bch_code_decoder.hh
+++ b/short_bch_code_decoder.hh
@@ -31,10 +31,9 @@ class ShortBCHCodeDecoder
 	{
 		if (hard < 0)
 			return -128 * N - 1;
-		int lol = 8 * sizeof(hard) - 1;
 		int sum = 0;
 		for (int i = 0; i < N; ++i)
-			sum += ((hard << (lol-i)) >> lol) * soft[i];
+			sum -= ((hard >> i) & 1) * soft[i];
 		return sum;
 	}
 public:
-- 
2.43.0


From 6635727afeafc16bde6ca14245a3331a67f9d7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:08 +0000
Subject: [PATCH 06/15] fix: candidates with negative correlation belong in the
 list

The list started out with scores of -1, so that candidates below that never
replaced the unset entries, and ties below that were reported as unique.
---
 osd.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/osd.hh b/osd.hh
index dfbc0c1..5e81ea5 100644
--- a/osd.hh
+++ b/osd.hh
@@ -191,7 +191,7 @@ public:
 		for (int i = 0; i < N; ++i)
 			candidate[i] = codeword[i];
 		int best = metric(codeword, softperm);
-		int next = -1;
+		int next = -127 * N - 1;
 		auto update = [this, &best, &next]() {
 			int met = metric(codeword, softperm);
 			if (met > best) {
@@ -352,7 +352,7 @@ public:
 			candidate[i] = codeword[i];
 		score[0] = metric();
 		for (int i = 1; i < L; ++i)
-			score[i] = -1;
+			score[i] = -127 * N - 1;
 		for (int i = 0; i < L; ++i)
 			cperm[i] = i;
 		for (int a = 0; O >= 1 && a < K; ++a) {
-- 
2.43.0


From be2d79ce96911739df4a294625365ed623f46c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:06 +0000
Subject: [PATCH 07/15] fix: start every LDPC decoding with the same write
 masks

The masks rotate from iteration to iteration and were left where the previous
call had stopped, so that the same input could give another output later.
---
 ldpc_decoder.hh | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ldpc_decoder.hh b/ldpc_decoder.hh
index 010ae96..57f1615 100644
--- a/ldpc_decoder.hh
+++ b/ldpc_decoder.hh
@@ -49,7 +49,7 @@ class LDPCDecoder
 	TYPE msg[MSG];
 	TYPE pty[PTY];
 	Loc loc[LOC];
-	wd_t wd[PTY];
+	wd_t wd[PTY], wd_init[PTY];
 	uint8_t cnc[q];
 
 	static TYPE eor(TYPE a, TYPE b)
@@ -248,10 +248,10 @@ public:
 					shift[c] = (shift[c] + 1) % M;
 				}
 				std::sort(lo, lo + cnt, [](const Loc &a, const Loc &b){ return a.off < b.off; });
-				wd[W*i+j] = 0;
+				wd_init[W*i+j] = 0;
 				for (int c = 0; c < cnt-1; ++c)
 					if (lo[c].off == lo[c+1].off)
-						wd[W*i+j] |= 1 << c;
+						wd_init[W*i+j] |= 1 << c;
 				lo += cnt;
 			}
 		}
@@ -262,6 +262,8 @@ public:
 	{
 		for (int i = 0; i < BNL; ++i)
 			bnl[i] = vzero<TYPE>();
+		for (int i = 0; i < PTY; ++i)
+			wd[i] = wd_init[i];
 		for (int i = 0; i < K/M; ++i)
 			for (int j = 0; j < W; ++j)
 				for (int n = 0; n < D; ++n)
-- 
2.43.0


From aea6c0aed1304f5b252303813fce5b7b55afb3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 08/15] fix: rotate write masks only among links of the same
 word

If the last link of a check belonged to no group, then it was rotated along
with the group before it, so that both links of a pair could be written in the
same iteration and a link without partner was held back.
---
 ldpc_decoder.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ldpc_decoder.hh b/ldpc_decoder.hh
index 57f1615..816da84 100644
--- a/ldpc_decoder.hh
+++ b/ldpc_decoder.hh
@@ -192,7 +192,7 @@ class LDPCDecoder
 					for (int first = 0, c = 1; c < cnt; ++c) {
 						if (lo[first].off != lo[c].off || c == cnt-1) {
 							int last = c - 1;
-							if (c == cnt-1)
+							if (lo[first].off == lo[c].off)
 								++last;
 							if (last != first) {
 								int count = last - first + 1;
-- 
2.43.0


From 71c15d6794419e857bbf063a314de3dbbdcfc1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:10 +0000
Subject: [PATCH 09/15] fix: dead paths must never outrank live ones

---
 polar_list_decoder.hh | 3 ++-
 polar_parity_aided.hh | 7 ++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/polar_list_decoder.hh b/polar_list_decoder.hh
index 07a1cb1..d78b93b 100644
--- a/polar_list_decoder.hh
+++ b/polar_list_decoder.hh
@@ -6,6 +6,7 @@ Copyright 2020 Ahmet Inan <inan@aicodix.de>
 
 #pragma once
 
+#include <limits>
 #include "sort.hh"
 #include "polar_helper.hh"
 
@@ -289,7 +290,7 @@ public:
 		int count = 0;
 		metric[0] = 0;
 		for (int k = 1; k < TYPE::SIZE; ++k)
-			metric[k] = 1000000;
+			metric[k] = std::numeric_limits<PATH>::max() / 2;
 		int length = 1 << level;
 		for (int i = 0; i < length; ++i)
 			soft[length+i] = vdup<TYPE>(codeword[i]);
diff --git a/polar_parity_aided.hh b/polar_parity_aided.hh
index f1230b0..f4e9e64 100644
--- a/polar_parity_aided.hh
+++ b/polar_parity_aided.hh
@@ -6,6 +6,7 @@ Copyright 2023 Ahmet Inan <inan@aicodix.de>
 
 #pragma once
 
+#include <limits>
 #include "sort.hh"
 #include "polar_helper.hh"
 
@@ -114,9 +115,9 @@ struct PolarParityNode<TYPE, 0>
 			*parity = PH::one();
 			for (int k = 0; k < TYPE::SIZE; ++k)
 				if (chk.v[k] < 0)
-					fork[2*k] = 1000000;
+					fork[2*k] = std::numeric_limits<PATH>::max() / 2;
 				else
-					fork[2*k+1] = 1000000;
+					fork[2*k+1] = std::numeric_limits<PATH>::max() / 2;
 		}
 		int perm[2*TYPE::SIZE];
 		CODE::insertion_sort(perm, fork, 2*TYPE::SIZE);
@@ -354,7 +355,7 @@ public:
 		PATH metric[TYPE::SIZE];
 		metric[0] = 0;
 		for (int k = 1; k < TYPE::SIZE; ++k)
-			metric[k] = 1000000;
+			metric[k] = std::numeric_limits<PATH>::max() / 2;
 		int length = 1 << level;
 		for (int i = 0; i < length; ++i)
 			soft[length+i] = vdup<TYPE>(codeword[i]);
-- 
2.43.0


From 63396c781b580d2ceabbec47a5d34c92dd6caed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:10 +0000
Subject: [PATCH 10/15] fix: parity positions ahead of the first message bit
 have nothing to reorder

---
 polar_parity_aided.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/polar_parity_aided.hh b/polar_parity_aided.hh
index f4e9e64..d4979a7 100644
--- a/polar_parity_aided.hh
+++ b/polar_parity_aided.hh
@@ -136,8 +136,10 @@ struct PolarParityNode<TYPE, 0>
 			++*index;
 			--*count;
 		} else {
-			message[*index-1] = vshuf(message[*index-1], map);
-			maps[*index-1] = vshuf(maps[*index-1], map);
+			if (*index) {
+				message[*index-1] = vshuf(message[*index-1], map);
+				maps[*index-1] = vshuf(maps[*index-1], map);
+			}
 			*count = stride;
 		}
 		*hard = hrd;
-- 
2.43.0


From 49eef15c668fc0d0e8a6d47646b06042fc4cc44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:10 +0000
Subject: [PATCH 11/15] fix: order positions of equal reliability by their
 index

---
 polar_freezer.hh  | 2 +-
 polar_sequence.hh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/polar_freezer.hh b/polar_freezer.hh
index 70b76f6..caf86ef 100644
--- a/polar_freezer.hh
+++ b/polar_freezer.hh
@@ -72,7 +72,7 @@ public:
 		compute(erasure_probability, 0, length / 2);
 		for (int i = 0; i < length; ++i)
 			index[i] = i;
-		std::nth_element(index, index+K, index+length, [this](int a, int b){ return prob[a] < prob[b]; });
+		std::nth_element(index, index+K, index+length, [this](int a, int b){ return prob[a] < prob[b] || (prob[a] == prob[b] && a > b); });
 		for (int i = 0; i < K; ++i)
 			inform_bit(frozen_bits, index[i]);
 		for (int i = K; i < length; ++i)
diff --git a/polar_sequence.hh b/polar_sequence.hh
index 511129d..cb218b1 100644
--- a/polar_sequence.hh
+++ b/polar_sequence.hh
@@ -32,7 +32,7 @@ public:
 		compute(erasure_probability, 0, length / 2);
 		for (int i = 0; i < length; ++i)
 			sequence[i] = i;
-		std::sort(sequence, sequence+length, [this](int a, int b){ return prob[a] > prob[b]; });
+		std::sort(sequence, sequence+length, [this](int a, int b){ return prob[a] > prob[b] || (prob[a] == prob[b] && a < b); });
 	}
 };
 
-- 
2.43.0


From ab98efe8600c86fbdd025d4585b446437815cf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:14 +0000
Subject: [PATCH 12/15] fix: clamp 64 bit lanes without needing AVX-512

---
 avx2.hh        | 3 ++-
 avx2_double.hh | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/avx2.hh b/avx2.hh
index b275cee..05bc241 100644
--- a/avx2.hh
+++ b/avx2.hh
@@ -1150,7 +1150,8 @@ template <>
 inline SIMD<int64_t, 4> vclamp(SIMD<int64_t, 4> x, int64_t a, int64_t b)
 {
 	SIMD<int64_t, 4> tmp;
-	tmp.m = _mm256_min_epi64(_mm256_max_epi64(x.m, _mm256_set1_epi64x(a)), _mm256_set1_epi64x(b));
+	__m256i y = _mm256_blendv_epi8(x.m, _mm256_set1_epi64x(a), _mm256_cmpgt_epi64(_mm256_set1_epi64x(a), x.m));
+	tmp.m = _mm256_blendv_epi8(y, _mm256_set1_epi64x(b), _mm256_cmpgt_epi64(y, _mm256_set1_epi64x(b)));
 	return tmp;
 }
 
diff --git a/avx2_double.hh b/avx2_double.hh
index 82a82bc..afd6a32 100644
--- a/avx2_double.hh
+++ b/avx2_double.hh
@@ -1276,8 +1276,10 @@ template <>
 inline SIMD<int64_t, 8> vclamp(SIMD<int64_t, 8> x, int64_t a, int64_t b)
 {
 	SIMD<int64_t, 8> tmp;
-	for (int i = 0; i < 2; ++i)
-		tmp.m[i] = _mm256_min_epi64(_mm256_max_epi64(x.m[i], _mm256_set1_epi64x(a)), _mm256_set1_epi64x(b));
+	for (int i = 0; i < 2; ++i) {
+		__m256i y = _mm256_blendv_epi8(x.m[i], _mm256_set1_epi64x(a), _mm256_cmpgt_epi64(_mm256_set1_epi64x(a), x.m[i]));
+		tmp.m[i] = _mm256_blendv_epi8(y, _mm256_set1_epi64x(b), _mm256_cmpgt_epi64(y, _mm256_set1_epi64x(b)));
+	}
 	return tmp;
 }
 
-- 
2.43.0


From 91e73e2347cb4b9ce29776e33c66fb740d057b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:19 +0000
Subject: [PATCH 13/15] fix: keep undefined bytes out of the ordered statistics
 metric

When N is not a multiple of the size of size_t, flip() and metric() also
walk the padding columns up to W, whose contents were never set.
---
 osd.hh | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/osd.hh b/osd.hh
index 5e81ea5..a2549e4 100644
--- a/osd.hh
+++ b/osd.hh
@@ -179,12 +179,15 @@ public:
 		for (int j = 0; j < K; ++j)
 			for (int i = 0; i < N; ++i)
 				G[W*j+i] = genmat[N*j+perm[i]];
+		for (int j = 0; j < K; ++j)
+			for (int i = N; i < W; ++i)
+				G[W*j+i] = 0;
 		row_echelon();
 		systematic();
 		for (int i = 0; i < N; ++i)
 			softperm[i] = std::max<int8_t>(soft[perm[i]], -127);
 		for (int i = N; i < W; ++i)
-			softperm[i] = 0;
+			softperm[i] = codeword[i] = 0;
 		for (int i = 0; i < K; ++i)
 			codeword[i] = softperm[i] < 0;
 		encode();
@@ -339,12 +342,15 @@ public:
 		for (int j = 0; j < K; ++j)
 			for (int i = 0; i < N; ++i)
 				G[W*j+i] = genmat[N*j+perm[i]];
+		for (int j = 0; j < K; ++j)
+			for (int i = N; i < W; ++i)
+				G[W*j+i] = 0;
 		row_echelon();
 		systematic();
 		for (int i = 0; i < N; ++i)
 			softperm[i] = std::max<int8_t>(soft[perm[i]], -127);
 		for (int i = N; i < W; ++i)
-			softperm[i] = 0;
+			softperm[i] = codeword[i] = 0;
 		for (int i = 0; i < K; ++i)
 			codeword[i] = softperm[i] < 0;
 		encode();
-- 
2.43.0


From df138ab2ed22094f744bffb28abdb8702a2c16a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:30 +0000
Subject: [PATCH 14/15] fix: let several translation units include the bit and
 checksum headers

The bit functions and the specialization of CRC<uint8_t> were not inline,
so that two units of a program including them could not be linked.
---
 bitman.hh | 12 ++++++------
 crc.hh    |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/bitman.hh b/bitman.hh
index 6d05ced..c09ec2c 100644
--- a/bitman.hh
+++ b/bitman.hh
@@ -8,32 +8,32 @@ Copyright 2018 Ahmet Inan <inan@aicodix.de>
 
 namespace CODE {
 
-void xor_be_bit(uint8_t *buf, int pos, bool val)
+inline void xor_be_bit(uint8_t *buf, int pos, bool val)
 {
 	buf[pos/8] ^= val<<(7-pos%8);
 }
 
-void xor_le_bit(uint8_t *buf, int pos, bool val)
+inline void xor_le_bit(uint8_t *buf, int pos, bool val)
 {
 	buf[pos/8] ^= val<<(pos%8);
 }
 
-void set_be_bit(uint8_t *buf, int pos, bool val)
+inline void set_be_bit(uint8_t *buf, int pos, bool val)
 {
 	buf[pos/8] = (~(1<<(7-pos%8))&buf[pos/8])|(val<<(7-pos%8));
 }
 
-void set_le_bit(uint8_t *buf, int pos, bool val)
+inline void set_le_bit(uint8_t *buf, int pos, bool val)
 {
 	buf[pos/8] = (~(1<<(pos%8))&buf[pos/8])|(val<<(pos%8));
 }
 
-bool get_be_bit(const uint8_t *buf, int pos)
+inline bool get_be_bit(const uint8_t *buf, int pos)
 {
 	return (buf[pos/8]>>(7-pos%8))&1;
 }
 
-bool get_le_bit(const uint8_t *buf, int pos)
+inline bool get_le_bit(const uint8_t *buf, int pos)
 {
 	return (buf[pos/8]>>(pos%8))&1;
 }
diff --git a/crc.hh b/crc.hh
index 75774ce..9771742 100644
--- a/crc.hh
+++ b/crc.hh
@@ -76,7 +76,7 @@ public:
 };
 
 template<>
-uint8_t CRC<uint8_t>::operator()(uint8_t data)
+inline uint8_t CRC<uint8_t>::operator()(uint8_t data)
 {
 	return crc = lut[crc ^ data];
 }
-- 
2.43.0


From f18c2db0e55dcde1f3edf7f135916151d496198f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:30 +0000
Subject: [PATCH 15/15] fix: include what simd_sort.hh needs

---
 simd_sort.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simd_sort.hh b/simd_sort.hh
index 1522c93..3ced543 100644
--- a/simd_sort.hh
+++ b/simd_sort.hh
@@ -6,6 +6,8 @@ Copyright 2024 Ahmet Inan <inan@aicodix.de>
 
 #pragma once
 
+#include "simd.hh"
+
 #include "sort.hh"
 
 template <typename TYPE, int WIDTH>
-- 
2.43.0

