From 2c1b9ed0a316b0d126311c2bea06eba45eb730d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:14 +0000
Subject: [PATCH 01/92] fix: encode() must not round the exponent of numbers
 just below a power of two

---
 .../src/Global/ConvertDoubleAndBinCode.hpp    | 30 ++++++++-----------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp b/HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp
index aa3950e..4086f3b 100644
--- a/HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp
+++ b/HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp
@@ -244,18 +244,16 @@ constexpr double absVal(const double fl) { return (fl >= 0) ? (fl) : (-fl); }
 constexpr float absVal(const float fl) { return (fl >= 0) ? (fl) : (-fl); }
 
 constexpr uint64_t exponentVal(double fl) {
-  uint64_t code = 0;
   fl = absVal(fl);
-
-  constexpr double seper =
-      decode(binCode64(0b0000000000001111111111111111111111111111111111111111111111111111));
-
-  while (fl > 257 * seper) {
+  // Only numbers that stay normal are scaled down, so that no division rounds.
+  constexpr double minNormal = std::numeric_limits<double>::min();
+  if (fl < minNormal) return 0;
+  uint64_t code = 1;
+  while (fl >= 512 * minNormal) {
     fl /= 256;
     code += 8;
   }
-
-  while (fl > seper) {
+  while (fl >= 2 * minNormal) {
     fl /= 2;
     code++;
   }
@@ -264,20 +262,16 @@ constexpr uint64_t exponentVal(double fl) {
 }
 
 constexpr uint32_t exponentVal(float fl) {
-  uint32_t code = 0;
   fl = absVal(fl);
-  /*
-constexpr double seper =
-    decode(binCode64(0b0000000000001111111111111111111111111111111111111111111111111111));
-    */
-  constexpr float seper = decode(binCode32(0b00000000011111111111111111111111UL));
-
-  while (fl > 257 * seper) {
+  // Only numbers that stay normal are scaled down, so that no division rounds.
+  constexpr float minNormal = std::numeric_limits<float>::min();
+  if (fl < minNormal) return 0;
+  uint32_t code = 1;
+  while (fl >= 512 * minNormal) {
     fl /= 256;
     code += 8;
   }
-
-  while (fl > seper) {
+  while (fl >= 2 * minNormal) {
     fl /= 2;
     code++;
   }
-- 
2.43.0


From ea7cc6b37b5cd5e419020ceca04d71d24d4b3fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:14 +0000
Subject: [PATCH 02/92] fix: encode() of an infinite float must keep its sign
 and width

---
 HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp b/HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp
index 4086f3b..d993fa5 100644
--- a/HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp
+++ b/HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp
@@ -390,9 +390,9 @@ constexpr binCode32 encode(const float d) {
 
   if (absVal(d) >= std::numeric_limits<float>::infinity()) {
     if (d > 0) {
-      return binCode32(0b11111111111UL << 23);
+      return binCode32(0b011111111UL << 23);
     } else {
-      return binCode32(0b111111111111UL << 23);
+      return binCode32(0b111111111UL << 23);
     }
   } else
     return binCode32(signCode(d) | exponentCode(d) | mantissaCode(d));
-- 
2.43.0


From 007b947205da06336610300599a9fc8297b09b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:33 +0000
Subject: [PATCH 03/92] fix: DivCode_Pi_mul_2 must be 2*pi, not 2/pi

---
 HeuristicFlow/src/Global/TemplateFloat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/Global/TemplateFloat.hpp b/HeuristicFlow/src/Global/TemplateFloat.hpp
index 66dcc69..f760f95 100644
--- a/HeuristicFlow/src/Global/TemplateFloat.hpp
+++ b/HeuristicFlow/src/Global/TemplateFloat.hpp
@@ -44,7 +44,7 @@ namespace heu {
 enum DivCode : uint64_t {
   DivCode_Half = 4294967298,
   DivCode_Pi = 2088567404207137453,
-  DivCode_Pi_mul_2 = 993512999210214248,
+  DivCode_Pi_mul_2 = 9182355717993529163,
   DivCode_Pi_mul_3 = 2111843339415065010,
   DivCode_Pi_mul_4 = 4223686678804044427,
   DivCode_Pi_mul_6 = 2111843339388979417,
-- 
2.43.0


From 846f50ff3f7840273c7367ae31a3e434dbdf2ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:57 +0000
Subject: [PATCH 04/92] fix: PowEncode must normalise to the 16 digits that fit
 its 54-bit field

---
 HeuristicFlow/src/Global/TemplateFloat.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/HeuristicFlow/src/Global/TemplateFloat.hpp b/HeuristicFlow/src/Global/TemplateFloat.hpp
index f760f95..1a1e33a 100644
--- a/HeuristicFlow/src/Global/TemplateFloat.hpp
+++ b/HeuristicFlow/src/Global/TemplateFloat.hpp
@@ -123,7 +123,7 @@ enum PowCode : uint64_t {
 
 namespace internal {
 // Multiplie val for 10 times until it gets greater than the threshold
-template <uint64_t val, uint64_t threshold = 10000000000000000ULL>
+template <uint64_t val, uint64_t threshold = 1000000000000000ULL>
 struct PowEncode_amplifier {
  private:
   static const constexpr bool need2amp = (val < threshold);
@@ -175,7 +175,7 @@ struct PowEncode_OneE<0> {
 template <int64_t significant, int16_t power>
 struct PowEncode {
  private:
-  static const constexpr uint64_t threshold = 1e16;
+  static const constexpr uint64_t threshold = 1e15;
   static const constexpr bool isNegative = significant < 0;
   static const constexpr uint64_t absVal = (isNegative) ? (-significant) : significant;
   static const constexpr bool isSigValid = (absVal / 10 < threshold);
@@ -227,7 +227,7 @@ struct PowDecode {
   static const constexpr bool isPowNegative = lowerBitMask & code;
   static const constexpr int16_t absPow = lowerPowMask & code;
   static const constexpr int16_t pow = (isPowNegative ? (-absPow) : absPow);
-  static const constexpr double digital = (sig) / (1e16);
+  static const constexpr double digital = (sig) / (1e15);
   static const constexpr double powPart = internal::PowEncode_OneE<pow>::result;
 
  public:
-- 
2.43.0


From 8daedf332a5d5d512bd57dbe750658bacf60360a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:25 +0000
Subject: [PATCH 05/92] fix: NchooseK must not overflow for results that fit

---
 HeuristicFlow/src/Global/HeuMaths.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/Global/HeuMaths.hpp b/HeuristicFlow/src/Global/HeuMaths.hpp
index 532ebef..8d31840 100644
--- a/HeuristicFlow/src/Global/HeuMaths.hpp
+++ b/HeuristicFlow/src/Global/HeuMaths.hpp
@@ -85,8 +85,13 @@ template <typename num_t>
 inline num_t NchooseK(num_t N, num_t K) noexcept {
   if (K * 2 > N) {
     return NchooseK<num_t>(N, N - K);
-  } else
-    return fractorial<num_t>(N) / (fractorial<num_t>(K) * fractorial<num_t>(N - K));
+  }
+  // Multiply and divide alternately (every division is exact), since N! overflows long before C^K_N.
+  num_t result = 1;
+  for (num_t i = 1; i <= K; i++) {
+    result = result * (N - K + i) / i;
+  }
+  return result;
 }
 /*
 namespace internal
-- 
2.43.0


From bf3c3374359c1cbfd699e4e540b5476356f9bbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:18 +0000
Subject: [PATCH 06/92] fix: move construction of multiBitSet must compile

---
 HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
index 00aa9e9..adb83c0 100644
--- a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
@@ -393,7 +393,7 @@ class multiBitSet {
 
     b._size = 0;
     b._data = 0;
-    b.end = 0;
+    b._end = 0;
   }
 
   /**
-- 
2.43.0


From 61126525147eb9bc5cb2e2215d7acabfef05caef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:18 +0000
Subject: [PATCH 07/92] fix: multiBitSet(0) must be a valid empty array

---
 HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
index adb83c0..89f84d9 100644
--- a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
@@ -352,6 +352,9 @@ class multiBitSet {
    * \param __size The initial size.
    */
   multiBitSet(size_t __size) {
+    _data = nullptr;
+    _end = nullptr;
+    _size = 0;
     if (__size <= 0) {
       return;
     }
-- 
2.43.0


From adfe7df2b2eb407b8204c9d85331f8f4b8cdb64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:18 +0000
Subject: [PATCH 08/92] fix: multiBitSet element mask when elements are as wide
 as blocks

---
 HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
index 89f84d9..450c449 100644
--- a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
@@ -36,7 +36,7 @@ class multiBitSet {
   /// Type of element
   using value_t = uintX_t<eleBits>;
   /// The maximum value of each element
-  static constexpr block_t blockMask = (block_t(1) << (eleBits)) - 1;
+  static constexpr block_t blockMask = block_t(~block_t(0)) >> (sizeof(block_t) * 8 - eleBits);
   /// Bits of block
   static constexpr size_t blockBits = sizeof(block_t) * 8;
 
-- 
2.43.0


From a12a1ebfc7c1e994574425a70ddc3201ba5f1c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:18 +0000
Subject: [PATCH 09/92] fix: multiBitSet must be usable with block types other
 than size_t

---
 HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
index 450c449..71080c6 100644
--- a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
@@ -111,7 +111,7 @@ class multiBitSet {
         */
 
    private:
-    friend class multiBitSet<eleBits>;
+    friend class multiBitSet;
     friend class iterator_t;
     friend class constIterator_t;
     reference_t() : source(nullptr), index(0){};
@@ -212,7 +212,7 @@ class multiBitSet {
    private:
     iterator_t(multiBitSet* src, size_t idx) : ref(src, idx) {}
 
-    friend class multiBitSet<eleBits>;
+    friend class multiBitSet;
     friend class reference_t;
     friend class iteratorBase<iterator_t>;
 
@@ -277,7 +277,7 @@ class multiBitSet {
    private:
     constIterator_t(multiBitSet* src, size_t idx) : ref(src, idx) {}
 
-    friend class multiBitSet<eleBits>;
+    friend class multiBitSet;
     friend class reference_t;
     friend class iteratorBase<constIterator_t>;
 
-- 
2.43.0


From d26a99c1855b20dad25b08aad7deb9702bc2ca6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:18 +0000
Subject: [PATCH 10/92] fix: begin() and end() of a const multiBitSet must
 compile

---
 HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
index 71080c6..15a212e 100644
--- a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
@@ -583,11 +583,11 @@ class multiBitSet {
 
   inline iterator_t begin() noexcept { return iterator_t(this, 0); }
 
-  inline constIterator_t begin() const noexcept { return constIterator_t(this, 0); }
+  inline constIterator_t begin() const noexcept { return constIterator_t(const_cast<multiBitSet*>(this), 0); }
 
   inline iterator_t end() noexcept { return iterator_t(this, size()); }
 
-  inline constIterator_t end() const noexcept { return constIterator_t(this, size()); }
+  inline constIterator_t end() const noexcept { return constIterator_t(const_cast<multiBitSet*>(this), size()); }
 
  private:
   block_t* _data;
-- 
2.43.0


From c08781e067b9f4eaf5dcee07e0b3c14cfe3a8bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:18 +0000
Subject: [PATCH 11/92] fix: multiBitSet writes across two blocks narrower than
 int must clear the old bits

---
 HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
index 15a212e..39123e3 100644
--- a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
@@ -624,8 +624,8 @@ class multiBitSet {
 
       const size_t rightBitNum = lastScalarBitIdx - midBitIdx + 1;
 
-      (*blockPrevPtr) = ((*blockPrevPtr) >> leftBitNum) << leftBitNum;
-      (*blockNextPtr) = ((*blockNextPtr) << rightBitNum) >> rightBitNum;
+      (*blockPrevPtr) = block_t((*blockPrevPtr) >> leftBitNum) << leftBitNum;
+      (*blockNextPtr) = block_t((*blockNextPtr) << rightBitNum) >> rightBitNum;
 
       (*blockPrevPtr) |= (value >> (rightBitNum));
       (*blockNextPtr) |= (value << (blockBits - rightBitNum));
-- 
2.43.0


From ed36f9fa5c401904183860c41941eca7bce98d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:37 +0000
Subject: [PATCH 12/92] fix: multiBitSet must not lose blocks to float rounding
 when it is large

---
 HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
index 39123e3..3130d62 100644
--- a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
@@ -359,8 +359,7 @@ class multiBitSet {
       return;
     }
 
-    // const size_t __bytesNeed = std::ceil(float(eleBits * __size) / 8);
-    const size_t __blocksNeed = size_t(std::ceil(float(__size * eleBits) / (blockBits)));
+    const size_t __blocksNeed = blocksFor(__size);
     _data = alloc().allocate(__blocksNeed);
     _end = _data + __blocksNeed;
     _size = __size;
@@ -465,7 +464,7 @@ class multiBitSet {
       return;
     }
 
-    const size_t newBlockNum = size_t(std::ceil(float(newSize * eleBits) / (sizeof(block_t) * 8)));
+    const size_t newBlockNum = blocksFor(newSize);
 
     block_t* newDataPtr = alloc().allocate(newBlockNum);
 
@@ -488,7 +487,7 @@ class multiBitSet {
       return;
     }
 
-    const size_t newBlockNum = std::ceil(float(newCap * eleBits) / (sizeof(block_t) * 8));
+    const size_t newBlockNum = blocksFor(newCap);
 
     block_t* newDataPtr = alloc().allocate(newBlockNum);
 
@@ -501,7 +500,7 @@ class multiBitSet {
   }
 
   inline void shrink_to_fit() noexcept {
-    const size_t blocksNeed = std::ceil(float(size() * eleBits) / blockBits);
+    const size_t blocksNeed = blocksFor(size());
 
     if (blocksNeed == blocks()) {
       return;
@@ -567,7 +566,7 @@ class multiBitSet {
     }
 
     resize(another.size());
-    const size_t blocksNeed = std::ceil(float(size() * eleBits) / blockBits);
+    const size_t blocksNeed = blocksFor(size());
 
     memcpy(_data, another._data, blocksNeed * sizeof(block_t));
     return *this;
@@ -596,6 +595,11 @@ class multiBitSet {
 
   friend class reference_t;
 
+  // blocks that contain n elements
+  static constexpr size_t blocksFor(const size_t n) noexcept {
+    return (n * eleBits + blockBits - 1) / blockBits;
+  }
+
   value_t setValue(const size_t index, block_t value) noexcept {
     value &= blockMask;  // remove extra bits
 
-- 
2.43.0


From 17c56e4b5b40a79fb19255a51314c122005b221f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:37 +0000
Subject: [PATCH 13/92] fix: copying a multiBitSet with spare capacity must not
 overrun the copy

---
 HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
index 3130d62..8a0be62 100644
--- a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
@@ -379,7 +379,7 @@ class multiBitSet {
     if (b.size() > 0) {
       this->resize(b.size());
 
-      memcpy(this->_data, b._data, b.blocks() * sizeof(block_t));
+      memcpy(this->_data, b._data, blocksFor(b.size()) * sizeof(block_t));
     }
   }
 
-- 
2.43.0


From cdec251e5ffc7f0644a55aea6a6688d9b997cc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:37 +0000
Subject: [PATCH 14/92] fix: multiBitSet::reserve must keep all elements,
 push_back relies on it

---
 HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
index 8a0be62..6122e77 100644
--- a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
@@ -491,7 +491,10 @@ class multiBitSet {
 
     block_t* newDataPtr = alloc().allocate(newBlockNum);
 
-    memcpy(newDataPtr, _data, _end - _data);
+    if (_data != nullptr) {
+      memcpy(newDataPtr, _data, blocks() * sizeof(block_t));
+    }
+    memset(newDataPtr + blocks(), 0, (newBlockNum - blocks()) * sizeof(block_t));
 
     alloc().deallocate(_data, _end - _data);
 
-- 
2.43.0


From 198068f6d7e8af1df510a99f2155885cb2a4cc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:31 +0000
Subject: [PATCH 15/92] fix: multiBitSet::resize must keep the existing
 elements when it grows

---
 HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp | 16 +---------------
 1 file changed, 1 insertion(+), 15 deletions(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
index 6122e77..97d6de7 100644
--- a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
@@ -459,21 +459,7 @@ class multiBitSet {
    * \param newSize
    */
   inline void resize(size_t newSize) noexcept {
-    if (newSize <= this->capacity()) {
-      _size = newSize;
-      return;
-    }
-
-    const size_t newBlockNum = blocksFor(newSize);
-
-    block_t* newDataPtr = alloc().allocate(newBlockNum);
-
-    // memcpy(newDataPtr, _data, _end - _data);
-
-    alloc().deallocate(_data, _end - _data);
-
-    _data = newDataPtr;
-    _end = _data + newBlockNum;
+    reserve(newSize);
     _size = newSize;
   }
 
-- 
2.43.0


From 97ac1ec93aff0cc161463458656e424ca0b3bfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:00 +0000
Subject: [PATCH 16/92] fix: the copy constructor of MatrixDynamicSize must
 start from an empty matrix

---
 HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
index f756ae4..b8874de 100644
--- a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
@@ -90,7 +90,7 @@ class MatrixDynamicSize : public MatrixBase<MatrixDynamicSize<Scalar, allocator_
    *
    * \param src Source of copying
    */
-  explicit MatrixDynamicSize(const MatrixDynamicSize &src) noexcept {
+  explicit MatrixDynamicSize(const MatrixDynamicSize &src) noexcept : MatrixDynamicSize() {
     resize(src.rowNum, src.colNum);
     for (int i = 0; i < size(); i++) {
       dataPtr[i] = src.dataPtr[i];
-- 
2.43.0


From cd0623de443c8762006cc07f37cc5a5d3360b8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:00 +0000
Subject: [PATCH 17/92] fix: copy assignment of MatrixDynamicSize must compile
 for trivially copyable elements

---
 HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
index b8874de..15eea69 100644
--- a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
@@ -136,11 +136,7 @@ class MatrixDynamicSize : public MatrixBase<MatrixDynamicSize<Scalar, allocator_
   MatrixDynamicSize &operator=(const MatrixDynamicSize &src) noexcept {
     resize(src.rowNum, src.colNum);
     for (int i = 0; i < size(); i++) {
-      if constexpr (!std::is_trivially_copy_assignable_v<Scalar_t>) {
-        dataPtr[i] = src.dataPtr[i];
-      } else {
-        memcpy(dataPtr, src, sizeof(Scalar_t) * src.size());
-      }
+      dataPtr[i] = src.dataPtr[i];
     }
     return *this;
   }
-- 
2.43.0


From 3d1296760be6d1b18cd4e37eeddca7409cf576b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:00 +0000
Subject: [PATCH 18/92] fix: move assignment of MatrixDynamicSize must return
 and survive self assignment

---
 HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
index 15eea69..b20a4c5 100644
--- a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
@@ -148,6 +148,7 @@ class MatrixDynamicSize : public MatrixBase<MatrixDynamicSize<Scalar, allocator_
    * \return MatrixDynamicSize&
    */
   MatrixDynamicSize &operator=(MatrixDynamicSize &&src) noexcept {
+    if (this == &src) return *this;
     if (this->dataPtr != nullptr) {
       if constexpr (!std::is_trivially_destructible_v<Scalar_t>) {
         for (int i = 0; i < _capacity; i++) {
@@ -166,6 +167,7 @@ class MatrixDynamicSize : public MatrixBase<MatrixDynamicSize<Scalar, allocator_
     src.colNum = 0;
     this->_capacity = src._capacity;
     src._capacity = 0;
+    return *this;
   }
 
   template <class DerivedB>
-- 
2.43.0


From 6ccbdf892db8532e3fc84c9b14ec6e5d5c325e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:00 +0000
Subject: [PATCH 19/92] fix: MatrixDynamicSize::resize must construct and
 destroy non-trivial elements

---
 HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
index b20a4c5..2936eda 100644
--- a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
@@ -249,7 +249,7 @@ class MatrixDynamicSize : public MatrixBase<MatrixDynamicSize<Scalar, allocator_
     if (r * c != size()) {
       if (r * c > _capacity) {
         if (dataPtr != nullptr) {
-          if constexpr (std::is_trivially_destructible_v<Scalar_t>)
+          if constexpr (!std::is_trivially_destructible_v<Scalar_t>)
             for (int i = 0; i < _capacity; i++) {
               // alloc().destroy(dataPtr + i);
               (dataPtr + i)->~Scalar_t();
@@ -260,10 +260,9 @@ class MatrixDynamicSize : public MatrixBase<MatrixDynamicSize<Scalar, allocator_
         dataPtr = alloc().allocate(r * c);
         _capacity = r * c;
 
-        if constexpr (std::is_trivially_default_constructible_v<Scalar_t>)
+        if constexpr (!std::is_trivially_default_constructible_v<Scalar_t>)
           for (int i = 0; i < _capacity; i++) {
-            // alloc().construct(dataPtr + i);
-            dataPtr[i] = Scalar_t();
+            std::allocator_traits<allocator_t>::construct(alloc(), dataPtr + i);
           }
       }
     }
-- 
2.43.0


From 42ebb17a89004e1db29ed0aa20d0e15595b0808d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:00 +0000
Subject: [PATCH 20/92] fix: MatrixDynamicSize::reserve must grow, not shrink,
 and keep the elements valid

---
 HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
index 2936eda..5aa006e 100644
--- a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
@@ -226,11 +226,18 @@ class MatrixDynamicSize : public MatrixBase<MatrixDynamicSize<Scalar, allocator_
    * \param s Size to be reserved
    */
   void reserve(int s) noexcept {
-    if (_capacity <= s) return;
+    if (s <= _capacity) return;
 
     Scalar_t *newPtr = alloc().allocate(s);
 
-    memcpy(newPtr, dataPtr, sizeof(Scalar_t) * _capacity);
+    for (int i = 0; i < s; i++) {
+      if (i < _capacity) {
+        std::allocator_traits<allocator_t>::construct(alloc(), newPtr + i, std::move(dataPtr[i]));
+        std::allocator_traits<allocator_t>::destroy(alloc(), dataPtr + i);
+      } else if constexpr (!std::is_trivially_default_constructible_v<Scalar_t>) {
+        std::allocator_traits<allocator_t>::construct(alloc(), newPtr + i);
+      }
+    }
 
     alloc().deallocate(dataPtr, _capacity);
 
-- 
2.43.0


From d534201fb87223d22f195bf9df38c1f1493f6768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:00 +0000
Subject: [PATCH 21/92] fix: assigning another kind of matrix to a MatrixMap
 must compile

---
 HeuristicFlow/src/SimpleMatrix/MatrixMap.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/HeuristicFlow/src/SimpleMatrix/MatrixMap.hpp b/HeuristicFlow/src/SimpleMatrix/MatrixMap.hpp
index af4b033..333afcf 100644
--- a/HeuristicFlow/src/SimpleMatrix/MatrixMap.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MatrixMap.hpp
@@ -27,6 +27,7 @@ namespace heu {
 
 template <typename Scalar>
 class MatrixMap : public MatrixBase<MatrixMap<Scalar>> {
+ public:
   using Scalar_t = Scalar;
 
  protected:
-- 
2.43.0


From 0991b9ca73c622dd6b432633806d913877ee61bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:03 +0000
Subject: [PATCH 22/92] fix: setDimensions of a rectangle box with dynamic
 vectors must compile

---
 HeuristicFlow/src/EAGlobal/BoxConstraint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
index 551445a..49c1b0e 100644
--- a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
+++ b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
@@ -308,7 +308,7 @@ class NonSquareBoxDynamicDimVec : public BoxBase<NonSquareBoxDynamicDimVec<Var>,
     return int(this->min().size());
   }
 
-  inline void setDimensions(const int dim) const noexcept {
+  inline void setDimensions(const int dim) noexcept {
     assert(dim > 0);
     this->min().resize(dim);
     this->max().resize(dim);
-- 
2.43.0


From af1c74615fa7edb5f42f6ff2a5512e01f381dfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:03 +0000
Subject: [PATCH 23/92] fix: boxes of integers must initialize within bounds at
 the limits of the type

---
 HeuristicFlow/src/EAGlobal/BoxConstraint.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
index 49c1b0e..43df8d4 100644
--- a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
+++ b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
@@ -20,6 +20,7 @@ This file is part of HeuristicFlow.
 #ifndef HEU_BOXCONSTRAINT_HPP
 #define HEU_BOXCONSTRAINT_HPP
 
+#include <cstdint>
 #include <limits>
 #include <type_traits>
 #include "../../Global"
@@ -41,8 +42,10 @@ class BoxBase {
       if constexpr (std::is_same_v<Scalar_t, bool>) {
         at(*v, idx) = randIdx(2) == 0;
       } else if constexpr (std::is_integral_v<Scalar_t>) {
-        at(*v, idx) = randIdx<Scalar_t>(static_cast<const Derived*>(this)->min(idx),
-                                        1 + static_cast<const Derived*>(this)->max(idx));
+        // 1 + max may not fit in Scalar_t, so the range is counted in 64 bits
+        const uint64_t lowest = uint64_t(static_cast<const Derived*>(this)->min(idx));
+        const uint64_t range = uint64_t(static_cast<const Derived*>(this)->max(idx)) - lowest;
+        at(*v, idx) = Scalar_t(lowest + randIdx<uint64_t>(range + 1));
       } else {
         at(*v, idx) = Scalar_t(randD(static_cast<const Derived*>(this)->min(idx),
                                      static_cast<const Derived*>(this)->max(idx)));
-- 
2.43.0


From 002e45478e5a89fa911a9a443f311f7b31be77ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:03 +0000
Subject: [PATCH 24/92] fix: an integer step must not wrap around at the limits
 of the type

---
 HeuristicFlow/src/EAGlobal/BoxConstraint.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
index 43df8d4..ea3b708 100644
--- a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
+++ b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
@@ -76,7 +76,12 @@ class BoxBase {
       at(*v, idx) = !at(*v, idx);
     } else {
       // integer mutation
-      at(*v, idx) += (randIdx(2) == 0) ? 1 : -1;
+      // compare before the step, which may overflow at the limits of Scalar_t
+      if (randIdx(2) == 0) {
+        if (at(*v, idx) < static_cast<const Derived*>(this)->max(idx)) at(*v, idx) += 1;
+      } else {
+        if (at(*v, idx) > static_cast<const Derived*>(this)->min(idx)) at(*v, idx) -= 1;
+      }
       at(*v, idx) = std::min(at(*v, idx), static_cast<const Derived*>(this)->max(idx));
       at(*v, idx) = std::max(at(*v, idx), static_cast<const Derived*>(this)->min(idx));
     }
-- 
2.43.0


From 90a7b83b240207cb99bf21a41e1c22a4aef5754e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:03 +0000
Subject: [PATCH 25/92] fix: continous boxes with a compile-time range must
 step by their delta

---
 HeuristicFlow/src/EAGlobal/BoxConstraint.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
index ea3b708..6301f57 100644
--- a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
+++ b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
@@ -653,6 +653,16 @@ class FixedContinousBox20 : public FixedDiscreteBox<Var, _minCT, _maxCT> {
   using Var_t = Var;
   using Scalar_t = typename array_traits<Var>::Scalar_t;
   inline constexpr Scalar_t delta(const int = 0) const noexcept { return _deltaCT; }
+
+  inline void applyDelta(Var_t* v) const noexcept {
+    assert(v->size() == this->dimensions());
+    const int idx = randIdx(this->dimensions());
+
+    at(*v, idx) += Scalar_t(randD(-1, 1)) * this->delta(idx);
+
+    at(*v, idx) = std::min(at(*v, idx), this->max(idx));
+    at(*v, idx) = std::max(at(*v, idx), this->min(idx));
+  }
 };
 
 #endif
@@ -669,6 +679,16 @@ class FixedContinousBox17 : public FixedDiscreteBox17<Var, _minCode, _maxCode> {
   static_assert(_deltaCT > 0);
 
   inline constexpr Scalar_t delta(const int = 0) const noexcept { return _deltaCT; }
+
+  inline void applyDelta(Var_t* v) const noexcept {
+    assert(v->size() == this->dimensions());
+    const int idx = randIdx(this->dimensions());
+
+    at(*v, idx) += Scalar_t(randD(-1, 1)) * this->delta(idx);
+
+    at(*v, idx) = std::min(at(*v, idx), this->max(idx));
+    at(*v, idx) = std::max(at(*v, idx), this->min(idx));
+  }
 };
 
 namespace {
-- 
2.43.0


From 6c4c86ae062f2a0f3e014505a05fced2e75da805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:46 +0000
Subject: [PATCH 26/92] fix: Ackley function needs 2*pi, M_2_PI is 2/pi

---
 HeuristicFlow/src/EAGlobal/SOFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
index 1f40756..3cf37c0 100644
--- a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
@@ -66,7 +66,7 @@ struct SOFunctions2<Var_t, Fitness_t, void> {
     assert4Size(_x);
     auto x = _x->operator[](0), y = _x->operator[](1);
     *f = -20 * std::exp(-0.2 * std::sqrt(0.5 * (x * x + y * y))) -
-         std::exp(0.5 * (std::cos(M_2_PI * x) + std::cos(M_2_PI * y))) + 20 + M_E;
+         std::exp(0.5 * (std::cos(2 * M_PI * x) + std::cos(2 * M_PI * y))) + 20 + M_E;
   }
 
   inline static void beale(const Var_t *_x, Fitness_t *f) noexcept {
-- 
2.43.0


From c0066460584e26608f799aac90a51033aa13e3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:46 +0000
Subject: [PATCH 27/92] fix: Goldstein-Price function lost a square and a
 coefficient

---
 HeuristicFlow/src/EAGlobal/SOFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
index 3cf37c0..b701b81 100644
--- a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
@@ -83,7 +83,7 @@ struct SOFunctions2<Var_t, Fitness_t, void> {
     const auto part1 =
         1 + square(1 + x + y) * (19 - 14 * x + 3 * x * x - 14 * y + 6 * x * y + 3 * y * y);
     const auto part2 =
-        30 + square(2 * x - 3 * y) * (18 - 32 * x + 12 * x + 47 * y - 36 * x * y + 27 * y * y);
+        30 + square(2 * x - 3 * y) * (18 - 32 * x + 12 * x * x + 48 * y - 36 * x * y + 27 * y * y);
     *f = part1 * part2;
   }
 
-- 
2.43.0


From a00a736f65d62bd62aa6bc9943c60bbc2759f636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:46 +0000
Subject: [PATCH 28/92] fix: Goldstein-Price function with an Arg_t must
 compile

---
 HeuristicFlow/src/EAGlobal/SOFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
index b701b81..5773ede 100644
--- a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
@@ -33,7 +33,7 @@ template <typename Var_t, class Fitness_t = double, class Arg_t = void>
 struct SOFunctions2 {
   HEU_REPEAT_FUNCTIONS(SOFunctions2, ackley)
   HEU_REPEAT_FUNCTIONS(SOFunctions2, beale)
-  HEU_REPEAT_FUNCTIONS(SOFunctions2, GoldSteinPrice)
+  HEU_REPEAT_FUNCTIONS(SOFunctions2, GoldsteinPrice)
   HEU_REPEAT_FUNCTIONS(SOFunctions2, booth)
   HEU_REPEAT_FUNCTIONS(SOFunctions2, bukin)
   HEU_REPEAT_FUNCTIONS(SOFunctions2, matyas)
-- 
2.43.0


From 191f3799b99616caa8adfd896937b8c37b0c2cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:46 +0000
Subject: [PATCH 29/92] fix: provide the three-hump camel function with an
 Arg_t too

---
 HeuristicFlow/src/EAGlobal/SOFunctions.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
index 5773ede..12cffc4 100644
--- a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
@@ -39,6 +39,7 @@ struct SOFunctions2 {
   HEU_REPEAT_FUNCTIONS(SOFunctions2, matyas)
   HEU_REPEAT_FUNCTIONS(SOFunctions2, levy)
   HEU_REPEAT_FUNCTIONS(SOFunctions2, himmelblau)
+  HEU_REPEAT_FUNCTIONS(SOFunctions2, threeHumpCamel)
   HEU_REPEAT_FUNCTIONS(SOFunctions2, easom)
   HEU_REPEAT_FUNCTIONS(SOFunctions2, crossInTray)
   HEU_REPEAT_FUNCTIONS(SOFunctions2, eggHolder)
-- 
2.43.0


From cd119b5dbf1660c759640906880874650ccca255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:46 +0000
Subject: [PATCH 30/92] fix: Holder table function takes the distance to the
 origin

---
 HeuristicFlow/src/EAGlobal/SOFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
index 12cffc4..cdc6748 100644
--- a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
@@ -171,7 +171,7 @@ struct SOFunctions2<Var_t, Fitness_t, void> {
     *f = -std::abs(std::sin(x) * std::cos(y) *
                    std::exp(
 
-                       std::abs(1 - std::sqrt(x * x - y * y) / M_PI)
+                       std::abs(1 - std::sqrt(x * x + y * y) / M_PI)
 
                            ));
   }
-- 
2.43.0


From e15f9f17c7484ede124c440f6ecea379efb2d42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:46 +0000
Subject: [PATCH 31/92] fix: Schaffer N.2 function squares the sine only

---
 HeuristicFlow/src/EAGlobal/SOFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
index cdc6748..2b7420f 100644
--- a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
@@ -189,7 +189,7 @@ struct SOFunctions2<Var_t, Fitness_t, void> {
     const auto x = _x->operator[](0);
     const auto y = _x->operator[](1);
 
-    *f = 0.5 + (square(std::sin(x * x - y * y) - 0.5)) / square(1 + 0.001 * (x * x + y * y));
+    *f = 0.5 + (square(std::sin(x * x - y * y)) - 0.5) / square(1 + 0.001 * (x * x + y * y));
   }
 
   inline static void schaffer4(const Var_t *_x, Fitness_t *f) noexcept {
-- 
2.43.0


From 27aeffc1098fce9848ad383dfe5e7ba693f6630f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 32/92] fix: Rosenbrock function compares with the squared
 coordinate

---
 HeuristicFlow/src/EAGlobal/SOFunctions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
index 2b7420f..fab14d4 100644
--- a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
@@ -240,12 +240,12 @@ struct SOFunctionsX<Var_t, Fitness_t, void> {
   inline static void rosenbrock(const Var_t *x, Fitness_t *f) noexcept {
     if constexpr (array_traits<Var_t>::isEigenClass) {
       auto square_1_minus_x_top = (1 - x->topRows(x->size() - 1)).square().sum();
-      auto minusSquare = (x->topRows(x->size() - 1) - x->bottomRows(x->size() - 1)).square().sum();
+      auto minusSquare = (x->topRows(x->size() - 1).square() - x->bottomRows(x->size() - 1)).square().sum();
       *f = 100 * minusSquare + square_1_minus_x_top;
     } else {
       double val = 0;
       for (int idx = 0; idx < x->size() - 1; idx++) {
-        val += 100 * square(x->operator[](idx + 1) - x->operator[](idx)) +
+        val += 100 * square(x->operator[](idx + 1) - square(x->operator[](idx))) +
                square(1 - x->operator[](idx));
       }
       *f = val;
-- 
2.43.0


From 173ddee141dd985620240f0b6ef0bca76a7fd1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 33/92] fix: Styblinski-Tang function halves the sum for Eigen
 arrays too

---
 HeuristicFlow/src/EAGlobal/SOFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
index fab14d4..2ed952b 100644
--- a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
@@ -255,7 +255,7 @@ struct SOFunctionsX<Var_t, Fitness_t, void> {
   inline static void styblinskiTang(const Var_t *x, Fitness_t *f) noexcept {
     if constexpr (array_traits<Var_t>::isEigenClass) {
       auto arr = x->array();
-      *f = (arr.pow(4) - 16 * arr.square() + 5 * arr).sum();
+      *f = (arr.pow(4) - 16 * arr.square() + 5 * arr).sum() / 2;
     } else {
       double val = 0;
       for (auto xi : *x) {
-- 
2.43.0


From 90a0c3fd96998be63223bbf127325b5cec2d621c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 34/92] fix: branches of the multi-objective Schaffer N.2
 function

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index 0e850ff..8a20efc 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -79,12 +79,12 @@ struct MOFunctions12<Var_t, Fitness_t, void> {
 
     if (x <= 1) {
       f->operator[](0) = -x;
-    } else if (x <= -3) {
+    } else if (x <= 3) {
       f->operator[](0) = x - 2;
     } else if (x <= 4) {
       f->operator[](0) = 4 - x;
     } else {
-      f->operator[](0) = 4 - x;
+      f->operator[](0) = x - 4;
     }
   }
 };
-- 
2.43.0


From fbafb9a8a7bee676060a3b31e596439edffc0857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 35/92] fix: test functions must resize the fitness by the
 fitness type, not the variable type

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index 8a20efc..1defe9b 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -108,8 +108,8 @@ struct MOFunctions22<Var_t, Fitness_t, void> {
   }
 
   static inline void initializeFitnessSize(Fitness_t *f) noexcept {
-    if constexpr (!array_traits<Var_t>::isFixedSize) {
-      if constexpr (array_traits<Var_t>::isEigenClass) {
+    if constexpr (!array_traits<Fitness_t>::isFixedSize) {
+      if constexpr (array_traits<Fitness_t>::isEigenClass) {
         f->resize(2, 1);
       } else {
         f->resize(2);
@@ -190,8 +190,8 @@ struct MOFunctions23<Var_t, Fitness_t, void> {
   }
 
   static inline void initializeFitnessSize(Fitness_t *f) noexcept {
-    if constexpr (!array_traits<Var_t>::isFixedSize) {
-      if constexpr (array_traits<Var_t>::isEigenClass) {
+    if constexpr (!array_traits<Fitness_t>::isFixedSize) {
+      if constexpr (array_traits<Fitness_t>::isEigenClass) {
         f->resize(3, 1);
       } else {
         f->resize(3);
-- 
2.43.0


From 06658d2f643b75347823932624eb23a0730fcc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 36/92] fix: coefficient of the Viennet function

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index 1defe9b..4dd80b1 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -208,7 +208,7 @@ struct MOFunctions23<Var_t, Fitness_t, void> {
 
     const auto x2_plus_y2 = x * x + y * y;
     f->operator[](0) = x2_plus_y2 / 2 + std::sin(x2_plus_y2);
-    f->operator[](1) = square(2 * x - 2 * y + 4) / 8 + square(x - y + 1) / 27 + 15;
+    f->operator[](1) = square(3 * x - 2 * y + 4) / 8 + square(x - y + 1) / 27 + 15;
     f->operator[](2) = 1 / (x2_plus_y2 + 1) - 1.1 * std::exp(-x2_plus_y2);
   }
 };
-- 
2.43.0


From 9178a607ba12a8f223df6bb31cf26842ae5d7d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 37/92] fix: Fonseca-Fleming function sums squares over all
 variables

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index 4dd80b1..d2bedfd 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -234,17 +234,16 @@ struct MOFunctionsX2<Var_t, Fitness_t, void> {
  public:
   static inline void FonsecaFleming(const Var_t *_x, Fitness_t *f) noexcept {
     assert4Size(f);
-    const int N = f->size();  // If the size of f is determined at compile-time, the compiler will
-                              // be able to optimize it; otherwise N is a read only integer.
+    const int N = int(_x->size());
     typename array_traits<Fitness_t>::Scalar_t exp1 = 0, exp2 = 0;
-    constexpr typename array_traits<Fitness_t>::Scalar_t rSqrtN = 1.0 / std::sqrt(double(N));
+    const typename array_traits<Fitness_t>::Scalar_t rSqrtN = 1.0 / std::sqrt(double(N));
     if constexpr (array_traits<Var_t>::isEigenClass) {
       exp1 = -1 * (_x->array() - rSqrtN).square().sum();
       exp2 = -1 * (_x->array() + rSqrtN).square().sum();
     } else {
       for (int idx = 0; idx < N; idx++) {
-        exp1 -= sqrt(_x->operator[](idx) - rSqrtN);
-        exp2 -= sqrt(_x->operator[](idx) + rSqrtN);
+        exp1 -= square(_x->operator[](idx) - rSqrtN);
+        exp2 -= square(_x->operator[](idx) + rSqrtN);
       }
     }
 
-- 
2.43.0


From 663095d27941f466911fe25575b1bb5aba2c6f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 38/92] fix: Kursawe function runs over all variables, not over
 the objectives

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index d2bedfd..aa94ae1 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -253,12 +253,12 @@ struct MOFunctionsX2<Var_t, Fitness_t, void> {
 
   static inline void Kursawe(const Var_t *_x, Fitness_t *f) noexcept {
     assert4Size(f);
-    const int N = int(f->size());
+    const int N = int(_x->size());
     typename array_traits<Var_t>::Scalar_t f1 = 0, f2 = 0;
     if constexpr (array_traits<Var_t>::isEigenClass) {
       if constexpr (array_traits<Var_t>::isFixedSize) {
-        auto topN_sub_1Rows = _x->template topRows<N - 1>();
-        auto bottomN_sub_1Rows = _x->template bottomRows<N - 1>();
+        auto topN_sub_1Rows = _x->topRows(N - 1);
+        auto bottomN_sub_1Rows = _x->bottomRows(N - 1);
         f1 = -10 * (-0.2 *
 
                     (topN_sub_1Rows.array().square() + bottomN_sub_1Rows.array().square())
-- 
2.43.0


From 6b181f50c677f99f7dc8203005e27de8d61d71d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 39/92] fix: test functions for a 1-d variable must not inherit
 emptyStruct5 twice

---
 HeuristicFlow/src/EAGlobal/TestFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/TestFunctions.hpp b/HeuristicFlow/src/EAGlobal/TestFunctions.hpp
index 0290afc..2aac73b 100644
--- a/HeuristicFlow/src/EAGlobal/TestFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/TestFunctions.hpp
@@ -62,7 +62,7 @@ struct MOFunctions
       public std::conditional<sizeMayMatchDTLZ1to7<Var_t, Fitness_t>::value,
                               DTLZ1to7<Var_t, Fitness_t, Arg_t>, emptyStruct5>::type,
       public std::conditional<sizeMayMatchDTLZ89<Var_t, Fitness_t>::value,
-                              DTLZ89<Var_t, Fitness_t, Arg_t>, emptyStruct5>::type {
+                              DTLZ89<Var_t, Fitness_t, Arg_t>, emptyStruct6>::type {
   static_assert((!array_traits<Fitness_t>::isFixedSize) || (array_traits<Fitness_t>::sizeCT >= 2),
                 "The size of Fitness_t must be greater than 1.");
 };
-- 
2.43.0


From 664cc045ef8aea184e0c31dc6b8fa2aabc83a58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 40/92] fix: DTLZ5 and DTLZ6 must compile for std containers

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index aa94ae1..3dfcbfb 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -524,7 +524,7 @@ struct DTLZ1to7<Var_t, Fitness_t, void> {
 
     scalar_t gXm = 0, gr = 0;
 
-    if (array_traits<Var_t>::isEigenClass) {
+    if constexpr (array_traits<Var_t>::isEigenClass) {
       auto xm = computeXM(x, f);
       gXm = (xm - 0.5).square().sum();
       gr = xm.square().sum();
@@ -585,7 +585,7 @@ struct DTLZ1to7<Var_t, Fitness_t, void> {
 
     scalar_t gXm = 0, gr = 0;
 
-    if (array_traits<Var_t>::isEigenClass) {
+    if constexpr (array_traits<Var_t>::isEigenClass) {
       auto xm = computeXM(x, f);
       gr = xm.square().sum();
       gXm = xm.pow(0.1).sum();
-- 
2.43.0


From 8bd63d18393c23dec39f48bf7a916f0f83f6b2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 41/92] fix: DTLZ7 copies the first M-1 variables for std
 containers

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index 3dfcbfb..0b28f90 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -654,7 +654,7 @@ struct DTLZ1to7<Var_t, Fitness_t, void> {
         f->head(M - 1) = x->head(M - 1);
       }
     } else {
-      for (int idx = 0; idx < M - 2; idx++) {
+      for (int idx = 0; idx < M - 1; idx++) {
         f->operator[](idx) = x->operator[](idx);
       }
     }
-- 
2.43.0


From a8c1c7b3a79486e3a6a3ee634413ff22e3d7744c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 42/92] fix: DTLZ9 must not read past the variables and the
 objectives

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index 0b28f90..ceb066b 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -859,14 +859,14 @@ struct DTLZ89<Var_t, Fitness_t, void> {
 
     for (int objIdx = 0; objIdx < M; objIdx++) {
       f->operator[](objIdx) = 0;
-      for (int varIdx = objIdx * N / M; varIdx <= std::min<int>(N, (objIdx + 1) * N / M);
+      for (int varIdx = objIdx * N / M; varIdx <= std::min<int>(N - 1, (objIdx + 1) * N / M);
            varIdx++) {
         f->operator[](objIdx) += std::pow(x->operator[](varIdx), 0.1);
       }
     }
     // apply penlties
     for (int objIdx = 0; objIdx < M - 1; objIdx++) {
-      auto gOfObjIdx = square(f->operator[](M)) + square(f->operator[](objIdx)) - 1;
+      auto gOfObjIdx = square(f->operator[](M - 1)) + square(f->operator[](objIdx)) - 1;
 
       if (gOfObjIdx < 0) {
         f->operator[](objIdx) += 1e3 + (-gOfObjIdx);
-- 
2.43.0


From f84c96b3aef3b66d7bab61640a1dafc2c349b662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:05 +0000
Subject: [PATCH 43/92] fix: DTLZ5 and DTLZ6 must not multiply their angles by
 pi/2 twice

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 24 +++++++++-------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index ceb066b..fb9ff4e 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -542,14 +542,14 @@ struct DTLZ1to7<Var_t, Fitness_t, void> {
         // theta = (1 + 2 * gr * x->template topRows<M - 1>()) * M_PI / (4 * (1 + gr));
         constexpr int M = array_traits<Fitness_t>::sizeCT;  // reload the M from const to constexpr
         theta_times_PI_div_2 =
-            M_PI / 2 * (1 + 2 * gr * x->template head<M - 1>()) * M_PI / (4 * (1 + gr));
+            (1 + 2 * gr * x->template head<M - 1>()) * M_PI / (4 * (1 + gr));
       } else {
         // theta = (1 + 2 * gr * x->topRows(M - 1)) * M_PI / (4 * (1 + gr));
-        theta_times_PI_div_2 = M_PI / 2 * (1 + 2 * gr * x->head(M - 1)) * M_PI / (4 * (1 + gr));
+        theta_times_PI_div_2 = (1 + 2 * gr * x->head(M - 1)) * M_PI / (4 * (1 + gr));
       }
 
       // theta[0] = M_PI / 2 * x->operator[](0);
-      theta_times_PI_div_2[0] = M_PI / 2 * M_PI / 2 * x->operator[](0);
+      theta_times_PI_div_2[0] = M_PI / 2 * x->operator[](0);
     } else {
       if constexpr (!array_traits<XPrevPartVec_t>::isFixedSize) {  // std::array or std::vector
         // theta.resize(M - 1);
@@ -558,13 +558,11 @@ struct DTLZ1to7<Var_t, Fitness_t, void> {
       }
 
       // theta[0] = M_PI / 2 * x->operator[](0);
-      theta_times_PI_div_2[0] = M_PI / 2 * M_PI / 2 * x->operator[](0);
+      theta_times_PI_div_2[0] = M_PI / 2 * x->operator[](0);
 
       for (int idx = 1; idx < M - 1; idx++) {
         // theta[idx] = (1 + 2 * gr * x->operator[](idx)) * M_PI / (4 * (1 + gr));
-        theta_times_PI_div_2[idx] = M_PI / 2 *
-
-                                    (1 + 2 * gr * x->operator[](idx)) * M_PI / (4 * (1 + gr));
+        theta_times_PI_div_2[idx] = (1 + 2 * gr * x->operator[](idx)) * M_PI / (4 * (1 + gr));
       }
     }
 
@@ -603,14 +601,14 @@ struct DTLZ1to7<Var_t, Fitness_t, void> {
         // theta = (1 + 2 * gr * x->template topRows<M - 1>()) * M_PI / (4 * (1 + gr));
         constexpr int M = array_traits<Fitness_t>::sizeCT;  // reload the M from const to constexpr
         theta_times_PI_div_2 =
-            M_PI / 2 * (1 + 2 * gr * x->template head<M - 1>()) * M_PI / (4 * (1 + gr));
+            (1 + 2 * gr * x->template head<M - 1>()) * M_PI / (4 * (1 + gr));
       } else {
         // theta = (1 + 2 * gr * x->topRows(M - 1)) * M_PI / (4 * (1 + gr));
-        theta_times_PI_div_2 = M_PI / 2 * (1 + 2 * gr * x->head(M - 1)) * M_PI / (4 * (1 + gr));
+        theta_times_PI_div_2 = (1 + 2 * gr * x->head(M - 1)) * M_PI / (4 * (1 + gr));
       }
 
       // theta[0] = M_PI / 2 * x->operator[](0);
-      theta_times_PI_div_2[0] = M_PI / 2 * M_PI / 2 * x->operator[](0);
+      theta_times_PI_div_2[0] = M_PI / 2 * x->operator[](0);
     } else {
       if constexpr (!array_traits<XPrevPartVec_t>::isFixedSize) {  // std::array or std::vector
         // theta.resize(M - 1);
@@ -619,13 +617,11 @@ struct DTLZ1to7<Var_t, Fitness_t, void> {
       }
 
       // theta[0] = M_PI / 2 * x->operator[](0);
-      theta_times_PI_div_2[0] = M_PI / 2 * M_PI / 2 * x->operator[](0);
+      theta_times_PI_div_2[0] = M_PI / 2 * x->operator[](0);
 
       for (int idx = 1; idx < M - 1; idx++) {
         // theta[idx] = (1 + 2 * gr * x->operator[](idx)) * M_PI / (4 * (1 + gr));
-        theta_times_PI_div_2[idx] = M_PI / 2 *
-
-                                    (1 + 2 * gr * x->operator[](idx)) * M_PI / (4 * (1 + gr));
+        theta_times_PI_div_2[idx] = (1 + 2 * gr * x->operator[](idx)) * M_PI / (4 * (1 + gr));
       }
     }
 
-- 
2.43.0


From e9db6e6260946627debdf35be2a5e7dce7f0a3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:05 +0000
Subject: [PATCH 44/92] fix: the angles of DTLZ5 and DTLZ6 depend on g(XM),
 which makes their front a curve

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index fb9ff4e..6f5cc92 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -527,13 +527,12 @@ struct DTLZ1to7<Var_t, Fitness_t, void> {
     if constexpr (array_traits<Var_t>::isEigenClass) {
       auto xm = computeXM(x, f);
       gXm = (xm - 0.5).square().sum();
-      gr = xm.square().sum();
     } else {
       for (int idx = M - 1; idx < N; idx++) {
-        gr += square(x->operator[](idx));
         gXm += square(x->operator[](idx) - 0.5);
       }
     }
+    gr = gXm;
 
     XPrevPartVec_t theta_times_PI_div_2;
     // compute theta;
@@ -585,14 +584,13 @@ struct DTLZ1to7<Var_t, Fitness_t, void> {
 
     if constexpr (array_traits<Var_t>::isEigenClass) {
       auto xm = computeXM(x, f);
-      gr = xm.square().sum();
       gXm = xm.pow(0.1).sum();
     } else {
       for (int idx = M - 1; idx < N; idx++) {
-        gr += square(x->operator[](idx));
         gXm += std::pow(x->operator[](idx), 0.1);
       }
     }
+    gr = gXm;
 
     XPrevPartVec_t theta_times_PI_div_2;
     // compute theta;
-- 
2.43.0


From 66083fd8e3fc5383c11f05ad6d468711fd6058f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:55 +0000
Subject: [PATCH 45/92] fix: test functions must accept fixed-size variables
 with dynamic fitness

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index 6f5cc92..010fce6 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -223,7 +223,7 @@ template <typename Var_t, class Fitness_t>
 struct MOFunctionsX2<Var_t, Fitness_t, void> {
  private:
   static_assert((!array_traits<Fitness_t>::isFixedSize) || (array_traits<Fitness_t>::sizeCT == 2));
-  static_assert((!array_traits<Var_t>::isFixedSize) || (array_traits<Fitness_t>::sizeCT >= 1));
+  static_assert((!array_traits<Var_t>::isFixedSize) || (array_traits<Var_t>::sizeCT >= 1));
 
   static inline void assert4Size(const Fitness_t *f) noexcept {
     if constexpr (!array_traits<Fitness_t>::isFixedSize) {
-- 
2.43.0


From 532b2a390deefce5c38f9f0349709aa99e51fde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:41 +0000
Subject: [PATCH 46/92] fix: Styblinski-Tang function must compile for Eigen
 arrays

---
 HeuristicFlow/src/EAGlobal/SOFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
index 2ed952b..7e06f7e 100644
--- a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
@@ -254,7 +254,7 @@ struct SOFunctionsX<Var_t, Fitness_t, void> {
 
   inline static void styblinskiTang(const Var_t *x, Fitness_t *f) noexcept {
     if constexpr (array_traits<Var_t>::isEigenClass) {
-      auto arr = x->array();
+      const auto &arr = x->array();
       *f = (arr.pow(4) - 16 * arr.square() + 5 * arr).sum() / 2;
     } else {
       double val = 0;
-- 
2.43.0


From 1455084dd9b71274f1c9a73d1818e6a09f11d2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:54 +0000
Subject: [PATCH 47/92] fix: Truncation and StochasticUniversal solvers must
 tell their select method too

---
 HeuristicFlow/src/Genetic/SOGASelecters.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/HeuristicFlow/src/Genetic/SOGASelecters.hpp b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
index f22d2cc..7541338 100644
--- a/HeuristicFlow/src/Genetic/SOGASelecters.hpp
+++ b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
@@ -48,6 +48,9 @@ template <>
 class SOGASelector<SelectMethod::Truncation> {
   friend class SOGAInheriter<SelectMethod::Truncation>;
 
+ public:
+  inline constexpr SelectMethod selectMethod() const noexcept { return SelectMethod::Truncation; }
+
  protected:
   template <class this_t>
   void __impl___impl_select() noexcept {
@@ -710,6 +713,11 @@ template <>
 class SOGASelector<SelectMethod::StochasticUniversal> {
   friend class SOGAInheriter<SelectMethod::StochasticUniversal>;
 
+ public:
+  inline constexpr SelectMethod selectMethod() const noexcept {
+    return SelectMethod::StochasticUniversal;
+  }
+
  protected:
   template <class this_t>
   void __impl___impl_select() noexcept {
-- 
2.43.0


From e027af17d38601509133d2c5193c9473059f69a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:47 +0000
Subject: [PATCH 48/92] fix: Truncation and EliteReserved must not read the
 fitness of the eliminated best gene

---
 HeuristicFlow/src/Genetic/SOGASelecters.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/SOGASelecters.hpp b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
index 7541338..d4e108b 100644
--- a/HeuristicFlow/src/Genetic/SOGASelecters.hpp
+++ b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
@@ -69,13 +69,16 @@ class SOGASelector<SelectMethod::Truncation> {
 
     std::sort(sortSpace.begin(), sortSpace.end(), this_t::GeneItCompareFun);
 
+    // the previous best gene may be eliminated if another gene is as good as it
+    const double previousBestFitness = static_cast<this_t*>(this)->bestFitness();
+
     while (static_cast<this_t*>(this)->_population.size() >
            static_cast<this_t*>(this)->_option.populationSize) {
       static_cast<this_t*>(this)->_population.erase(sortSpace.back());
       sortSpace.pop_back();
     }
 
-    static_cast<this_t*>(this)->updateFailTimesAndBestGene(sortSpace.front());
+    static_cast<this_t*>(this)->updateFailTimesAndBestGene(sortSpace.front(), previousBestFitness);
   }
 
  private:
@@ -842,6 +845,9 @@ class SOGASelector<SelectMethod::EliteReserved> {
     const int popSizeAfterSelect = int(static_cast<this_t*>(this)->_option.populationSize);
     const int eliminateNum = popSizeBeforeSelect - popSizeAfterSelect;
 
+    // the previous best gene may be eliminated if enough genes are as good as it
+    const double previousBestFitness = static_cast<this_t*>(this)->bestFitness();
+
     if (eliminateNum <= 0) {
       static_cast<this_t*>(this)->updateFailTimesAndBestGene(
           static_cast<this_t*>(this)->findCurrentBestGene());
@@ -910,7 +916,7 @@ class SOGASelector<SelectMethod::EliteReserved> {
 
     static_cast<this_t*>(this)->applyErasement(eliminateSpace);
     static_cast<this_t*>(this)->updateFailTimesAndBestGene(
-        static_cast<this_t*>(this)->findCurrentBestGene());
+        static_cast<this_t*>(this)->findCurrentBestGene(), previousBestFitness);
   }
 };
 
-- 
2.43.0


From f82e28e6666c1d1f08e19e69e16c6dd22c78d707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:47 +0000
Subject: [PATCH 49/92] fix: StochasticUniversal must restore the population
 size when all genes are equally fit

---
 HeuristicFlow/src/Genetic/SOGASelecters.hpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/SOGASelecters.hpp b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
index d4e108b..9c0f55f 100644
--- a/HeuristicFlow/src/Genetic/SOGASelecters.hpp
+++ b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
@@ -763,12 +763,10 @@ class SOGASelector<SelectMethod::StochasticUniversal> {
     }
 
     if (fitnessSum <= 0) {  //  unlikely
-      for (auto it = eliminateSpace.begin(); it != eliminateSpace.end();) {
-        if (randD() * static_cast<this_t*>(this)->_option.populationSize <= popSizeBeforeSelect) {
-          it = eliminateSpace.erase(it);
-        } else {
-          ++it;
-        }
+      while (int(eliminateSpace.size()) > eliminateNum) {
+        auto it = eliminateSpace.begin();
+        std::advance(it, randIdx(int(eliminateSpace.size())));
+        eliminateSpace.erase(it);
       }
     } else {
       const double pointerInterval =
@@ -792,7 +790,8 @@ class SOGASelector<SelectMethod::StochasticUniversal> {
       // While paving throught eliminateSpace, accumulate the fitness. Everytime when the sum is
       // greater of equal to the interval, erase the current element (selected)
       double fitnessCounter = randD(0, pointerInterval);
-      for (auto it = eliminateSpace.begin(); it != eliminateSpace.end();) {
+      for (auto it = eliminateSpace.begin();
+           it != eliminateSpace.end() && int(eliminateSpace.size()) > eliminateNum;) {
         fitnessCounter += it->second;
 
         if (fitnessCounter >= pointerInterval) {
-- 
2.43.0


From ba2652aeafeec11e4ebaa02adc5beb81bc7ab67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:47 +0000
Subject: [PATCH 50/92] fix: equally fit genes must have the same chance in
 RouletteWheel and EliteReserved

---
 HeuristicFlow/src/Genetic/SOGASelecters.hpp | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/SOGASelecters.hpp b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
index 9c0f55f..1a3af65 100644
--- a/HeuristicFlow/src/Genetic/SOGASelecters.hpp
+++ b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
@@ -166,13 +166,9 @@ class SOGASelector<SelectMethod::RouletteWheel> {
 
       } else {
         // select stochastically
-        const int sizeBeforeErasement = int(eliminateSpace.size());
-        for (auto it = eliminateSpace.begin(); it != eliminateSpace.end(); ++it) {
-          if (randIdx(sizeBeforeErasement) == 0) {
-            eliminateSpace.erase(it);
-            break;
-          }
-        }
+        auto it = eliminateSpace.begin();
+        std::advance(it, randIdx(int(eliminateSpace.size())));
+        eliminateSpace.erase(it);
       }
     }
 
@@ -886,13 +882,9 @@ class SOGASelector<SelectMethod::EliteReserved> {
 
     if (rMax <= 0) {  //  erase randomly
       while (int(eliminateSpace.size()) > eliminateNum) {
-        const int curEliminateSpaceSize = int(eliminateSpace.size());
-        for (auto it = eliminateSpace.begin(); it != eliminateSpace.end(); ++it) {
-          if (randD() * curEliminateSpaceSize <= 1) {
-            eliminateSpace.erase(it);
-            break;
-          }
-        }
+        auto it = eliminateSpace.begin();
+        std::advance(it, randIdx(int(eliminateSpace.size())));
+        eliminateSpace.erase(it);
       }
     } else {
       while (int(eliminateSpace.size()) > eliminateNum) {
-- 
2.43.0


From 95135967d859e2219078c6b3b3b29f21b3bf482f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:47 +0000
Subject: [PATCH 51/92] fix: LinearRank must draw from the sum of its
 probabilities, which is not 1

---
 HeuristicFlow/src/Genetic/SOGASelecters.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/Genetic/SOGASelecters.hpp b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
index 1a3af65..0e189da 100644
--- a/HeuristicFlow/src/Genetic/SOGASelecters.hpp
+++ b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
@@ -510,6 +510,7 @@ class SOGASelector<SelectMethod::LinearRank> {
     const double nNegitive = _linearSelectWrostProbability * popSizeBeforeSelect;
     const double nPositive = _linearSelectBestProbability * popSizeBeforeSelect;
 
+    double rMax = 0;  // the sum of probabilities, usually it's not 1
     std::list<std::pair<GeneIt_t, double>> eliminateSpace;
     for (int idx = 0; idx < int(sortSpace.size()); idx++) {
       eliminateSpace.emplace_back(std::make_pair(
@@ -520,9 +521,9 @@ class SOGASelector<SelectMethod::LinearRank> {
               popSizeBeforeSelect
 
           ));
+      rMax += eliminateSpace.back().second;
     }
 
-    double rMax = 1.0;
     while (int(eliminateSpace.size()) > popSizeBeforeSelect - K) {
       double r = randD(0, rMax);
       for (auto it = eliminateSpace.begin(); it != eliminateSpace.end(); ++it) {
-- 
2.43.0


From 885efdfe211bf138eda117935a1436f183e25fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:47 +0000
Subject: [PATCH 52/92] fix: initialize the Boltzmann strength of solvers that
 select their method at runtime

---
 HeuristicFlow/src/Genetic/SOGA.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/Genetic/SOGA.hpp b/HeuristicFlow/src/Genetic/SOGA.hpp
index 80ff28a..3f187ef 100644
--- a/HeuristicFlow/src/Genetic/SOGA.hpp
+++ b/HeuristicFlow/src/Genetic/SOGA.hpp
@@ -124,7 +124,7 @@ class SOGA : public internal::GABase<Var_t, double, Record, internal::DefaultGen
  public:
   HEU_MAKE_GABASE_TYPES(Base_t)
   SOGA() {
-    if constexpr (smOpt == SelectMethod::Boltzmann) {
+    if constexpr (smOpt == SelectMethod::Boltzmann || smOpt == SelectMethod::RunTimeSelectMethod) {
       this->_boltzmannSelectStrength = 10 * (fOpt == FITNESS_LESS_BETTER ? -1 : 1);
     }
   }
-- 
2.43.0


From 3d2fc3da438d5876c3eb3ef18dd88e6cf696e01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:59 +0000
Subject: [PATCH 53/92] fix: genetic solvers must not hang when there are less
 genes to compute than threads

---
 HeuristicFlow/src/Genetic/GABase.hpp   | 5 +++--
 HeuristicFlow/src/Genetic/NSGABase.hpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/GABase.hpp b/HeuristicFlow/src/Genetic/GABase.hpp
index 185e586..6c5783d 100644
--- a/HeuristicFlow/src/Genetic/GABase.hpp
+++ b/HeuristicFlow/src/Genetic/GABase.hpp
@@ -221,8 +221,9 @@ class GABase : public GAAbstract<Var_t, Fitness_t, Args_t>,
       }
       tasks.emplace_back(&i);
     }
-    static const int32_t thN = threadNum();
-#pragma omp parallel for schedule(dynamic, tasks.size() / thN)
+    // a chunk size of 0 would be an endless loop
+    const int32_t chunkSize = std::max(int32_t(1), int32_t(tasks.size()) / threadNum());
+#pragma omp parallel for schedule(dynamic, chunkSize)
     for (int i = 0; i < int(tasks.size()); i++) {
       Gene *ptr = tasks[i];
 
diff --git a/HeuristicFlow/src/Genetic/NSGABase.hpp b/HeuristicFlow/src/Genetic/NSGABase.hpp
index 23ac246..8a52c78 100644
--- a/HeuristicFlow/src/Genetic/NSGABase.hpp
+++ b/HeuristicFlow/src/Genetic/NSGABase.hpp
@@ -105,8 +105,9 @@ class NSGABase
   void calculateDominatedNum() noexcept {
     const size_t popSizeBefore = sortSpace.size();
 #ifdef HEU_HAS_OPENMP
-    static const int32_t thN = threadNum();
-#pragma omp parallel for schedule(dynamic, popSizeBefore / thN)
+    // a chunk size of 0 would be an endless loop
+    const int32_t chunkSize = std::max(int32_t(1), int32_t(popSizeBefore) / threadNum());
+#pragma omp parallel for schedule(dynamic, chunkSize)
     for (int ed = 0; ed < popSizeBefore; ed++) {
       sortSpace[ed]->dominated_by_num = 0;
       for (size_t er = 0; er < popSizeBefore; er++) {
-- 
2.43.0


From 918a9f0a8d14bccab445b203696856314d942291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:28 +0000
Subject: [PATCH 54/92] fix: Boltzmann selection must not overflow (and loop
 forever) or underflow

---
 HeuristicFlow/src/Genetic/SOGASelecters.hpp | 70 ++++++++++++++-------
 1 file changed, 46 insertions(+), 24 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/SOGASelecters.hpp b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
index 0e189da..63aa8a1 100644
--- a/HeuristicFlow/src/Genetic/SOGASelecters.hpp
+++ b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
@@ -44,6 +44,50 @@ class SOGASelector {
 template <SelectMethod sm>
 class SOGAInheriter;
 
+/**
+ * \ingroup HEU_GENETIC
+ * \brief Select genes one by one until `eliminateNum` genes are left in the list. The probability of
+ * a gene is in proportion to the exponential of the number that comes with it.
+ *
+ * Exponentials are taken relative to the greatest one that is left, so neither an overflow nor an
+ * underflow of all of them can happen.
+ */
+template <class GeneIt_t>
+void selectByLogProbability(std::list<std::pair<GeneIt_t, double>>& eliminateSpace,
+                            const int eliminateNum) noexcept {
+  while (int(eliminateSpace.size()) > eliminateNum) {
+    auto selected = eliminateSpace.begin();
+    for (auto it = eliminateSpace.begin(); it != eliminateSpace.end(); ++it) {
+      if (it->second > selected->second) {
+        selected = it;
+      }
+    }
+
+    const double maxValue = selected->second;
+    if (maxValue == ninfD) {  // all genes have no chance, so select stochastically
+      selected = eliminateSpace.begin();
+      std::advance(selected, randIdx(int(eliminateSpace.size())));
+      eliminateSpace.erase(selected);
+      continue;
+    }
+
+    double rMax = 0;
+    for (const auto& pair : eliminateSpace) {
+      rMax += std::exp(pair.second - maxValue);
+    }
+
+    double r = randD(0, rMax);
+    for (auto it = eliminateSpace.begin(); it != eliminateSpace.end(); ++it) {
+      r -= std::exp(it->second - maxValue);
+      if (r <= 0) {
+        selected = it;
+        break;
+      }
+    }
+    eliminateSpace.erase(selected);
+  }
+}
+
 template <>
 class SOGASelector<SelectMethod::Truncation> {
   friend class SOGAInheriter<SelectMethod::Truncation>;
@@ -674,33 +718,11 @@ class SOGASelector<SelectMethod::Boltzmann> {
     // double Z = 0;    //Z is erased because probability normalization is not guaranteed.
     for (GeneIt_t it = static_cast<this_t*>(this)->_population.begin();
          it != static_cast<this_t*>(this)->_population.end(); ++it) {
-      eliminateSpace.emplace_back(it, it->fitness);
+      eliminateSpace.emplace_back(it, _boltzmannSelectStrength * it->fitness);
       // Z += std::exp(it->fitness);
     }
 
-    double rMax = 0;  // the sum of "probability"
-    for (auto& pair : eliminateSpace) {
-      pair.second = std::exp(_boltzmannSelectStrength * pair.second);
-      rMax += pair.second;  //  the sum of probability may not be 1.
-    }
-
-    while (int(eliminateSpace.size()) > eliminateNum) {
-      double r = randD(0, rMax);
-
-      for (auto it = eliminateSpace.begin(); it != eliminateSpace.end(); ++it) {
-        r -= it->second;
-        if (r <= 0) {
-          rMax -= it->second;
-          eliminateSpace.erase(it);
-          break;
-        }
-      }
-
-      if (r > 0) {
-        rMax -= eliminateSpace.back().second;
-        eliminateSpace.pop_back();
-      }
-    }
+    selectByLogProbability(eliminateSpace, eliminateNum);
 
     static_cast<this_t*>(this)->applyErasement(eliminateSpace);
 
-- 
2.43.0


From 683302293b7a9178efab6ed1392c6c95431fb9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:28 +0000
Subject: [PATCH 55/92] fix: the mapped probabilities of Probability selection
 must not underflow

---
 HeuristicFlow/src/Genetic/SOGASelecters.hpp | 27 +++------------------
 1 file changed, 3 insertions(+), 24 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/SOGASelecters.hpp b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
index 63aa8a1..5fad97d 100644
--- a/HeuristicFlow/src/Genetic/SOGASelecters.hpp
+++ b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
@@ -450,34 +450,13 @@ class SOGASelector<SelectMethod::Probability> {
       }
     }
 
-    constexpr double NChooseK = 1e100;
-    // const double NChooseK = ::heu::NchooseK<double>(prevPopSize, K);
-    //  assert(!std::isnan(NChooseK));
-
-    double newProbSum = 0;
+    // p^K*(1-p)^(N-K) underflows easily, so take its logarithm
     for (auto& pair : eliminateSpace) {
       pair.second =
-          NChooseK * std::pow(pair.second, K) * std::pow(1.0 - pair.second, prevPopSize - K);
-      newProbSum += pair.second;
+          K * std::log(pair.second) + (prevPopSize - K) * std::log(std::max(0.0, 1.0 - pair.second));
     }
 
-    // assert(false);
-    while (int(eliminateSpace.size()) > eliminateNum) {
-      double r = randD(0.0, newProbSum);
-      for (auto it = eliminateSpace.begin(); it != eliminateSpace.end(); ++it) {
-        r -= it->second;
-        if (r <= 0) {
-          newProbSum -= it->second;
-          eliminateSpace.erase(it);
-          break;
-        }
-      }
-
-      if (r > 0) {
-        newProbSum -= eliminateSpace.back().second;
-        eliminateSpace.pop_back();
-      }
-    }
+    selectByLogProbability(eliminateSpace, eliminateNum);
 
     static_cast<this_t*>(this)->applyErasement(eliminateSpace);
 
-- 
2.43.0


From 8eeff601e60ac6c07ad610a2fba2414be3619292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:31 +0000
Subject: [PATCH 56/92] fix: <HeuristicFlow/Genetic> must compile when it is
 the first header, size_t needs stddef.h

---
 HeuristicFlow/src/Genetic/GAOption.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/HeuristicFlow/src/Genetic/GAOption.hpp b/HeuristicFlow/src/Genetic/GAOption.hpp
index ea74421..da02de9 100644
--- a/HeuristicFlow/src/Genetic/GAOption.hpp
+++ b/HeuristicFlow/src/Genetic/GAOption.hpp
@@ -20,6 +20,7 @@ This file is part of HeuristicFlow.
 #ifndef HEU_GAOPTION_HPP
 #define HEU_GAOPTION_HPP
 
+#include <stddef.h>
 #include <stdint.h>
 
 #include "InternalHeaderCheck.h"
-- 
2.43.0


From 36ad30a48536da5427060c4b4331105bfe36bfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:31 +0000
Subject: [PATCH 57/92] fix: cFunSwapNs and cFunSwapXs must compile for std
 containers

---
 HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp b/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
index f88c615..0ad6496 100644
--- a/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
+++ b/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
@@ -49,10 +49,15 @@ struct imp_GADefaults_DVO {
     const size_t N = p1->size();
     const size_t idx = randIdx(N);
 
-    c1->topRows(idx) = p1->topRows(idx);
-    c2->topRows(idx) = p2->topRows(idx);
-    c1->bottomRows(N - idx) = p2->bottomRows(N - idx);
-    c2->bottomRows(N - idx) = p1->bottomRows(N - idx);
+    for (size_t i = 0; i < N; i++) {
+      if (i < idx) {
+        c1->operator[](i) = p1->operator[](i);
+        c2->operator[](i) = p2->operator[](i);
+      } else {
+        c1->operator[](i) = p2->operator[](i);
+        c2->operator[](i) = p1->operator[](i);
+      }
+    }
   }
 };
 
-- 
2.43.0


From b7f5326503f670b878cfd59f2d7965d7b76777ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:31 +0000
Subject: [PATCH 58/92] fix: cFunRandXs must use the given probability

---
 HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp b/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
index 0ad6496..afd1272 100644
--- a/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
+++ b/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
@@ -451,7 +451,7 @@ struct GADefaults<Var_t, void> {
    */
   template <DivCode p = DivCode::DivCode_Half>
   inline static void cFunRandXs(const Var_t *p1, const Var_t *p2, Var_t *c1, Var_t *c2) noexcept {
-    Heu_PRIVATE_IMP_cFunX cFunRandNs(p1, p2, c1, c2);
+    Heu_PRIVATE_IMP_cFunX cFunRandNs<p>(p1, p2, c1, c2);
   }
 };
 
-- 
2.43.0


From fcd77d457764711f905d4a9fc22d1ac05093a2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:31 +0000
Subject: [PATCH 59/92] fix: mFun_s must compile for the box constraints of
 this library

---
 .../src/Genetic/Miscellaneous4GA.hpp          | 60 +++++++------------
 1 file changed, 20 insertions(+), 40 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp b/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
index afd1272..6e2eac4 100644
--- a/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
+++ b/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
@@ -136,43 +136,6 @@ struct GADefaults {
   static constexpr ContainerOption dvo =
       (array_traits<Var_t>::isEigenClass) ? (ContainerOption::Eigen) : (ContainerOption::Std);
 
-  template <BoxShape BS, typename unused = void>
-  struct SymBoxOp  //  non-square box
-  {
-    using scalar_t = typename toElement<Var_t>::type;
-
-    inline static void imp_domFunNs(const Var_t *src, Var_t *v, const Args_t *box) noexcept {
-      *v = *src;
-      const size_t idx = randIdx(v->size());
-      const auto val = v->operator[](idx);
-      const size_t numLess = val - box->min()[idx];
-      const size_t numGreater = box->max()[idx] - val;
-
-      if (randD() * (numLess + numGreater) <= numLess)
-        v->operator[](idx) = randIdx(box->min()[idx], val);
-      else
-        v->operator[](idx) = randIdx(scalar_t(val + 1), scalar_t(box->max()[idx] + 1));
-    }
-  };
-
-  template <typename unused>
-  struct SymBoxOp<BoxShape::SQUARE_BOX, unused> {
-    using scalar_t = typename toElement<Var_t>::type;
-
-    inline static void imp_domFunNs(const Var_t *src, Var_t *v, const Args_t *box) noexcept {
-      *v = *src;
-      const size_t idx = randIdx(v->size());
-      const auto val = v->operator[](idx);
-      const size_t numLess = val - box->min();
-      const size_t numGreater = box->max() - val;
-
-      if (randD() * (numLess + numGreater) <= numLess)
-        v->operator[](idx) = randIdx(box->min(), val);
-      else
-        v->operator[](idx) = randIdx(scalar_t(val + 1), scalar_t(box->max() + 1));
-    }
-  };
-
  public:
   /**
    * \brief Univerial initialize function.
@@ -327,12 +290,29 @@ struct GADefaults {
   requires isBoxConstraint<Args_t>
 #endif  //  #if __cplusplus >= 202002L
   inline static void mFun_s(const Var_t *src, Var_t *v, const Args_t *box) noexcept {
-    static_assert(Args_t::isBox, "Default mFun requires Args_t to be a box constriant");
-    static_assert(Args_t::Encoding == EncodeType::Symbolic, "mFun_s requires symbolic box");
+    using scalar_t = typename toElement<Var_t>::type;
+    static_assert(std::is_integral<scalar_t>::value, "mFun_s requires symbolic box");
     static_assert(std::is_same<typename Args_t::Var_t, Var_t>::value,
                   "Box and Var_t types must be same");
 
-    SymBoxOp<Args_t::Shape>::imp_domFunNs(src, v, box);
+    *v = *src;
+    const int idx = int(randIdx(size_t(v->size())));
+    const int64_t val = v->operator[](idx);
+    int64_t min, max;
+    if constexpr (std::is_arithmetic<std::decay_t<decltype(box->min())>>::value) {
+      min = box->min();
+      max = box->max();
+    } else {  //  non-square box
+      min = box->min()[idx];
+      max = box->max()[idx];
+    }
+
+    if (min >= max) return;
+
+    // choose one of the other values
+    int64_t newVal = randIdx(min, max);
+    if (newVal >= val) newVal++;
+    v->operator[](idx) = scalar_t(newVal);
   }
 };
 
-- 
2.43.0


From 635dc54b06576c531720aaea002b3a41ac1a5999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:13 +0000
Subject: [PATCH 60/92] fix: DiscretBox must have the Shape that
 isBoxConstraint requires

---
 HeuristicFlow/src/EAGlobal/BoxConstraint.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
index 6301f57..f7ed20a 100644
--- a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
+++ b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
@@ -452,6 +452,7 @@ class DiscretBox
  public:
   using Var_t = Var;
   using Scalar_t = typename array_traits<Var_t>::Scalar_t;
+  static constexpr BoxShape Shape = BS;
 
   static_assert(!(std::is_same_v<Scalar_t, bool> && BS == BoxShape::RECTANGLE_BOX),
                 "Boolean box must be a square box");
-- 
2.43.0


From 63b25f2f88aa0df02b9d901924dd0bea4e306319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:35 +0000
Subject: [PATCH 61/92] fix: MOGAs with a dynamic number of objectives must
 compile

---
 HeuristicFlow/src/Genetic/MOGABase.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/Genetic/MOGABase.hpp b/HeuristicFlow/src/Genetic/MOGABase.hpp
index 1d60c58..fa6e644 100644
--- a/HeuristicFlow/src/Genetic/MOGABase.hpp
+++ b/HeuristicFlow/src/Genetic/MOGABase.hpp
@@ -151,7 +151,7 @@ class MOGABase<Var_t, Eigen::Dynamic, fOpt, rOpt, Gene, Args_t, _iFun_, _fFun_,
  protected:
   inline void __impl_computeAllFitness() noexcept {
     for (Gene_t& g : this->_population) {
-      if (!g.isCalculated()) {
+      if (!g.is_fitness_computed) {
         g.fitness.resize(objectiveNum(), 1);
       }
     }
-- 
2.43.0


From 636ce95c98ec800103016995b63ef723353fa097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:35 +0000
Subject: [PATCH 62/92] fix: MOGAAbstract::paretoFront of decision variables
 must compile

---
 HeuristicFlow/src/Genetic/MOGAAbstract.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/Genetic/MOGAAbstract.hpp b/HeuristicFlow/src/Genetic/MOGAAbstract.hpp
index 3691f3c..7eaba3d 100644
--- a/HeuristicFlow/src/Genetic/MOGAAbstract.hpp
+++ b/HeuristicFlow/src/Genetic/MOGAAbstract.hpp
@@ -101,7 +101,7 @@ class MOGAAbstract : public GABase<Var_t, Eigen::Array<double, ObjNum, 1>, rOpt,
     front.clear();
     front.reserve(_pfGenes.size());
     for (const Gene* i : _pfGenes) {
-      front.emplace_back(std::make_pair(&(i->self), &(i->fitness)));
+      front.emplace_back(std::make_pair(&(i->decision_variable), &(i->fitness)));
     }
   }
 
-- 
2.43.0


From e564272d6ee2fc238882f27522e42bf160f51601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:03 +0000
Subject: [PATCH 63/92] fix: NSGA2 must not read a layer that does not exist
 when the population is small

---
 HeuristicFlow/src/Genetic/NSGA2.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/NSGA2.hpp b/HeuristicFlow/src/Genetic/NSGA2.hpp
index 78d53e0..973c5de 100644
--- a/HeuristicFlow/src/Genetic/NSGA2.hpp
+++ b/HeuristicFlow/src/Genetic/NSGA2.hpp
@@ -206,8 +206,9 @@ class NSGA2
     selected.reserve(this->_option.populationSize);
     bool needCongestion = true;
     while (true) {
-      // don't need to calculate congestion
-      if (selected.size() == this->_option.populationSize) {
+      // don't need to calculate congestion (no layer is left if the population was not greater than
+      // populationSize)
+      if (selected.size() == this->_option.populationSize || this->pfLayers.empty()) {
         needCongestion = false;
         break;
       }
-- 
2.43.0


From f66e16ef9889070bd6afd2f0a32c0212fbf5a093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:03 +0000
Subject: [PATCH 64/92] fix: NSGA3 must not read a layer that does not exist
 when the population is small

---
 HeuristicFlow/src/Genetic/NSGA3Abstract.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/NSGA3Abstract.hpp b/HeuristicFlow/src/Genetic/NSGA3Abstract.hpp
index 86d08c8..50c0751 100644
--- a/HeuristicFlow/src/Genetic/NSGA3Abstract.hpp
+++ b/HeuristicFlow/src/Genetic/NSGA3Abstract.hpp
@@ -162,8 +162,9 @@ class NSGA3Abstract : public NSGABase<Var_t, ObjNum, FITNESS_LESS_BETTER, rOpt,
     bool needRefPoint;
 
     while (true) {
-      // Luckily we don't need to select part of some genes in Fl.
-      if (selected.size() == this->_option.populationSize) {
+      // Luckily we don't need to select part of some genes in Fl. (no layer is left if the population
+      // was not greater than populationSize)
+      if (selected.size() == this->_option.populationSize || this->pfLayers.empty()) {
         needRefPoint = false;
         break;
       }
-- 
2.43.0


From 22c08a14cda8393d521150482a6f76b210120c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:21 +0000
Subject: [PATCH 65/92] fix: NSGA3 must not normalize a constant objective to
 NaN

---
 HeuristicFlow/src/Genetic/NSGA3Abstract.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/HeuristicFlow/src/Genetic/NSGA3Abstract.hpp b/HeuristicFlow/src/Genetic/NSGA3Abstract.hpp
index 50c0751..5f50b4f 100644
--- a/HeuristicFlow/src/Genetic/NSGA3Abstract.hpp
+++ b/HeuristicFlow/src/Genetic/NSGA3Abstract.hpp
@@ -298,6 +298,8 @@ class NSGA3Abstract : public NSGABase<Var_t, ObjNum, FITNESS_LESS_BETTER, rOpt,
     if (isSingular(extremePoints)) {
       for (size_t r = 0; r < M; r++) {
         intercepts[r] = extremePoints(r, r);
+        // all genes share the same value on this objective, and 0/0 would be NaN
+        if (intercepts[r] == 0) intercepts[r] = 1;
       }
     } else {
       extremePoints2Intercept(extremePoints, &intercepts);
-- 
2.43.0


From 8160de03923d2dda5702c1a4ecd2ef6d41fdeead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:41 +0000
Subject: [PATCH 66/92] fix: the singularity test of NSGA3 must not depend on
 the units of the objectives

---
 HeuristicFlow/src/Genetic/NSGA3Abstract.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/Genetic/NSGA3Abstract.hpp b/HeuristicFlow/src/Genetic/NSGA3Abstract.hpp
index 5f50b4f..67938e0 100644
--- a/HeuristicFlow/src/Genetic/NSGA3Abstract.hpp
+++ b/HeuristicFlow/src/Genetic/NSGA3Abstract.hpp
@@ -503,7 +503,9 @@ class NSGA3Abstract : public NSGABase<Var_t, ObjNum, FITNESS_LESS_BETTER, rOpt,
   }
 
   inline static bool isSingular(const Eigen::Array<double, ObjNum, ObjNum>& mat) noexcept {
-    return std::abs(mat.matrix().determinant()) <= 1e-10;
+    // Each row is an objective, and objectives may have different orders of magnitude.
+    const double scale = mat.matrix().rowwise().norm().prod();
+    return std::abs(mat.matrix().determinant()) <= 1e-10 * scale;
   }
 
   inline static void extremePoints2Intercept(const Eigen::Array<double, ObjNum, ObjNum>& P,
-- 
2.43.0


From 2bf582cca6d9f80b4d25e4ca51a9cda9ea30b21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:29 +0000
Subject: [PATCH 67/92] fix: posMax(int) of a square PSO box must return the
 maximum

---
 HeuristicFlow/src/PSO/BoxWithVelocity.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/PSO/BoxWithVelocity.hpp b/HeuristicFlow/src/PSO/BoxWithVelocity.hpp
index e1c6100..38c84ba 100644
--- a/HeuristicFlow/src/PSO/BoxWithVelocity.hpp
+++ b/HeuristicFlow/src/PSO/BoxWithVelocity.hpp
@@ -44,7 +44,7 @@ class SquareBox4PSO {
 
   inline Scalar_t posMin(const int) const noexcept { return _posMinS; }
 
-  inline Scalar_t posMax(const int) const noexcept { return _posMinS; }
+  inline Scalar_t posMax(const int) const noexcept { return _posMaxS; }
 
   inline void setRange(const Scalar_t min, const Scalar_t max) noexcept {
     assert(min < max);
-- 
2.43.0


From c08a30f9dff1941ab116d312a99c21c2f08187a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:29 +0000
Subject: [PATCH 68/92] fix: setRange of a rectangular PSO box must compile

---
 HeuristicFlow/src/PSO/BoxWithVelocity.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/PSO/BoxWithVelocity.hpp b/HeuristicFlow/src/PSO/BoxWithVelocity.hpp
index 38c84ba..40cc897 100644
--- a/HeuristicFlow/src/PSO/BoxWithVelocity.hpp
+++ b/HeuristicFlow/src/PSO/BoxWithVelocity.hpp
@@ -107,7 +107,7 @@ class NonsquareBox4PSO {
   inline Scalar_t posMax(const int idx) const noexcept { return at(_posMaxV, idx); }
 
   inline void setRange(const Var_t& _min, const Var_t& _max) noexcept {
-    if constexpr (!array_traits<Var_t>::isSizeFixed) {
+    if constexpr (!array_traits<Var_t>::isFixedSize) {
       assert(_min.size() == _max.size());
     }
 
-- 
2.43.0


From 09364101e4851849c8953a44700bb3929222e7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:29 +0000
Subject: [PATCH 69/92] fix: rectangular PSO boxes with dynamic dimensions must
 compile

---
 HeuristicFlow/src/PSO/BoxWithVelocity.hpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/HeuristicFlow/src/PSO/BoxWithVelocity.hpp b/HeuristicFlow/src/PSO/BoxWithVelocity.hpp
index 40cc897..41c284b 100644
--- a/HeuristicFlow/src/PSO/BoxWithVelocity.hpp
+++ b/HeuristicFlow/src/PSO/BoxWithVelocity.hpp
@@ -234,8 +234,8 @@ class NonSquareBoxDynamicDimResizer4Vec4PSO : public NonsquareBox4PSO<Var_t> {
       if (this->posMax().size() != __d) {
         this->posMax().resize(__d);
       }
-      if (this->velocityMax().size() != __d) {
-        this->velocityMax().resize(__d);
+      if (this->maxVelocity().size() != __d) {
+        this->maxVelocity().resize(__d);
       }
     } else if constexpr (array_traits<Var_t>::isColVector) {
       if (this->posMin().size() != __d) {
@@ -244,8 +244,8 @@ class NonSquareBoxDynamicDimResizer4Vec4PSO : public NonsquareBox4PSO<Var_t> {
       if (this->posMax().size() != __d) {
         this->posMax().resize(__d, 1);
       }
-      if (this->velocityMax().size() != __d) {
-        this->velocityMax().resize(__d, 1);
+      if (this->maxVelocity().size() != __d) {
+        this->maxVelocity().resize(__d, 1);
       }
     } else {
       if (this->posMin().size() != __d) {
@@ -254,8 +254,8 @@ class NonSquareBoxDynamicDimResizer4Vec4PSO : public NonsquareBox4PSO<Var_t> {
       if (this->posMax().size() != __d) {
         this->posMax().resize(1, __d);
       }
-      if (this->velocityMax().size() != __d) {
-        this->velocityMax().resize(1, __d);
+      if (this->maxVelocity().size() != __d) {
+        this->maxVelocity().resize(1, __d);
       }
     }
   }
@@ -267,11 +267,11 @@ class NonSquareBoxDynamicDimResizer4Mat4PSO : public NonsquareBox4PSO<Var_t> {
   inline void assert4Size() const noexcept {
     assert(this->posMin().rows() == this->posMax().rows());
 
-    assert(this->posMax().rows() == this->velocityMax().rows());
+    assert(this->posMax().rows() == this->maxVelocity().rows());
 
     assert(this->posMin().cols() == this->posMax().cols());
 
-    assert(this->posMax().cols() == this->velocityMax().cols());
+    assert(this->posMax().cols() == this->maxVelocity().cols());
   }
 
  public:
@@ -299,8 +299,8 @@ class NonSquareBoxDynamicDimResizer4Mat4PSO : public NonsquareBox4PSO<Var_t> {
       this->posMax().resize(_r, _c);
     }
 
-    if (this->velocityMax().rows() != _r || this->velocityMax().cols() != _c) {
-      this->velocityMax().resize(_r, _c);
+    if (this->maxVelocity().rows() != _r || this->maxVelocity().cols() != _c) {
+      this->maxVelocity().resize(_r, _c);
     }
   }
 };
@@ -314,7 +314,7 @@ class NonSquareBoxDynamicDim4PSO
   static_assert(!array_traits<Var_t>::isFixedSize);
   inline int dimensions() const noexcept {
     assert(this->posMin().size() == this->posMax().size());
-    assert(this->posMax().size() == this->velocityMax().size());
+    assert(this->posMax().size() == this->maxVelocity().size());
 
     return this->posMin().size();
   }
-- 
2.43.0


From c150577584f1a81948602f17b5e2f829e7314729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:29 +0000
Subject: [PATCH 70/92] fix: PSO must compile for std::array and std::vector

---
 HeuristicFlow/src/PSO/PSO4std.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/HeuristicFlow/src/PSO/PSO4std.hpp b/HeuristicFlow/src/PSO/PSO4std.hpp
index 6fe808a..e0b4d3a 100644
--- a/HeuristicFlow/src/PSO/PSO4std.hpp
+++ b/HeuristicFlow/src/PSO/PSO4std.hpp
@@ -105,12 +105,12 @@ class PSO4std : public internal::PSOAbstract<Var_t, double, RecordOpt, Arg_t, BS
             this->_option.inertiaFactor * i.velocity[idx] +
             this->_option.learnFactorP * rndP * (i.pBest.position[idx] - i.position[idx]) +
             this->_option.learnFactorG * rndG * (this->gBest.position[idx] - i.position[idx]);
-        if (std::abs(i.velocity[idx]) > this->_velocityMax[idx]) {
-          i.velocity[idx] = sign(i.velocity[idx]) * this->_velocityMax[idx];
+        if (std::abs(i.velocity[idx]) > this->maxVelocity(idx)) {
+          i.velocity[idx] = sign(i.velocity[idx]) * this->maxVelocity(idx);
         }
         i.position[idx] += i.velocity[idx];
-        i.position[idx] = std::max(i.position[idx], this->_posMin[idx]);
-        i.position[idx] = std::min(i.position[idx], this->_posMax[idx]);
+        i.position[idx] = std::max(i.position[idx], this->posMin(idx));
+        i.position[idx] = std::min(i.position[idx], this->posMax(idx));
       }
     }
   }
-- 
2.43.0


From 81d325dcd1e27054310f953cf8e0ffeb994b8835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:29 +0000
Subject: [PATCH 71/92] fix: PSO must not hang when there are less particles
 than threads

---
 HeuristicFlow/src/PSO/PSO4Eigen.hpp   | 5 +++--
 HeuristicFlow/src/PSO/PSO4std.hpp     | 5 +++--
 HeuristicFlow/src/PSO/PSOAbstrcat.hpp | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/HeuristicFlow/src/PSO/PSO4Eigen.hpp b/HeuristicFlow/src/PSO/PSO4Eigen.hpp
index 9f4394b..755a8f4 100644
--- a/HeuristicFlow/src/PSO/PSO4Eigen.hpp
+++ b/HeuristicFlow/src/PSO/PSO4Eigen.hpp
@@ -84,8 +84,9 @@ class PSO4Eigen
    */
   void __impl_updatePopulation() noexcept {
 #ifdef HEU_HAS_OPENMP
-    static const int32_t thN = threadNum();
-#pragma omp parallel for schedule(dynamic, this->_population.size() / thN)
+    // a chunk size of 0 would be an endless loop
+    const int32_t chunkSize = std::max(int32_t(1), int32_t(this->_population.size()) / threadNum());
+#pragma omp parallel for schedule(dynamic, chunkSize)
 #endif  //  HEU_HAS_OPENMP
     for (int idx = 0; idx < (int)this->_population.size(); idx++) {
       Particle_t& i = this->_population[idx];
diff --git a/HeuristicFlow/src/PSO/PSO4std.hpp b/HeuristicFlow/src/PSO/PSO4std.hpp
index e0b4d3a..717f9b6 100644
--- a/HeuristicFlow/src/PSO/PSO4std.hpp
+++ b/HeuristicFlow/src/PSO/PSO4std.hpp
@@ -93,8 +93,9 @@ class PSO4std : public internal::PSOAbstract<Var_t, double, RecordOpt, Arg_t, BS
    */
   void __impl_updatePopulation() noexcept {
 #ifdef HEU_HAS_OPENMP
-    static const int32_t thN = threadNum();
-#pragma omp parallel for schedule(dynamic, this->_population.size() / thN)
+    // a chunk size of 0 would be an endless loop
+    const int32_t chunkSize = std::max(int32_t(1), int32_t(this->_population.size()) / threadNum());
+#pragma omp parallel for schedule(dynamic, chunkSize)
 #endif  //  HEU_HAS_OPENMP
     for (int index = 0; index < this->_population.size(); index++) {
       Particle_t& i = this->_population[index];
diff --git a/HeuristicFlow/src/PSO/PSOAbstrcat.hpp b/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
index a7ce3a1..a827890 100644
--- a/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
+++ b/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
@@ -286,8 +286,9 @@ Var_t _velocityMax;
    */
   void __impl_computeAllFitness() noexcept {
 #ifdef HEU_HAS_OPENMP
-    static const int32_t thN = threadNum();
-#pragma omp parallel for schedule(dynamic, _population.size() / thN)
+    // a chunk size of 0 would be an endless loop
+    const int32_t chunkSize = std::max(int32_t(1), int32_t(_population.size()) / threadNum());
+#pragma omp parallel for schedule(dynamic, chunkSize)
     for (int i = 0; i < _population.size(); i++) {
       Particle* ptr = &_population[i];
       PSOExecutor<Base_t::HasParameters>::doFitness(this, &ptr->position, &ptr->fitness);
-- 
2.43.0


From bf98346b397a68b15b042a56d0b435f563c0d755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:29 +0000
Subject: [PATCH 72/92] fix: PSO must not draw random numbers from several
 threads at once

---
 HeuristicFlow/src/PSO/PSO4Eigen.hpp | 9 ++++++++-
 HeuristicFlow/src/PSO/PSO4std.hpp   | 9 +++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/HeuristicFlow/src/PSO/PSO4Eigen.hpp b/HeuristicFlow/src/PSO/PSO4Eigen.hpp
index 755a8f4..3c5b3c1 100644
--- a/HeuristicFlow/src/PSO/PSO4Eigen.hpp
+++ b/HeuristicFlow/src/PSO/PSO4Eigen.hpp
@@ -22,7 +22,9 @@ This file is part of HeuristicFlow.
 #include <array>
 #include <vector>
 #include <tuple>
+#include <array>
 #include <type_traits>
+#include <vector>
 
 #include "InternalHeaderCheck.h"
 #include "PSOOption.hpp"
@@ -83,6 +85,11 @@ class PSO4Eigen
    *
    */
   void __impl_updatePopulation() noexcept {
+    // random factors are drawn here because the random engine is not thread-safe
+    std::vector<std::array<double, 2>> factors(this->_population.size());
+    for (auto& f : factors) {
+      f = {randD(), randD()};
+    }
 #ifdef HEU_HAS_OPENMP
     // a chunk size of 0 would be an endless loop
     const int32_t chunkSize = std::max(int32_t(1), int32_t(this->_population.size()) / threadNum());
@@ -90,7 +97,7 @@ class PSO4Eigen
 #endif  //  HEU_HAS_OPENMP
     for (int idx = 0; idx < (int)this->_population.size(); idx++) {
       Particle_t& i = this->_population[idx];
-      const Scalar_t lFP = randD(), lFG = randD();
+      const double lFP = factors[idx][0], lFG = factors[idx][1];
       i.velocity = this->_option.inertiaFactor * i.velocity +
                    this->_option.learnFactorP * lFP * (i.pBest.position - i.position) +
                    this->_option.learnFactorG * lFG * (this->gBest.position - i.position);
diff --git a/HeuristicFlow/src/PSO/PSO4std.hpp b/HeuristicFlow/src/PSO/PSO4std.hpp
index 717f9b6..c9bdf6d 100644
--- a/HeuristicFlow/src/PSO/PSO4std.hpp
+++ b/HeuristicFlow/src/PSO/PSO4std.hpp
@@ -92,6 +92,11 @@ class PSO4std : public internal::PSOAbstract<Var_t, double, RecordOpt, Arg_t, BS
    *
    */
   void __impl_updatePopulation() noexcept {
+    // random factors are drawn here because the random engine is not thread-safe
+    std::vector<std::array<double, 2>> factors(this->_population.size());
+    for (auto& f : factors) {
+      f = {randD(), randD()};
+    }
 #ifdef HEU_HAS_OPENMP
     // a chunk size of 0 would be an endless loop
     const int32_t chunkSize = std::max(int32_t(1), int32_t(this->_population.size()) / threadNum());
@@ -99,8 +104,8 @@ class PSO4std : public internal::PSOAbstract<Var_t, double, RecordOpt, Arg_t, BS
 #endif  //  HEU_HAS_OPENMP
     for (int index = 0; index < this->_population.size(); index++) {
       Particle_t& i = this->_population[index];
-      const double rndP = randD();
-      const double rndG = randD();
+      const double rndP = factors[index][0];
+      const double rndG = factors[index][1];
       for (int idx = 0; idx < this->dimensions(); idx++) {
         i.velocity[idx] =
             this->_option.inertiaFactor * i.velocity[idx] +
-- 
2.43.0


From 446315486ff4ae101f8ed9aa95dd8016ed26bd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:23 +0000
Subject: [PATCH 73/92] fix: setDelta of a rectangular box of matrices must
 compile

---
 HeuristicFlow/src/EAGlobal/BoxConstraint.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
index f7ed20a..e000f48 100644
--- a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
+++ b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
@@ -548,8 +548,8 @@ class NonSquareBoxDeltaCore {
   inline Scalar_t delta(const int idx) const noexcept { return at(_deltaV, idx); }
 
   inline void setDelta(const Var_t& __delta) noexcept {
-    for (Scalar_t deltaElement : __delta) {
-      assert(deltaElement > 0);
+    for (int idx = 0; idx < int(__delta.size()); idx++) {
+      assert(at(__delta, idx) > 0);
     }
     _deltaV = __delta;
   }
-- 
2.43.0


From 16422108dc2c496abf6ad40401ca9822a2c9d69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:23 +0000
Subject: [PATCH 74/92] fix: AOS must work for float states and for Eigen
 matrices

---
 HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp | 38 +++++++++++++++--------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp b/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp
index 099c765..381bff8 100644
--- a/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp
+++ b/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp
@@ -37,6 +37,8 @@ class AOS4Eigen : public AOSBoxed<Var_t, Fitness_t, Arg_t, Box_t, _iFun_, _fFun_
   HEU_MAKE_AOSBOXED_TYPES(Base_t);
 
  protected:
+  using Scalar_t = typename array_traits<Var_t>::Scalar_t;
+
   void __impl_computeAtomBSBELE() noexcept {
     auto prevBestPtr = this->_atomBestPtr;
     this->_bindingState.setZero(this->_electrons.front().state.rows(),
@@ -99,19 +101,25 @@ class AOS4Eigen : public AOSBoxed<Var_t, Fitness_t, Arg_t, Box_t, _iFun_, _fFun_
     Var_t alpha(parentState.rows(), parentState.cols()),
         beta(parentState.rows(), parentState.cols()), gamma(parentState.rows(), parentState.cols());
 
-    randD(alpha.data(), int(alpha.size()));
-    randD(beta.data(), int(beta.size()));
-    randD(gamma.data(), int(gamma.size()));
+    for (int varIdx = 0; varIdx < alpha.size(); varIdx++) {
+      at(alpha, varIdx) = Scalar_t(randD());
+      at(beta, varIdx) = Scalar_t(randD());
+      at(gamma, varIdx) = Scalar_t(randD());
+    }
 
+    child->state = parent.state;
+    // operate on arrays since Var_t may also be an Eigen::Matrix
     if (Base_t::template isBetter<fOpt>(parent.energy, layer.bindingEnergy)) {
       // E_i^k<BE^k
-      child->state =
-          parent.state + alpha * (beta * layer.layerBestState() - gamma * layer.bindingState);
+      child->state.array() +=
+          alpha.array() * (beta.array() * layer.layerBestState().array() -
+                           gamma.array() * layer.bindingState.array());
     } else {
       // E_i^k>=BE^k
-      child->state = parent.state +
-                     alpha * (beta * this->bestElectron().state - gamma * this->bindingState()) /
-                         (layerIdx + 1);
+      child->state.array() +=
+          alpha.array() * (beta.array() * this->bestElectron().state.array() -
+                           gamma.array() * this->bindingState().array()) /
+          Scalar_t(layerIdx + 1);
     }
 
     for (int varIdx = 0; varIdx < alpha.size(); varIdx++) {
@@ -121,10 +129,10 @@ class AOS4Eigen : public AOSBoxed<Var_t, Fitness_t, Arg_t, Box_t, _iFun_, _fFun_
 
   inline void __impl2_applyNonPhotonEffect(const Electron& parent,
                                            Electron_t* child) const noexcept {
-    child->state =
-        parent.state + this->delta() * Var_t::Random(parent.state.rows(), parent.state.cols());
+    child->state = parent.state;
 
     for (int idx = 0; idx < parent.state.size(); idx++) {
+      at(child->state, idx) += Scalar_t(randD(-1, 1)) * this->delta(idx);
       this->applyConstraint(&child->state, idx);
     }
   }
@@ -141,6 +149,8 @@ class AOS4Std : public AOSBoxed<Var_t, Fitness_t, Arg_t, Box_t, _iFun_, _fFun_,
   HEU_MAKE_AOSBOXED_TYPES(Base_t);
 
  protected:
+  using Scalar_t = typename array_traits<Var_t>::Scalar_t;
+
   void __impl_computeAtomBSBELE() noexcept {
     auto prevBestPtr = this->_atomBestPtr;
     this->_bindingState = this->_electrons.front().state;
@@ -228,9 +238,11 @@ class AOS4Std : public AOSBoxed<Var_t, Fitness_t, Arg_t, Box_t, _iFun_, _fFun_,
       child->state.resize(this->dimensions());
     }
 
-    randD(alpha.data(), alpha.size());
-    randD(beta.data(), beta.size());
-    randD(gamma.data(), gamma.size());
+    for (int varIdx = 0; varIdx < this->dimensions(); varIdx++) {
+      alpha[varIdx] = Scalar_t(randD());
+      beta[varIdx] = Scalar_t(randD());
+      gamma[varIdx] = Scalar_t(randD());
+    }
 
     if (Base_t::template isBetter<fOpt>(parent.energy, layer.bindingEnergy)) {
       // E_i^k<BE^k
-- 
2.43.0


From dee458e815ec1331d0720fc600b5a0088c5a7888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:23 +0000
Subject: [PATCH 75/92] fix: AOS must compile without OpenMP

---
 HeuristicFlow/src/AOS/AOSBoxed.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/AOS/AOSBoxed.hpp b/HeuristicFlow/src/AOS/AOSBoxed.hpp
index a7d158c..15357c6 100644
--- a/HeuristicFlow/src/AOS/AOSBoxed.hpp
+++ b/HeuristicFlow/src/AOS/AOSBoxed.hpp
@@ -123,7 +123,7 @@ class AOSBoxed : public AOSParameterPack<Var_t, Fitness_t, Arg_t>,
         continue;
       }
 
-      AOSExecutor<>::doFitness(this, &i.self, &i._Fitness);
+      AOSExecutor<>::doFitness(this, &i.state, &i.energy);
 
       i.isComputed = true;
     }
-- 
2.43.0


From d0fa6258a687f2b4ef22f0f724b7b72dcd002c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:57 +0000
Subject: [PATCH 76/92] fix: AOS must not hang when there are less electrons
 than threads

---
 HeuristicFlow/src/AOS/AOSBoxed.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/AOS/AOSBoxed.hpp b/HeuristicFlow/src/AOS/AOSBoxed.hpp
index 15357c6..1a4f5a1 100644
--- a/HeuristicFlow/src/AOS/AOSBoxed.hpp
+++ b/HeuristicFlow/src/AOS/AOSBoxed.hpp
@@ -20,6 +20,7 @@ This file is part of HeuristicFlow.
 #ifndef HEU_AOSBOXED_HPP
 #define HEU_AOSBOXED_HPP
 
+#include <algorithm>
 #include <list>
 #include "../../SimpleMatrix"
 
@@ -109,7 +110,7 @@ class AOSBoxed : public AOSParameterPack<Var_t, Fitness_t, Arg_t>,
       tasks.emplace_back(&i);
     }
     static const int32_t thN = threadNum();
-#pragma omp parallel for schedule(dynamic, tasks.size() / thN)
+#pragma omp parallel for schedule(dynamic, std::max<int>(1, int(tasks.size()) / thN))
     for (int i = 0; i < tasks.size(); i++) {
       Electron_t* ptr = tasks[i];
 
-- 
2.43.0


From 1a2c8a0f5a240b807c1d9a5631ff20456fd19064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:18 +0000
Subject: [PATCH 77/92] fix: the best electron of AOS must be one of its
 electrons

---
 HeuristicFlow/src/AOS/AOS.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/HeuristicFlow/src/AOS/AOS.hpp b/HeuristicFlow/src/AOS/AOS.hpp
index 99d5ddf..4d22cdd 100644
--- a/HeuristicFlow/src/AOS/AOS.hpp
+++ b/HeuristicFlow/src/AOS/AOS.hpp
@@ -85,6 +85,9 @@ class AOS : public internal::AOSBase<typename Box_t::Var_t, double, Arg_t, Box_t
       elecSortSpace.pop_back();
     }
 
+    // if several electrons share the best energy, the previous best may have been removed
+    this->_atomBestPtr = &*elecSortSpace.front();
+
     this->_layers.clear();
 
     // a estimation value of layer number
-- 
2.43.0


From 59ea6cc19abb96b73c7eec8f369e8a0abd06bdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:18 +0000
Subject: [PATCH 78/92] fix: AOS must not put electrons into a layer that does
 not exist

---
 HeuristicFlow/src/AOS/AOS.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/HeuristicFlow/src/AOS/AOS.hpp b/HeuristicFlow/src/AOS/AOS.hpp
index 4d22cdd..21b7f07 100644
--- a/HeuristicFlow/src/AOS/AOS.hpp
+++ b/HeuristicFlow/src/AOS/AOS.hpp
@@ -115,6 +115,9 @@ class AOS : public internal::AOSBase<typename Box_t::Var_t, double, Arg_t, Box_t
       }
     }
 
+    // rounding may lose electrons, the last layer takes all the rest
+    numOfEachLayer[tempLayerNum - 1] = int(this->_electrons.size());
+
     this->_layers.resize(tempLayerNum);
 
     for (Layer_t& layer : this->_layers) {
-- 
2.43.0


From c06aab86d42955c37061da395d42a68edda0f36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:18 +0000
Subject: [PATCH 79/92] fix: AOS must compare energies and not addresses to
 find the best of a layer

---
 HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp b/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp
index 381bff8..d11c7fd 100644
--- a/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp
+++ b/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp
@@ -80,11 +80,11 @@ class AOS4Eigen : public AOSBoxed<Var_t, Fitness_t, Arg_t, Box_t, _iFun_, _fFun_
         layer.bindingState += layer.at(idx)->state;
         layer.bindingEnergy += layer.at(idx)->energy;
         if constexpr (fOpt == FitnessOption::FITNESS_LESS_BETTER) {
-          if (layer.at(idx) < layer.at(layer.layerBestIdx)) {
+          if (layer.at(idx)->energy < layer.layerBestEnergy()) {
             layer.layerBestIdx = idx;
           }
         } else {
-          if (layer.at(idx) > layer.at(layer.layerBestIdx)) {
+          if (layer.at(idx)->energy > layer.layerBestEnergy()) {
             layer.layerBestIdx = idx;
           }
         }
-- 
2.43.0


From d2d96a676c04b2f937518408c6b99bce8912aa23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:18 +0000
Subject: [PATCH 80/92] fix: the binding energy of an AOS layer must be the
 mean of all its electrons

---
 HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp b/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp
index d11c7fd..2aade72 100644
--- a/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp
+++ b/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp
@@ -206,6 +206,7 @@ class AOS4Std : public AOSBoxed<Var_t, Fitness_t, Arg_t, Box_t, _iFun_, _fFun_,
         for (int varIdx = 0; varIdx < varDim; varIdx++) {
           layer.bindingState[varIdx] += layer.at(idx)->state[varIdx];
         }
+        layer.bindingEnergy += layer.at(idx)->energy;
 
         if constexpr (fOpt == FitnessOption::FITNESS_LESS_BETTER) {
           if (layer.at(idx)->energy < layer.layerBestEnergy()) {
-- 
2.43.0


From 4e92c082dee25cacd4b72dc33caf5fdf7236cee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:18 +0000
Subject: [PATCH 81/92] fix: the layers of a finished AOS run must have their
 binding state, energy and best

---
 HeuristicFlow/src/AOS/AOSBase.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/AOS/AOSBase.hpp b/HeuristicFlow/src/AOS/AOSBase.hpp
index 836a251..62532c4 100644
--- a/HeuristicFlow/src/AOS/AOSBase.hpp
+++ b/HeuristicFlow/src/AOS/AOSBase.hpp
@@ -112,12 +112,12 @@ class AOSBase
 
       static_cast<this_t*>(this)->__impl_selectAndMakeLayers();
 
+      static_cast<this_t*>(this)->__impl_computeLayerBSBELE();
+
       if (static_cast<this_t*>(this)->__impl_shouldTerminate()) {
         break;
       }
 
-      static_cast<this_t*>(this)->__impl_computeLayerBSBELE();
-
       static_cast<this_t*>(this)->template __impl_updateElectrons<this_t>();
 
       this->_generation++;
-- 
2.43.0


From 3c87d4b6844b44b245fb74c9dd5a718953d76c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:53 +0000
Subject: [PATCH 82/92] fix: PSO of a matrix in a rectangular box must compile
 with the default initialization

---
 HeuristicFlow/src/PSO/PSOAbstrcat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/PSO/PSOAbstrcat.hpp b/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
index a827890..4695d1a 100644
--- a/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
+++ b/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
@@ -329,7 +329,7 @@ Var_t _velocityMax;
         at(*pos, idx) = randD(s->posMin(), s->posMax());
 
       } else {
-        at(*pos, idx) = randD(s->posMin()[idx], s->posMax()[idx]);
+        at(*pos, idx) = randD(s->posMin(idx), s->posMax(idx));
       }
     }
   }
-- 
2.43.0


From 4d3aef706224166d8fe72adadb5c5bad03c41849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:16 +0000
Subject: [PATCH 83/92] fix: randIdx must reach every index of a wide range and
 not overflow

---
 HeuristicFlow/src/Global/Randoms.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/Global/Randoms.hpp b/HeuristicFlow/src/Global/Randoms.hpp
index 51f66fc..3c87d4e 100644
--- a/HeuristicFlow/src/Global/Randoms.hpp
+++ b/HeuristicFlow/src/Global/Randoms.hpp
@@ -22,6 +22,7 @@ This file is part of HeuristicFlow.
 
 #include <stdint.h>
 #include <random>
+#include <type_traits>
 #include <cmath>
 #include <chrono>
 
@@ -129,7 +130,7 @@ inline float randF() noexcept {
 template <typename int_t>
 inline int_t randIdx(int_t size) noexcept {
   static_assert(std::is_integral<int_t>::value, "int_t must be integer");
-  return int_t(randF() * size);
+  return int_t(randD() * size);  // a float has too few digits for a wide range
 }
 
 /**
@@ -144,7 +145,9 @@ inline int_t randIdx(int_t size) noexcept {
 template <typename int_t>
 inline int_t randIdx(int_t min, int_t max_plus_1) noexcept {
   static_assert(std::is_integral<int_t>::value, "int_t must be integer");
-  return int_t((max_plus_1 - min) * randF()) + min;
+  using uint_t = typename std::make_unsigned<int_t>::type;  // holds the width of every range
+  const uint_t width = uint_t(uint_t(max_plus_1) - uint_t(min));
+  return int_t(uint_t(uint_t(min) + uint_t(randD() * width)));
 }
 
 inline double normD() noexcept {
-- 
2.43.0


From a93eee5d57aafd6105481a4a2c7661514c4b0fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:51 +0000
Subject: [PATCH 84/92] fix: an integer box as wide as its type must initialize
 to more than its lower bound

---
 HeuristicFlow/src/EAGlobal/BoxConstraint.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
index e000f48..7db8238 100644
--- a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
+++ b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
@@ -42,10 +42,11 @@ class BoxBase {
       if constexpr (std::is_same_v<Scalar_t, bool>) {
         at(*v, idx) = randIdx(2) == 0;
       } else if constexpr (std::is_integral_v<Scalar_t>) {
-        // 1 + max may not fit in Scalar_t, so the range is counted in 64 bits
+        // 1 + max may not fit in any integer type, so the offset is drawn up to and including range
         const uint64_t lowest = uint64_t(static_cast<const Derived*>(this)->min(idx));
         const uint64_t range = uint64_t(static_cast<const Derived*>(this)->max(idx)) - lowest;
-        at(*v, idx) = Scalar_t(lowest + randIdx<uint64_t>(range + 1));
+        std::uniform_int_distribution<uint64_t> offset(0, range);
+        at(*v, idx) = Scalar_t(lowest + offset(internal::global_mt19937()));
       } else {
         at(*v, idx) = Scalar_t(randD(static_cast<const Derived*>(this)->min(idx),
                                      static_cast<const Derived*>(this)->max(idx)));
-- 
2.43.0


From 9ca90683e615ddf4104dc10f4fafedc2232d8ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:10 +0000
Subject: [PATCH 85/92] fix: NchooseK must not overflow on the way to a result
 that fits

---
 HeuristicFlow/src/Global/HeuMaths.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/Global/HeuMaths.hpp b/HeuristicFlow/src/Global/HeuMaths.hpp
index 8d31840..c9d8570 100644
--- a/HeuristicFlow/src/Global/HeuMaths.hpp
+++ b/HeuristicFlow/src/Global/HeuMaths.hpp
@@ -22,6 +22,7 @@ This file is part of HeuristicFlow.
 
 #include <stdint.h>
 #include <type_traits>
+#include <numeric>
 #include <cmath>
 
 #include "InternalHeaderCheck.h"
@@ -83,13 +84,15 @@ inline num_t fractorial(num_t n) noexcept {
  */
 template <typename num_t>
 inline num_t NchooseK(num_t N, num_t K) noexcept {
-  if (K * 2 > N) {
+  if (K > N - K) {
     return NchooseK<num_t>(N, N - K);
   }
   // Multiply and divide alternately (every division is exact), since N! overflows long before C^K_N.
   num_t result = 1;
   for (num_t i = 1; i <= K; i++) {
-    result = result * (N - K + i) / i;
+    // common divisors go first, so that no product exceeds the result
+    const num_t divisor = std::gcd(result, i);
+    result = num_t(result / divisor * ((N - K + i) / (i / divisor)));
   }
   return result;
 }
-- 
2.43.0


From 302d0a64ade202519235be59494a866be8f50672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:52 +0000
Subject: [PATCH 86/92] fix: the chances of rank, roulette and elite selection
 must not be lost to rounding errors

The sum of the remaining chances was updated by subtraction. Once the big ones are gone, what is left of the sum is
rounding error, so that the worst individual (or any) was picked instead of following the law: with an exponential base of
0.5 after about 50 picks.
---
 HeuristicFlow/src/Genetic/SOGASelecters.hpp | 46 ++++++++++++---------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/SOGASelecters.hpp b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
index 5fad97d..24a1731 100644
--- a/HeuristicFlow/src/Genetic/SOGASelecters.hpp
+++ b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
@@ -185,26 +185,28 @@ class SOGASelector<SelectMethod::RouletteWheel> {
     double processedFitnessSum = 0;
     for (auto& pair : eliminateSpace) {
       pair.second -= minFitness;
-      processedFitnessSum += pair.second;
     }
 
     // erase all selected candidates from eliminateSpace
 
     while (int(eliminateSpace.size()) > eliminateNum) {
       // erase a solution from eliminateSpace by its fitness
+      // sum again: subtracting what is erased leaves rounding errors greater than the rest
+      processedFitnessSum = 0;
+      for (const auto& pair : eliminateSpace) {
+        processedFitnessSum += pair.second;
+      }
       if (processedFitnessSum > 0) {
         double r = randD(0, processedFitnessSum);
         for (auto it = eliminateSpace.begin(); it != eliminateSpace.end(); ++it) {
           r -= it->second;
           if (r <= 0) {
-            processedFitnessSum -= it->second;
             eliminateSpace.erase(it);
             break;
           }
         }
 
         if (r > 0) {  // unlikely
-          processedFitnessSum -= eliminateSpace.back().second;
           eliminateSpace.pop_back();
         }
 
@@ -533,7 +535,6 @@ class SOGASelector<SelectMethod::LinearRank> {
     const double nNegitive = _linearSelectWrostProbability * popSizeBeforeSelect;
     const double nPositive = _linearSelectBestProbability * popSizeBeforeSelect;
 
-    double rMax = 0;  // the sum of probabilities, usually it's not 1
     std::list<std::pair<GeneIt_t, double>> eliminateSpace;
     for (int idx = 0; idx < int(sortSpace.size()); idx++) {
       eliminateSpace.emplace_back(std::make_pair(
@@ -544,22 +545,25 @@ class SOGASelector<SelectMethod::LinearRank> {
               popSizeBeforeSelect
 
           ));
-      rMax += eliminateSpace.back().second;
     }
 
     while (int(eliminateSpace.size()) > popSizeBeforeSelect - K) {
+      // the sum of the remaining probabilities. Subtracting what is erased leaves rounding errors
+      // greater than the rest
+      double rMax = 0;
+      for (const auto& pair : eliminateSpace) {
+        rMax += pair.second;
+      }
       double r = randD(0, rMax);
       for (auto it = eliminateSpace.begin(); it != eliminateSpace.end(); ++it) {
         r -= it->second;
         if (r <= 0) {
-          rMax -= it->second;
           eliminateSpace.erase(it);
           break;
         }
       }
 
       if (r > 0) {
-        rMax -= eliminateSpace.back().second;
         eliminateSpace.pop_back();
       }
     }
@@ -635,20 +639,23 @@ class SOGASelector<SelectMethod::ExponentialRank> {
               ));
     }
 
-    double rMax = 1.0;
     while (int(eliminateSpace.size()) > popSizeBeforeSelect - K) {
+      // the sum of the remaining probabilities. Subtracting what is erased leaves rounding errors
+      // greater than the rest
+      double rMax = 0;
+      for (const auto& pair : eliminateSpace) {
+        rMax += pair.second;
+      }
       double r = randD(0, rMax);
       for (auto it = eliminateSpace.begin(); it != eliminateSpace.end(); ++it) {
         r -= it->second;
         if (r <= 0) {
-          rMax -= it->second;
           eliminateSpace.erase(it);
           break;
         }
       }
 
       if (r > 0) {
-        rMax -= eliminateSpace.back().second;
         eliminateSpace.pop_back();
       }
     }
@@ -875,33 +882,32 @@ class SOGASelector<SelectMethod::EliteReserved> {
       }
     }
 
-    double rMax = 0;
-
     for (auto& pair : eliminateSpace) {
       pair.second -= minFitness;
-      rMax += pair.second;
     }
 
-    if (rMax <= 0) {  //  erase randomly
-      while (int(eliminateSpace.size()) > eliminateNum) {
+    while (int(eliminateSpace.size()) > eliminateNum) {
+      // sum again: subtracting what is erased leaves rounding errors greater than the rest
+      double rMax = 0;
+      for (const auto& pair : eliminateSpace) {
+        rMax += pair.second;
+      }
+
+      if (rMax <= 0) {  //  erase randomly
         auto it = eliminateSpace.begin();
         std::advance(it, randIdx(int(eliminateSpace.size())));
         eliminateSpace.erase(it);
-      }
-    } else {
-      while (int(eliminateSpace.size()) > eliminateNum) {
+      } else {
         double r = randD(0, rMax);
 
         for (auto it = eliminateSpace.begin(); it != eliminateSpace.end(); ++it) {
           r -= it->second;
           if (r <= 0) {
-            rMax -= it->second;
             eliminateSpace.erase(it);
             break;
           }
         }
         if (r > 0) {  //  unlikely
-          rMax -= eliminateSpace.back().second;
           eliminateSpace.pop_back();
         }
       }
-- 
2.43.0


From e60574424d846b1b1061b1baf31fa1a1df695e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:28 +0000
Subject: [PATCH 87/92] fix: fitness values as great as a double can be must
 not upset the chances of selection

With a penalty like the greatest double the sum of the differences overflowed, and roulette, probability, stochastic
universal and elite selection picked (or kept) the penalised individuals.
---
 HeuristicFlow/src/Genetic/SOGASelecters.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/SOGASelecters.hpp b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
index 24a1731..b5e47f6 100644
--- a/HeuristicFlow/src/Genetic/SOGASelecters.hpp
+++ b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
@@ -44,6 +44,16 @@ class SOGASelector {
 template <SelectMethod sm>
 class SOGAInheriter;
 
+/**
+ * \ingroup HEU_GENETIC
+ * \brief The difference between a fitness and the minimum one, scaled by a power of 2 so that neither
+ * the difference nor the sum over a population can overflow.
+ */
+inline double scaledDifference(const double fitness, const double minFitness) noexcept {
+  constexpr double scale = 1.0 / 4294967296.0;
+  return fitness * scale - minFitness * scale;
+}
+
 /**
  * \ingroup HEU_GENETIC
  * \brief Select genes one by one until `eliminateNum` genes are left in the list. The probability of
@@ -184,7 +194,7 @@ class SOGASelector<SelectMethod::RouletteWheel> {
 
     double processedFitnessSum = 0;
     for (auto& pair : eliminateSpace) {
-      pair.second -= minFitness;
+      pair.second = scaledDifference(pair.second, minFitness);
     }
 
     // erase all selected candidates from eliminateSpace
@@ -436,7 +446,7 @@ class SOGASelector<SelectMethod::Probability> {
       //
       double fitnessSum = 0;
       for (auto& pair : eliminateSpace) {
-        pair.second -= minFitness;
+        pair.second = scaledDifference(pair.second, minFitness);
         fitnessSum += pair.second;
       }
 
@@ -762,7 +772,7 @@ class SOGASelector<SelectMethod::StochasticUniversal> {
 
     double fitnessSum = 0;
     for (auto& pair : eliminateSpace) {
-      pair.second -= minFitness;
+      pair.second = scaledDifference(pair.second, minFitness);
 
       fitnessSum += pair.second;
     }
@@ -883,7 +893,7 @@ class SOGASelector<SelectMethod::EliteReserved> {
     }
 
     for (auto& pair : eliminateSpace) {
-      pair.second -= minFitness;
+      pair.second = scaledDifference(pair.second, minFitness);
     }
 
     while (int(eliminateSpace.size()) > eliminateNum) {
-- 
2.43.0


From d7bae26a08906543faaaac126c27bcdfa85fb2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:35 +0000
Subject: [PATCH 88/92] fix: the binding energy of AOS must be the mean energy
 even if the sum overflows

With a penalty like the greatest double for infeasible positions the binding energy of the atom and of layers was infinite,
so that infeasible electrons counted as better than the mean of their layer.
---
 HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp | 24 +++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp b/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp
index 2aade72..f69a784 100644
--- a/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp
+++ b/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp
@@ -43,12 +43,12 @@ class AOS4Eigen : public AOSBoxed<Var_t, Fitness_t, Arg_t, Box_t, _iFun_, _fFun_
     auto prevBestPtr = this->_atomBestPtr;
     this->_bindingState.setZero(this->_electrons.front().state.rows(),
                                 this->_electrons.front().state.cols());
-    this->_bindingEnergy = 0;
+    long double energySum = 0;  // the sum can be greater than the greatest double
     this->_atomBestPtr = &this->_electrons.front();
 
     for (const Electron_t& elec : this->_electrons) {
       this->_bindingState += elec.state;
-      this->_bindingEnergy += elec.energy;
+      energySum += elec.energy;
       if constexpr (fOpt == FitnessOption::FITNESS_LESS_BETTER) {
         if (elec.energy < this->_atomBestPtr->energy) {
           this->_atomBestPtr = &elec;
@@ -61,7 +61,7 @@ class AOS4Eigen : public AOSBoxed<Var_t, Fitness_t, Arg_t, Box_t, _iFun_, _fFun_
     }
 
     this->_bindingState /= double(this->_electrons.size());
-    this->_bindingEnergy /= this->_electrons.size();
+    this->_bindingEnergy = double(energySum / this->_electrons.size());
 
     if (prevBestPtr->energy == this->_atomBestPtr->energy) {
       this->_earlyStopCounter++;
@@ -74,11 +74,11 @@ class AOS4Eigen : public AOSBoxed<Var_t, Fitness_t, Arg_t, Box_t, _iFun_, _fFun_
     for (int layerIdx = 0; layerIdx < this->_layers.size(); layerIdx++) {
       Layer_t& layer = this->_layers[layerIdx];
       layer.bindingState = layer.front()->state;
-      layer.bindingEnergy = layer.front()->energy;
+      long double energySum = layer.front()->energy;
       layer.layerBestIdx = 0;
       for (int idx = 1; idx < layer.size(); idx++) {
         layer.bindingState += layer.at(idx)->state;
-        layer.bindingEnergy += layer.at(idx)->energy;
+        energySum += layer.at(idx)->energy;
         if constexpr (fOpt == FitnessOption::FITNESS_LESS_BETTER) {
           if (layer.at(idx)->energy < layer.layerBestEnergy()) {
             layer.layerBestIdx = idx;
@@ -91,7 +91,7 @@ class AOS4Eigen : public AOSBoxed<Var_t, Fitness_t, Arg_t, Box_t, _iFun_, _fFun_
       }
 
       layer.bindingState /= double(layer.size());
-      layer.bindingEnergy /= layer.size();
+      layer.bindingEnergy = double(energySum / layer.size());
     }
   }
 
@@ -158,7 +158,7 @@ class AOS4Std : public AOSBoxed<Var_t, Fitness_t, Arg_t, Box_t, _iFun_, _fFun_,
       val = 0;
     }
 
-    this->_bindingEnergy = 0;
+    long double energySum = 0;  // the sum can be greater than the greatest double
     this->_atomBestPtr = &this->_electrons.front();
 
     for (const Electron_t& elec : this->_electrons) {
@@ -167,7 +167,7 @@ class AOS4Std : public AOSBoxed<Var_t, Fitness_t, Arg_t, Box_t, _iFun_, _fFun_,
         this->_bindingState.operator[](varIdx) += elec.state[varIdx];
       }
 
-      this->_bindingEnergy += elec.energy;
+      energySum += elec.energy;
       if constexpr (fOpt == FitnessOption::FITNESS_LESS_BETTER) {
         if (elec.energy < this->_atomBestPtr->energy) {
           this->_atomBestPtr = &elec;
@@ -183,7 +183,7 @@ class AOS4Std : public AOSBoxed<Var_t, Fitness_t, Arg_t, Box_t, _iFun_, _fFun_,
     for (auto& val : this->_bindingState) {
       val /= this->_electrons.size();
     }
-    this->_bindingEnergy /= this->_electrons.size();
+    this->_bindingEnergy = double(energySum / this->_electrons.size());
 
     if (prevBestPtr->energy == this->_atomBestPtr->energy) {
       this->_earlyStopCounter++;
@@ -196,7 +196,7 @@ class AOS4Std : public AOSBoxed<Var_t, Fitness_t, Arg_t, Box_t, _iFun_, _fFun_,
     for (int layerIdx = 0; layerIdx < this->_layers.size(); layerIdx++) {
       Layer_t& layer = this->_layers[layerIdx];
       layer.bindingState = layer.front()->state;
-      layer.bindingEnergy = layer.front()->energy;
+      long double energySum = layer.front()->energy;
       layer.layerBestIdx = 0;
 
       const int varDim = layer.front()->state.size();
@@ -206,7 +206,7 @@ class AOS4Std : public AOSBoxed<Var_t, Fitness_t, Arg_t, Box_t, _iFun_, _fFun_,
         for (int varIdx = 0; varIdx < varDim; varIdx++) {
           layer.bindingState[varIdx] += layer.at(idx)->state[varIdx];
         }
-        layer.bindingEnergy += layer.at(idx)->energy;
+        energySum += layer.at(idx)->energy;
 
         if constexpr (fOpt == FitnessOption::FITNESS_LESS_BETTER) {
           if (layer.at(idx)->energy < layer.layerBestEnergy()) {
@@ -223,7 +223,7 @@ class AOS4Std : public AOSBoxed<Var_t, Fitness_t, Arg_t, Box_t, _iFun_, _fFun_,
       for (auto& var : layer.bindingState) {
         var /= layer.size();
       }
-      layer.bindingEnergy /= layer.size();
+      layer.bindingEnergy = double(energySum / layer.size());
     }
   }
 
-- 
2.43.0


From 1a727a5e731082b8fa0a062c925cd137adc7454a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:13 +0000
Subject: [PATCH 89/92] fix: mutate symbolic boxes whose bounds do not fit in
 int64_t

---
 HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp b/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
index 6e2eac4..d5d2694 100644
--- a/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
+++ b/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
@@ -297,8 +297,8 @@ struct GADefaults {
 
     *v = *src;
     const int idx = int(randIdx(size_t(v->size())));
-    const int64_t val = v->operator[](idx);
-    int64_t min, max;
+    const scalar_t val = v->operator[](idx);
+    scalar_t min, max;
     if constexpr (std::is_arithmetic<std::decay_t<decltype(box->min())>>::value) {
       min = box->min();
       max = box->max();
@@ -310,9 +310,10 @@ struct GADefaults {
     if (min >= max) return;
 
     // choose one of the other values
-    int64_t newVal = randIdx(min, max);
-    if (newVal >= val) newVal++;
-    v->operator[](idx) = scalar_t(newVal);
+    const uint64_t width = uint64_t(max) - uint64_t(min);  // holds the width of every range
+    scalar_t newVal = scalar_t(uint64_t(min) + randIdx(width));
+    if (newVal >= val) newVal = scalar_t(newVal + 1);
+    v->operator[](idx) = newVal;
   }
 };
 
-- 
2.43.0


From 6359c660f2c5acaed05a5d773d1253a49822bdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:03 +0000
Subject: [PATCH 90/92] fix: the singularity test of NSGA3 must not overflow or
 underflow

---
 HeuristicFlow/src/Genetic/NSGA3Abstract.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/NSGA3Abstract.hpp b/HeuristicFlow/src/Genetic/NSGA3Abstract.hpp
index 67938e0..c498f13 100644
--- a/HeuristicFlow/src/Genetic/NSGA3Abstract.hpp
+++ b/HeuristicFlow/src/Genetic/NSGA3Abstract.hpp
@@ -504,8 +504,9 @@ class NSGA3Abstract : public NSGABase<Var_t, ObjNum, FITNESS_LESS_BETTER, rOpt,
 
   inline static bool isSingular(const Eigen::Array<double, ObjNum, ObjNum>& mat) noexcept {
     // Each row is an objective, and objectives may have different orders of magnitude.
-    const double scale = mat.matrix().rowwise().norm().prod();
-    return std::abs(mat.matrix().determinant()) <= 1e-10 * scale;
+    // A row of zeros becomes NaN, so does the determinant.
+    const Eigen::Matrix<double, ObjNum, ObjNum> rows = mat.matrix().rowwise().normalized();
+    return !(std::abs(rows.determinant()) > 1e-10);
   }
 
   inline static void extremePoints2Intercept(const Eigen::Array<double, ObjNum, ObjNum>& P,
-- 
2.43.0


From 1339280e3a99f7e7f7868d7843e1f5d6a6fc75ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:17 +0000
Subject: [PATCH 91/92] fix: multi-objective test functions must accept Eigen
 matrices, row vectors and mixed scalar types

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 48 ++++++++--------------
 1 file changed, 16 insertions(+), 32 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index 010fce6..f692f0e 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -52,11 +52,7 @@ struct MOFunctions12<Var_t, Fitness_t, void> {
 
   static inline void initializeFitness(Fitness_t *f) noexcept {
     if constexpr (!array_traits<Fitness_t>::isFixedSize) {
-      if constexpr (array_traits<Fitness_t>::isEigenClass) {
-        f->resize(2, 1);
-      } else {
-        f->resize(2);
-      }
+      f->resize(2);
     }
   }
 
@@ -109,11 +105,7 @@ struct MOFunctions22<Var_t, Fitness_t, void> {
 
   static inline void initializeFitnessSize(Fitness_t *f) noexcept {
     if constexpr (!array_traits<Fitness_t>::isFixedSize) {
-      if constexpr (array_traits<Fitness_t>::isEigenClass) {
-        f->resize(2, 1);
-      } else {
-        f->resize(2);
-      }
+      f->resize(2);
     }
   }
 
@@ -191,11 +183,7 @@ struct MOFunctions23<Var_t, Fitness_t, void> {
 
   static inline void initializeFitnessSize(Fitness_t *f) noexcept {
     if constexpr (!array_traits<Fitness_t>::isFixedSize) {
-      if constexpr (array_traits<Fitness_t>::isEigenClass) {
-        f->resize(3, 1);
-      } else {
-        f->resize(3);
-      }
+      f->resize(3);
     }
   }
 
@@ -257,8 +245,8 @@ struct MOFunctionsX2<Var_t, Fitness_t, void> {
     typename array_traits<Var_t>::Scalar_t f1 = 0, f2 = 0;
     if constexpr (array_traits<Var_t>::isEigenClass) {
       if constexpr (array_traits<Var_t>::isFixedSize) {
-        auto topN_sub_1Rows = _x->topRows(N - 1);
-        auto bottomN_sub_1Rows = _x->bottomRows(N - 1);
+        auto topN_sub_1Rows = _x->head(N - 1);
+        auto bottomN_sub_1Rows = _x->tail(N - 1);
         f1 = -10 * (-0.2 *
 
                     (topN_sub_1Rows.array().square() + bottomN_sub_1Rows.array().square())
@@ -268,8 +256,8 @@ struct MOFunctionsX2<Var_t, Fitness_t, void> {
                        .sum();
 
       } else {
-        auto topN_sub_1Rows = _x->template topRows(N - 1);
-        auto bottomN_sub_1Rows = _x->template bottomRows(N - 1);
+        auto topN_sub_1Rows = _x->head(N - 1);
+        auto bottomN_sub_1Rows = _x->tail(N - 1);
         f1 = -10 * (-0.2 *
 
                     (topN_sub_1Rows.array().square() + bottomN_sub_1Rows.array().square())
@@ -366,11 +354,11 @@ struct DTLZ1to7<Var_t, Fitness_t, void> {
     if constexpr (isAllFixed) {
       constexpr int N = array_traits<Var_t>::sizeCT;
       constexpr int M = array_traits<Fitness_t>::sizeCT;
-      return x->template tail<N - M + 1>();
+      return x->array().template tail<N - M + 1>();
     } else {
       const int N = int(x->size());
       const int M = int(f->size());
-      return x->tail(N - M + 1);
+      return x->array().tail(N - M + 1);
     }
   }
 
@@ -541,10 +529,10 @@ struct DTLZ1to7<Var_t, Fitness_t, void> {
         // theta = (1 + 2 * gr * x->template topRows<M - 1>()) * M_PI / (4 * (1 + gr));
         constexpr int M = array_traits<Fitness_t>::sizeCT;  // reload the M from const to constexpr
         theta_times_PI_div_2 =
-            (1 + 2 * gr * x->template head<M - 1>()) * M_PI / (4 * (1 + gr));
+            (1 + 2 * gr * x->array().template head<M - 1>()) * M_PI / (4 * (1 + gr));
       } else {
         // theta = (1 + 2 * gr * x->topRows(M - 1)) * M_PI / (4 * (1 + gr));
-        theta_times_PI_div_2 = (1 + 2 * gr * x->head(M - 1)) * M_PI / (4 * (1 + gr));
+        theta_times_PI_div_2 = (1 + 2 * gr * x->array().head(M - 1)) * M_PI / (4 * (1 + gr));
       }
 
       // theta[0] = M_PI / 2 * x->operator[](0);
@@ -599,10 +587,10 @@ struct DTLZ1to7<Var_t, Fitness_t, void> {
         // theta = (1 + 2 * gr * x->template topRows<M - 1>()) * M_PI / (4 * (1 + gr));
         constexpr int M = array_traits<Fitness_t>::sizeCT;  // reload the M from const to constexpr
         theta_times_PI_div_2 =
-            (1 + 2 * gr * x->template head<M - 1>()) * M_PI / (4 * (1 + gr));
+            (1 + 2 * gr * x->array().template head<M - 1>()) * M_PI / (4 * (1 + gr));
       } else {
         // theta = (1 + 2 * gr * x->topRows(M - 1)) * M_PI / (4 * (1 + gr));
-        theta_times_PI_div_2 = (1 + 2 * gr * x->head(M - 1)) * M_PI / (4 * (1 + gr));
+        theta_times_PI_div_2 = (1 + 2 * gr * x->array().head(M - 1)) * M_PI / (4 * (1 + gr));
       }
 
       // theta[0] = M_PI / 2 * x->operator[](0);
@@ -643,9 +631,9 @@ struct DTLZ1to7<Var_t, Fitness_t, void> {
       if constexpr (array_traits<Fitness_t>::isFixedSize) {
         // constexpr int N = array_traits<Var_t>::sizeCT;
         constexpr int M = array_traits<Fitness_t>::sizeCT;
-        f->template head<M - 1>() = x->template head<M - 1>();
+        f->template head<M - 1>() = x->template head<M - 1>().template cast<scalar_t>();
       } else {
-        f->head(M - 1) = x->head(M - 1);
+        f->head(M - 1) = x->head(M - 1).template cast<scalar_t>();
       }
     } else {
       for (int idx = 0; idx < M - 1; idx++) {
@@ -825,11 +813,7 @@ struct DTLZ89<Var_t, Fitness_t, void> {
 
     Fitness_t g;
     if constexpr (!array_traits<Fitness_t>::isFixedSize) {
-      if constexpr (array_traits<Fitness_t>::isEigenClass) {
-        g.resize(f->size(), 1);  // Eigen::ArrayX
-      } else {
-        g.resize(f->size());  // std::vector
-      }
+      g.resize(f->size());
     }
 
     for (int objIdx = 0; objIdx < M - 1; objIdx++) {
-- 
2.43.0


From f1de1855c0ae1a09cd33b9e94588bafc6e627ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:58 +0000
Subject: [PATCH 92/92] fix: AOS must not make more layers than there are
 electrons

---
 HeuristicFlow/src/AOS/AOS.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/AOS/AOS.hpp b/HeuristicFlow/src/AOS/AOS.hpp
index 21b7f07..b301286 100644
--- a/HeuristicFlow/src/AOS/AOS.hpp
+++ b/HeuristicFlow/src/AOS/AOS.hpp
@@ -91,7 +91,9 @@ class AOS : public internal::AOSBase<typename Box_t::Var_t, double, Arg_t, Box_t
     this->_layers.clear();
 
     // a estimation value of layer number
-    const int tempLayerNum = randIdx(1, int(this->_option.maxLayerNum + 1));
+    // there can be less electrons than electronNum if the option has been changed
+    const int tempLayerNum =
+        randIdx(1, int(std::min(this->_option.maxLayerNum, elecSortSpace.size())) + 1);
 
     // the accumulate distribution of electrons
     Eigen::ArrayXi numOfEachLayer(tempLayerNum);
-- 
2.43.0

