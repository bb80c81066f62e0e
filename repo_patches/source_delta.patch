From e672ea648dc5009b4362b873ff084364d3b7c36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:43 +0000
Subject: [PATCH 01/10] fix: compute powers of two in the argument's type in
 logCeiling and the range-limited binary code

For ranges of 2^31 and more the int shift overflowed and logCeiling, binaryCode and binaryDecode went wrong.
---
 Utils.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Utils.hpp b/Utils.hpp
index fb75faa..e640cd5 100644
--- a/Utils.hpp
+++ b/Utils.hpp
@@ -122,7 +122,7 @@ static byte logFloor(unsigned long n) {
 template <typename Unsigned>
 byte logCeiling(Unsigned n) {
   byte log = logFloor(n);
-  return static_cast<Unsigned>(1 << log) < n ? log+1 : log;
+  return (static_cast<Unsigned>(1) << log) < n ? log+1 : log;
 }
 
 uint32 mostSignificantBit16(uint32 n);
@@ -240,7 +240,7 @@ void binaryCode(size_t n, size_t lo, size_t hi, BitVector& bits) {
   size_t rangeLen = hi - lo + 1;
   if(rangeLen == 1) return;
   byte codeLength = logCeiling(rangeLen);
-  size_t shortCodewords = (1 << codeLength) - rangeLen;
+  size_t shortCodewords = (static_cast<size_t>(1) << codeLength) - rangeLen;
   size_t longCodewords2 = (rangeLen - shortCodewords)/2;
   if(n - lo < longCodewords2) {
     pushBits(n - lo, codeLength, bits);
@@ -301,7 +301,7 @@ size_t binaryDecode(Input& input, size_t lo, size_t hi) {
   size_t rangeLen = hi - lo + 1;
   if(rangeLen == 1) return lo;
   byte codeLength = logCeiling(rangeLen);
-  size_t shortCodewords = (1 << codeLength) - rangeLen;
+  size_t shortCodewords = (static_cast<size_t>(1) << codeLength) - rangeLen;
   size_t longCodewords2 = (rangeLen - shortCodewords)/2;
   size_t result = 0;
   for(int i = 0; i < codeLength - 1; ++i) {
@@ -322,7 +322,7 @@ size_t binaryDecode(Input& input, size_t lo, size_t hi, size_t *bitsRead) {
   size_t rangeLen = hi - lo + 1;
   if(rangeLen == 1) return lo;
   byte codeLength = logCeiling(rangeLen);
-  size_t shortCodewords = (1 << codeLength) - rangeLen;
+  size_t shortCodewords = (static_cast<size_t>(1) << codeLength) - rangeLen;
   size_t longCodewords2 = (rangeLen - shortCodewords)/2;
   size_t result = 0;
   *bitsRead += codeLength;
-- 
2.43.0


From 86ee1edb7c2cf0a6e5c8753ae1fa6b076ed2bfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:43 +0000
Subject: [PATCH 02/10] fix: packAndWriteInteger writes a byte for zero

It wrote nothing for zero while readAndUnpackInteger always reads at least one byte.
---
 Utils.cpp | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/Utils.cpp b/Utils.cpp
index 87f4ba3..b8b865c 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -58,17 +58,14 @@ static const uint64 kEightBit = 0x80;
 
 unsigned packAndWriteInteger(uint64 integer, byte *to) {
   unsigned bytes_used = 0;
-  while(1) {
-    if(integer) {
-      byte to_written = static_cast<byte>(integer & 0x7F);
-      integer >>= 7;
-      if(integer) to_written |= 0x80;
-      *to++ = to_written;
-      ++bytes_used;
-    } else {
-      return bytes_used;
-    }
-  }
+  do {
+    byte to_written = static_cast<byte>(integer & 0x7F);
+    integer >>= 7;
+    if(integer) to_written |= 0x80;
+    *to++ = to_written;
+    ++bytes_used;
+  } while(integer);
+  return bytes_used;
 }
 
 /* Returns the bytes used for the integer */
-- 
2.43.0


From d14a6c990af828c1cfb4e245fd74d1879b8f726d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:43 +0000
Subject: [PATCH 03/10] fix: FrequencyTable::increase stays within the keys in
 use

It compared with the entry behind the last one (index 256 of a full table) and let
an increased key move past removed keys, which brought those back into the table.
---
 preprocessors/FrequencyTable.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessors/FrequencyTable.cpp b/preprocessors/FrequencyTable.cpp
index fab008c..961b326 100644
--- a/preprocessors/FrequencyTable.cpp
+++ b/preprocessors/FrequencyTable.cpp
@@ -132,7 +132,7 @@ void FrequencyTable::increase(byte key, size_t value) {
   assert(m_frequencies[freqIndex].first == key);
   std::pair<byte, size_t> pair = std::make_pair(key, value);
   
-  while (freqIndex < m_last && value > m_frequencies[freqIndex + 1].second)
+  while (freqIndex + 1 < m_last && value > m_frequencies[freqIndex + 1].second)
   {
     --m_location[m_frequencies[freqIndex + 1].first];
     m_frequencies[freqIndex] = m_frequencies[freqIndex + 1];
-- 
2.43.0


From 62d949276cae053777a10e5af4f60651de1ca4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:37 +0000
Subject: [PATCH 04/10] fix: SimpleMarkov has a history entry for every context

The history array had 2^k - 1 entries but is indexed with all 2^k
values of the previous bits; the all-ones context was read and written
one byte behind the array.
---
 probmodels/ProbabilityModel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probmodels/ProbabilityModel.cpp b/probmodels/ProbabilityModel.cpp
index 9db31af..3be8f78 100644
--- a/probmodels/ProbabilityModel.cpp
+++ b/probmodels/ProbabilityModel.cpp
@@ -88,7 +88,7 @@ template <typename UnsignedInt>
 SimpleMarkov<UnsignedInt>::SimpleMarkov() :
     m_prev(static_cast<UnsignedInt>(0)), m_history(0)
 {
-  uint64 size = (static_cast<uint64>(1) << 8*sizeof(UnsignedInt)) - 1;
+  uint64 size = static_cast<uint64>(1) << 8*sizeof(UnsignedInt);
   m_history = new char[size];
   std::fill(m_history, m_history + size, 0);
 }
@@ -123,7 +123,7 @@ template <typename UnsignedInt>
 void SimpleMarkov<UnsignedInt>::resetModel() {
   /* Seems to work better when not resetting the model for different
    * contexts. */
-  uint64 size = (static_cast<uint64>(1) << 8*sizeof(UnsignedInt)) - 1;
+  uint64 size = static_cast<uint64>(1) << 8*sizeof(UnsignedInt);
   std::fill(m_history, m_history + size, 0);
 }
 
-- 
2.43.0


From a24effba2d03b4014110a765f7c6f80c126d3e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:39 +0000
Subject: [PATCH 05/10] fix: PairReplacer counts only the pair occurrences it
 can replace

Overlapping occurrences in runs of a symbol were counted twice for every
second alignment, so replacements could make the block longer than it was
and writeReplacedVersion wrote past the end of the block.
---
 preprocessors/PairReplacer.cpp | 10 +++-------
 preprocessors/PairReplacer.hpp | 22 +++++++++-------------
 2 files changed, 12 insertions(+), 20 deletions(-)

diff --git a/preprocessors/PairReplacer.cpp b/preprocessors/PairReplacer.cpp
index 62ccd61..3bb60f3 100644
--- a/preprocessors/PairReplacer.cpp
+++ b/preprocessors/PairReplacer.cpp
@@ -39,13 +39,13 @@ namespace bwtc {
 PairReplacer::PairReplacer(Grammar& grammar)
     : m_grammar(grammar), m_prev(0), m_numOfReplacements(0),
       m_numOfFreedSymbols(0), m_numOfNewSpecials(0), m_commonByte(0),
-      m_analysationStarted(false), m_verbose(false)
+      m_analysationStarted(false), m_prevPairCounted(false), m_verbose(false)
 {}
 
 PairReplacer::PairReplacer(Grammar& grammar, bool verbose)
     : m_grammar(grammar), m_prev(0), m_numOfReplacements(0),
       m_numOfFreedSymbols(0), m_numOfNewSpecials(0), m_commonByte(0),
-      m_analysationStarted(false), m_verbose(verbose)
+      m_analysationStarted(false), m_prevPairCounted(false), m_verbose(verbose)
 {}
 
 PairReplacer::~PairReplacer() {}
@@ -55,11 +55,7 @@ void PairReplacer::analyseData(const byte *data, size_t length, bool reset) {
   size_t i = 0;
   if(!m_analysationStarted) beginAnalysing(data[i++], reset);
 
-  for(; i < ((length-1) & 0xfffffffe); ++i) {
-    analyseData0(data[i]);
-    analyseData(data[++i]);
-  }
-  if((length & 0x1) == 0) analyseData0(data[i]);
+  for(; i < length; ++i) analyseData(data[i]);
 }
 
 void PairReplacer::finishAnalysation() {}
diff --git a/preprocessors/PairReplacer.hpp b/preprocessors/PairReplacer.hpp
index 2c9363d..35ccc68 100644
--- a/preprocessors/PairReplacer.hpp
+++ b/preprocessors/PairReplacer.hpp
@@ -44,26 +44,19 @@ class PairReplacer {
 
   void analyseData(const byte *data, size_t length, bool reset=true);
 
+  /**Occurrences of a pair which overlap the previously counted occurrence
+   * of the same pair (runs of a single symbol) aren't counted, because only
+   * one of them can be replaced.*/
   inline void analyseData(byte next) {
     assert(m_analysationStarted);
     assert(m_pairFrequencies);
     assert(m_frequencies);
-    m_prev = (m_prev << 8) | next;
-    
-    ++m_pairFrequencies[m_prev];
-    ++m_frequencies[next];
-  }
-
-  inline void analyseData0(byte next) {
-    ++m_frequencies[next];
     uint16 prev = m_prev;
     m_prev = (m_prev << 8) | next;
+    ++m_frequencies[next];
 
-    int pXc = prev ^ m_prev;
-    // compute min(pXc,1)
-    int min = 1 + ((pXc - 1) & ((pXc - 1) >> (sizeof(int)*__CHAR_BIT__ - 1)));
-    
-    m_pairFrequencies[m_prev] += min;
+    m_prevPairCounted = !(m_prevPairCounted && prev == m_prev);
+    m_pairFrequencies[m_prev] += m_prevPairCounted;
   }
 
   void beginAnalysing(bool reset);
@@ -139,6 +132,9 @@ class PairReplacer {
    * analyseData(byte next) asserts that analysation has been started.*/
   bool m_analysationStarted;
 
+  /**Tells if the latest pair given to analyseData(byte next) was counted.*/
+  bool m_prevPairCounted;
+
   /**Tells if the results of analysis and replacements are printed. */
   bool m_verbose;
 
-- 
2.43.0


From 93a62b166b7f8c023aac75e29e0e33c42ae48149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:39 +0000
Subject: [PATCH 06/10] fix: precompression accepts blocks of one or two bytes

---
 preprocessors/Precompressor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/preprocessors/Precompressor.cpp b/preprocessors/Precompressor.cpp
index 6cf3e3a..2444de3 100644
--- a/preprocessors/Precompressor.cpp
+++ b/preprocessors/Precompressor.cpp
@@ -82,7 +82,8 @@ void Precompressor::precompress(PrecompressorBlock& block) const {
         useTempArray = true;
       }
 
-      if(c == 'p') {
+      // Blocks with at most two bytes are too short for pair replacing.
+      if(c == 'p' && length > 2) {
         if(useTempArray) {
           PREPROCESSS(PairReplacer, verbosity > 1, src, dst);
         } else {
-- 
2.43.0


From fdb33c8a09c766d565608f574d74c753c51d2190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:26 +0000
Subject: [PATCH 07/10] fix: in-place pair replacement keeps the last byte of
 blocks of three and four bytes

---
 preprocessors/PairReplacer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessors/PairReplacer.cpp b/preprocessors/PairReplacer.cpp
index 3bb60f3..cca9f7a 100644
--- a/preprocessors/PairReplacer.cpp
+++ b/preprocessors/PairReplacer.cpp
@@ -355,7 +355,7 @@ writeReplacedVersion(byte *src, size_t length) const {
     }
     ++i;
   }
-  filled += buffer.consume(src + filled, i);
+  filled += buffer.consume(src + filled, length - filled);
   return filled;
 }
 
-- 
2.43.0


From ff586dd8e54b4b19f3d0f7cac008ed153745f5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:51 +0000
Subject: [PATCH 08/10] fix: in-place pair replacement keeps room for the last
 symbol

---
 preprocessors/PairReplacer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/preprocessors/PairReplacer.cpp b/preprocessors/PairReplacer.cpp
index cca9f7a..232c9fa 100644
--- a/preprocessors/PairReplacer.cpp
+++ b/preprocessors/PairReplacer.cpp
@@ -347,6 +347,7 @@ writeReplacedVersion(byte *src, size_t length) const {
       pair = (src[i] << 8) | 0;
       if(((replValue = m_replacements[pair]) & 0xff) != m_commonByte) {
         buffer.push(replValue >> 8);
+        if(buffer.full()) filled += buffer.consume(src + filled, i - filled);
         buffer.push(replValue & 0xff);
       } else {
         buffer.push(src[i]);
-- 
2.43.0


From 0ef4d76631e5120356066605bcc0897bf55e2e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:45 +0000
Subject: [PATCH 09/10] fix: symbol frequencies are reported without truncation
 to 32 bits

---
 preprocessors/FrequencyTable.cpp | 4 ++--
 preprocessors/FrequencyTable.hpp | 4 ++--
 preprocessors/PairReplacer.cpp   | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/preprocessors/FrequencyTable.cpp b/preprocessors/FrequencyTable.cpp
index 961b326..ed157ad 100644
--- a/preprocessors/FrequencyTable.cpp
+++ b/preprocessors/FrequencyTable.cpp
@@ -75,12 +75,12 @@ void FrequencyTable::initialize(size_t* frequencies) {
   initLocations();
 }
 
-uint32 FrequencyTable::getFrequency(int i) const {
+size_t FrequencyTable::getFrequency(int i) const {
   assert(i >= 0 && i < m_last);
   return m_frequencies[i].second;
 }
 
-uint32 FrequencyTable::getFrequencyWithKey(byte key) const {
+size_t FrequencyTable::getFrequencyWithKey(byte key) const {
   return m_frequencies[m_location[key]].second;
 }
 
diff --git a/preprocessors/FrequencyTable.hpp b/preprocessors/FrequencyTable.hpp
index d948438..52a4c7c 100644
--- a/preprocessors/FrequencyTable.hpp
+++ b/preprocessors/FrequencyTable.hpp
@@ -48,9 +48,9 @@ class FrequencyTable {
   void initialize(size_t* frequencies);
 
   /** Returns the i:th lowest freq*/
-  uint32 getFrequency(int i) const; 
+  size_t getFrequency(int i) const; 
 
-  uint32 getFrequencyWithKey(byte key) const;
+  size_t getFrequencyWithKey(byte key) const;
 
   /** Returns the key which has i:th lowest freq*/
   byte getKey(int i) const; 
diff --git a/preprocessors/PairReplacer.cpp b/preprocessors/PairReplacer.cpp
index 232c9fa..bf67dd5 100644
--- a/preprocessors/PairReplacer.cpp
+++ b/preprocessors/PairReplacer.cpp
@@ -150,7 +150,7 @@ int64 PairReplacer::findReplaceables(size_t startingPair,
     }
     assert(!m_grammar.isSpecial(freqs.getKey(currentSymbol)));
 
-    uint32 fr = freqs.getFrequency(currentSymbol);
+    size_t fr = freqs.getFrequency(currentSymbol);
 
     if(fr + 1003 >= pairs[currentPair].first || withoutNew == 0) {
       hope = false;
@@ -215,7 +215,7 @@ int64 PairReplacer::findReplaceables(size_t startingPair,
       }
       assert(!m_grammar.isSpecial(freqs.getKey(currentSymbol)));
 
-      uint32 fr = freqs.getFrequency(currentSymbol);
+      size_t fr = freqs.getFrequency(currentSymbol);
       
       if(fr + 1003 >= pairs[currentPair].first) {
         hope = false;
-- 
2.43.0


From 6b4c9c50132fa03481e70aed096ddec3b6737c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:07 +0000
Subject: [PATCH 10/10] fix: the empty root of a wavelet tree is released when
 a tree is read

---
 WaveletTree.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/WaveletTree.hpp b/WaveletTree.hpp
index 6b3fa7b..88f643d 100644
--- a/WaveletTree.hpp
+++ b/WaveletTree.hpp
@@ -422,6 +422,8 @@ size_t WaveletTree<BitVector>::readShape(Input& input) {
     codeLengths.push_back(std::make_pair(len, alphabet[i]));
   }
 
+  // The empty root made by the constructor is replaced.
+  destroy(m_root);
   assignPrefixCodes(codeLengths);
   collectCodes(m_codes, m_root);
   
-- 
2.43.0

