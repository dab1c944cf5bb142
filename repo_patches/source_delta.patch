From 780f54a0c412555f1665db6c12e73e69802da20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:53 +0000
Subject: [PATCH 001/103] fix: lost wake-ups and use-after-free when a
 StringBuffer shuts down its compression thread

The destructor published the end marker without holding the mutex the
compression thread checks it under, and the thread announced its end through
a condition variable of the object being destroyed, also without the mutex.
Both wake-ups could be lost, which left the loader waiting forever. Publish
the marker under the lock and join the thread.
---
 include/trident/tree/stringbuffer.h |  8 --------
 src/trident/tree/stringbuffer.cpp   | 12 ++----------
 2 files changed, 2 insertions(+), 18 deletions(-)

diff --git a/include/trident/tree/stringbuffer.h b/include/trident/tree/stringbuffer.h
index 2f956eb..6a2fe11 100644
--- a/include/trident/tree/stringbuffer.h
+++ b/include/trident/tree/stringbuffer.h
@@ -79,14 +79,6 @@ private:
     std::mutex _compressMutex;
     std::thread compressionThread;
 
-    //Used to check for termination
-    std::condition_variable compressTerm;
-    std::mutex _compressTerm;
-    bool threadRunning;
-    bool isThreadFinished() {
-        return !threadRunning;
-    }
-
     std::mutex sizeLock;
 
     int posBaseEntry;
diff --git a/src/trident/tree/stringbuffer.cpp b/src/trident/tree/stringbuffer.cpp
index bf7b716..a1d6e18 100644
--- a/src/trident/tree/stringbuffer.cpp
+++ b/src/trident/tree/stringbuffer.cpp
@@ -85,7 +85,6 @@ StringBuffer::StringBuffer(string dir, bool readOnly, int factorySize,
         addCache(0);
 
         //Start a compression thread
-        threadRunning = true;
         compressionThread = std::thread(
                                 std::bind(&StringBuffer::compressBlocks, this));
     }
@@ -173,7 +172,6 @@ void StringBuffer::addCache(int idx) {
 }
 
 void StringBuffer::compressBlocks() {
-    threadRunning = true;
     const int maxSize = LZ4_compressBound(SB_BLOCK_SIZE);
     char *compressedBuffer = new char[maxSize];
     while (true) {
@@ -220,8 +218,6 @@ void StringBuffer::compressBlocks() {
         fileLock.unlock();
     }
     delete[] compressedBuffer;
-    threadRunning = false;
-    compressTerm.notify_one();
 }
 
 void StringBuffer::setCurrentAsBaseEntry(int size) {
@@ -591,14 +587,10 @@ StringBuffer::~StringBuffer() {
         while (bufferToCompress != NULL) {
             compressWait.wait(lock);
         }
-        lock.unlock();
-
-        compressionThread.detach();
         bufferToCompress = FINISH_THREAD;
+        lock.unlock();
         compressWait.notify_one();
-
-        std::unique_lock<std::mutex> lock2(_compressTerm);
-        compressTerm.wait(lock2, std::bind(&StringBuffer::isThreadFinished, this));
+        compressionThread.join();
 
         sb.flush();
         sb.close();
-- 
2.43.0


From 92934970bc61181b3e2e3ebec38d56be54ec5054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:19 +0000
Subject: [PATCH 002/103] fix: loading with four aggregated indices crashed on
 the missing POS partition

The loader builds SPO, OPS and (aggregated) POS in this configuration, while
the knowledge base only opened SPO, OPS, SOP and OSP.
---
 src/trident/kb/kb.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/trident/kb/kb.cpp b/src/trident/kb/kb.cpp
index 136ddbb..999d2d6 100644
--- a/src/trident/kb/kb.cpp
+++ b/src/trident/kb/kb.cpp
@@ -134,6 +134,7 @@ KB::KB(const char *path,
             relsIDsSep = config.getParamBool(RELSOWNIDS);
             nindices = config.getParamInt(NINDICES);
             indices = config.getParam(INDICES);
+            aggrIndices = config.getParamBool(AGGRINDICES);
             if (indices == "") {
                 // Fill in some default values.
                 if (nindices == 1) {
@@ -141,13 +142,14 @@ KB::KB(const char *path,
                 } else if (nindices == 3) {
                     indices = "0;1;2";
                 } else if (nindices == 4) {
-                    indices = "0;1;3;4";
+                    //With aggregated indices the loader creates POS (from
+                    //SPO and OPS) instead of SOP and OSP
+                    indices = aggrIndices ? "0;1;2" : "0;1;3;4";
                 } else if (nindices == 6) {
                     indices = "0;1;2;3;4;5";
                 }
                 // Other defaults? TODO
             }
-            aggrIndices = config.getParamBool(AGGRINDICES);
             incompleteIndices = config.getParamBool(INCOMPLINDICES);
             useFixedStrategy = config.getParamBool(USEFIXEDSTRAT);
             storageFixedStrategy = (char) config.getParamInt(FIXEDSTRAT);
-- 
2.43.0


From 1985afee71f60763e441beba1afbe8227c9b255e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:01 +0000
Subject: [PATCH 003/103] fix: 5-byte identifiers with the top bit set were
 read back negative

LongIntReader sign-extended the first byte, so tables with terms from 2^39 on
returned negative terms.
---
 include/trident/binarytables/binarytablereaders.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/trident/binarytables/binarytablereaders.h b/include/trident/binarytables/binarytablereaders.h
index e00e672..f7ea0ae 100644
--- a/include/trident/binarytables/binarytablereaders.h
+++ b/include/trident/binarytables/binarytablereaders.h
@@ -71,7 +71,7 @@ public:
     }
 
     static uint64_t read(const char* buffer) {
-        uint64_t n = (int64_t) (buffer[0]) << 32;
+        uint64_t n = (int64_t) (buffer[0] & 0xFF) << 32;
         n += (int64_t) (buffer[1] & 0xFF) << 24;
         n += (buffer[2] & 0xFF) << 16;
         n += (buffer[3] & 0xFF) << 8;
-- 
2.43.0


From 0242ac1b497b176c8f66cd4ba63e4fe76f06d5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:07 +0000
Subject: [PATCH 004/103] fix: getCard returned cardinalities memoised for
 another, already closed KB

---
 include/trident/kb/querier.h |  6 ++++++
 src/trident/kb/querier.cpp   | 29 ++++++++++++-----------------
 2 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/include/trident/kb/querier.h b/include/trident/kb/querier.h
index 288d300..59632f6 100644
--- a/include/trident/kb/querier.h
+++ b/include/trident/kb/querier.h
@@ -46,6 +46,8 @@
 #include <kognac/factory.h>
 
 #include <iostream>
+#include <map>
+#include <tuple>
 
 class TableStorage;
 class ListPairHandler;
@@ -290,6 +292,10 @@ class Querier {
 
         TermCoordinates currentValue;
 
+        //Cache of the cardinalities returned by getCard
+        std::map<std::tuple<int64_t, int64_t, int64_t>, int64_t> cardCache;
+        size_t cardCacheNDiffs;
+
         //Factories
         Factory<ArrayItr> factory2;
         Factory<ScanItr> factory3;
diff --git a/src/trident/kb/querier.cpp b/src/trident/kb/querier.cpp
index eef5b40..c6e6966 100644
--- a/src/trident/kb/querier.cpp
+++ b/src/trident/kb/querier.cpp
@@ -83,6 +83,7 @@ Querier::Querier(Root* tree, DictMgmt *dict, TableStorage** files,
         this->files = files;
         lastKeyFound = false;
         lastKeyQueried = -1;
+        cardCacheNDiffs = diffIndices.size();
         strat.init(/*&listFactory, &comprFactory, &list2Factory,*/ &ncFactory, &nrFactory, &ncluFactory,
                 NULL, NULL, NULL, NULL, NULL, NULL);
         aggrIndices = notAggrIndices = cacheIndices = 0;
@@ -467,22 +468,6 @@ int64_t Querier::estCard(const int64_t s, const int64_t p, const int64_t o) {
     throw 10;
 }
 
-template <typename R, typename... Args>
-std::function<R (Args...)> memo(R (*fn)(Args...)) {
-    static std::map<std::tuple<Args...>, R> table;
-    return [fn](Args... args) mutable -> R {
-        auto argt = std::make_tuple(args...);
-        auto memoized = table.find(argt);
-        if(memoized == table.end()) {
-            auto result = fn(args...);
-            table[argt] = result;
-            return result;
-        } else {
-            return memoized->second;
-        }
-    };
-}
-
 int64_t Querier::getCard_internal(Querier *q, const int64_t s, const int64_t p, const int64_t o) {
     if (s < 0 && p < 0 && o < 0) {
         //They are all variables. Return the input size...
@@ -536,7 +521,17 @@ int64_t Querier::getCard_internal(Querier *q, const int64_t s, const int64_t p,
 }
 
 int64_t Querier::getCard(const int64_t s, const int64_t p, const int64_t o) {
-    return memo(getCard_internal)(this, s, p, o);
+    //The results are cached until an update is added to the KB
+    if (cardCacheNDiffs != diffIndices.size()) {
+        cardCache.clear();
+        cardCacheNDiffs = diffIndices.size();
+    }
+    const auto key = std::make_tuple(s, p, o);
+    auto itr = cardCache.find(key);
+    if (itr == cardCache.end()) {
+        itr = cardCache.insert(std::make_pair(key, getCard_internal(this, s, p, o))).first;
+    }
+    return itr->second;
 }
 
 
-- 
2.43.0


From 26d8101ccd11f6bacbe9550d45125bbc0e62ade9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:17 +0000
Subject: [PATCH 005/103] fix: getCard ignored the sign of deletions and
 returned 0 when only the inverse permutation is stored

---
 src/trident/kb/querier.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/trident/kb/querier.cpp b/src/trident/kb/querier.cpp
index c6e6966..800b3a3 100644
--- a/src/trident/kb/querier.cpp
+++ b/src/trident/kb/querier.cpp
@@ -492,12 +492,23 @@ int64_t Querier::getCard_internal(Querier *q, const int64_t s, const int64_t p,
             q->lastKeyFound = q->tree->get(key, &q->currentValue);
             q->lastKeyQueried = key;
         }
+        //The tables of a permutation and of its inverse have the same size, but
+        //only the first one might be stored
+        const int perm = idx >= 3 ? idx - 3 : idx;
         int64_t nElements = 0;
-        if (q->lastKeyFound && q->currentValue.exists(idx)) {
-            nElements += q->currentValue.getNElements(idx);
+        if (q->lastKeyFound) {
+            if (q->currentValue.exists(perm)) {
+                nElements += q->currentValue.getNElements(perm);
+            } else if (q->currentValue.exists(perm + 3)) {
+                nElements += q->currentValue.getNElements(perm + 3);
+            }
         }
         for (size_t i = 0; i < q->diffIndices.size(); ++i) {
-            nElements += q->diffIndices[i]->getCard(idx, key);
+            if (q->diffIndices[i]->getType() == DiffIndex::TypeUpdate::ADDITION_df) {
+                nElements += q->diffIndices[i]->getCard(perm, key);
+            } else {
+                nElements -= q->diffIndices[i]->getCard(perm, key);
+            }
         }
         return nElements;
     }
-- 
2.43.0


From 3ac460bfae834ab0705f424b5fc89397a4dec429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:37 +0000
Subject: [PATCH 006/103] fix: pos_* returned the preceding edge and grouping
 by two constants lost the second key

---
 include/trident/kb/querier.h | 6 ++++++
 src/trident/kb/querier.cpp   | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/trident/kb/querier.h b/include/trident/kb/querier.h
index 59632f6..a377e53 100644
--- a/include/trident/kb/querier.h
+++ b/include/trident/kb/querier.h
@@ -901,6 +901,7 @@ class Querier {
             if (! hasNext) {
                 throw 10;
             }
+            it->next();
             it->getTriple(result);
             delete it;
         }
@@ -919,6 +920,7 @@ class Querier {
             if (! hasNext) {
                 throw 10;
             }
+            it->next();
             it->getTriple(result);
             delete it;
         }
@@ -937,6 +939,7 @@ class Querier {
             if (! hasNext) {
                 throw 10;
             }
+            it->next();
             it->getTriple(result);
             delete it;
         }
@@ -955,6 +958,7 @@ class Querier {
             if (! hasNext) {
                 throw 10;
             }
+            it->next();
             it->getTriple(result);
             delete it;
         }
@@ -973,6 +977,7 @@ class Querier {
             if (! hasNext) {
                 throw 10;
             }
+            it->next();
             it->getTriple(result);
             delete it;
         }
@@ -991,6 +996,7 @@ class Querier {
             if (! hasNext) {
                 throw 10;
             }
+            it->next();
             it->getTriple(result);
             delete it;
         }
diff --git a/src/trident/kb/querier.cpp b/src/trident/kb/querier.cpp
index 800b3a3..397b937 100644
--- a/src/trident/kb/querier.cpp
+++ b/src/trident/kb/querier.cpp
@@ -62,7 +62,7 @@ ConstKeyCardItr::ConstKeyCardItr(Querier *q, uint64_t s, uint64_t r, uint64_t d,
 
 ConstKeyCardItr::ConstKeyCardItr(Querier *q, uint64_t s, uint64_t r, uint64_t d, uint64_t key1, uint64_t key2) {
     currentKey1 = key1;
-    currentKey1 = key2;
+    currentKey2 = key2;
     currentCard = q->getCard(s, r, d);
     hn = currentCard > 0;
 }
-- 
2.43.0


From 98f17b3bb6107fbb24ce689325ae3b75908c7f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:14 +0000
Subject: [PATCH 007/103] fix: cnt_grp_s/r/d threw on a pattern without
 constants

---
 include/trident/kb/querier.h | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/trident/kb/querier.h b/include/trident/kb/querier.h
index a377e53..fceae45 100644
--- a/include/trident/kb/querier.h
+++ b/include/trident/kb/querier.h
@@ -801,6 +801,12 @@ class Querier {
                 ConstKeyCardItr v(this, s, r, d, s);
                 return v.hasNext() ? 1 : 0;
             }
+            if (s < 0 && r < 0 && d < 0) {
+                KeyCardItr *it = grp_s(s, r, d);
+                uint64_t card = countKeyCardItr(it);
+                delete it;
+                return card;
+            }
             return getCard(s, r, d, 0);
         }
 
@@ -809,6 +815,12 @@ class Querier {
                 ConstKeyCardItr v(this, s, r, d, r);
                 return v.hasNext() ? 1 : 0;
             }
+            if (s < 0 && r < 0 && d < 0) {
+                KeyCardItr *it = grp_r(s, r, d);
+                uint64_t card = countKeyCardItr(it);
+                delete it;
+                return card;
+            }
             return getCard(s, r, d, 1);
         }
 
@@ -817,6 +829,12 @@ class Querier {
                 ConstKeyCardItr v(this, s, r, d, d);
                 return v.hasNext() ? 1 : 0;
             }
+            if (s < 0 && r < 0 && d < 0) {
+                KeyCardItr *it = grp_d(s, r, d);
+                uint64_t card = countKeyCardItr(it);
+                delete it;
+                return card;
+            }
             return getCard(s, r, d, 2);
         }
 
-- 
2.43.0


From d8250d4d740bd28b4a9e20b5dac384d4a328eb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:04 +0000
Subject: [PATCH 008/103] fix: grp_* grouped by the columns of the index
 instead of by the requested fields

---
 include/trident/kb/querier.h | 41 ++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/include/trident/kb/querier.h b/include/trident/kb/querier.h
index fceae45..b75f39b 100644
--- a/include/trident/kb/querier.h
+++ b/include/trident/kb/querier.h
@@ -144,6 +144,11 @@ class EdgeItr {
             v[2] = getObject();
         }
 
+        //Return the source (0), the relation (1), or the destination (2)
+        uint64_t getField(int f) {
+            return getValue(order[f]);
+        }
+
         uint64_t getSubject() {
             return getValue(order[0]);
         }
@@ -160,6 +165,8 @@ class EdgeItr {
 class OneKeyCardItr: public KeyCardItr {
     private:
         EdgeItr *itr;
+        //Field of the edge used as key
+        const int field1;
         bool hn;
         bool hnDone;
         bool nextDone;
@@ -167,7 +174,7 @@ class OneKeyCardItr: public KeyCardItr {
         uint64_t nextKey1;
 
     public:
-        OneKeyCardItr(EdgeItr *itr) : itr(itr), hnDone(false), nextDone(false) {
+        OneKeyCardItr(EdgeItr *itr, int field1) : itr(itr), field1(field1), hnDone(false), nextDone(false) {
         }
 
         bool hasNext() {
@@ -184,10 +191,10 @@ class OneKeyCardItr: public KeyCardItr {
                 if (hn) {
                     nextDone = false;
                     nextCard = 1;
-                    nextKey1 = itr->getValue(0);
+                    nextKey1 = itr->getField(field1);
                     while (itr->hasNext()) {
                         itr->next();
-                        if (itr->getValue(0) != nextKey1) {
+                        if (itr->getField(field1) != nextKey1) {
                             nextDone = true;
                             break;
                         }
@@ -215,6 +222,8 @@ class OneKeyCardItr: public KeyCardItr {
 class TwoKeyCardItr: public KeyCardItr {
     private:
         EdgeItr *itr;
+        //Fields of the edge used as keys
+        const int field1, field2;
         bool hn;
         bool hnDone;
         bool nextDone;
@@ -223,7 +232,7 @@ class TwoKeyCardItr: public KeyCardItr {
         uint64_t nextKey2;
 
     public:
-        TwoKeyCardItr(EdgeItr *itr) : itr(itr), hnDone(false), nextDone(false) {
+        TwoKeyCardItr(EdgeItr *itr, int field1, int field2) : itr(itr), field1(field1), field2(field2), hnDone(false), nextDone(false) {
         }
 
         bool hasNext() {
@@ -240,11 +249,11 @@ class TwoKeyCardItr: public KeyCardItr {
                 if (hn) {
                     nextDone = false;
                     nextCard = 1;
-                    nextKey1 = itr->getValue(0);
-                    nextKey2 = itr->getValue(1);
+                    nextKey1 = itr->getField(field1);
+                    nextKey2 = itr->getField(field2);
                     while (itr->hasNext()) {
                         itr->next();
-                        if (itr->getValue(0) != nextKey1 || itr->getValue(1) != nextKey2) {
+                        if (itr->getField(field1) != nextKey1 || itr->getField(field2) != nextKey2) {
                             nextDone = true;
                             break;
                         }
@@ -729,7 +738,7 @@ class Querier {
                 return new ConstKeyCardItr(this, s, r, d, s);
             }
             EdgeItr *it = d >= 0 ? edg_sdr(s, r, d) : edg_srd(s, r, d);
-            return new OneKeyCardItr(it);
+            return new OneKeyCardItr(it, 0);
         }
 
         DDLEXPORT KeyCardItr *grp_r(const int64_t s, const int64_t r, const int64_t d) {
@@ -737,7 +746,7 @@ class Querier {
                 return new ConstKeyCardItr(this, s, r, d, r);
             }
             EdgeItr *it = d >= 0 ? edg_rds(s, r, d) : edg_rsd(s, r, d);
-            return new OneKeyCardItr(it);
+            return new OneKeyCardItr(it, 1);
         }
 
         DDLEXPORT KeyCardItr *grp_d(const int64_t s, const int64_t r, const int64_t d) {
@@ -745,7 +754,7 @@ class Querier {
                 return new ConstKeyCardItr(this, s, r, d, d);
             }
             EdgeItr *it = r >= 0 ? edg_drs(s, r, d) : edg_dsr(s, r, d);
-            return new OneKeyCardItr(it);
+            return new OneKeyCardItr(it, 2);
         }
 
         DDLEXPORT KeyCardItr *grp_sr(const int64_t s, const int64_t r, const int64_t d) {
@@ -753,7 +762,7 @@ class Querier {
                 return new ConstKeyCardItr(this, s, r, d, s, r);
             }
             EdgeItr *it = edg_srd(s, r, d);
-            return new TwoKeyCardItr(it);
+            return new TwoKeyCardItr(it, 0, 1);
         }
 
         DDLEXPORT KeyCardItr *grp_sd(const int64_t s, const int64_t r, const int64_t d) {
@@ -761,7 +770,7 @@ class Querier {
                 return new ConstKeyCardItr(this, s, r, d, s, d);
             }
             EdgeItr *it = edg_sdr(s, r, d);
-            return new TwoKeyCardItr(it);
+            return new TwoKeyCardItr(it, 0, 2);
         }
 
         DDLEXPORT KeyCardItr *grp_rs(const int64_t s, const int64_t r, const int64_t d) {
@@ -769,7 +778,7 @@ class Querier {
                 return new ConstKeyCardItr(this, s, r, d, r, s);
             }
             EdgeItr *it = edg_rsd(s, r, d);
-            return new TwoKeyCardItr(it);
+            return new TwoKeyCardItr(it, 1, 0);
         }
 
         DDLEXPORT KeyCardItr *grp_rd(const int64_t s, const int64_t r, const int64_t d) {
@@ -777,7 +786,7 @@ class Querier {
                 return new ConstKeyCardItr(this, s, r, d, r, d);
             }
             EdgeItr *it = edg_rds(s, r, d);
-            return new TwoKeyCardItr(it);
+            return new TwoKeyCardItr(it, 1, 2);
         }
 
         DDLEXPORT KeyCardItr *grp_ds(const int64_t s, const int64_t r, const int64_t d) {
@@ -785,7 +794,7 @@ class Querier {
                 return new ConstKeyCardItr(this, s, r, d, d, s);
             }
             EdgeItr *it = edg_dsr(s, r, d);
-            return new TwoKeyCardItr(it);
+            return new TwoKeyCardItr(it, 2, 0);
         }
 
         DDLEXPORT KeyCardItr *grp_dr(const int64_t s, const int64_t r, const int64_t d) {
@@ -793,7 +802,7 @@ class Querier {
                 return new ConstKeyCardItr(this, s, r, d, d, r);
             }
             EdgeItr *it = edg_drs(s, r, d);
-            return new TwoKeyCardItr(it);
+            return new TwoKeyCardItr(it, 2, 1);
         }
 
         DDLEXPORT uint64_t cnt_grp_s(const int64_t s, const int64_t r, const int64_t d) {
-- 
2.43.0


From 8c27aeebb06c890b64986990401257082ab1d91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:42 +0000
Subject: [PATCH 009/103] fix: patterns repeating a variable compared the wrong
 columns and read uninitialised state

---
 include/trident/iterators/filtersameitr.h | 11 ++---
 include/trident/kb/querier.h              | 60 +++++++++++++++--------
 src/trident/kb/querier.cpp                |  4 +-
 3 files changed, 45 insertions(+), 30 deletions(-)

diff --git a/include/trident/iterators/filtersameitr.h b/include/trident/iterators/filtersameitr.h
index c01f7a8..1dea8a3 100644
--- a/include/trident/iterators/filtersameitr.h
+++ b/include/trident/iterators/filtersameitr.h
@@ -46,6 +46,8 @@ class FilterSameItr: public PairItr {
             this->underlying = underlying;
             this->pos1 = pos1;
             this->pos2 = pos2;
+            initializeConstraints();
+            hn = hnc = savedhn = savedhnc = false;
         }
 
         int getTypeItr() {
@@ -60,14 +62,6 @@ class FilterSameItr: public PairItr {
             return underlying->getValue2();
         }
 
-        int64_t getKey() {
-            return underlying->getKey();
-        }
-
-        void setKey(int64_t key) {
-            underlying->setKey(key);
-        }
-
         bool hasNext() {
             if (! hnc) {
                 hnc = true;
@@ -101,6 +95,7 @@ class FilterSameItr: public PairItr {
 
         void next() {
             hnc = false;
+            key = underlying->getKey();
         }
 
         void ignoreSecondColumn() {
diff --git a/include/trident/kb/querier.h b/include/trident/kb/querier.h
index b75f39b..9931ad1 100644
--- a/include/trident/kb/querier.h
+++ b/include/trident/kb/querier.h
@@ -46,6 +46,7 @@
 #include <kognac/factory.h>
 
 #include <iostream>
+#include <algorithm>
 #include <map>
 #include <tuple>
 
@@ -368,6 +369,26 @@ class Querier {
             return false;
         }
 
+        //Remove from "itr", which reads the permutation "idx", the edges that do not
+        //have the same term wherever s, r, and d are the same variable
+        PairItr *filterSameVars(const int idx, const int64_t s, const int64_t r,
+                const int64_t d, PairItr *itr) {
+            int p1, p2;
+            if (!sameVar(s, r, d, p1, p2)) {
+                return itr;
+            }
+            const int *order = getInvOrder(idx);
+            FilterSameItr *fi = factory16.get();
+            fi->init(itr, std::min(order[p1], order[p2]), std::max(order[p1], order[p2]));
+            if (s == r && r == d) {
+                //All three terms must be equal
+                itr = fi;
+                fi = factory16.get();
+                fi->init(itr, std::min(order[1], order[2]), std::max(order[1], order[2]));
+            }
+            return fi;
+        }
+
         uint64_t countKeyCardItr(KeyCardItr *it) {
             uint64_t card = 0;
             while (it->hasNext()) {
@@ -432,16 +453,8 @@ class Querier {
         }
 
         DDLEXPORT EdgeItr *getEdgeItr(const int idx, const int64_t s, const int64_t r, const int64_t d) {
-            int p1, p2;
-            PairItr *itr;
-            if (sameVar(s, r, d, p1, p2)) {
-                PairItr *it = getIterator(idx, s < 0 ? -1 : s, r < 0 ? -1 : r, d < 0 ? -1 : d);
-                FilterSameItr *fi = factory16.get();
-                fi->init(it, p1, p2);
-                itr = fi;
-            } else {
-                itr = getIterator(idx, s < 0 ? -1 : s, r < 0 ? -1 : r, d < 0 ? -1 : d);
-            }
+            PairItr *itr = filterSameVars(idx, s, r, d,
+                    getIterator(idx, s < 0 ? -1 : s, r < 0 ? -1 : r, d < 0 ? -1 : d));
             return new EdgeItr(getInvOrder(idx), itr);
         }
 
@@ -719,9 +732,13 @@ class Querier {
             int p1, p2;
             if (sameVar(s, r, d, p1, p2)) {
                 uint64_t cnt = 0;
-                PairItr *it = getIterator(IDX_SPO, s, r, d);
-                FilterSameItr *fi = factory16.get();
-                fi->init(it, p1, p2);
+                //The constants must be a prefix of the permutation
+                int idx = IDX_SPO;
+                if (s < 0) {
+                    idx = r >= 0 ? IDX_POS : d >= 0 ? IDX_OSP : IDX_SPO;
+                }
+                PairItr *fi = filterSameVars(idx, s, r, d,
+                        getIterator(idx, s < 0 ? -1 : s, r < 0 ? -1 : r, d < 0 ? -1 : d));
                 while (fi->hasNext()) {
                     fi->next();
                     cnt++;
@@ -729,7 +746,7 @@ class Querier {
                 releaseItr(fi);
                 return cnt;
             } else {
-                return getCard(s, r, d);
+                return getCard(s < 0 ? -1 : s, r < 0 ? -1 : r, d < 0 ? -1 : d);
             }
         }
 
@@ -810,13 +827,14 @@ class Querier {
                 ConstKeyCardItr v(this, s, r, d, s);
                 return v.hasNext() ? 1 : 0;
             }
-            if (s < 0 && r < 0 && d < 0) {
+            int p1, p2;
+            if (sameVar(s, r, d, p1, p2) || (s < 0 && r < 0 && d < 0)) {
                 KeyCardItr *it = grp_s(s, r, d);
                 uint64_t card = countKeyCardItr(it);
                 delete it;
                 return card;
             }
-            return getCard(s, r, d, 0);
+            return getCard(s < 0 ? -1 : s, r < 0 ? -1 : r, d < 0 ? -1 : d, 0);
         }
 
         DDLEXPORT uint64_t cnt_grp_r(const int64_t s, const int64_t r, const int64_t d) {
@@ -824,13 +842,14 @@ class Querier {
                 ConstKeyCardItr v(this, s, r, d, r);
                 return v.hasNext() ? 1 : 0;
             }
-            if (s < 0 && r < 0 && d < 0) {
+            int p1, p2;
+            if (sameVar(s, r, d, p1, p2) || (s < 0 && r < 0 && d < 0)) {
                 KeyCardItr *it = grp_r(s, r, d);
                 uint64_t card = countKeyCardItr(it);
                 delete it;
                 return card;
             }
-            return getCard(s, r, d, 1);
+            return getCard(s < 0 ? -1 : s, r < 0 ? -1 : r, d < 0 ? -1 : d, 1);
         }
 
         DDLEXPORT uint64_t cnt_grp_d(const int64_t s, const int64_t r, const int64_t d) {
@@ -838,13 +857,14 @@ class Querier {
                 ConstKeyCardItr v(this, s, r, d, d);
                 return v.hasNext() ? 1 : 0;
             }
-            if (s < 0 && r < 0 && d < 0) {
+            int p1, p2;
+            if (sameVar(s, r, d, p1, p2) || (s < 0 && r < 0 && d < 0)) {
                 KeyCardItr *it = grp_d(s, r, d);
                 uint64_t card = countKeyCardItr(it);
                 delete it;
                 return card;
             }
-            return getCard(s, r, d, 2);
+            return getCard(s < 0 ? -1 : s, r < 0 ? -1 : r, d < 0 ? -1 : d, 2);
         }
 
         DDLEXPORT uint64_t cnt_grp_sr(const int64_t s, const int64_t r, const int64_t d) {
diff --git a/src/trident/kb/querier.cpp b/src/trident/kb/querier.cpp
index 397b937..776a1ca 100644
--- a/src/trident/kb/querier.cpp
+++ b/src/trident/kb/querier.cpp
@@ -56,14 +56,14 @@ EmptyItr emptyItr;
 // It cannot happen that for perm = 0, 1, 2: perm+3 exists but perm does not.
 ConstKeyCardItr::ConstKeyCardItr(Querier *q, uint64_t s, uint64_t r, uint64_t d, uint64_t key) {
     currentKey1 = key;
-    currentCard = q->getCard(s, r, d);
+    currentCard = q->countEdges(s, r, d);
     hn = currentCard > 0;
 }
 
 ConstKeyCardItr::ConstKeyCardItr(Querier *q, uint64_t s, uint64_t r, uint64_t d, uint64_t key1, uint64_t key2) {
     currentKey1 = key1;
     currentKey2 = key2;
-    currentCard = q->getCard(s, r, d);
+    currentCard = q->countEdges(s, r, d);
     hn = currentCard > 0;
 }
 
-- 
2.43.0


From 63e094b6a61e0fad554d3225e21366fa0d1fa2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:03 +0000
Subject: [PATCH 010/103] fix: repositioning a scan on a key decoded the key
 table with the wrong width

---
 src/trident/iterators/termitr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trident/iterators/termitr.cpp b/src/trident/iterators/termitr.cpp
index 3ba5551..e6fb81d 100644
--- a/src/trident/iterators/termitr.cpp
+++ b/src/trident/iterators/termitr.cpp
@@ -143,7 +143,7 @@ void TermItr::gotoKey(int64_t keyToSearch) {
     while (start < end) {
         const size_t nels = (end - start) / 11;
         const char *middle = start + (nels / 2) * 11;
-        const int64_t k = Utils::decode_long(middle + 5);
+        const int64_t k = Utils::decode_longFixedBytes(middle + 5, 5);
         if (k < keyToSearch) {
             start = middle + 11;
         } else if (k > keyToSearch) {
-- 
2.43.0


From 6bfd9faf8fb32c597ed99c4c7f01e9eca5915d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:00 +0000
Subject: [PATCH 011/103] fix: moveto on a column table restricted to a first
 term ran past the end of the table

---
 include/trident/binarytables/newcolumntable.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/trident/binarytables/newcolumntable.h b/include/trident/binarytables/newcolumntable.h
index c03a536..0e2db8c 100644
--- a/include/trident/binarytables/newcolumntable.h
+++ b/include/trident/binarytables/newcolumntable.h
@@ -421,6 +421,8 @@ class NewColumnTable: public AbsNewTable {
                         startpos2 = currentpos1;
                         startpos1 = startpos2 - bytesFirstBlock;
                         currentpos1 = startpos1;
+                        //The first call to next() must read the first term again
+                        scannedCounts = currentCount;
                         nUniqueFirstTerms = 1;
                         nTerms = currentCount;
                     } else {
-- 
2.43.0


From 4b5f5bc718697ea13a7c7f3b82018513ae0ed380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:03 +0000
Subject: [PATCH 012/103] fix: in-memory iterators lost their position on
 reset, gotoKey and moveto at the end of a table

---
 include/trident/iterators/arrayitr.h   |  1 +
 include/trident/iterators/reorderitr.h |  8 +++++++-
 src/trident/iterators/arrayitr.cpp     |  4 ++++
 src/trident/iterators/reorderitr.cpp   | 11 +++++------
 4 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/include/trident/iterators/arrayitr.h b/include/trident/iterators/arrayitr.h
index 1a0632e..a165e5a 100644
--- a/include/trident/iterators/arrayitr.h
+++ b/include/trident/iterators/arrayitr.h
@@ -40,6 +40,7 @@ private:
     int64_t v1, v2;
 
     int markPos;
+    int64_t markV1, markV2;
     bool hasNextChecked;
     bool n;
     bool ignSecondColumn;
diff --git a/include/trident/iterators/reorderitr.h b/include/trident/iterators/reorderitr.h
index 53de0ba..cd927b8 100644
--- a/include/trident/iterators/reorderitr.h
+++ b/include/trident/iterators/reorderitr.h
@@ -114,6 +114,9 @@ public:
 
     LIBEXP void mark() {
         m_itr = itr;
+        if (m_itr != NULL) {
+            m_itr->mark();
+        }
         m_key = key;
         m_nextKeyIndex = nextKeyIndex;
     }
@@ -124,6 +127,9 @@ public:
             delete itr;
         }
         itr = m_itr;
+        if (itr != NULL) {
+            itr->reset(i);
+        }
         key = m_key;
         nextKeyIndex = m_nextKeyIndex;
     }
@@ -146,7 +152,7 @@ public:
     }
 
     LIBEXP void moveto(const int64_t c1, const int64_t c2) {
-        if (itr == NULL || ! itr->hasNext()) {
+        if (itr == NULL) {
 	    // Should itr == NULL even be allowed here?
 	    // Anyway, moveto should not move to a next key.
 	    return;
diff --git a/src/trident/iterators/arrayitr.cpp b/src/trident/iterators/arrayitr.cpp
index 6e2bf88..db938de 100644
--- a/src/trident/iterators/arrayitr.cpp
+++ b/src/trident/iterators/arrayitr.cpp
@@ -100,10 +100,14 @@ void ArrayItr::clear() {
 
 void ArrayItr::mark() {
     markPos = pos;
+    markV1 = v1;
+    markV2 = v2;
 }
 
 void ArrayItr::reset(const char i) {
     pos = markPos;
+    v1 = markV1;
+    v2 = markV2;
     hasNextChecked = false;
 }
 
diff --git a/src/trident/iterators/reorderitr.cpp b/src/trident/iterators/reorderitr.cpp
index 78977d7..b730c2c 100644
--- a/src/trident/iterators/reorderitr.cpp
+++ b/src/trident/iterators/reorderitr.cpp
@@ -296,13 +296,12 @@ void ReOrderItr::gotoKey(int64_t newkey) {
 	}
 	nextKeyIndex++;
     }
-    if (nextKeyIndex < array.size()) {
-	if (itr != NULL && itr != m_itr) {
-	    itr->clear();
-	    delete itr;
-	}
-	itr = NULL;
+    //The current key is smaller than the requested one
+    if (itr != NULL && itr != m_itr) {
+	itr->clear();
+	delete itr;
     }
+    itr = NULL;
     hasNext();
 }
 
-- 
2.43.0


From 2c63b03ad0730f8399e3793f227dc6ccf1a5dc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:29 +0000
Subject: [PATCH 013/103] fix: moveto stepped back into the middle of a group
 when the second column is ignored

---
 include/trident/binarytables/newrowtable.h | 3 +++
 src/trident/iterators/arrayitr.cpp         | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/include/trident/binarytables/newrowtable.h b/include/trident/binarytables/newrowtable.h
index 9b3e86e..c5b808c 100644
--- a/include/trident/binarytables/newrowtable.h
+++ b/include/trident/binarytables/newrowtable.h
@@ -281,6 +281,9 @@ class NewRowTable: public AbsNewTable {
                         current += Reader1::size() + Reader2::size();
                     }
                 }
+            } else if (isSecondColumnIgnored) {
+                //Step back to the beginning of the group
+                current -= count * (Reader1::size() + Reader2::size());
             } else {
                 current -= Reader1::size() + Reader2::size();
             }
diff --git a/src/trident/iterators/arrayitr.cpp b/src/trident/iterators/arrayitr.cpp
index db938de..8ff9c1f 100644
--- a/src/trident/iterators/arrayitr.cpp
+++ b/src/trident/iterators/arrayitr.cpp
@@ -118,6 +118,12 @@ void ArrayItr::moveto(const int64_t c1, const int64_t c2) {
     if (v1 >= c1 && (ignSecondColumn || v1 > c1 || v2 >= c2)) {
         // Position is backwards.
         pos--; //so that hasNext will move to the same point
+        if (ignSecondColumn) {
+            //Move to the beginning of the group
+            while (pos > 0 && array->at(pos - 1).first == array->at(pos).first) {
+                pos--;
+            }
+        }
         hasNextChecked = true;
         n = true;
         return;
-- 
2.43.0


From 88e783c76344d0dfb080799997f5502a95589518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:13 +0000
Subject: [PATCH 014/103] fix: removing a triple with an unknown term could
 remove another triple

---
 src/trident/kb/updater.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/trident/kb/updater.cpp b/src/trident/kb/updater.cpp
index 4b14e1a..72f2f85 100644
--- a/src/trident/kb/updater.cpp
+++ b/src/trident/kb/updater.cpp
@@ -198,7 +198,6 @@ void Updater::compressUpdate(DiffIndex::TypeUpdate type,
                         nextID++;
                     } else {
                         itr->nums = UINT64_MAX;
-                        continue;
                     }
                 }
                 previd = itr->nums;
@@ -240,7 +239,6 @@ void Updater::compressUpdate(DiffIndex::TypeUpdate type,
                         }
                     } else {
                         itr->nump = UINT64_MAX;
-                        continue;
                     }
                 }
                 previd = itr->nump;
@@ -282,7 +280,6 @@ void Updater::compressUpdate(DiffIndex::TypeUpdate type,
                         }
                     } else {
                         itr->numo = UINT64_MAX;
-                        continue;
                     }
                 }
                 previd = itr->numo;
-- 
2.43.0


From 304c20d9223cd096067ee390d7d6479f40a1ae30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:11 +0000
Subject: [PATCH 015/103] fix: isEmpty on an all-variable pattern ignored
 removals

---
 src/trident/kb/querier.cpp | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/src/trident/kb/querier.cpp b/src/trident/kb/querier.cpp
index 776a1ca..32b5970 100644
--- a/src/trident/kb/querier.cpp
+++ b/src/trident/kb/querier.cpp
@@ -565,17 +565,7 @@ bool Querier::exists(const int64_t s, const int64_t p, const int64_t o) {
 bool Querier::isEmpty(const int64_t s, const int64_t p, const int64_t o) {
     if (s < 0 && p < 0 && o < 0) {
         //They are all variables. Return the input size...
-        if (inputSize != 0) {
-            return false;
-        }
-        if (diffIndices.size() > 0) {
-            for (size_t i = 0; i < diffIndices.size(); ++i) {
-                if (diffIndices[i]->getSize() > 0) {
-                    return false;
-                }
-            }
-        }
-        return true;
+        return getInputSize() == 0;
     }
 
     int idx = getIndex(s, p, o);
-- 
2.43.0


From 82b89655e453d599d9535d30db26a935da856453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:50 +0000
Subject: [PATCH 016/103] fix: moveto on a table with removals moved the
 removals past the target

---
 src/trident/iterators/rmitr.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/trident/iterators/rmitr.cpp b/src/trident/iterators/rmitr.cpp
index 813d234..4a80b9a 100644
--- a/src/trident/iterators/rmitr.cpp
+++ b/src/trident/iterators/rmitr.cpp
@@ -44,13 +44,9 @@ void RmItr::init(PairItr *itr, PairItr *rmitr, int64_t nfirstterms) {
 
 void RmItr::moveto(const int64_t c1, const int64_t c2) {
     assert(v1 != -1);
+    //hasNext() advances rmitr up to the new position
     itr->moveto(c1, c2);
-    rmitr->moveto(c1, c2);
-    if (rmitr->hasNext()) {
-        rmitr->next();
-    } else {
-        rmitrvalid = false;
-    }
+    hnc = false;
 }
 
 bool RmItr::hasNext() {
-- 
2.43.0


From a3dd8e1e0c23f8225cad969d049c9c8f2a3a709f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:05 +0000
Subject: [PATCH 017/103] fix: distinct prefixes, cardinalities and mark/reset
 on updated tables

---
 include/trident/iterators/compositeitr.h     |  13 +-
 include/trident/iterators/compositescanitr.h |  10 +-
 include/trident/iterators/diffscanitr.h      |   8 +-
 include/trident/iterators/rmitr.h            |  53 +++--
 src/trident/iterators/compositescanitr.cpp   |  67 +++----
 src/trident/iterators/diffscanitr.cpp        |  23 ++-
 src/trident/iterators/rmitr.cpp              | 194 +++++++++++--------
 7 files changed, 208 insertions(+), 160 deletions(-)

diff --git a/include/trident/iterators/compositeitr.h b/include/trident/iterators/compositeitr.h
index 3f76fbe..daf81d1 100644
--- a/include/trident/iterators/compositeitr.h
+++ b/include/trident/iterators/compositeitr.h
@@ -49,7 +49,8 @@ class CompositeItr: public PairItr {
 
         int64_t savedv1, savedv2, savedcurrentCount;
         int savedlastIdx;
-        bool savedhn, savedhnc;
+        bool savedhn, savedhnc, savedisSorted, saveddecreasedKey;
+        std::vector<PairItr*> savedchildren;
 
         void rearrangeChildren();
 
@@ -82,6 +83,7 @@ class CompositeItr: public PairItr {
 
         void clear() {
             children.clear();
+            savedchildren.clear();
             //allchildren.clear();
         }
 
@@ -92,7 +94,10 @@ class CompositeItr: public PairItr {
             savedlastIdx = lastIdx;
             savedhn = hn;
             savedhnc = hnc;
-            kbitr->mark();
+            //The children may be swapped before the reset
+            savedchildren = children;
+            savedisSorted = isSorted;
+            saveddecreasedKey = decreasedKey;
             for (int64_t i = children.size() - 1; i >= 0; i--) {
                 children[i]->mark();
             }
@@ -106,7 +111,9 @@ class CompositeItr: public PairItr {
             lastIdx = savedlastIdx;
             hn = savedhn;
             hnc = savedhnc;
-            kbitr->reset(r);
+            children = savedchildren;
+            isSorted = savedisSorted;
+            decreasedKey = saveddecreasedKey;
             for (int64_t i = children.size() - 1; i >= 0; i--) {
                 children[i]->reset(r);
             }
diff --git a/include/trident/iterators/compositescanitr.h b/include/trident/iterators/compositescanitr.h
index eb9e4bb..31889cd 100644
--- a/include/trident/iterators/compositescanitr.h
+++ b/include/trident/iterators/compositescanitr.h
@@ -32,6 +32,7 @@ class Querier;
 class CompositeScanItr : public PairItr {
 private:
     bool hn, hnc;
+    bool started;
     Querier *q;
     int64_t v1, v2;
     bool ignseccol;
@@ -54,14 +55,7 @@ private:
         return false;
     }
 
-    static bool _sorter_ign(PairItr *i1, PairItr *i2) {
-        if (i1->getKey() > i2->getKey()) {
-            return true;
-        } else if (i1->getKey() == i2->getKey()) {
-            return (i1->getValue1() > i2->getValue1());
-        }
-        return false;
-    }
+    void advance();
 
 public:
     int getTypeItr() {
diff --git a/include/trident/iterators/diffscanitr.h b/include/trident/iterators/diffscanitr.h
index 5e64f9e..7f845f5 100644
--- a/include/trident/iterators/diffscanitr.h
+++ b/include/trident/iterators/diffscanitr.h
@@ -35,6 +35,7 @@ class DiffScanItr : public PairItr {
 private:
     int perm;
     int64_t currentkey, v1, v2;
+    TermCoordinates currentvalues;
     bool hn, hnc;
     bool ignseccol;
 
@@ -65,12 +66,7 @@ public:
         throw 10;
     }
 
-    void ignoreSecondColumn() {
-        ignseccol = true;
-        if (currentItr) {
-            currentItr->ignoreSecondColumn();
-        }
-    }
+    void ignoreSecondColumn();
 
     int64_t getCount() {
         if (ignseccol) {
diff --git a/include/trident/iterators/rmitr.h b/include/trident/iterators/rmitr.h
index b130215..0f730e8 100644
--- a/include/trident/iterators/rmitr.h
+++ b/include/trident/iterators/rmitr.h
@@ -37,12 +37,19 @@ private:
     int64_t curCount, nextCount;
     bool hnc, hn;
 
-    bool savedrmitrvalid;
-    int64_t savedv1, savedv2, savedcurCount, savednextCount;
+    //Used if the second column is ignored: whether itr is already at the first
+    //triple after the current group, and the current group
+    bool pending;
+    int64_t groupKey, groupV1, groupV2;
 
+    bool savedrmitrvalid, savedpending, savedhnc, savedhn;
+    int64_t savedkey, savedv1, savedv2, savedcurCount, savednextCount;
+    int64_t savedgroupKey, savedgroupV1, savedgroupV2;
 
     int cmp(PairItr *itr1, PairItr *itr2);
 
+    bool advance();
+
 public:
     int getTypeItr() {
         return RM_ITR;
@@ -61,26 +68,36 @@ public:
 
     void mark() {
         savedrmitrvalid = rmitrvalid;
-	savedv1 = v1;
-	savedv2 = v2;
-	savedcurCount = curCount;
-	savednextCount = nextCount;
-	itr->mark();
-	rmitr->mark();
+        savedpending = pending;
+        savedhnc = hnc;
+        savedhn = hn;
+        savedkey = key;
+        savedv1 = v1;
+        savedv2 = v2;
+        savedcurCount = curCount;
+        savednextCount = nextCount;
+        savedgroupKey = groupKey;
+        savedgroupV1 = groupV1;
+        savedgroupV2 = groupV2;
+        itr->mark();
+        rmitr->mark();
     }
 
     void reset(const char i) {
         rmitrvalid = savedrmitrvalid;
-	hnc = false;
-	if (i == 0) {
-	    v1 = savedv1;
-	} else {
-	    v2 = savedv2;
-	}
-	curCount = savedcurCount;
-	nextCount = savednextCount;
-	itr->reset(i);
-	rmitr->reset(i);
+        pending = savedpending;
+        hnc = savedhnc;
+        hn = savedhn;
+        setKey(savedkey);
+        v1 = savedv1;
+        v2 = savedv2;
+        curCount = savedcurCount;
+        nextCount = savednextCount;
+        groupKey = savedgroupKey;
+        groupV1 = savedgroupV1;
+        groupV2 = savedgroupV2;
+        itr->reset(i);
+        rmitr->reset(i);
     }
 
     PairItr *getMainItr() {
diff --git a/src/trident/iterators/compositescanitr.cpp b/src/trident/iterators/compositescanitr.cpp
index 61557cd..4c7fb94 100644
--- a/src/trident/iterators/compositescanitr.cpp
+++ b/src/trident/iterators/compositescanitr.cpp
@@ -30,10 +30,7 @@ void CompositeScanItr::gotoKey(int64_t keyToSearch) {
 bool CompositeScanItr::hasNext() {
     if (!hnc) {
         if (children.size() > 1) {
-            if (ignseccol)
-                std::sort(children.begin(), children.end(), CompositeScanItr::_sorter_ign);
-            else
-                std::sort(children.begin(), children.end(), CompositeScanItr::_sorter_noign);
+            std::sort(children.begin(), children.end(), CompositeScanItr::_sorter_noign);
             hn = true;
         } else if (children.size() > 0) {
             hn = true;
@@ -47,36 +44,33 @@ bool CompositeScanItr::hasNext() {
 }
 
 void CompositeScanItr::next() {
+    started = true;
     setKey(children.back()->getKey());
     v1 = children.back()->getValue1();
-    if (!ignseccol) {
-        v2 = children.back()->getValue2();
-        if (children.back()->hasNext()) {
-            children.back()->next();
-        } else {
-            children.pop_back();
-        }
-    } else {
-        //Fix count and remove more terms
-        count = 0;
-        for (int i = children.size() - 1; i >= 0; i--) {
-            int64_t thiskey = getKey();
-            int64_t scanKey = children[i]->getKey();
-            int64_t scanValue1 = children[i]->getValue1();
-            if (scanKey == thiskey &&
-                    scanValue1 == v1) {
-                count += children[i]->getCount();
-                if (children[i]->hasNext()) {
-                    children[i]->next();
-                } else {
-                    children.erase(children.begin() + i);
-                }
-            }
+    v2 = children.back()->getValue2();
+    advance();
+    if (ignseccol) {
+        //Read the remaining triples of the group
+        count = 1;
+        hnc = false;
+        while (hasNext() && children.back()->getKey() == getKey() &&
+                children.back()->getValue1() == v1) {
+            advance();
+            count++;
+            hnc = false;
         }
     }
     hnc = false;
 }
 
+void CompositeScanItr::advance() {
+    if (children.back()->hasNext()) {
+        children.back()->next();
+    } else {
+        children.pop_back();
+    }
+}
+
 uint64_t CompositeScanItr::getCardinality() {
     if (ignseccol) {
         return q->getNFirstTablesPerPartition(perm);
@@ -117,16 +111,16 @@ void CompositeScanItr::addChild(PairItr *itr) {
 }
 
 void CompositeScanItr::ignoreSecondColumn() {
+    //A group can be spread over several children, which are already at their
+    //next triple. Therefore next() reads all triples of the group
     ignseccol = true;
-    for (int i = 0; i < children.size(); ++i) {
-        children[i]->ignoreSecondColumn();
-        if (children[i]->getValue1() == v1 &&
-                children[i]->getKey() == getKey()) {
-            if (children[i]->hasNext()) {
-                children[i]->next();
-            } else {
-                children.erase(children.begin() + i);
-            }
+    if (started) {
+        //Jump to the next group
+        hnc = false;
+        while (hasNext() && children.back()->getKey() == getKey() &&
+                children.back()->getValue1() == v1) {
+            advance();
+            hnc = false;
         }
     }
 }
@@ -139,6 +133,7 @@ void CompositeScanItr::init(int perm) {
     initializeConstraints();
     hnc = false;
     hn = false;
+    started = false;
     v1 = v2 = 0;
     ignseccol = false;
     count = 1;
diff --git a/src/trident/iterators/diffscanitr.cpp b/src/trident/iterators/diffscanitr.cpp
index 8eacb76..92efa7b 100644
--- a/src/trident/iterators/diffscanitr.cpp
+++ b/src/trident/iterators/diffscanitr.cpp
@@ -35,9 +35,8 @@ bool DiffScanItr::hasNext() {
     if (currentItr == NULL) {
         //Move to the next key
         if (root->hasNext()) {
-            TermCoordinates values;
-            currentkey = root->next(&values);
-            currentItr = ((DiffIndex3*)diff)->getIterator(perm, currentkey, values);
+            currentkey = root->next(&currentvalues);
+            currentItr = ((DiffIndex3*)diff)->getIterator(perm, currentkey, currentvalues);
             if (!currentItr->hasNext()) {
                 LOG(ERRORL) << "This should not happen";
             }
@@ -90,10 +89,28 @@ void DiffScanItr::init(TreeItr *root, int perm, DiffIndex *diff) {
     this->root = std::unique_ptr<TreeItr>(root);
     this->diff = diff;
     hnc = false;
+    v1 = v2 = -1;
     currentItr = NULL;
     ignseccol = false;
 }
 
+void DiffScanItr::ignoreSecondColumn() {
+    ignseccol = true;
+    if (currentItr) {
+        if (v1 == -1 && hnc) {
+            //The first triple was fetched but not yet returned. Start again
+            q->releaseItr(currentItr);
+            currentItr = ((DiffIndex3*)diff)->getIterator(perm, currentkey, currentvalues);
+            currentItr->ignoreSecondColumn();
+            if (currentItr->hasNext()) {
+                currentItr->next();
+            }
+        } else {
+            currentItr->ignoreSecondColumn();
+        }
+    }
+}
+
 void DiffScanItr::setQuerier(Querier *q) {
     this->q = q;
 }
diff --git a/src/trident/iterators/rmitr.cpp b/src/trident/iterators/rmitr.cpp
index 4a80b9a..9611f2e 100644
--- a/src/trident/iterators/rmitr.cpp
+++ b/src/trident/iterators/rmitr.cpp
@@ -31,7 +31,7 @@ void RmItr::init(PairItr *itr, PairItr *rmitr, int64_t nfirstterms) {
     this->rmitr = rmitr;
     this->delnfirstterms = nfirstterms;
     noseccol = false;
-    hnc = hn = false;
+    hnc = hn = pending = false;
     v1 = v2 = key = -1;
     if (rmitr->hasNext()) {
         rmitr->next();
@@ -44,66 +44,95 @@ void RmItr::init(PairItr *itr, PairItr *rmitr, int64_t nfirstterms) {
 
 void RmItr::moveto(const int64_t c1, const int64_t c2) {
     assert(v1 != -1);
-    //hasNext() advances rmitr up to the new position
-    itr->moveto(c1, c2);
+    if (noseccol) {
+        if (c1 <= v1) {
+            //Return the current group again
+            hn = true;
+            hnc = true;
+            return;
+        }
+        if (!pending || itr->getKey() != getKey() || itr->getValue1() >= c1) {
+            //Nothing to skip
+            return;
+        }
+        pending = false;
+        itr->moveto(c1, 0);
+    } else {
+        //advance() also moves rmitr to the new position
+        itr->moveto(c1, c2);
+    }
     hnc = false;
 }
 
-bool RmItr::hasNext() {
-    if (hnc)
-        return hn;
-
-    bool valid = false;
+bool RmItr::advance() {
     while (itr->hasNext()) {
         //Check if there is a valid element
         itr->next();
-        if (rmitrvalid) {
-            //Check if it's equivalent. If so, we move to the next element
-            int cmpres = cmp(rmitr, itr);
-            while (cmpres < 0) {
-                //Move the rmitr to the right position
-                if (rmitr->hasNext()) {
-                    rmitr->next();
-                    cmpres = cmp(rmitr, itr);
-                } else {
-                    break;
-                }
-            }
-            if (cmpres < 0) {//No more triples to remove
-                nextCount = itr->getCount();
-                rmitrvalid = false;
-                valid = true;
-                break;
-            } else if (cmpres > 0) { //The triple is not marked to be removed
-                nextCount = itr->getCount();
-                valid = true;
-                break;
+        if (!rmitrvalid) {
+            return true;
+        }
+        int cmpres = cmp(rmitr, itr);
+        while (cmpres < 0) {
+            //Move the rmitr to the right position
+            if (rmitr->hasNext()) {
+                rmitr->next();
+                cmpres = cmp(rmitr, itr);
             } else {
-                //We must continue to find the next valid element
-                if (noseccol) {
-                    //Check the count. If greater than 0 then it's fine
-                    nextCount = itr->getCount() - rmitr->getCount();
-                    if (nextCount > 0) {
-                        valid = true;
-                        break;
-                    }
-                }
+                break;
             }
-        } else {
-            nextCount = itr->getCount();
-            valid = true;
-            break;
+        }
+        if (cmpres < 0) {//No more triples to remove
+            rmitrvalid = false;
+            return true;
+        } else if (cmpres > 0) { //The triple is not marked to be removed
+            return true;
+        }
+        //The triple is removed: continue to find the next valid element
+    }
+    return false;
+}
+
+bool RmItr::hasNext() {
+    if (hnc)
+        return hn;
+
+    if (!noseccol) {
+        hn = advance();
+        nextCount = 1;
+    } else {
+        //Whether (and how often) a group still occurs depends on the triples
+        //that remain, so they are all read
+        if (!pending) {
+            pending = advance();
+        }
+        hn = pending;
+        if (hn) {
+            groupKey = itr->getKey();
+            groupV1 = itr->getValue1();
+            groupV2 = itr->getValue2();
+            nextCount = 0;
+            do {
+                nextCount++;
+                pending = advance();
+            } while (pending && itr->getKey() == groupKey && itr->getValue1() == groupV1);
         }
     }
     hnc = true;
-    hn = valid;
     return hn;
 }
 
 void RmItr::next() {
-    setKey(itr->getKey());
-    v1 = itr->getValue1();
-    v2 = itr->getValue2();
+    if (!hnc)
+        hasNext();
+    if (noseccol) {
+        setKey(groupKey);
+        v1 = groupV1;
+        v2 = groupV2;
+    } else {
+        setKey(itr->getKey());
+        v1 = itr->getValue1();
+        v2 = itr->getValue2();
+    }
     curCount = nextCount;
     hnc = false;
 }
@@ -114,7 +143,15 @@ int64_t RmItr::getCount() {
 
 uint64_t RmItr::getCardinality() {
     if (noseccol) {
-        return itr->getCardinality() - delnfirstterms;
+        //Whether a group still occurs can only be determined by reading it
+        uint64_t count = 0;
+        mark();
+        while (hasNext()) {
+            next();
+            count++;
+        }
+        reset(0);
+        return count;
     } else {
         return itr->getCardinality() - rmitr->getCardinality();
     }
@@ -128,56 +165,41 @@ uint64_t RmItr::estCardinality() {
 }
 
 int RmItr::cmp(PairItr *itr1, PairItr *itr2) {
-    if (noseccol) {
-        if (itr1->getKey() < itr2->getKey()) {
+    if (itr1->getKey() < itr2->getKey()) {
+        return -1;
+    } else if (itr1->getKey() == itr2->getKey()) {
+        int64_t diff = itr1->getValue1() - itr2->getValue1();
+        if (diff < 0) {
             return -1;
-        } else if (itr1->getKey() == itr2->getKey()) {
-            int64_t diff = itr1->getValue1() - itr2->getValue1();
-            if (diff < 0)
-                return -1;
-            else if (diff > 0)
-                return 1;
-            else
-                return 0;
-        } else {
+        } else if (diff > 0) {
             return 1;
-        }
-    } else {
-        if (itr1->getKey() < itr2->getKey()) {
-            return -1;
-        } else if (itr1->getKey() == itr2->getKey()) {
-            int64_t diff = itr1->getValue1() - itr2->getValue1();
-            if (diff < 0) {
+        } else {
+            int64_t diff2 = itr1->getValue2() - itr2->getValue2();
+            if (diff2 < 0) {
                 return -1;
-            } else if (diff > 0) {
+            } else if (diff2 > 0) {
                 return 1;
             } else {
-                int64_t diff2 = itr1->getValue2() - itr2->getValue2();
-                if (diff2 < 0) {
-                    return -1;
-                } else if (diff2 > 0) {
-                    return 1;
-                } else {
-                    return 0;
-                }
+                return 0;
             }
-        } else {
-            return 1;
         }
+    } else {
+        return 1;
     }
 }
 
 void RmItr::ignoreSecondColumn() {
-    itr->ignoreSecondColumn();
-    rmitr->ignoreSecondColumn();
     noseccol = true;
-    if (v1 == -1) {
-        nextCount = itr->getCount();
-        if (rmitr->getValue1() == itr->getValue1())
-            nextCount -= rmitr->getCount();
-    } else {
-        curCount = itr->getCount();
-        if (rmitr->getValue1() == itr->getValue1())
-            curCount -= rmitr->getCount();
+    //If the next triple was already fetched, then the first group starts with it
+    pending = hnc && hn;
+    hnc = false;
+    if (v1 != -1) {
+        //Jump to the next group
+        if (!pending) {
+            pending = advance();
+        }
+        while (pending && itr->getKey() == getKey() && itr->getValue1() == v1) {
+            pending = advance();
+        }
     }
 }
-- 
2.43.0


From b95967c5e3ce6235f4c4b886ff5faccce53d271c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:05 +0000
Subject: [PATCH 018/103] fix: the list of keys ignored removals unless it was
 sorted by subject

---
 src/trident/kb/querier.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trident/kb/querier.cpp b/src/trident/kb/querier.cpp
index 32b5970..69bb6e9 100644
--- a/src/trident/kb/querier.cpp
+++ b/src/trident/kb/querier.cpp
@@ -797,7 +797,7 @@ PairItr *Querier::getTermList(const int perm) {
                 }
             } else {
                 DiffTermItr *itr = factory10.get();
-                diffIndices[i]->getTermListItr(IDX_SPO, itr);
+                diffIndices[i]->getTermListItr(perm, itr);
                 RmCompositeTermItr *newitr = factory15.get();
                 newitr->init(finalItr, itr);
                 finalItr = newitr;
-- 
2.43.0


From 4015229616cd25e4346e6d1a5f8f9dcbd3eb426b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:09 +0000
Subject: [PATCH 019/103] fix: the list of keys of an updated KB lost keys of
 updates that add no new key

---
 src/trident/kb/querier.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/trident/kb/querier.cpp b/src/trident/kb/querier.cpp
index 69bb6e9..d4ab5c1 100644
--- a/src/trident/kb/querier.cpp
+++ b/src/trident/kb/querier.cpp
@@ -782,7 +782,8 @@ PairItr *Querier::getTermList(const int perm) {
 
     //Add differential updates
     for (size_t i = 0; i < diffIndices.size(); ++i) {
-        if (diffIndices[i]->getNUniqueKeys(perm) > 0) {
+        //Also updates without new keys: their counts tell which keys were removed
+        if (diffIndices[i]->getSize() > 0) {
             if (diffIndices[i]->getType() == DiffIndex::TypeUpdate::ADDITION_df) {
                 DiffTermItr *itr = factory10.get();
                 diffIndices[i]->getTermListItr(perm, itr);
-- 
2.43.0


From 92712bd43b91908ab1ee036b3d9cdfd1bd025c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:09 +0000
Subject: [PATCH 020/103] fix: merging updates dropped those that contain no
 new subject

---
 src/trident/kb/querier.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trident/kb/querier.cpp b/src/trident/kb/querier.cpp
index d4ab5c1..84ce486 100644
--- a/src/trident/kb/querier.cpp
+++ b/src/trident/kb/querier.cpp
@@ -843,7 +843,7 @@ PairItr *Querier::summaryDiff(const int perm, DiffIndex::TypeUpdate tp) {
 
     //Add differential updates
     for (size_t i = 0; i < diffIndices.size(); ++i) {
-        if (diffIndices[i]->getNUniqueKeys(perm) > 0) {
+        if (diffIndices[i]->getSize() > 0) {
             LOG(DEBUGL) << "diffIndices " << i;
             if (diffIndices[i]->getType() == tp) {
                 DiffScanItr *itr = factory11.get();
-- 
2.43.0


From 628aca7ab877669785b59db3c5880b943486221e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:09 +0000
Subject: [PATCH 021/103] fix: added terms with spaces were lost when the KB
 was reopened

---
 src/trident/kb/dictmgmt.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/trident/kb/dictmgmt.cpp b/src/trident/kb/dictmgmt.cpp
index ad3192b..5b3b45b 100644
--- a/src/trident/kb/dictmgmt.cpp
+++ b/src/trident/kb/dictmgmt.cpp
@@ -63,8 +63,9 @@ DictMgmt::DictMgmt(Dict mainDict, string dirToStoreGUD, bool hash, string e2r,
                 uint64_t id;
                 string term;
                 ifs >> id;
-                ifs >> term;
-                if (term.size() > 0) {
+                ifs.get(); //tab
+                getline(ifs, term); //terms may contain spaces
+                if (ifs && term.size() > 0) {
                     gud_idtext.insert(make_pair(id, term));
                     gud_textid.insert(make_pair(term, id));
                 }
-- 
2.43.0


From 7ab2f5688c5df3abf41c898023d0cac5c6d2dc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:10 +0000
Subject: [PATCH 022/103] fix: merging updates lost the added terms and failed
 when the updates cancel out

---
 src/trident/kb/kb.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/trident/kb/kb.cpp b/src/trident/kb/kb.cpp
index 999d2d6..8e4d115 100644
--- a/src/trident/kb/kb.cpp
+++ b/src/trident/kb/kb.cpp
@@ -799,17 +799,27 @@ void KB::mergeUpdates() {
     }
     if (rmCount >= 1) {
         PairItr *rmItr = q->summaryRmDiff();
-        createSingleUpdate(DiffIndex::TypeUpdate::DELETE_df, rmItr, diffDir + DIR_SEP + (addCount != 0 ? "1" : "0"), diffDir, q1);
+        createSingleUpdate(DiffIndex::TypeUpdate::DELETE_df, rmItr, diffDir + DIR_SEP + (Utils::exists(diffDir + DIR_SEP + "0") ? "1" : "0"), diffDir, q1);
         q->releaseItr(rmItr);
     }
 
     delete q1;
     delete q;
 
-    if (dictUpdates.size() != 0) {
+    if (dictUpdates.size() != 0 && Utils::exists(diffDir + DIR_SEP + "0" + DIR_SEP + "ADD")) {
         createNewDict(diffDir + DIR_SEP + "0");
     }
 
+    //The directory does not exist yet if all updates cancel each other
+    Utils::create_directories(diffDir);
+    //Keep the terms that were added by small updates
+    std::string gud = oldDiffDir + DIR_SEP + "gud";
+    if (Utils::exists(gud)) {
+        std::ifstream src(gud, std::ios::binary);
+        std::ofstream dst(diffDir + DIR_SEP + "gud", std::ios::binary);
+        dst << src.rdbuf();
+    }
+
     std::string old = oldDiffDir + std::string(".old");
 
     if (Utils::exists(old)) {
-- 
2.43.0


From dfabba16b293cb5baac192bca75c600ce7e59d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:10 +0000
Subject: [PATCH 023/103] fix: the number of distinct first columns was wrong
 on an updated KB

---
 include/trident/kb/querier.h |  3 +++
 src/trident/kb/querier.cpp   | 25 +++++++++++++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/include/trident/kb/querier.h b/include/trident/kb/querier.h
index 9931ad1..b85eb6a 100644
--- a/include/trident/kb/querier.h
+++ b/include/trident/kb/querier.h
@@ -404,6 +404,9 @@ class Querier {
                 const int64_t key, const int64_t v1,
                 const int64_t v2, const bool cons);
 
+        uint64_t countDistinctFirst(const int idx, const int64_t s, const int64_t p,
+                const int64_t o);
+
         static int64_t getCard_internal(Querier *q, const int64_t s, const int64_t p, const int64_t o);
 
     public:
diff --git a/src/trident/kb/querier.cpp b/src/trident/kb/querier.cpp
index 84ce486..a2e7a08 100644
--- a/src/trident/kb/querier.cpp
+++ b/src/trident/kb/querier.cpp
@@ -132,6 +132,23 @@ char Querier::getStrategy(const int idx, const int64_t v) {
   return currentValue.getNElements(idx);
   }*/
 
+//With updates, the number of distinct values of the first unbound column is
+//not stored anywhere: enumerate them
+uint64_t Querier::countDistinctFirst(const int idx, const int64_t s, const int64_t p,
+        const int64_t o) {
+    PairItr *itr = getIterator(idx, s, p, o);
+    uint64_t n = 0;
+    if (itr->getTypeItr() != EMPTY_ITR) {
+        itr->ignoreSecondColumn();
+        while (itr->hasNext()) {
+            itr->next();
+            n++;
+        }
+    }
+    releaseItr(itr);
+    return n;
+}
+
 uint64_t Querier::getCardOnIndex(const int idx, const int64_t first, const int64_t second,
         const int64_t third, bool skipLast) {
     //Check if first element is variable
@@ -161,6 +178,10 @@ uint64_t Querier::getCardOnIndex(const int idx, const int64_t first, const int64
         if (third < 0) countUnbound++;
         if (countUnbound >= 2) {
             if (skipLast) {
+                if (!diffIndices.empty()) {
+                    releaseItr(itr);
+                    return countDistinctFirst(idx, first, second, third);
+                }
                 itr->ignoreSecondColumn();
                 uint64_t card = itr->getCardinality();
                 releaseItr(itr);
@@ -255,6 +276,10 @@ int64_t Querier::getCard(const int64_t s, const int64_t p, const int64_t o, uint
                     idx2 = IDX_OPS;
                 }
             }
+            if (!diffIndices.empty()) {
+                releaseItr(itr);
+                return countDistinctFirst(idx2, s, p, o);
+            }
             if (idx != idx2) {
                 releaseItr(itr);
                 itr = getIterator(idx2, s, p, o);
-- 
2.43.0


From 101ebedadf6735efad27f763667df589381863e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:10 +0000
Subject: [PATCH 024/103] fix: key lists derived from another permutation
 reported a count of 1 for every key

---
 include/trident/iterators/reordertermitr.h | 17 +++++++++++------
 src/trident/iterators/reordertermitr.cpp   | 13 +++++++------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/include/trident/iterators/reordertermitr.h b/include/trident/iterators/reordertermitr.h
index b12582b..782645e 100644
--- a/include/trident/iterators/reordertermitr.h
+++ b/include/trident/iterators/reordertermitr.h
@@ -30,29 +30,32 @@
 #include <inttypes.h>
 #include <vector>
 
-#include <google/dense_hash_set>
+#include <google/dense_hash_map>
 
 class ReOrderTermItr: public PairItr {
 private:
 
     Querier *q;
     PairItr *helper;
-    std::vector<uint64_t> keys;
+    std::vector<std::pair<uint64_t, int64_t>> keys; //key, n. of triples
     size_t nextKeyIndex;
     int idx;
     bool initialized;
     size_t m_nextKeyIndex;
     size_t m_key;
+    int64_t count;
+    int64_t m_count;
 
-    void fillValuesO(google::dense_hash_set<uint64_t> &keys);
+    void fillValuesO(google::dense_hash_map<uint64_t, int64_t> &keys);
 
-    void fillValuesP(google::dense_hash_set<uint64_t> &keys);
+    void fillValuesP(google::dense_hash_map<uint64_t, int64_t> &keys);
 
     void fillValues();
 
 public:
     ReOrderTermItr(PairItr *helper, int idx, Querier *q)
-        : q(q), helper(helper), nextKeyIndex(0), idx(idx), initialized(false) {
+        : q(q), helper(helper), nextKeyIndex(0), idx(idx), initialized(false),
+        m_nextKeyIndex(0), m_key(0), count(0), m_count(0) {
     }
 
     LIBEXP int getTypeItr() {
@@ -68,7 +71,7 @@ public:
     }
 
 	LIBEXP int64_t getCount() {
-        return 1;
+        return count;
     }
 
 	LIBEXP uint64_t getCardinality();
@@ -87,11 +90,13 @@ public:
 
 	LIBEXP void mark() {
         m_key = key;
+        m_count = count;
         m_nextKeyIndex = nextKeyIndex;
     }
 
 	LIBEXP void reset(const char i) {
         key = m_key;
+        count = m_count;
         nextKeyIndex = m_nextKeyIndex;
     }
 
diff --git a/src/trident/iterators/reordertermitr.cpp b/src/trident/iterators/reordertermitr.cpp
index fef346c..c36bd05 100644
--- a/src/trident/iterators/reordertermitr.cpp
+++ b/src/trident/iterators/reordertermitr.cpp
@@ -21,25 +21,25 @@
 
 #include <trident/iterators/reordertermitr.h>
 
-void ReOrderTermItr::fillValuesO(google::dense_hash_set<uint64_t> &keys) {
+void ReOrderTermItr::fillValuesO(google::dense_hash_map<uint64_t, int64_t> &keys) {
     while (helper->hasNext()) {
         helper->next();
         uint64_t key = helper->getValue2();
-        keys.insert(key);
+        keys[key]++;
     }
 }
 
-void ReOrderTermItr::fillValuesP(google::dense_hash_set<uint64_t> &keys) {
+void ReOrderTermItr::fillValuesP(google::dense_hash_map<uint64_t, int64_t> &keys) {
     helper->ignoreSecondColumn();
     while (helper->hasNext()) {
         helper->next();
         uint64_t key = helper->getValue1();
-        keys.insert(key);
+        keys[key] += helper->getCount();
     }
 }
 
 void ReOrderTermItr::fillValues() {
-    google::dense_hash_set<uint64_t> keySet;
+    google::dense_hash_map<uint64_t, int64_t> keySet;
     keySet.set_empty_key(0xFFFFFFFFFFFFFFFF);
     switch(idx) {
     case IDX_OSP:
@@ -79,6 +79,7 @@ bool ReOrderTermItr::hasNext() {
 }
 
 void ReOrderTermItr::next() {
-    key = keys[nextKeyIndex];
+    key = keys[nextKeyIndex].first;
+    count = keys[nextKeyIndex].second;
     nextKeyIndex++;
 }
-- 
2.43.0


From ad2afc64862f17f96b8e965f54217d6b0260e6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:28 +0000
Subject: [PATCH 025/103] fix: patterns answered from another permutation threw
 on an updated KB

---
 include/trident/iterators/rmitr.h          |  2 ++
 src/trident/iterators/compositescanitr.cpp |  6 +++++-
 src/trident/iterators/diffscanitr.cpp      |  8 +++++++-
 src/trident/iterators/rmitr.cpp            | 18 ++++++++++++++++++
 4 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/include/trident/iterators/rmitr.h b/include/trident/iterators/rmitr.h
index 0f730e8..915433f 100644
--- a/include/trident/iterators/rmitr.h
+++ b/include/trident/iterators/rmitr.h
@@ -110,6 +110,8 @@ public:
 
     void moveto(const int64_t c1, const int64_t c2);
 
+    void gotoKey(int64_t k);
+
     void init(PairItr *itr, PairItr *rmitr, int64_t nfirstterms);
 
     bool hasNext();
diff --git a/src/trident/iterators/compositescanitr.cpp b/src/trident/iterators/compositescanitr.cpp
index 4c7fb94..900d941 100644
--- a/src/trident/iterators/compositescanitr.cpp
+++ b/src/trident/iterators/compositescanitr.cpp
@@ -24,7 +24,11 @@
 #include <trident/kb/querier.h>
 
 void CompositeScanItr::gotoKey(int64_t keyToSearch) {
-    throw 10; //not yet implemented
+    hnc = false;
+    while (hasNext() && children.back()->getKey() < keyToSearch) {
+        advance();
+        hnc = false;
+    }
 }
 
 bool CompositeScanItr::hasNext() {
diff --git a/src/trident/iterators/diffscanitr.cpp b/src/trident/iterators/diffscanitr.cpp
index 92efa7b..afed2b9 100644
--- a/src/trident/iterators/diffscanitr.cpp
+++ b/src/trident/iterators/diffscanitr.cpp
@@ -24,7 +24,13 @@
 #include <trident/kb/querier.h>
 
 void DiffScanItr::gotoKey(int64_t keyToSearch) {
-    throw 10; //not yet implemented
+    while (hasNext() && currentkey < keyToSearch) {
+        if (currentItr != NULL) {
+            q->releaseItr(currentItr);
+            currentItr = NULL;
+        }
+        hnc = false;
+    }
 }
 
 bool DiffScanItr::hasNext() {
diff --git a/src/trident/iterators/rmitr.cpp b/src/trident/iterators/rmitr.cpp
index 9611f2e..d51f537 100644
--- a/src/trident/iterators/rmitr.cpp
+++ b/src/trident/iterators/rmitr.cpp
@@ -64,6 +64,24 @@ void RmItr::moveto(const int64_t c1, const int64_t c2) {
     hnc = false;
 }
 
+void RmItr::gotoKey(int64_t k) {
+    if (hnc && (!hn || (noseccol ? groupKey : itr->getKey()) >= k)) {
+        //The next element is already known
+        return;
+    }
+    if (noseccol) {
+        if (!pending || itr->getKey() >= k) {
+            //Nothing to skip
+            hnc = false;
+            return;
+        }
+        pending = false;
+    }
+    //advance() also moves rmitr to the new position
+    itr->gotoKey(k);
+    hnc = false;
+}
+
 bool RmItr::advance() {
     while (itr->hasNext()) {
         //Check if there is a valid element
-- 
2.43.0


From c91fb001569b22c55070d14666afbf82484ffdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:50 +0000
Subject: [PATCH 026/103] fix: restricting a row table to a pair read past the
 end of the table

---
 include/trident/binarytables/newrowtable.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/trident/binarytables/newrowtable.h b/include/trident/binarytables/newrowtable.h
index c5b808c..c6740da 100644
--- a/include/trident/binarytables/newrowtable.h
+++ b/include/trident/binarytables/newrowtable.h
@@ -240,8 +240,10 @@ class NewRowTable: public AbsNewTable {
             int64_t v2 = Reader2::read(s + Reader1::size());
             while ((v1 < c1 || (v1 == c1 && v2 < c2)) && s < e) {
                 s += Reader1::size() + Reader2::size();
-                v1 = Reader1::read(s);
-                v2 = Reader2::read(s + Reader1::size());
+                if (s < e) {
+                    v1 = Reader1::read(s);
+                    v2 = Reader2::read(s + Reader1::size());
+                }
             }
             if (v1 == c1 && v2 == c2 && s < e) {
                 setup(s, s + Reader1::size() + Reader2::size());
-- 
2.43.0


From 8893308dac6a80820a04cb3ebe0beb6f0d7bca8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:50 +0000
Subject: [PATCH 027/103] fix: looking up a term in a flat tree read past the
 end of its file

---
 src/trident/tree/flatroot.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/trident/tree/flatroot.cpp b/src/trident/tree/flatroot.cpp
index 2d38d22..dc43c53 100644
--- a/src/trident/tree/flatroot.cpp
+++ b/src/trident/tree/flatroot.cpp
@@ -2,6 +2,8 @@
 #include <trident/tree/flattreeitr.h>
 #include <trident/binarytables/storagestrat.h>
 
+#include <cstring>
+
 FlatRoot::FlatRoot(string path, bool unlabeled, bool undirected) :
     unlabeled(unlabeled), undirected(undirected) {
         file = std::unique_ptr<MemoryMappedFile>(new MemoryMappedFile(path, true));
@@ -21,15 +23,20 @@ void FlatRoot::__set(int permid, char *block, TermCoordinates *value) {
     const int64_t nels = *((int64_t*)(block)) & INT64_C(0XFFFFFFFFFF);
     if (nels > 0) {
         const short file = *((short*)(block + 6));
-        const int64_t pos = *((int64_t*)(block + 8)) & INT64_C(0XFFFFFFFFFF);
+        // Five bytes: reading eight would go past the end of the file on the last block
+        int64_t pos = 0;
+        memcpy(&pos, block + 8, 5);
         const char strat = *(block + 5);
         value->set(permid, file, pos, nels, strat);
     }
 }
 
 bool FlatRoot::get(nTerm key, TermCoordinates *value) {
-    char *start = raw + key * sizeblock;
     value->clear();
+    if (key < 0 || key >= len / sizeblock) {
+        return false; //There is no node with this ID
+    }
+    char *start = raw + key * sizeblock;
     __set(IDX_SOP, start + 5, value);
     if (!unlabeled || !undirected) {
         __set(IDX_OSP, start + 18, value);
-- 
2.43.0


From f8b4690ba55e3011b68d678368298064f546e73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:50 +0000
Subject: [PATCH 028/103] fix: a variable repeated within a triple pattern was
 not compared

---
 rdf3x/src/cts/CodeGen.cpp | 21 ++++++++++++++++++++-
 rdf3x/src/cts/PlanGen.cpp |  6 ++++++
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/rdf3x/src/cts/CodeGen.cpp b/rdf3x/src/cts/CodeGen.cpp
index 33f22f1..dd95f2e 100644
--- a/rdf3x/src/cts/CodeGen.cpp
+++ b/rdf3x/src/cts/CodeGen.cpp
@@ -87,6 +87,24 @@ static Operator* translateValuesScan(Runtime& runtime, const map<unsigned, Regis
     return new ValuesScan(regs, node.values, node.values.size() / node.variables.size());
 }
 //---------------------------------------------------------------------------
+static Operator* addRepeatedVariableSelection(Runtime& runtime, Operator* input, const QueryGraph::Node& node, Register* subject, Register* predicate, Register* object)
+    // Compare the registers of a variable that is repeated in a pattern
+{
+    Selection::Predicate* result = 0;
+    auto compare = [&](Register* left, Register* right) {
+        if (left == right) return;
+        Selection::Predicate* p = new Selection::Equal(new Selection::Variable(left), new Selection::Variable(right));
+        result = result ? new Selection::And(result, p) : p;
+    };
+    if ((!node.constSubject) && (!node.constPredicate) && (node.subject == node.predicate))
+        compare(subject, predicate);
+    if ((!node.constSubject) && (!node.constObject) && (node.subject == node.object))
+        compare(subject, object);
+    if ((!node.constPredicate) && (!node.constObject) && (node.predicate == node.object))
+        compare(predicate, object);
+    return result ? new Selection(input, runtime, result, input->getExpectedOutputCardinality()) : input;
+}
+//---------------------------------------------------------------------------
 static Operator* translateIndexScan(Runtime& runtime, const map<unsigned, Register*>& context, const set<unsigned>& projection, map<unsigned, Register*>& bindings, const map<const QueryGraph::Node*, unsigned>& registers, Plan* plan)
     // Translate an index scan into an operator tree
 {
@@ -103,11 +121,12 @@ static Operator* translateIndexScan(Runtime& runtime, const map<unsigned, Regist
     //if (runtime.hasDifferentialIndex())
     //    return runtime.getDifferentialIndex().createScan(static_cast<Database::DataOrder>(plan->opArg), subject, constSubject, predicate, constPredicate, object, constObject, plan->cardinality);
 
-    return IndexScan::create(runtime.getDatabase(), static_cast<DBLayer::DataOrder>(plan->opArg),
+    Operator* result = IndexScan::create(runtime.getDatabase(), static_cast<DBLayer::DataOrder>(plan->opArg),
             subject, constSubject,
             predicate, constPredicate,
             object, constObject,
             plan->cardinality);
+    return addRepeatedVariableSelection(runtime, result, node, subject, predicate, object);
 }
 //---------------------------------------------------------------------------
 static Operator* translateAggregatedIndexScan(Runtime& runtime, const map<unsigned, Register*>& context, const set<unsigned>& projection, map<unsigned, Register*>& bindings, const map<const QueryGraph::Node*, unsigned>& registers, Plan* plan)
diff --git a/rdf3x/src/cts/PlanGen.cpp b/rdf3x/src/cts/PlanGen.cpp
index 32b685b..bb33064 100644
--- a/rdf3x/src/cts/PlanGen.cpp
+++ b/rdf3x/src/cts/PlanGen.cpp
@@ -545,6 +545,12 @@ PlanGen::Problem* PlanGen::buildScan(const QueryGraph::SubQuery& query, const Qu
     bool unusedPredicate = (!node.constPredicate) && isUnused(*fullQuery, node, node.predicate);
     bool unusedObject = (!node.constObject) && isUnused(*fullQuery, node, node.object);
 
+    // The values of a variable that is repeated in the pattern must be compared
+    if (((!node.constSubject) && (!node.constPredicate) && (node.subject == node.predicate)) ||
+            ((!node.constSubject) && (!node.constObject) && (node.subject == node.object)) ||
+            ((!node.constPredicate) && (!node.constObject) && (node.predicate == node.object)))
+        unusedSubject = unusedPredicate = unusedObject = false;
+
     // Lookup variables
     uint64_t s = node.constSubject ? UINT64_MAX : node.subject, p = node.constPredicate ? UINT64_MAX : node.predicate, o = node.constObject ? UINT64_MAX : node.object;
     uint64_t sc = node.constSubject ? node.subject : UINT64_MAX, pc = node.constPredicate ? node.predicate : UINT64_MAX, oc = node.constObject ? node.object : UINT64_MAX;
-- 
2.43.0


From ea78918f6c9f67c3f0d1c60cc2b51249c7ada041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:50 +0000
Subject: [PATCH 029/103] fix: joins of two patterns with nine join fields
 threw

---
 include/trident/model/table.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/trident/model/table.h b/include/trident/model/table.h
index d685de0..95bde70 100644
--- a/include/trident/model/table.h
+++ b/include/trident/model/table.h
@@ -42,11 +42,12 @@ private:
 
     struct Sorter {
         const uint8_t nfields;
-        uint8_t fields[8];
+        //A pair of patterns ?x ?x ?x has nine join fields
+        uint8_t fields[9];
 
         Sorter(std::vector<uint8_t> &f) : nfields((uint8_t) f.size()) {
-            if (f.size() > 8) {
-                LOG(ERRORL) << "Sorting works on at most 8 fields";
+            if (f.size() > 9) {
+                LOG(ERRORL) << "Sorting works on at most 9 fields";
                 throw 10;
             }
 
-- 
2.43.0


From bcb603ba44e22e00bcccb3bacc1bc08959802652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:50 +0000
Subject: [PATCH 030/103] fix: cartesian product with a pattern whose variables
 are unused threw

---
 src/layers/TridentLayer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/layers/TridentLayer.cpp b/src/layers/TridentLayer.cpp
index 85fa230..1aa8cb1 100644
--- a/src/layers/TridentLayer.cpp
+++ b/src/layers/TridentLayer.cpp
@@ -1138,13 +1138,15 @@ bool TridentScan::first() {
 }
 
 bool TridentScan::first(uint64_t el, bool constrained) {
-    if (a != DBLayer::Aggr_t::AGGR_NO)
+    if (a == DBLayer::Aggr_t::AGGR_SKIP_LAST)
         throw 10; //Not supported
 
     if (constrained)
         itr = q->getPermuted(perm, el, -1, -1, true);
     else
         itr = q->getPermuted(perm, -1, -1, -1, false);
+    if (a == DBLayer::Aggr_t::AGGR_SKIP_2LAST)
+        itr->ignoreSecondColumn();
 
     if (itr->hasNext()) {
         itr->next();
-- 
2.43.0


From 042e1c45e479ffc2189c26eeac09f188210453cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:12 +0000
Subject: [PATCH 031/103] fix: joins of large patterns threw on a KB that was
 loaded without a sample

---
 include/layers/TridentLayer.hpp | 2 +-
 include/trident/kb/querier.h    | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/layers/TridentLayer.hpp b/include/layers/TridentLayer.hpp
index 755e99e..49f3145 100644
--- a/include/layers/TridentLayer.hpp
+++ b/include/layers/TridentLayer.hpp
@@ -168,7 +168,7 @@ class TridentLayer : public DBLayer {
         TridentLayer(KB &kb) : kb(kb), dict(kb.getDictMgmt()), q(kb.query()),
         bifSampl(true), nindices(kb.getNIndices()), supportBuffer(new
                 char[MAX_TERM_SIZE]) {
-	    if (kb.getNIndices() < 6) {
+	    if (kb.getNIndices() < 6 || !q->hasSampler()) {
 		disableBifocalSampling();
 	    }
 	}
diff --git a/include/trident/kb/querier.h b/include/trident/kb/querier.h
index b85eb6a..30a2d1b 100644
--- a/include/trident/kb/querier.h
+++ b/include/trident/kb/querier.h
@@ -607,6 +607,10 @@ class Querier {
             return dict;
         }
 
+        bool hasSampler() const {
+            return sampler != NULL;
+        }
+
         Querier &getSampler() {
             if (sampler == NULL) {
                 LOG(ERRORL) << "No sampler available";
-- 
2.43.0


From 6d7cf97d9036c4c2d1b6fd6d31b8731d69fab509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:54 +0000
Subject: [PATCH 032/103] fix: iterating an empty KB dereferenced a null
 pointer

---
 src/trident/iterators/scanitr.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trident/iterators/scanitr.cpp b/src/trident/iterators/scanitr.cpp
index 537a4e4..81ed88b 100644
--- a/src/trident/iterators/scanitr.cpp
+++ b/src/trident/iterators/scanitr.cpp
@@ -40,7 +40,7 @@ void ScanItr::init(int idx, Querier *q) {
     //hasNextChecked = false;
 
     itr1 = q->getKBTermList(idx, true);
-    if (idx > 2 || itr1 == NULL) {
+    if (idx > 2) {
         itr2 = q->getKBTermList(idx - 3, false);
         if (itr1) {
             if (itr1->hasNext()) {
@@ -121,7 +121,7 @@ bool ScanItr::hasNext() {
             hn = false;
         }
     } else {
-        if (itr1->hasNext()) {
+        if (itr1 && itr1->hasNext()) {
             itr1->next();
             hn = true;
         } else {
-- 
2.43.0


From 5db3c0755cb63718a275fb07a622df54ec10e14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:53 +0000
Subject: [PATCH 033/103] fix: unbound values were written as 32-bit constants
 and taken for terms

---
 rdf3x/src/rts/CartProd.cpp      |  4 +--
 rdf3x/src/rts/HashJoin.cpp      |  4 +--
 rdf3x/src/rts/MergeJoin.cpp     | 64 ++++++++++++++++-----------------
 rdf3x/src/rts/Selection.cpp     |  4 +--
 rdf3x/src/rts/TableFunction.cpp |  2 +-
 rdf3x/src/rts/Union.cpp         |  2 +-
 6 files changed, 40 insertions(+), 40 deletions(-)

diff --git a/rdf3x/src/rts/CartProd.cpp b/rdf3x/src/rts/CartProd.cpp
index 368f58c..79e5cfa 100644
--- a/rdf3x/src/rts/CartProd.cpp
+++ b/rdf3x/src/rts/CartProd.cpp
@@ -153,7 +153,7 @@ uint64_t CartProd::next()
     joinSuccedeed = true;
     //Set the hash values to NULL
     for (uint64_t index = 0, limit = leftTail.size(); index < limit; ++index)
-    leftTail[index]->value = ~0u;
+    leftTail[index]->value = UINT64_MAX;
     return rightCount;
     }
 
@@ -166,7 +166,7 @@ uint64_t CartProd::next()
     currentIdx = 0;
     for (uint64_t index = 0, limit = rightTail.size();
     index < limit; ++index)
-    rightTail[index]->value = ~0u;
+    rightTail[index]->value = UINT64_MAX;
     return next();
     }
     }
diff --git a/rdf3x/src/rts/HashJoin.cpp b/rdf3x/src/rts/HashJoin.cpp
index 8864907..d305f60 100644
--- a/rdf3x/src/rts/HashJoin.cpp
+++ b/rdf3x/src/rts/HashJoin.cpp
@@ -255,7 +255,7 @@ uint64_t HashJoin::next()
             joinSuccedeed = true;
             //Set the hash values to NULL
             for (uint64_t index = 0, limit = leftTail.size(); index < limit; ++index)
-                leftTail[index]->value = ~0u;
+                leftTail[index]->value = UINT64_MAX;
             return rightCount;
         }
 
@@ -273,7 +273,7 @@ uint64_t HashJoin::next()
                 currentIdx = 0;
                 for (uint64_t index = 0, limit = rightTail.size();
                         index < limit; ++index)
-                    rightTail[index]->value = ~0u;
+                    rightTail[index]->value = UINT64_MAX;
                 return next();
             }
         }
diff --git a/rdf3x/src/rts/MergeJoin.cpp b/rdf3x/src/rts/MergeJoin.cpp
index 542467b..add3587 100644
--- a/rdf3x/src/rts/MergeJoin.cpp
+++ b/rdf3x/src/rts/MergeJoin.cpp
@@ -46,9 +46,9 @@ uint64_t MergeJoin::first()
                 return false;
             }
             for (int index = 0, limit = leftTail.size(); index < limit; ++index) {
-                leftTail[index]->value = ~0u;
+                leftTail[index]->value = UINT64_MAX;
             }
-            leftValue->value = ~0u;
+            leftValue->value = UINT64_MAX;
             scanState = loopEmptyLeft;
             observedOutputCardinality += rightCount;
             return rightCount;
@@ -59,9 +59,9 @@ uint64_t MergeJoin::first()
     if ((rightCount=right->first())==0) {
         if (rightOptional) {
             for (int index = 0, limit = rightTail.size(); index < limit; ++index) {
-                rightTail[index]->value = ~0u;
+                rightTail[index]->value = UINT64_MAX;
             }
-            rightValue->value = ~0u;
+            rightValue->value = UINT64_MAX;
             scanState = loopEmptyRight;
             observedOutputCardinality += leftCount;
             return leftCount;
@@ -181,9 +181,9 @@ uint64_t MergeJoin::next()
                         if (scanState>scanHasBothSwapped) {
                             if ((leftCount=left->next())==0) {
                                 if (leftOptional) {
-                                    leftValue->value = ~0u;
+                                    leftValue->value = UINT64_MAX;
                                     for (int index = 0, limit = leftTail.size(); index < limit; ++index) {
-                                        leftTail[index]->value = ~0u;
+                                        leftTail[index]->value = UINT64_MAX;
                                     }
                                 } else {
                                     return false;
@@ -196,9 +196,9 @@ uint64_t MergeJoin::next()
                         if (scanState>scanStepLeft) {
                             if ((rightCount=right->next())==0) {
                                 if (rightOptional) {
-                                    rightValue->value = ~0u;
+                                    rightValue->value = UINT64_MAX;
                                     for (int index = 0, limit = rightTail.size(); index < limit; ++index) {
-                                        rightTail[index]->value = ~0u;
+                                        rightTail[index]->value = UINT64_MAX;
                                     }
                                 } else {
                                     return false;
@@ -212,7 +212,7 @@ uint64_t MergeJoin::next()
                             uint64_t l=leftValue->value,r=rightValue->value;
                             if (l<r) {
                                 if (rightOptional) {
-                                    if (rightValue->value == ~0u) {
+                                    if (rightValue->value == UINT64_MAX) {
                                         // Means that right side is exhausted
                                         scanState = scanStepLeft;
                                         observedOutputCardinality += leftCount;
@@ -220,9 +220,9 @@ uint64_t MergeJoin::next()
                                     }
                                     // Right side is not exhausted. Push value aside.
                                     copyRight();
-                                    rightValue->value = ~0u;
+                                    rightValue->value = UINT64_MAX;
                                     for (int index = 0, limit = rightTail.size(); index < limit; ++index) {
-                                        rightTail[index]->value = ~0u;
+                                        rightTail[index]->value = UINT64_MAX;
                                     }
                                     // But now, what is the next scanState? It should step left, and get right from the shadow.
                                     scanState = scanStepLeftCopyRight;
@@ -234,7 +234,7 @@ uint64_t MergeJoin::next()
                             }
                             if (l>r) {
                                 if (leftOptional) {
-                                    if (leftValue->value == ~0u) {
+                                    if (leftValue->value == UINT64_MAX) {
                                         // Means that left side is exhausted
                                         scanState = scanStepRight;
                                         observedOutputCardinality += rightCount;
@@ -242,9 +242,9 @@ uint64_t MergeJoin::next()
                                     }
                                     // Left side is not exhausted. Push value aside.
                                     copyLeft();
-                                    leftValue->value = ~0u;
+                                    leftValue->value = UINT64_MAX;
                                     for (int index = 0, limit = leftTail.size(); index < limit; ++index) {
-                                        leftTail[index]->value = ~0u;
+                                        leftTail[index]->value = UINT64_MAX;
                                     }
                                     // But now, what is the next scanState? It should step right, and get left from the shadow.
                                     scanState = scanStepRightCopyLeft;
@@ -317,15 +317,15 @@ uint64_t MergeJoin::next()
                                 return count;
                             }
                             if (leftOptional) {
-                                if (l != ~0u) {
+                                if (l != UINT64_MAX) {
                                     if (l > r) {
                                         // We need to compare the next "right" with this left as well.
                                         swapLeft();
                                         scanState = loopEmptyLeftCopyLeft;
                                     }
-                                    leftValue->value = ~0u;
+                                    leftValue->value = UINT64_MAX;
                                     for (int index = 0, limit = leftTail.size(); index < limit; ++index) {
-                                        leftTail[index]->value = ~0u;
+                                        leftTail[index]->value = UINT64_MAX;
                                     }
                                 }
                                 observedOutputCardinality+=rightCount;
@@ -361,15 +361,15 @@ uint64_t MergeJoin::next()
                                 return count;
                             }
                             if (rightOptional) {
-                                if (r != ~0u) {
+                                if (r != UINT64_MAX) {
                                     if (r > l) {
                                         swapRight();
                                         scanState = loopEmptyRightCopyRight;
                                         // We need to compare the next "left" with this right as well.
                                     }
-                                    rightValue->value = ~0u;
+                                    rightValue->value = UINT64_MAX;
                                     for (int index = 0, limit = rightTail.size(); index < limit; ++index) {
-                                        rightTail[index]->value = ~0u;
+                                        rightTail[index]->value = UINT64_MAX;
                                     }
                                 }
                                 observedOutputCardinality += leftCount;
@@ -392,10 +392,10 @@ uint64_t MergeJoin::next()
                         if (scanState==loopEqualLeft) {
                             if ((leftCount=left->next())==0) {
                                 if (leftOptional) {
-                                    if (leftValue->value != ~0u) {
-                                        leftValue->value = ~0u;
+                                    if (leftValue->value != UINT64_MAX) {
+                                        leftValue->value = UINT64_MAX;
                                         for (int index = 0, limit = leftTail.size(); index < limit; ++index) {
-                                            leftTail[index]->value = ~0u;
+                                            leftTail[index]->value = UINT64_MAX;
                                         }
                                     }
                                     scanState = scanStepRight;
@@ -426,10 +426,10 @@ uint64_t MergeJoin::next()
                         if (scanState==loopEqualRight) {
                             if ((rightCount=right->next())==0) {
                                 if (rightOptional) {
-                                    if (rightValue->value != ~0u) {
-                                        rightValue->value = ~0u;
+                                    if (rightValue->value != UINT64_MAX) {
+                                        rightValue->value = UINT64_MAX;
                                         for (int index = 0, limit = rightTail.size(); index < limit; ++index) {
-                                            rightTail[index]->value = ~0u;
+                                            rightTail[index]->value = UINT64_MAX;
                                         }
                                     }
                                     scanState = scanStepLeft;
@@ -470,10 +470,10 @@ uint64_t MergeJoin::next()
                             } else {
                                 if ((leftCount=left->next())==0) {
                                     if (leftOptional) {
-                                        if (leftValue->value != ~0u) {
-                                            leftValue->value = ~0u;
+                                        if (leftValue->value != UINT64_MAX) {
+                                            leftValue->value = UINT64_MAX;
                                             for (int index = 0, limit = leftTail.size(); index < limit; ++index) {
-                                                leftTail[index]->value = ~0u;
+                                                leftTail[index]->value = UINT64_MAX;
                                             }
                                         }
                                         scanState = loopEmptyLeft;
@@ -495,10 +495,10 @@ uint64_t MergeJoin::next()
                                 // No, right hand side empty?
                                 if (scanState==loopSpooledRightEmpty) {
                                     if (rightOptional) {
-                                        if (rightValue->value != ~0u) {
-                                            rightValue->value = ~0u;
+                                        if (rightValue->value != UINT64_MAX) {
+                                            rightValue->value = UINT64_MAX;
                                             for (int index = 0, limit = rightTail.size(); index < limit; ++index) {
-                                                rightTail[index]->value = ~0u;
+                                                rightTail[index]->value = UINT64_MAX;
                                             }
                                         }
                                         scanState = loopEmptyRight;
diff --git a/rdf3x/src/rts/Selection.cpp b/rdf3x/src/rts/Selection.cpp
index e483892..6ba1cdd 100644
--- a/rdf3x/src/rts/Selection.cpp
+++ b/rdf3x/src/rts/Selection.cpp
@@ -640,7 +640,7 @@ string Selection::Neg::print(PlanPrinter& out)
 void Selection::Null::eval(Result& result)
     // Evaluate the predicate
 {
-    result.setId(~0u);
+    result.setId(UINT64_MAX);
 }
 //---------------------------------------------------------------------------
 string Selection::Null::print(PlanPrinter& /*out*/)
@@ -736,7 +736,7 @@ void Selection::FunctionCall::setSelection(Selection* s)
 void Selection::FunctionCall::eval(Result& result)
     // Evaluate the predicate
 {
-    result.setId(~0u); // XXX perform the call
+    result.setId(UINT64_MAX); // XXX perform the call
 }
 //---------------------------------------------------------------------------
 string Selection::FunctionCall::print(PlanPrinter& out)
diff --git a/rdf3x/src/rts/TableFunction.cpp b/rdf3x/src/rts/TableFunction.cpp
index 6076a3f..594274a 100644
--- a/rdf3x/src/rts/TableFunction.cpp
+++ b/rdf3x/src/rts/TableFunction.cpp
@@ -233,7 +233,7 @@ void TableFunction::requestTable()
             }
          }
          if (!ok) {
-            table.push_back(~0u);
+            table.push_back(UINT64_MAX);
          } else {
             table.push_back(id);
          }
diff --git a/rdf3x/src/rts/Union.cpp b/rdf3x/src/rts/Union.cpp
index 1863f3c..a8e8175 100644
--- a/rdf3x/src/rts/Union.cpp
+++ b/rdf3x/src/rts/Union.cpp
@@ -35,7 +35,7 @@ uint64_t Union::firstFromPart()
          continue;
       }
       for (std::vector<Register*>::const_iterator iter=initializations[current].begin(),limit=initializations[current].end();iter!=limit;++iter)
-         (*iter)->value=~0u;
+         (*iter)->value=UINT64_MAX;
       for (std::vector<Register*>::const_iterator iter=mappings[current].begin(),limit=mappings[current].end();iter!=limit;) {
          Register* from=*iter; ++iter;
          Register* to=*iter; ++iter;
-- 
2.43.0


From eb5354afd9833f3ee9255d7f753903a23e5c8871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:06 +0000
Subject: [PATCH 034/103] fix: NOT IN ignored arguments that are not constants
 and confused IRIs with literals

---
 rdf3x/include/rts/operator/Selection.hpp |  7 ++---
 rdf3x/src/cts/CodeGen.cpp                | 11 ++-----
 rdf3x/src/cts/SPARQLParser.cpp           | 13 ++-------
 rdf3x/src/rts/Selection.cpp              | 37 +++++++++---------------
 rdf3x/src/rts/ValuesScan.cpp             |  3 +-
 5 files changed, 24 insertions(+), 47 deletions(-)

diff --git a/rdf3x/include/rts/operator/Selection.hpp b/rdf3x/include/rts/operator/Selection.hpp
index 0d77c72..3a1b48c 100644
--- a/rdf3x/include/rts/operator/Selection.hpp
+++ b/rdf3x/include/rts/operator/Selection.hpp
@@ -567,15 +567,12 @@ class Selection : public Operator {
                 Predicate* probe;
                 /// The set
                 std::vector<Predicate*> args;
-                //If the filter is NOT IN, then I use the strings instead of args.
-                //I know, it's a dirty patch. I hope I'll get time to fix it properly.
-                std::set<std::string> strings;
+                /// IN or NOT IN?
                 const bool in;
             public:
                 /// Constructor
                 BuiltinIn(Predicate* probe, const std::vector<Predicate*>& args,
-                        std::set<std::string> &strings, bool in) : probe(probe), args(args),
-                strings(strings), in(in) {}
+                        bool in) : probe(probe), args(args), in(in) {}
 
                 /// Register the selection
                 void setSelection(Selection* selection);
diff --git a/rdf3x/src/cts/CodeGen.cpp b/rdf3x/src/cts/CodeGen.cpp
index dd95f2e..a0cf154 100644
--- a/rdf3x/src/cts/CodeGen.cpp
+++ b/rdf3x/src/cts/CodeGen.cpp
@@ -581,18 +581,13 @@ static Selection::Predicate* buildSelection(Runtime &runtime, const map<unsigned
                                            return new Selection::BuiltinReplace(buildSelection(runtime,bindings, *filter.arg1, plan, registers), buildSelection(runtime,bindings, *filter.arg2, plan, registers), filter.arg3 ? buildSelection(runtime,bindings, *filter.arg3, plan, registers) : 0, filter.arg4 ? buildSelection(runtime,bindings, *filter.arg4, plan, registers) : 0);
         case QueryGraph::Filter::Builtin_in: {
                                                  vector<Selection::Predicate*> args;
-                                                 set<string> strings;
                                                  collectSelectionArgs(runtime, bindings, args, filter.arg2, plan, registers);
-                                                 return new Selection::BuiltinIn(buildSelection(runtime,bindings, *filter.arg1, plan, registers), args, strings, true);
+                                                 return new Selection::BuiltinIn(buildSelection(runtime,bindings, *filter.arg1, plan, registers), args, true);
                                              }
         case QueryGraph::Filter::Builtin_notin: {
                                                     vector<Selection::Predicate*> args;
-                                                    set<string> strings;
-                                                    for (const QueryGraph::Filter* iter = filter.arg2; iter; iter = iter->arg1) {
-                                                        assert(iter->type == QueryGraph::Filter::ArgumentList);
-                                                        strings.insert(iter->value);
-                                                    }
-                                                    return new Selection::BuiltinIn(buildSelection(runtime,bindings, *filter.arg1, plan, registers), args, strings, false);
+                                                    collectSelectionArgs(runtime, bindings, args, filter.arg2, plan, registers);
+                                                    return new Selection::BuiltinIn(buildSelection(runtime,bindings, *filter.arg1, plan, registers), args, false);
                                                 }
         case QueryGraph::Filter::Builtin_xsddecimal:
                                                 return new Selection::BuiltinXSD(buildSelection(runtime,bindings, *filter.arg1, plan, registers));
diff --git a/rdf3x/src/cts/SPARQLParser.cpp b/rdf3x/src/cts/SPARQLParser.cpp
index 93891a3..4d6c273 100644
--- a/rdf3x/src/cts/SPARQLParser.cpp
+++ b/rdf3x/src/cts/SPARQLParser.cpp
@@ -1062,26 +1062,19 @@ SPARQLParser::Filter* SPARQLParser::parseRelationalExpression(map<string, unsign
                         if (lexer.getNext() != SPARQLLexer::LParen)
                             throw ParserException("'(' expected");
 
-                        PatternGroup group;
                         if (lexer.hasNext(SPARQLLexer::RParen)) {
                             lexer.getNext();
                         } else {
-                            //Element element = parsePatternElement(group, localVars);
-                            //result->value = element.value;
-                            //if (lexer.getNext() != SPARQLLexer::Comma)
-                            //    throw ParserException("',' expected");
                             unique_ptr<Filter> args(new Filter);
                             Filter* tail = args.get();
                             tail->type = Filter::ArgumentList;
-                            Element element = parsePatternElement(group, localVars);
-                            tail->value = element.value;
+                            tail->arg1 = parseExpression(localVars);
                             while (true) {
                                 if (lexer.hasNext(SPARQLLexer::Comma)) {
                                     lexer.getNext();
-                                    tail = tail->arg1 = new Filter;
+                                    tail = tail->arg2 = new Filter;
                                     tail->type = Filter::ArgumentList;
-                                    Element element = parsePatternElement(group, localVars);
-                                    tail->value = element.value;
+                                    tail->arg1 = parseExpression(localVars);
                                 } else {
                                     if (lexer.getNext() != SPARQLLexer::RParen)
                                         throw ParserException("')' expected");
diff --git a/rdf3x/src/rts/Selection.cpp b/rdf3x/src/rts/Selection.cpp
index 6ba1cdd..315f118 100644
--- a/rdf3x/src/rts/Selection.cpp
+++ b/rdf3x/src/rts/Selection.cpp
@@ -1111,38 +1111,29 @@ void Selection::BuiltinIn::eval(Result& result)
     Result p, c;
     probe->eval(p);
 
-    if (in) {
-        for (vector<Predicate*>::iterator iter = args.begin(), limit = args.end(); iter != limit; ++iter) {
-            (*iter)->eval(c);
-            if (p.hasId() && c.hasId()) {
-                if (p.id == c.id) {
-                    result.setBoolean(true);
-                    return;
-                }
-            } else {
-                p.ensureString(selection);
-                c.ensureString(selection);
-                if (p.value == c.value) {
-                    result.setBoolean(true);
-                    return;
-                }
+    for (vector<Predicate*>::iterator iter = args.begin(), limit = args.end(); iter != limit; ++iter) {
+        (*iter)->eval(c);
+        if (p.hasId() && c.hasId()) {
+            if (p.id == c.id) {
+                result.setBoolean(in);
+                return;
             }
-        }
-        result.setBoolean(false);
-    } else {
-        p.ensureString(selection);
-        if (strings.find(p.value) == strings.end()) {
-            result.setBoolean(true);
         } else {
-            result.setBoolean(false);
+            p.ensureString(selection);
+            c.ensureString(selection);
+            if (p.value == c.value) {
+                result.setBoolean(in);
+                return;
+            }
         }
     }
+    result.setBoolean(!in);
 }
 //---------------------------------------------------------------------------
 string Selection::BuiltinIn::print(PlanPrinter& out)
     // Print the predicate (debugging only)
 {
-    string result = "in(" + probe->print(out);
+    string result = string(in ? "in(" : "notin(") + probe->print(out);
     for (vector<Predicate*>::iterator iter = args.begin(), limit = args.end(); iter != limit; ++iter) {
         result += ",";
         result += (*iter)->print(out);
diff --git a/rdf3x/src/rts/ValuesScan.cpp b/rdf3x/src/rts/ValuesScan.cpp
index 4aef4b8..5abf58f 100644
--- a/rdf3x/src/rts/ValuesScan.cpp
+++ b/rdf3x/src/rts/ValuesScan.cpp
@@ -6,7 +6,7 @@ ValuesScan::ValuesScan(std::vector<Register*> regs,
         double expectedOutputCardinality) : Operator(expectedOutputCardinality),
     regs(regs), values(values) {
         if (regs.size() > 0)
-            toBeProcessed = values.size() / regs.size();
+            toBeProcessed = values.size() / regs.size() * regs.size();
         else
             toBeProcessed = 0;
         processed = 0;
@@ -18,6 +18,7 @@ ValuesScan::~ValuesScan() {
 
 /// Produce the first tuple
 uint64_t ValuesScan::first() {
+    processed = 0;
     if (processed < toBeProcessed) {
         for (auto v : regs) {
             v->value = values[processed++];
-- 
2.43.0


From 7c1c46e2c24ea661969974769d9d99e9fd479de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:22 +0000
Subject: [PATCH 035/103] fix: VALUES lost rows when it has several variables
 or is evaluated again, and was not accepted after a pattern

---
 rdf3x/src/cts/SPARQLParser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rdf3x/src/cts/SPARQLParser.cpp b/rdf3x/src/cts/SPARQLParser.cpp
index 4d6c273..201da48 100644
--- a/rdf3x/src/cts/SPARQLParser.cpp
+++ b/rdf3x/src/cts/SPARQLParser.cpp
@@ -1486,6 +1486,9 @@ void SPARQLParser::parseGroupGraphPattern(PatternGroup & group)
             } else if (token == SPARQLLexer::Identifier
                     && lexer.isKeyword("minus")) {
                 parseMinus(group);
+            } else if (token == SPARQLLexer::Identifier
+                    && lexer.isKeyword("values")) {
+                parseValues(group);
             } else {
                 lexer.unget(token);
                 parseGraphPattern(group);
-- 
2.43.0


From 7e2cc5ccf03b0c66c4b070653a15b1dd15ff8f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:40 +0000
Subject: [PATCH 036/103] fix: numbers and unbound values were misprinted,
 LIMIT and OFFSET miscounted rows, filters did not see VALUES variables

---
 rdf3x/src/cts/SemanticAnalysis.cpp |  4 ++
 rdf3x/src/rts/ResultsPrinter.cpp   | 76 +++++++++++++++---------------
 2 files changed, 43 insertions(+), 37 deletions(-)

diff --git a/rdf3x/src/cts/SemanticAnalysis.cpp b/rdf3x/src/cts/SemanticAnalysis.cpp
index d9df672..1485e7c 100644
--- a/rdf3x/src/cts/SemanticAnalysis.cpp
+++ b/rdf3x/src/cts/SemanticAnalysis.cpp
@@ -164,6 +164,10 @@ static bool binds(const SPARQLParser::PatternGroup& group, uint64_t id)
         if (iter->outputVar.id == id)
             return true;
     }
+    for (auto &values : group.values)
+        for (auto v : values.variables)
+            if (v == id)
+                return true;
     return false;
 }
 //---------------------------------------------------------------------------
diff --git a/rdf3x/src/rts/ResultsPrinter.cpp b/rdf3x/src/rts/ResultsPrinter.cpp
index 8023223..c7d8bdb 100644
--- a/rdf3x/src/rts/ResultsPrinter.cpp
+++ b/rdf3x/src/rts/ResultsPrinter.cpp
@@ -159,6 +159,25 @@ namespace {
     }
 };
 //---------------------------------------------------------------------------
+static void formatJSONValue(uint64_t id, map<uint64_t, CacheEntry> &stringCache, JSON &binding) {
+    if (!~id) {
+        binding.put("type", "literal");
+        binding.put("value", "NULL");
+    } else if (DictMgmt::isnumeric(id)) {
+        binding.put("type", "literal");
+        binding.put("value", DictMgmt::tostr(id));
+    } else {
+        std::string el = stringCache[id].tostring(/*stringCache,*/ false);
+        if (el[0] == '<' && el.size() > 2) {
+            binding.put("type", "uri");
+            binding.put("value", el.substr(1, el.size() - 2));
+        } else {
+            binding.put("type", "literal");
+            binding.put("value", el);
+        }
+    }
+}
+//---------------------------------------------------------------------------
 void formatJSONRow(const std::vector<std::string> &columns,
         map<uint64_t, CacheEntry> &stringCache,
         vector<uint64_t>::const_iterator start,
@@ -166,41 +185,11 @@ void formatJSONRow(const std::vector<std::string> &columns,
         JSON *output) {
     if (start == stop) return;
     JSON row;
-    if (start != stop) {
-        int idx = 0;
-        JSON fbinding;
-        if (!~(*start)) {
-            fbinding.put("type", "literal");
-            fbinding.put("value", "NULL");
-        } else {
-            std::string el = stringCache[*start].tostring(/*stringCache,*/ false);
-            if (el[0] == '<' && el.size() > 2) {
-                fbinding.put("type", "uri");
-                fbinding.put("value", el.substr(1, el.size() - 2));
-            } else {
-                fbinding.put("type", "literal");
-                fbinding.put("value", el);
-            }
-        }
-        row.add_child(columns[idx++], fbinding);
-
-        for (++start; start != stop; ++start) {
-            JSON binding;
-            if (!~(*start)) {
-                binding.put("type", "literal");
-                binding.put("value", "NULL");
-            } else {
-                std::string el = stringCache[*start].tostring(/*stringCache,*/ false);
-                if (el[0] == '<' && el.size() > 2) {
-                    binding.put("type", "uri");
-                    binding.put("value", el.substr(1, el.size() - 2));
-                } else {
-                    binding.put("type", "literal");
-                    binding.put("value", el);
-                }
-            }
-            row.add_child(columns[idx++], binding);
-        }
+    int idx = 0;
+    for (; start != stop; ++start) {
+        JSON binding;
+        formatJSONValue(*start, stringCache, binding);
+        row.add_child(columns[idx++], binding);
     }
     output->push_back(row);
 }
@@ -307,7 +296,9 @@ uint64_t ResultsPrinter::first()
             for (vector<Register*>::const_iterator iter = output.begin(),
                     limit = output.end(); iter != limit; ++iter) {
                 uint64_t id = (*iter)->value;
-                if (DictMgmt::isnumeric(id)) {
+                if (!~id) {
+                    ss << "NULL";
+                } else if (DictMgmt::isnumeric(id)) {
                     ss << DictMgmt::tostr(id);
                 } else {
                     CacheEntry c;
@@ -352,6 +343,11 @@ uint64_t ResultsPrinter::first()
     do {
         if (count < minCount) continue;
 	if (o > 0)  {
+	    if (duplicateHandling != ExpandDuplicates) {
+		// One row, whatever its count
+		o--;
+		continue;
+	    }
 	    if (o >= count) {
 		o -= count;
 		continue;
@@ -359,13 +355,19 @@ uint64_t ResultsPrinter::first()
 	    count -= o;
 	    o = 0;
 	}
+	uint64_t nresults = 1;
+	if (duplicateHandling == ExpandDuplicates) {
+	    if (count > this->limit - entryCount)
+		count = this->limit - entryCount;
+	    nresults = count;
+	}
         results.push_back(count);
         for (vector<Register*>::const_iterator iter = output.begin(), limit = output.end(); iter != limit; ++iter) {
             uint64_t id = (*iter)->value;
             results.push_back(id);
             if (~id && !DictMgmt::isnumeric(id)) stringCache[id];
         }
-        if ((++entryCount) >= this->limit) break;
+        if ((entryCount += nresults) >= this->limit) break;
     } while ((count = input->next()) != 0);
 
     //Data structures to maintain a permanent copy of the strings
-- 
2.43.0


From d0c0a56dbb036ad38bbf5d1ce4275742b9a50f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:36 +0000
Subject: [PATCH 037/103] fix: MINUS without shared variables or on variables
 used once crashed, NOT EXISTS compared at most one variable

---
 rdf3x/include/rts/operator/Selection.hpp |  8 +++--
 rdf3x/src/cts/CodeGen.cpp                |  8 ++++-
 rdf3x/src/cts/PlanGen.cpp                | 17 ++++++++--
 rdf3x/src/cts/QueryGraph.cpp             |  4 +++
 rdf3x/src/rts/Minus.cpp                  |  5 +--
 rdf3x/src/rts/Selection.cpp              | 40 +++++++++++++++++-------
 6 files changed, 62 insertions(+), 20 deletions(-)

diff --git a/rdf3x/include/rts/operator/Selection.hpp b/rdf3x/include/rts/operator/Selection.hpp
index 3a1b48c..4e80eb6 100644
--- a/rdf3x/include/rts/operator/Selection.hpp
+++ b/rdf3x/include/rts/operator/Selection.hpp
@@ -16,6 +16,7 @@
 #include <vector>
 #include <string>
 #include <unordered_set>
+#include <set>
 #include <map>
 //---------------------------------------------------------------------------
 class Register;
@@ -585,9 +586,10 @@ class Selection : public Operator {
         /// Builtin not exists
         class BuiltinNotExists : public Predicate {
             private:
-                /// The probe
-                std::unique_ptr<Predicate> probe;
-                std::unordered_set<uint64_t> set;
+                /// The values of the shared variables in the inner pattern
+                std::set<std::vector<uint64_t>> rows;
+                /// Does any of them contain an unbound variable?
+                bool unbound = false;
                 std::unique_ptr<Operator> tree;
                 std::vector<Register *> regsToLoad;
                 std::vector<Register *> regsToCheck;
diff --git a/rdf3x/src/cts/CodeGen.cpp b/rdf3x/src/cts/CodeGen.cpp
index a0cf154..bd26af2 100644
--- a/rdf3x/src/cts/CodeGen.cpp
+++ b/rdf3x/src/cts/CodeGen.cpp
@@ -218,7 +218,6 @@ static void collectVariables(const map<unsigned, Register*>& context, set<unsign
                                   break;
         case Plan::Minus:
                                   collectVariables(context, variables, plan->left);
-                                  collectVariables(context, variables, plan->right);
                                   break;
         case Plan::ValuesScan:
                                   for (auto v : ((QueryGraph::ValuesNode*) plan->left)->variables) {
@@ -742,6 +741,8 @@ static Operator* translateFilter(Runtime& runtime, const map<unsigned, Register*
     // Collect all variables
     set<unsigned> filterVariables;
     collectVariables(filterVariables, filter);
+    if (filterArgs.plan)
+        CodeGen::collectVariables(filterVariables, filterArgs.plan);
 
     // Build the input trees
     set<unsigned> newProjection = projection;
@@ -877,6 +878,11 @@ static Operator* translateMinus(Runtime& runtime,const map<unsigned, Register*>&
 
     Operator *result = new Minus(mainTree, minusTree, regsToCheck,
             plan->left->cardinality);
+
+    // Cleanup the binding
+    for (auto v : varsToCheck)
+        if (!projection.count(v))
+            bindings.erase(v);
     return result;
 
 }
diff --git a/rdf3x/src/cts/PlanGen.cpp b/rdf3x/src/cts/PlanGen.cpp
index bb33064..5b2d201 100644
--- a/rdf3x/src/cts/PlanGen.cpp
+++ b/rdf3x/src/cts/PlanGen.cpp
@@ -402,7 +402,9 @@ void PlanGen::buildFullyAggregatedIndexScan(const QueryGraph::SubQuery& query, D
     addPlan(result, plan);
 }
 //---------------------------------------------------------------------------
-static bool isUnused(const QueryGraph::Filter* filter, unsigned val)
+static bool isUnused(const QueryGraph::SubQuery& query, const QueryGraph::Node& node, uint64_t val);
+//---------------------------------------------------------------------------
+static bool isUnused(const QueryGraph::Filter* filter, const QueryGraph::Node& node, unsigned val)
     // Check if a variable is unused
 {
     if (!filter)
@@ -410,7 +412,9 @@ static bool isUnused(const QueryGraph::Filter* filter, unsigned val)
     if (filter->type == QueryGraph::Filter::Variable)
         if (filter->id == val)
             return false;
-    return isUnused(filter->arg1, val) && isUnused(filter->arg2, val) && isUnused(filter->arg3, val);
+    if (filter->subpattern && !isUnused(*filter->subpattern, node, val))
+        return false;
+    return isUnused(filter->arg1, node, val) && isUnused(filter->arg2, node, val) && isUnused(filter->arg3, node, val) && isUnused(filter->arg4, node, val);
 }
 //---------------------------------------------------------------------------
 static bool isUnused(const QueryGraph::TableFunction* function, uint64_t val) {
@@ -428,7 +432,7 @@ static bool isUnused(const QueryGraph::SubQuery& query, const QueryGraph::Node&
     // Check if a variable is unused outside its primary pattern
 {
     for (vector<QueryGraph::Filter>::const_iterator iter = query.filters.begin(), limit = query.filters.end(); iter != limit; ++iter)
-        if (!isUnused(&(*iter), val))
+        if (!isUnused(&(*iter), node, val))
             return false;
 
     for (vector<QueryGraph::TableFunction>::const_iterator iter = query.tableFunctions.begin(),
@@ -460,6 +464,9 @@ static bool isUnused(const QueryGraph::SubQuery& query, const QueryGraph::Node&
     for (std::vector<std::shared_ptr<QueryGraph>>::const_iterator itr = query.subqueries.begin(); itr != query.subqueries.end(); ++itr)
         if (! isUnused((*itr)->getQuery(), node, val))
             return false;
+    for (const auto &itr : query.minuses)
+        if (!isUnused(itr->getQuery(), node, val))
+            return false;
     return true;
 }
 //---------------------------------------------------------------------------
@@ -1279,6 +1286,10 @@ Plan* PlanGen::translate_int(const QueryGraph::SubQuery& query,
         p->left = plan;
         p->right = subqueryPlan;
         p->cardinality = plan->cardinality;
+        p->opArg = 0;
+        p->next = 0;
+        p->costs = plan->costs;
+        p->ordering = ~0u;
         plan = p;
     }
 
diff --git a/rdf3x/src/cts/QueryGraph.cpp b/rdf3x/src/cts/QueryGraph.cpp
index c560a13..4c453a4 100644
--- a/rdf3x/src/cts/QueryGraph.cpp
+++ b/rdf3x/src/cts/QueryGraph.cpp
@@ -146,6 +146,10 @@ bool QueryGraph::Filter::isApplicable(const std::set<unsigned>& variables) const
     if (arg1 && (!arg1->isApplicable(variables))) return false;
     if (arg2 && (!arg2->isApplicable(variables))) return false;
     if (arg3 && (!arg3->isApplicable(variables))) return false;
+    if (subpattern) {
+        //The pattern depends on all the variables of its group
+        return false;
+    }
     if (subquery) {
         //Check whether the subquery mentions all variables
         for(auto idx = subquery->projectionBegin();
diff --git a/rdf3x/src/rts/Minus.cpp b/rdf3x/src/rts/Minus.cpp
index a9926eb..2bb050a 100644
--- a/rdf3x/src/rts/Minus.cpp
+++ b/rdf3x/src/rts/Minus.cpp
@@ -25,7 +25,8 @@ uint64_t Minus::first() {
     observedOutputCardinality=0;
     uint64_t res = mainTree->first();
     bool found = false;
-    if (res) {
+    // If no variable is shared, nothing is removed
+    if (res && !regsToCheck.empty()) {
         if (!loaded) {
             //Load the hashmap
             if (minusTree->first()) {
@@ -70,7 +71,7 @@ uint64_t Minus::first() {
 uint64_t Minus::next() {
     uint64_t res = mainTree->next();
     bool found = false;
-    if (res) {
+    if (res && !regsToCheck.empty()) {
         do {
             unsigned i = 0;
             for(auto itr : regsToCheck) {
diff --git a/rdf3x/src/rts/Selection.cpp b/rdf3x/src/rts/Selection.cpp
index 315f118..28ca494 100644
--- a/rdf3x/src/rts/Selection.cpp
+++ b/rdf3x/src/rts/Selection.cpp
@@ -1149,9 +1149,6 @@ Selection::BuiltinNotExists::BuiltinNotExists(Operator *tree,
     regsToLoad(regsToLoad), regsToCheck(regsToCheck), runtime(runtime), loaded(false)
 {
     this->tree = std::unique_ptr<Operator>(tree);
-    probe = std::unique_ptr<Predicate>(new Selection::Variable(regsToCheck[0]));
-    if (regsToLoad.size() != 1)
-        throw;
 }
 //---------------------------------------------------------------------------
 void Selection::BuiltinNotExists::eval(Result& result)
@@ -1160,20 +1157,38 @@ void Selection::BuiltinNotExists::eval(Result& result)
     if (!loaded) {
         if (tree->first()) {
             do {
-                set.insert(regsToLoad[0]->value);
+                std::vector<uint64_t> row;
+                for (auto r : regsToLoad) {
+                    row.push_back(r->value);
+                    if (!~r->value)
+                        unbound = true;
+                }
+                rows.insert(row);
             } while (tree->next());
         }
         loaded = true;
     }
 
-    Result p, c;
-    probe->eval(p); // The variable to be checked
-
-    if (!set.count(p.id)) {
-        result.setBoolean(true);
+    std::vector<uint64_t> row; // The values of the shared variables
+    bool u = unbound;
+    for (auto r : regsToCheck) {
+        row.push_back(r->value);
+        if (!~r->value)
+            u = true;
+    }
+    bool found = false;
+    if (!u) {
+        found = rows.count(row) > 0;
     } else {
-        result.setBoolean(false);
+        // An unbound variable is compatible with every value
+        for (auto itr = rows.begin(); itr != rows.end() && !found; ++itr) {
+            found = true;
+            for (size_t i = 0; i < row.size() && found; ++i)
+                if (~row[i] && ~(*itr)[i] && row[i] != (*itr)[i])
+                    found = false;
+        }
     }
+    result.setBoolean(!found);
 }
 //---------------------------------------------------------------------------
 string Selection::BuiltinNotExists::print(PlanPrinter& out)
@@ -1182,7 +1197,10 @@ string Selection::BuiltinNotExists::print(PlanPrinter& out)
     std::ostringstream oss;
     DebugPlanPrinter pp(oss, runtime, true);
     tree->print(pp);
-    return "not_exists(" + probe->print(out) + " in " + oss.str() + ")";
+    string result = "not_exists(";
+    for (auto r : regsToCheck)
+        result += out.formatRegister(r) + " ";
+    return result + "in " + oss.str() + ")";
 }
 //---------------------------------------------------------------------------
 void Selection::AggrFunction::eval(Result& result)
-- 
2.43.0


From e8ab1681282b6c9a2952757746178b9e970432f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:51 +0000
Subject: [PATCH 038/103] fix: a union of sorted branches repeated its last row

---
 rdf3x/src/rts/MergeUnion.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rdf3x/src/rts/MergeUnion.cpp b/rdf3x/src/rts/MergeUnion.cpp
index 89a3e47..41aa6bf 100644
--- a/rdf3x/src/rts/MergeUnion.cpp
+++ b/rdf3x/src/rts/MergeUnion.cpp
@@ -79,6 +79,11 @@ uint64_t MergeUnion::next()
       case done: return false;
       case stepLeft: case stepBoth:
          if ((leftCount=left->next())==0) {
+            if (state==stepBoth) {
+               // The right tuple has been returned already
+               state=leftEmpty;
+               return next();
+            }
             result->value=rightValue;
             state=leftEmpty;
             observedOutputCardinality+=rightCount;
-- 
2.43.0


From c85d366f977cd871b7400b4eece5003dd5386a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:52 +0000
Subject: [PATCH 039/103] fix: patterns inside MINUS and NOT EXISTS were not
 joined, MINUS compared unbound variables as values

---
 rdf3x/include/rts/operator/Minus.hpp |  71 ++--------------
 rdf3x/src/cts/QueryGraph.cpp         |  14 ++++
 rdf3x/src/rts/Minus.cpp              | 116 ++++++++++++---------------
 3 files changed, 71 insertions(+), 130 deletions(-)

diff --git a/rdf3x/include/rts/operator/Minus.hpp b/rdf3x/include/rts/operator/Minus.hpp
index f419ed8..d500df8 100644
--- a/rdf3x/include/rts/operator/Minus.hpp
+++ b/rdf3x/include/rts/operator/Minus.hpp
@@ -13,75 +13,18 @@
 class Minus : public Operator
 {
     private:
-        struct HashVectors {
-            std::vector<uint64_t> &v1;
-            std::vector<uint64_t> &v2;
-            const size_t size;
-            HashVectors(std::vector<uint64_t> &v1,
-                    std::vector<uint64_t> &v2, size_t size) : v1(v1),
-            v2(v2), size(size) {
-            }
-            std::size_t operator()(size_t const& idx) const {
-                size_t hash = size;
-                if (idx == -1) {
-                    for(size_t i = 0; i < size; ++i) {
-                        hash ^= v1[i] + 0x9e3779b9 + (hash << 6) + (hash >> 2);
-                    }
-                } else {
-                    const size_t start = idx * size;
-                    for(size_t i = 0; i < size; ++i) {
-                        hash ^= v2[start + i] + 0x9e3779b9 + (hash << 6) + (hash >> 2);
-                    }
-                }
-                return hash;
-            }
-        };
-
-        struct EqualVectors {
-            std::vector<uint64_t> &v1;
-            std::vector<uint64_t> &v2;
-            const size_t size;
-
-            EqualVectors(std::vector<uint64_t> &v1,
-                    std::vector<uint64_t> &v2, size_t size) : v1(v1),
-            v2(v2), size(size) {
-            }
-
-            const bool operator()(const size_t &lhs, const size_t &rhs) const {
-                if (lhs != rhs) {
-                    if (lhs == -1) {
-                        const size_t start = rhs * size;
-                        for(size_t i = 0; i < size; ++i) {
-                            if (v1[i] != v2[start + i]) {
-                                return false;
-                            }
-                        }
-                        return true;
-                    } else if (rhs == -1) {
-                        const size_t start = lhs * size;
-                        for(size_t i = 0; i < size; ++i) {
-                            if (v1[i] != v2[start + i]) {
-                                return false;
-                            }
-                        }
-                        return true;
-                    }
-                }
-                return lhs == rhs;
-            }
-        };
-
         Operator *mainTree;
         Operator *minusTree;
         std::vector<std::pair<Register*, Register*>> regsToCheck;
 
-        //Hashmap
+        // The values of the shared variables on the right side
         bool loaded;
-        std::vector<uint64_t> row;
-        std::vector<uint64_t> valuesHashMap;
-        HashVectors hashF;
-        EqualVectors equalF;
-        std::unordered_set<size_t, HashVectors, EqualVectors> valuesToCheck;
+        std::set<std::vector<uint64_t>> valuesToCheck;
+        // Does any of them contain an unbound variable?
+        bool unbound;
+
+        // Should the current row of the main tree be removed?
+        bool isRemoved() const;
 
     public:
         /// Constructor
diff --git a/rdf3x/src/cts/QueryGraph.cpp b/rdf3x/src/cts/QueryGraph.cpp
index 4c453a4..d4c4f60 100644
--- a/rdf3x/src/cts/QueryGraph.cpp
+++ b/rdf3x/src/cts/QueryGraph.cpp
@@ -322,6 +322,20 @@ static void constructEdges(QueryGraph::SubQuery& subQuery, set<unsigned>& bindin
             if (intersects(subqueryBindings[index], valueBindings[index2], common))
                 subQuery.edges.push_back(QueryGraph::Edge(subqueryOfs + index, valueOfs + index2, common));
     }
+    for (unsigned index = 0, limit = valueBindings.size(); index < limit; index++) {
+        for (unsigned index2 = index + 1; index2 < limit; index2++)
+            if (intersects(valueBindings[index], valueBindings[index2], common))
+                subQuery.edges.push_back(QueryGraph::Edge(valueOfs + index, valueOfs + index2, common));
+    }
+
+    // Construct the edges of the patterns that do not bind variables of the group
+    for (auto &minus : subQuery.minuses)
+        minus->constructEdges();
+    for (auto &filter : subQuery.filters)
+        if (filter.subpattern) {
+            set<unsigned> filterBindings;
+            constructEdges(*filter.subpattern, filterBindings);
+        }
 }
 //---------------------------------------------------------------------------
 void QueryGraph::constructEdges()
diff --git a/rdf3x/src/rts/Minus.cpp b/rdf3x/src/rts/Minus.cpp
index 2bb050a..668888f 100644
--- a/rdf3x/src/rts/Minus.cpp
+++ b/rdf3x/src/rts/Minus.cpp
@@ -9,13 +9,36 @@ Minus::Minus(Operator* mainTree,
         std::vector<std::pair<Register*, Register*>> regsToCheck,
         double expectedOutputCardinality) : Operator(expectedOutputCardinality),
     mainTree(mainTree), minusTree(minusTree),
-    regsToCheck(regsToCheck), loaded(false),
-    row(regsToCheck.size()),
-    hashF(row, valuesHashMap, regsToCheck.size()),
-    equalF(row, valuesHashMap, regsToCheck.size()),
-    valuesToCheck(10, hashF, equalF) {
+    regsToCheck(regsToCheck), loaded(false), unbound(false) {
     }
 
+bool Minus::isRemoved() const {
+    std::vector<uint64_t> row;
+    bool u = unbound;
+    for(auto &itr : regsToCheck) {
+        row.push_back(itr.first->value);
+        if (!~itr.first->value)
+            u = true;
+    }
+    if (!u) {
+        return valuesToCheck.count(row) > 0;
+    }
+    // An unbound variable is compatible with every value, but at least one
+    // variable must be bound on both sides
+    for(auto &values : valuesToCheck) {
+        bool compatible = true, shared = false;
+        for(size_t i = 0; i < row.size() && compatible; ++i) {
+            if (~row[i] && ~values[i]) {
+                shared = true;
+                compatible = row[i] == values[i];
+            }
+        }
+        if (compatible && shared)
+            return true;
+    }
+    return false;
+}
+
 Minus::~Minus() {
     delete minusTree;
     delete mainTree;
@@ -23,74 +46,35 @@ Minus::~Minus() {
 
 uint64_t Minus::first() {
     observedOutputCardinality=0;
-    uint64_t res = mainTree->first();
-    bool found = false;
     // If no variable is shared, nothing is removed
-    if (res && !regsToCheck.empty()) {
-        if (!loaded) {
-            //Load the hashmap
-            if (minusTree->first()) {
-                do {
-                    //Read the values in the registers and copy them in row
-                    unsigned i = 0;
-                    for(auto itr : regsToCheck) {
-                        row[i++] = itr.second->value;
-                    }
-                    if (!valuesToCheck.count(-1)) {
-                        //Add the values
-                        size_t idx = valuesHashMap.size() / row.size();
-                        for(auto v : row) {
-                            valuesHashMap.push_back(v);
-                        }
-                        valuesToCheck.insert(idx);
-                    }
-                } while (minusTree->next());
-            }
-            loaded = true;
+    if (!loaded && !regsToCheck.empty()) {
+        //Load the values
+        if (minusTree->first()) {
+            do {
+                std::vector<uint64_t> row;
+                for(auto &itr : regsToCheck) {
+                    row.push_back(itr.second->value);
+                    if (!~itr.second->value)
+                        unbound = true;
+                }
+                valuesToCheck.insert(row);
+            } while (minusTree->next());
         }
-        do {
-            unsigned i = 0;
-            for(auto itr : regsToCheck) {
-                row[i++] = itr.first->value;
-            }
-            found = valuesToCheck.count(-1);
-            if (found) {
-                res = mainTree->next();
-                if (!res)
-                    break;
-            }
-        } while (found);
-    }
-    if (!found) {
-        return res;
-    } else {
-        return 0;
+        loaded = true;
     }
+    uint64_t res = mainTree->first();
+    while (res && !regsToCheck.empty() && isRemoved())
+        res = mainTree->next();
+    observedOutputCardinality += res;
+    return res;
 }
 
 uint64_t Minus::next() {
     uint64_t res = mainTree->next();
-    bool found = false;
-    if (res && !regsToCheck.empty()) {
-        do {
-            unsigned i = 0;
-            for(auto itr : regsToCheck) {
-                row[i++] = itr.first->value;
-            }
-            found = valuesToCheck.count(-1);
-            if (found) {
-                res = mainTree->next();
-                if (!res)
-                    break;
-            }
-        } while (found);
-    }
-    if (!found) {
-        return res;
-    } else {
-        return 0;
-    }
-
+    while (res && !regsToCheck.empty() && isRemoved())
+        res = mainTree->next();
+    observedOutputCardinality += res;
+    return res;
 }
 
 void Minus::print(PlanPrinter& out) {
-- 
2.43.0


From 6445faaffc54c66c4aa9acb1ee724dd403e64107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:07 +0000
Subject: [PATCH 040/103] fix: aggregates ignored multiplicities and group
 boundaries, DISTINCT in subselects returned duplicates

---
 include/trident/sparql/aggrhandler.h     |  3 +-
 rdf3x/include/rts/operator/DuplLimit.hpp |  8 +++
 rdf3x/src/cts/SPARQLParser.cpp           |  9 ++--
 rdf3x/src/rts/AggrFunctions.cpp          |  7 +++
 rdf3x/src/rts/DuplLimit.cpp              | 66 ++++++++++++++----------
 rdf3x/src/rts/GroupBy.cpp                |  1 +
 src/trident/sparql/aggrhandler.cpp       | 27 ++++++----
 7 files changed, 80 insertions(+), 41 deletions(-)

diff --git a/include/trident/sparql/aggrhandler.h b/include/trident/sparql/aggrhandler.h
index 44564fa..2c17f01 100644
--- a/include/trident/sparql/aggrhandler.h
+++ b/include/trident/sparql/aggrhandler.h
@@ -30,11 +30,13 @@ class AggregateHandler {
             int64_t arg1_int, arg2_int; //various arguments used by the functions
             double arg1_dec, arg2_dec;
             bool arg1_bool, arg2_bool;
+            std::set<std::pair<int, uint64_t>> seen; //Used if only distinct values count
 
             void reset() {
                 arg1_int = arg2_int = 0;
                 arg1_dec = arg2_dec = 0;
                 arg1_bool = arg2_bool = true;
+                seen.clear();
             }
         };
 
@@ -42,7 +44,6 @@ class AggregateHandler {
         unsigned varcount;
         std::map<FUNC,std::map<unsigned,unsigned>> assignments;
         bool distinct[FUNC::NFUNCS];
-        std::set<uint64_t> sets[FUNC::NFUNCS];
         uint64_t inputmask;
         std::vector<VarValue> varvalues;
         std::vector<FunctCall> executions;
diff --git a/rdf3x/include/rts/operator/DuplLimit.hpp b/rdf3x/include/rts/operator/DuplLimit.hpp
index 36bfbd5..dfe72b5 100644
--- a/rdf3x/include/rts/operator/DuplLimit.hpp
+++ b/rdf3x/include/rts/operator/DuplLimit.hpp
@@ -3,6 +3,7 @@
 
 #include "rts/operator/Operator.hpp"
 #include <vector>
+#include <set>
 //---------------------------------------------------------------------------
 class Register;
 class Runtime;
@@ -23,6 +24,13 @@ private:
     uint64_t limit;
     uint64_t offset;
     uint64_t entryCount, currentCount;
+    /// Has the first input row been read?
+    bool started;
+    /// The rows that were returned, if duplicates are removed
+    std::set<std::vector<uint64_t>> rows;
+
+    /// Move to the next row
+    bool advance();
 
 public:
     /// Constructor
diff --git a/rdf3x/src/cts/SPARQLParser.cpp b/rdf3x/src/cts/SPARQLParser.cpp
index 201da48..56da19b 100644
--- a/rdf3x/src/cts/SPARQLParser.cpp
+++ b/rdf3x/src/cts/SPARQLParser.cpp
@@ -49,14 +49,14 @@ SPARQLParser::Pattern::~Pattern()
 }
 //---------------------------------------------------------------------------
 SPARQLParser::Filter::Filter()
-    : arg1(0), arg2(0), arg3(0), arg4(0), valueArg(0), pointerToSubquery(0),
+    : arg1(0), arg2(0), arg3(0), arg4(0), valueArg(0), distinct(false), pointerToSubquery(0),
     pointerToSubPattern(0)
       // Constructor
 {
 }
 //---------------------------------------------------------------------------
 SPARQLParser::Filter::Filter(const Filter& other)
-    : type(other.type), arg1(0), arg2(0), arg3(0), arg4(0), value(other.value), valueType(other.valueType), valueArg(other.valueArg), pointerToSubquery(other.pointerToSubquery), pointerToSubPattern(other.pointerToSubPattern)
+    : type(other.type), arg1(0), arg2(0), arg3(0), arg4(0), value(other.value), valueType(other.valueType), valueArg(other.valueArg), distinct(other.distinct), pointerToSubquery(other.pointerToSubquery), pointerToSubPattern(other.pointerToSubPattern)
       // Copy-Constructor
 {
     if (other.arg1)
@@ -102,14 +102,17 @@ SPARQLParser::Filter& SPARQLParser::Filter::operator=(const Filter& other)
             arg3 = new Filter(*other.arg3);
         else
             arg3 = 0;
+        delete arg4;
         if (other.arg4)
             arg4 = new Filter(*other.arg4);
         else
             arg4 = 0;
         value = other.value;
-        value = other.value;
         valueType = other.valueType;
         valueArg = other.valueArg;
+        pointerToSubquery = other.pointerToSubquery;
+        pointerToSubPattern = other.pointerToSubPattern;
+        distinct = other.distinct;
     }
     return *this;
 }
diff --git a/rdf3x/src/rts/AggrFunctions.cpp b/rdf3x/src/rts/AggrFunctions.cpp
index 08f04a3..57343c2 100644
--- a/rdf3x/src/rts/AggrFunctions.cpp
+++ b/rdf3x/src/rts/AggrFunctions.cpp
@@ -96,6 +96,8 @@ double __getDouble(const std::string &s) {
 void AggrFunctions::updateVar(std::pair<unsigned,Register*> &var,
         uint64_t currentCount) {
     uint64_t value = var.second->value;
+    if (!~value) //Unbound
+        return;
     if (!hdl.requiresNumber(var.first)) {
         hdl.updateVarSymbol(var.first, value, currentCount);
     } else {
@@ -139,6 +141,11 @@ void AggrFunctions::updateVar(std::pair<unsigned,Register*> &var,
 }
 
 void AggrFunctions::processGroup() {
+    //Restore the keys of the current row, the previous group has replaced them
+    for(uint8_t i = 0; i < currentGroupKeys.size(); ++i) {
+        groupKeys[i]->value = currentGroupKeys[i];
+    }
+
     //Add the current row
     hdl.startUpdate();
     for(auto &var : varsToUpdate) {
diff --git a/rdf3x/src/rts/DuplLimit.cpp b/rdf3x/src/rts/DuplLimit.cpp
index 9bc6236..0395f8c 100644
--- a/rdf3x/src/rts/DuplLimit.cpp
+++ b/rdf3x/src/rts/DuplLimit.cpp
@@ -1,5 +1,6 @@
 #include "rts/operator/DuplLimit.hpp"
 #include "rts/operator/PlanPrinter.hpp"
+#include "rts/runtime/Runtime.hpp"
 
 using namespace std;
 
@@ -12,7 +13,8 @@ DuplLimit::DuplLimit(
     : Operator(1), output(outputArgs), input(input),
       duplicateHandling(duplicateHandling), limit(limit), offset(offset) {
     // Constructor
-    currentCount = 0;
+    entryCount = currentCount = 0;
+    started = false;
 }
 
 
@@ -20,39 +22,23 @@ DuplLimit::DuplLimit(
 uint64_t DuplLimit::first()
 // Produce the first tuple
 {
-    if (observedOutputCardinality < limit) {
-        if ((entryCount = input->first()) != 0) {
-	    // If there is an offset, skip those.
-	    uint64_t o = offset;
-            currentCount++;
-	    while (o > 0) {
-		if (next() == 0) {
-		    return 0;
-		}
-		observedOutputCardinality--;
-		o--;
-	    }
-            observedOutputCardinality++;
-            return 1;
-        } else {
+    observedOutputCardinality = 0;
+    currentCount = entryCount = 0;
+    started = false;
+    rows.clear();
+    // If there is an offset, skip those.
+    for (uint64_t o = offset; o > 0; o--) {
+        if (!advance()) {
             return 0;
         }
-    } else {
-        return 0;
     }
+    return next();
 }
 //---------------------------------------------------------------------------
 uint64_t DuplLimit::next()
 // Produce the next tuple
 {
-    if (observedOutputCardinality < limit) {
-        if (currentCount < entryCount && duplicateHandling == Duplicates) {
-            currentCount++;
-        } else if ((entryCount = input->next()) != 0) {
-            currentCount = 1;
-        } else {
-            return 0;
-        }
+    if (observedOutputCardinality < limit && advance()) {
         observedOutputCardinality++;
         return 1;
     } else {
@@ -60,6 +46,34 @@ uint64_t DuplLimit::next()
     }
 }
 //---------------------------------------------------------------------------
+bool DuplLimit::advance()
+// Move to the next row
+{
+    if (currentCount < entryCount && duplicateHandling == Duplicates) {
+        currentCount++;
+        return true;
+    }
+    while (true) {
+        entryCount = started ? input->next() : input->first();
+        started = true;
+        if (!entryCount) {
+            return false;
+        }
+        currentCount = 1;
+        if (duplicateHandling == Duplicates) {
+            return true;
+        }
+        // Did we already return this row?
+        vector<uint64_t> row;
+        for (auto r : output) {
+            row.push_back(r->value);
+        }
+        if (rows.insert(row).second) {
+            return true;
+        }
+    }
+}
+//---------------------------------------------------------------------------
 void DuplLimit::print(PlanPrinter& out)
 // Print the operator tree. Debugging only.
 {
diff --git a/rdf3x/src/rts/GroupBy.cpp b/rdf3x/src/rts/GroupBy.cpp
index f1f226b..fd22f8c 100644
--- a/rdf3x/src/rts/GroupBy.cpp
+++ b/rdf3x/src/rts/GroupBy.cpp
@@ -80,6 +80,7 @@ bool GroupBy::sameThanPrevious(uint64_t index) {
 uint64_t GroupBy::first() {
     observedOutputCardinality=0;
     uint64_t cnt = child->first();
+    values.clear();
 
     while (cnt > 0) {
         std::unique_ptr<std::vector<uint64_t>> tuple = std::unique_ptr<
diff --git a/src/trident/sparql/aggrhandler.cpp b/src/trident/sparql/aggrhandler.cpp
index 7db66ea..091306f 100644
--- a/src/trident/sparql/aggrhandler.cpp
+++ b/src/trident/sparql/aggrhandler.cpp
@@ -6,6 +6,7 @@
 #include <assert.h>
 #include <set>
 #include <cfloat>
+#include <cstring>
 
 unsigned AggregateHandler::getNewOrExistingVar(AggregateHandler::FUNC funID,
         std::vector<unsigned> &signature) {
@@ -135,12 +136,14 @@ AggregateHandler::VarValue::TYPE AggregateHandler::getValueType(
 }
 
 bool AggregateHandler::executeFunction(FunctCall &call) {
-    if (distinct[call.id] && varvalues[call.inputvar].type == VarValue::TYPE::SYMBOL) {
-        std::set<uint64_t>::iterator it = sets[call.id].find(varvalues[call.inputvar].v_int);
-        if (it != sets[call.id].end()) {
+    const VarValue &input = varvalues[call.inputvar];
+    if (distinct[call.id] && input.type != VarValue::TYPE::NUL) {
+        uint64_t value = input.v_int;
+        if (input.type == VarValue::TYPE::DEC)
+            memcpy(&value, &input.v_dec, sizeof(value));
+        if (!call.seen.insert(std::make_pair((int) input.type, value)).second) {
             return false;
         }
-        sets[call.id].insert(varvalues[call.inputvar].v_int);
     }
     switch (call.id) {
         case FUNC::COUNT:
@@ -189,13 +192,14 @@ bool AggregateHandler::execSum(FunctCall &call) {
         }
 	return true;
     } else {
+        const int64_t n = distinct[call.id] ? 1 : varvalues[call.inputvar].v_count;
         //Need to get the numerical value of the input
         if (varvalues[call.inputvar].type  == VarValue::TYPE::INT) {
             //Check the internal value
             if (call.arg1_bool) {
-                call.arg1_int += varvalues[call.inputvar].v_int;
+                call.arg1_int += n * varvalues[call.inputvar].v_int;
             } else {
-                call.arg1_dec += varvalues[call.inputvar].v_int;
+                call.arg1_dec += n * varvalues[call.inputvar].v_int;
             }
         } else { //Dec
             if (call.arg1_bool) {
@@ -203,7 +207,7 @@ bool AggregateHandler::execSum(FunctCall &call) {
                 call.arg1_dec = call.arg1_int;
                 call.arg1_bool = false;
             }
-            call.arg1_dec += varvalues[call.inputvar].v_dec;
+            call.arg1_dec += n * varvalues[call.inputvar].v_dec;
         }
 	return false;
     }
@@ -226,14 +230,15 @@ bool AggregateHandler::execAvg(FunctCall &call) {
 	}
 	return true;
     } else {
-	call.arg2_int++;
+        const int64_t n = distinct[call.id] ? 1 : varvalues[call.inputvar].v_count;
+	call.arg2_int += n;
         //Need to get the numerical value of the input
         if (varvalues[call.inputvar].type  == VarValue::TYPE::INT) {
             //Check the internal value
             if (call.arg1_bool) {
-                call.arg1_int += varvalues[call.inputvar].v_int;
+                call.arg1_int += n * varvalues[call.inputvar].v_int;
             } else {
-                call.arg1_dec += varvalues[call.inputvar].v_int;
+                call.arg1_dec += n * varvalues[call.inputvar].v_int;
             }
         } else { //Dec
             if (call.arg1_bool) {
@@ -241,7 +246,7 @@ bool AggregateHandler::execAvg(FunctCall &call) {
                 call.arg1_dec = call.arg1_int;
                 call.arg1_bool = false;
             }
-            call.arg1_dec += varvalues[call.inputvar].v_dec;
+            call.arg1_dec += n * varvalues[call.inputvar].v_dec;
         }
 	return false;
     }
-- 
2.43.0


From 2cb156b2e6e1bf6113679acbd63f7be6479f13bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:27 +0000
Subject: [PATCH 041/103] fix: replacing the coordinates of a key could leave a
 stale permutation

---
 src/trident/tree/leaf.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/trident/tree/leaf.cpp b/src/trident/tree/leaf.cpp
index 5fb3e51..79badb2 100644
--- a/src/trident/tree/leaf.cpp
+++ b/src/trident/tree/leaf.cpp
@@ -597,11 +597,11 @@ Coordinates * Leaf::addCoordinates(Coordinates * list,
     Coordinates *current = list;
 
     for (uint8_t i = 0; i < N_PARTITIONS; ++i) {
+        while (current != NULL && current->permutation < i) {
+            prev = current;
+            current = current->next;
+        }
         if (value->exists(i)) {
-            while (current != NULL && current->permutation < i) {
-                prev = current;
-                current = current->next;
-            }
             if (current == NULL) {
                 current = getContext()->getIlFactory()->get();
                 if (prev != NULL) {
-- 
2.43.0


From 7d987d8a1ea45a980ba560fc15dfb0258953124a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:27 +0000
Subject: [PATCH 042/103] fix: string buffer lost a last block that was exactly
 full, and misread entries at block ends

---
 src/trident/tree/stringbuffer.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/trident/tree/stringbuffer.cpp b/src/trident/tree/stringbuffer.cpp
index a1d6e18..42ff206 100644
--- a/src/trident/tree/stringbuffer.cpp
+++ b/src/trident/tree/stringbuffer.cpp
@@ -376,7 +376,9 @@ void StringBuffer::uncompressBlock(int b) {
 
     char *uncompressedBuffer = factory.get();
     int sizeUncompressed = SB_BLOCK_SIZE;
-    if (b == sizeCompressedBlocks.size() - 1) {
+    //While writing, only full blocks are ever offloaded
+    if (readOnly && b == sizeCompressedBlocks.size() - 1
+            && uncompressedSize % SB_BLOCK_SIZE != 0) {
         sizeUncompressed = uncompressedSize % SB_BLOCK_SIZE;
     }
     int bytesUncompressed = LZ4_decompress_safe(uncompressSupportBuffer,
@@ -421,7 +423,7 @@ int StringBuffer::getVInt(int &blockId, char *&block, int &offset) {
 
         //Update current position
         offset += supportOffset;
-        if (offset >= SB_BLOCK_SIZE) {
+        if (offset >= SB_BLOCK_SIZE && nextBlock != NULL) {
             offset -= SB_BLOCK_SIZE;
             blockId++;
             block = nextBlock;
@@ -460,7 +462,7 @@ void StringBuffer::get(int64_t pos, char* outputBuffer, int &size) {
         outputBuffer += sizePrefix;
     }
 
-    if (start == SB_BLOCK_SIZE) {
+    if (start == SB_BLOCK_SIZE && sizeToCopy > 0) {
         start = 0;
         idxBlock++;
         block = getBlock(idxBlock);
@@ -578,8 +580,7 @@ int StringBuffer::cmp(int64_t pos, char *string, int sizeString) {
 
 StringBuffer::~StringBuffer() {
     if (!readOnly) {
-        int usedSize = uncompressedSize % SB_BLOCK_SIZE;
-        if (usedSize > 0) {
+        if (writingCurrentBufferSize > 0) {
             compressLastBlock();
         }
 
-- 
2.43.0


From 1c55ed2dda2155937e96c04b753dbd0f657c5930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:27 +0000
Subject: [PATCH 043/103] fix: nodes whose keys have a constant step were
 misread (step over 127) or corrupted when changed again

---
 src/trident/tree/node.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/trident/tree/node.cpp b/src/trident/tree/node.cpp
index ae28591..06dc068 100644
--- a/src/trident/tree/node.cpp
+++ b/src/trident/tree/node.cpp
@@ -101,8 +101,8 @@ int Node::unserialize(char* bytes, int pos) {
         firstKey = Utils::decode_long(bytes, pos);
         pos += 8;
         if (size > 1) {
-            char step = bytes[pos++];
-            if (step > 0) {
+            uint8_t step = (uint8_t) bytes[pos++];
+            if (step == 1 || (step > 0 && context->isReadOnly())) {
                 consecutive = true;
                 consecutiveStep = step;
             } else {
@@ -112,7 +112,12 @@ int Node::unserialize(char* bytes, int pos) {
                 }
 
                 int *pPos = &pos;
-                if (getContext()->textKeys()) {
+                if (step > 0) {
+                    //The operations that change a node assume steps of one
+                    for (int i = 0; i < getCurrentSize() - 1; ++i) {
+                        keys[i] = (int64_t) (i + 1) * step;
+                    }
+                } else if (getContext()->textKeys()) {
                     for (int i = 0; i < getCurrentSize() - 1; ++i) {
                         keys[i] = Utils::decode_vlong(bytes, pPos) - firstKey;
                     }
-- 
2.43.0


From f759108e8be0b6846d2599d88a45c199a3adb16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:27 +0000
Subject: [PATCH 044/103] fix: splitting a node of textual keys took unrelated
 positions for consecutive keys

---
 src/trident/tree/node.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/trident/tree/node.cpp b/src/trident/tree/node.cpp
index 06dc068..afe2ef9 100644
--- a/src/trident/tree/node.cpp
+++ b/src/trident/tree/node.cpp
@@ -234,7 +234,9 @@ void Node::split(Node *node) {
         node->consecutive = true;
     } else {
         node->firstKey = firstKey + keys[currentSize - 1];
-        if (keys[context->getMaxElementsPerNode() - 2] - keys[currentSize - 1]
+        //Textual keys are positions in the string buffer, and not sorted
+        if (!getContext()->textKeys()
+                && keys[context->getMaxElementsPerNode() - 2] - keys[currentSize - 1]
                 + 1 == currentSize) {
             node->consecutive = true;
         } else {
-- 
2.43.0


From 835f76373cef7b418cff1aab0dbb1584cd706033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:41 +0000
Subject: [PATCH 045/103] fix: parallel_for always started at 0 instead of at
 the beginning of the range

---
 include/trident/utils/parallel.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/trident/utils/parallel.h b/include/trident/utils/parallel.h
index c0b6a24..ebfeb65 100644
--- a/include/trident/utils/parallel.h
+++ b/include/trident/utils/parallel.h
@@ -148,8 +148,8 @@ class ParallelTasks {
                 assert(nthreads >= 1);
                 const size_t delta = std::max(grainsize, (size_t) (end - begin + nthreads - 1) / nthreads);
                 std::vector<std::future<void>> threads;
-                size_t currentbegin = 0;
-                size_t currentend = 0;
+                size_t currentbegin = begin;
+                size_t currentend = begin;
                 for (size_t i = 0; i < nthreads && currentend < end; ++i) {
                     currentbegin = currentend;
                     currentend = currentbegin + delta;
-- 
2.43.0


From 3b680a15a76e8a67c0c7e4b393de73a699018325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:34 +0000
Subject: [PATCH 046/103] verif: let a build with TRIDENT_VERIF shrink the
 loader's buffers

---
 include/trident/kb/consts.h | 8 ++++++++
 include/trident/loader.h    | 2 +-
 src/trident/kb/loader.cpp   | 2 +-
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/trident/kb/consts.h b/include/trident/kb/consts.h
index c1eb790..6e60248 100644
--- a/include/trident/kb/consts.h
+++ b/include/trident/kb/consts.h
@@ -25,6 +25,14 @@
 
 #include <inttypes.h>
 
+//Limits of buffers that a verification build may shrink
+#ifdef TRIDENT_VERIF
+int64_t tridentVerifLimit(int64_t limit);
+#define TRIDENT_LIMIT(limit) tridentVerifLimit(limit)
+#else
+#define TRIDENT_LIMIT(limit) (limit)
+#endif
+
 #if defined(_WIN32)
     #define DDLIMPORT __declspec(dllimport)
     #define DDLEXPORT __declspec(dllexport)
diff --git a/include/trident/loader.h b/include/trident/loader.h
index aa3bebf..390272b 100644
--- a/include/trident/loader.h
+++ b/include/trident/loader.h
@@ -188,7 +188,7 @@ class BufferCoordinates {
     }
 
     bool isFull() {
-        return size == 10000;
+        return size == TRIDENT_LIMIT(10000);
     }
 
     bool isEmpty() {
diff --git a/src/trident/kb/loader.cpp b/src/trident/kb/loader.cpp
index 1b6f867..bf6027e 100644
--- a/src/trident/kb/loader.cpp
+++ b/src/trident/kb/loader.cpp
@@ -1065,7 +1065,7 @@ void Loader::insert(ParamInsert params) {
         std::list<std::pair<int64_t*, int>> exchangeBuffers;
 
         // this is 3 * 16M * 8 = 384M of buffer, for each index.
-        const int sizebuffer = 4 * 1000000 * 4;
+        const int sizebuffer = TRIDENT_LIMIT(4 * 1000000 * 4);
         for (int i = 0; i < 3; ++i) { //Create three buffers
             buffers.push_back(new int64_t[sizebuffer]);
         }
-- 
2.43.0


From 137a0117a7a6389b06eddbb506dd7f28224d29f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:37 +0000
Subject: [PATCH 047/103] fix: pad the sort buffer with the highest triple

The unused slots of the buffer were filled with the byte 1, so that triples
with terms above 0x0101010101 were sorted after the padding and cut off.
---
 src/trident/kb/permsorter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trident/kb/permsorter.cpp b/src/trident/kb/permsorter.cpp
index 9863c50..ab7f810 100644
--- a/src/trident/kb/permsorter.cpp
+++ b/src/trident/kb/permsorter.cpp
@@ -582,7 +582,7 @@ void PermSorter::sortChunks2_fill(
             + counts[i] * sizeTriple;
         char *beg_n = rawTriples + (i * maxInserts + limit) * sizeTriple;
         if (end_p < beg_n) {
-            memset(end_p, 1, beg_n-end_p);
+            memset(end_p, 0xFF, beg_n-end_p);
         }
     }
 }
-- 
2.43.0


From 3c61160c0d8da016fa386fa9d632ccaa8d1846f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:38 +0000
Subject: [PATCH 048/103] fix: make the reading threads divide the loading
 threads

The loader and the sorter give parallelThreads / maxReadingThreads parts to every
reader or writer, but hand out all parallelThreads. With e.g. three threads and
two readers the last part was out of range.
---
 src/trident/kb/loader.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/trident/kb/loader.cpp b/src/trident/kb/loader.cpp
index bf6027e..cd33ad5 100644
--- a/src/trident/kb/loader.cpp
+++ b/src/trident/kb/loader.cpp
@@ -1473,6 +1473,12 @@ void Loader::load(ParamsLoad p) {
         p.maxReadingThreads = p.parallelThreads;
     }
 
+    //The threads are divided in equal groups, one per reading thread
+    while (p.maxReadingThreads > 1 && p.parallelThreads % p.maxReadingThreads != 0) {
+        p.maxReadingThreads--;
+        LOG(WARNL) << "The reading threads must divide the available ones. I set it to = " << p.maxReadingThreads;
+    }
+
     if (p.dictionaries > p.parallelThreads) {
         LOG(WARNL) << "The dictionary partitions cannot be higher than the maximum number of threads. I set it to = " << p.parallelThreads;
         p.dictionaries = p.parallelThreads;
-- 
2.43.0


From 0149f1e836f6bb197f7f96f47072669800fc660b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:38 +0000
Subject: [PATCH 049/103] fix: do not read past the input after its last number

If the last line of a file of numbered triples had no newline, its last number was
parsed from a buffer that is not terminated. After a longer compressed file the
digits left over from it became part of the number.
---
 src/trident/kb/loader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trident/kb/loader.cpp b/src/trident/kb/loader.cpp
index cd33ad5..d88d5e5 100644
--- a/src/trident/kb/loader.cpp
+++ b/src/trident/kb/loader.cpp
@@ -343,7 +343,7 @@ void Loader::createPermsAndDictsFromFiles_seq(DiskReader *reader,
             start++;
         }
         if (start > tkn) {
-            triple[pos++] = std::stol(tkn);
+            triple[pos++] = std::stol(string(tkn, start - tkn));
         }
         tkn = start + 1;
         if (pos > 1) {
-- 
2.43.0


From 6fbb5cc87a1534d53702159ab40ac13776f721f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:38 +0000
Subject: [PATCH 050/103] fix: look for the dictionary files in their directory

If the dictionary consists of several files, getFilesWithPrefix returns their names
only (see the relations below), and they were looked for in the working directory.
---
 src/trident/kb/loader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/trident/kb/loader.cpp b/src/trident/kb/loader.cpp
index d88d5e5..ee50efd 100644
--- a/src/trident/kb/loader.cpp
+++ b/src/trident/kb/loader.cpp
@@ -416,6 +416,9 @@ int64_t Loader::createPermsAndDictsFromFiles(string inputtriples,
         } else {
             inputfiles = Utils::getFilesWithPrefix(Utils::parentDir(inputdict), Utils::filename(inputdict));
             std::sort(inputfiles.begin(), inputfiles.end());
+            for(int i = 0; i < inputfiles.size(); ++i) {
+                inputfiles[i] = Utils::parentDir(inputdict) + DIR_SEP + inputfiles[i];
+            }
         }
 
         if (separateDictEntRels) {
-- 
2.43.0


From 18faa922127ecc7c5adf22048839e04623a28401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:04 +0000
Subject: [PATCH 051/103] fix: find the dictionary of the relations in the
 temporary directory

It is written next to the other dictionary files, but was looked for in the
directory of the KB. With a separate temporary directory it was ignored, and the
relations got new numbers and the names of unrelated entities.
---
 include/trident/loader.h  |  3 ++-
 src/trident/kb/loader.cpp | 10 ++++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/trident/loader.h b/include/trident/loader.h
index 390272b..5734a19 100644
--- a/include/trident/loader.h
+++ b/include/trident/loader.h
@@ -638,7 +638,8 @@ class Loader {
                 Inserter *ins,
                 bool relsOwnIDs,
                 string kbDir,
-                bool storeDicts);
+                bool storeDicts,
+                string relDictFile);
 
         void loadKB_createTree(KB &kb,
                 string *sTreeWriters,
diff --git a/src/trident/kb/loader.cpp b/src/trident/kb/loader.cpp
index ee50efd..7ade19b 100644
--- a/src/trident/kb/loader.cpp
+++ b/src/trident/kb/loader.cpp
@@ -1740,7 +1740,8 @@ void Loader::loadKB_handleGraphTransformations(KB &kb,
         Inserter *ins,
         bool relsOwnIDs,
         string kbDir,
-        bool storeDicts) {
+        bool storeDicts,
+        string relDictFile) {
 
     if (graphTransformation == "unlabeled") {
         kb.setGraphType(GraphType::DIRECTED);
@@ -1787,7 +1788,7 @@ void Loader::loadKB_handleGraphTransformations(KB &kb,
         //If the relations should have their own IDs, I rewrite the compressed
         //graph storing an additional map with the IDs of the relations
         if (relsOwnIDs) {
-            if (!Utils::exists(kbDir + DIR_SEP + "dict-0_r")) {
+            if (relDictFile == "" || !Utils::exists(relDictFile)) {
                 if (!storeDicts) {
                     LOG(ERRORL) << "RelOwnIDs is set to true. Also storeDicts must be set to true";
                     throw 10;
@@ -1804,7 +1805,7 @@ void Loader::loadKB_handleGraphTransformations(KB &kb,
             } else {
                 //The graph is already translated. Just load the mappings
                 LZ4Writer writer(kbDir + DIR_SEP + "e2s");
-                string fin = kbDir + DIR_SEP + "dict-0_r";
+                string fin = relDictFile;
                 {
                     LZ4Reader in(fin);
                     LOG(DEBUGL) << "Parsing " << fin;
@@ -2022,7 +2023,8 @@ void Loader::loadKB(KB &kb,
 
     int nidx = nindices;
     loadKB_handleGraphTransformations(kb, graphTransformation, permDirs,
-            nidx, ins, relsOwnIDs, kbDir, storeDicts);
+            nidx, ins, relsOwnIDs, kbDir, storeDicts,
+            fileNameDictionaries ? fileNameDictionaries[0] + "_r" : "");
 
     createIndices(parallelProcesses, maxReadingThreads,
             ins, createIndicesInBlocks,
-- 
2.43.0


From adb8adbc200ea1d33fb480aa4e59910af0e1713f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:04 +0000
Subject: [PATCH 052/103] fix: no dictionary of the relations unless one is
 given

Without one (relations with own numbers, one dictionary) an empty file was written,
which the loader took for the sign that the graph has relation numbers already.
---
 src/trident/kb/loader.cpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/trident/kb/loader.cpp b/src/trident/kb/loader.cpp
index 7ade19b..73a1fae 100644
--- a/src/trident/kb/loader.cpp
+++ b/src/trident/kb/loader.cpp
@@ -425,19 +425,21 @@ int64_t Loader::createPermsAndDictsFromFiles(string inputtriples,
             string outputDictFile = fileNameDictionaries;
             outputDictFile = fileNameDictionaries; //The entities are stored in the normal dictionary. The relations will be stored in a in-memory data structure
             _convertDictFile(inputfiles, outputDictFile);
-            outputDictFile = fileNameDictionaries + "_r";
-            //Convert the relation files
-            inputfiles.clear();
-            if (Utils::exists(inputdictr)) {
-                inputfiles.push_back(inputdictr);
-            } else {
-                inputfiles = Utils::getFilesWithPrefix(Utils::parentDir(inputdictr), Utils::filename(inputdictr));
-                std::sort(inputfiles.begin(), inputfiles.end());
-                for(int i = 0; i < inputfiles.size(); ++i) {
-                    inputfiles[i] = Utils::parentDir(inputdictr) + DIR_SEP + inputfiles[i];
+            if (inputdictr != "") {
+                outputDictFile = fileNameDictionaries + "_r";
+                //Convert the relation files
+                inputfiles.clear();
+                if (Utils::exists(inputdictr)) {
+                    inputfiles.push_back(inputdictr);
+                } else {
+                    inputfiles = Utils::getFilesWithPrefix(Utils::parentDir(inputdictr), Utils::filename(inputdictr));
+                    std::sort(inputfiles.begin(), inputfiles.end());
+                    for(int i = 0; i < inputfiles.size(); ++i) {
+                        inputfiles[i] = Utils::parentDir(inputdictr) + DIR_SEP + inputfiles[i];
+                    }
                 }
+                _convertDictFile(inputfiles, outputDictFile);
             }
-            _convertDictFile(inputfiles, outputDictFile);
         } else {
             _convertDictFile(inputfiles, fileNameDictionaries);
         }
-- 
2.43.0


From e7645bdcc20b078a81894eaf87c91e3dafd9f2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:58 +0000
Subject: [PATCH 053/103] fix: read only the five bytes of a position in the
 node views

---
 include/snap/tnode.h  | 8 ++++++--
 include/snap/tunode.h | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/snap/tnode.h b/include/snap/tnode.h
index 519189f..4fa0494 100644
--- a/include/snap/tnode.h
+++ b/include/snap/tnode.h
@@ -3,6 +3,8 @@
 
 #include <snap/readers.h>
 
+#include <cstring>
+
 class TNode {
     private:
         //key (5 bytes), nelements (5bytes) strat (1 byte), file (2 bytes), pos (5 bytes)
@@ -62,7 +64,8 @@ class TNode {
             SnapReaders::pReader reader = SnapReaders::readers[strat];
             const short file = *(short*)(rawblock + 24);
             const char *p = SnapReaders::f_osp[file];
-            const int64_t pos = (*(int64_t*)(rawblock + 26)) & 0XFFFFFFFFFFl;
+            int64_t pos = 0;
+            memcpy(&pos, rawblock + 26, 5); //8 bytes could exceed the file
             const char *osp = p + pos;
             return reader(osp, NodeN);
         }
@@ -136,7 +139,8 @@ class TNode {
         const char *GetBeginIn() const {
             const short file = *(short*)(rawblock + 24);
             const char *p = SnapReaders::f_osp[file];
-            const int64_t pos = (*(int64_t*)(rawblock + 26)) & 0XFFFFFFFFFFl;
+            int64_t pos = 0;
+            memcpy(&pos, rawblock + 26, 5); //8 bytes could exceed the file
             const char *osp = p + pos;
             return osp;
         }
diff --git a/include/snap/tunode.h b/include/snap/tunode.h
index 168dae3..16f4916 100644
--- a/include/snap/tunode.h
+++ b/include/snap/tunode.h
@@ -3,6 +3,8 @@
 
 #include <snap/readers.h>
 
+#include <cstring>
+
 class TUNode {
     private:
         //key (5 bytes), nelements (5bytes) strat (1 byte), file (2 bytes), pos (5 bytes)
@@ -58,7 +60,8 @@ class TUNode {
             SnapReaders::pReader reader = SnapReaders::readers[strat];
             const short file = *(short*)(rawblock + 11);
             const char *p = SnapReaders::f_sop[file];
-            const int64_t pos = (*(int64_t*)(rawblock + 13)) & 0XFFFFFFFFFFl;
+            int64_t pos = 0;
+            memcpy(&pos, rawblock + 13, 5); //8 bytes could exceed the file
             const char *sop = p + pos;
             return reader(sop, NodeN);
         }
@@ -106,7 +109,8 @@ class TUNode {
         const char *GetBeginOut() const {
             const short file = *(short*)(rawblock + 11);
             const char *p = SnapReaders::f_sop[file];
-            const int64_t pos = (*(int64_t*)(rawblock + 13)) & 0XFFFFFFFFFFl;
+            int64_t pos = 0;
+            memcpy(&pos, rawblock + 13, 5); //8 bytes could exceed the file
             const char *sop = p + pos;
             return sop;
         }
-- 
2.43.0


From 84a47ceebc8c448abd1ecc3af7479f8749664d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:58 +0000
Subject: [PATCH 054/103] fix: accept lines with two columns also in a single
 file

---
 src/trident/kb/loader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/trident/kb/loader.cpp b/src/trident/kb/loader.cpp
index 73a1fae..181b27b 100644
--- a/src/trident/kb/loader.cpp
+++ b/src/trident/kb/loader.cpp
@@ -466,6 +466,10 @@ int64_t Loader::createPermsAndDictsFromFiles(string inputtriples,
             line = line.substr(pos + 1);
             p = stol(sp);
             o = stol(line);
+            if (pos == string::npos) {
+                //There are only two columns. Add an empty predicate
+                p = 0;
+            }
             for(int i = 0; i < nperms; ++i) {
                 writer.writeLong(s);
                 writer.writeLong(p);
-- 
2.43.0


From 65761a3c6454d3a3c355a92ed4f478b87cfcba01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:58 +0000
Subject: [PATCH 055/103] fix: create the views of a graph from the permutation
 that gets the input

---
 src/trident/kb/loader.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/trident/kb/loader.cpp b/src/trident/kb/loader.cpp
index 181b27b..8db8b7f 100644
--- a/src/trident/kb/loader.cpp
+++ b/src/trident/kb/loader.cpp
@@ -1571,7 +1571,7 @@ void Loader::load(ParamsLoad p) {
         }
         totalCount = parseSnapFile(p.triplesInputDir,
                 p.dictDir,
-                &permDirs[IDX_SOP], //Store the output in the SOP directory
+                &permDirs[IDX_SPO], //The other permutations are created from SPO
                 1,
                 signaturePerm,
                 fileNameDictionaries[0],
@@ -1591,7 +1591,7 @@ void Loader::load(ParamsLoad p) {
             LOG(DEBUGL) << "For now I create only one permutation";
             int tmpsig = 0;
             Compressor::addPermutation(IDX_SPO, tmpsig);
-            comp.compress(p.graphTransformation != "" ? &permDirs[IDX_SOP] : &permDirs[IDX_SPO],
+            comp.compress(&permDirs[IDX_SPO],
                     1, tmpsig, fileNameDictionaries,
                     p.dictionaries, p.parallelThreads, p.maxReadingThreads,
                     p.graphTransformation != "");
@@ -1626,7 +1626,7 @@ void Loader::load(ParamsLoad p) {
                     p.relsOwnIDs,
                     p.dictDir,
                     p.dictDir_rel,
-                    p.graphTransformation != "" ? &permDirs[IDX_SOP] : &permDirs[IDX_SPO], //Use only the first dir
+                    &permDirs[IDX_SPO], //Use only the first dir
                     1,
                     signaturePerm, //Ignored
                     fileNameDictionaries[0],
@@ -1754,7 +1754,7 @@ void Loader::loadKB_handleGraphTransformations(KB &kb,
     }
     if (graphTransformation == "undirected") {
         LOG(DEBUGL) << "Transforming the graph in 'undirected'";
-        string input = permDirs[IDX_SOP];
+        string input = permDirs[IDX_SPO];
         string output = input + "_tmp";
         Utils::create_directories(output);
         std::vector<string> files = Utils::getFiles(input);
-- 
2.43.0


From 6f636bec4af9f18fa7cb9179ce5b53a8e97eb761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:29 +0000
Subject: [PATCH 056/103] fix: accept empty strings and spaces in the
 parameters of a task

---
 include/trident/utils/tridentutils.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/trident/utils/tridentutils.h b/include/trident/utils/tridentutils.h
index 74202a6..9a4c14f 100644
--- a/include/trident/utils/tridentutils.h
+++ b/include/trident/utils/tridentutils.h
@@ -71,4 +71,10 @@ class TridentUtils {
             }
 };
 
+//A string is returned as it is: it can be empty or contain spaces
+template<>
+inline std::string TridentUtils::lexical_cast<std::string>(std::string v) {
+    return v;
+}
+
 #endif
-- 
2.43.0


From bcd0abfd2baa7d1f85b87b11a3d502ca2bde5888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:29 +0000
Subject: [PATCH 057/103] fix: save the scores of the tasks that return doubles

---
 include/snap/analytics.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/snap/analytics.h b/include/snap/analytics.h
index 0a04b5f..3f268cc 100644
--- a/include/snap/analytics.h
+++ b/include/snap/analytics.h
@@ -314,6 +314,10 @@ class Analytics {
 
                 /**** SAVE THE RESULTS TO A FILE ****/
                 if (outputfile != "") {
+                    if (values1.empty()) {
+                        //Some tasks return doubles
+                        values1.assign(values1_d.begin(), values1_d.end());
+                    }
                     saveToFile<K,V>(Graph, retValue, retValue_int, retValue_double,
                             nargs, values1, values2,
                             outputfile);
-- 
2.43.0


From af675f135831459b79919322ea4022a6955905c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:29 +0000
Subject: [PATCH 058/103] fix: follow also the incoming links in the components
 of a directed graph

---
 include/snap/directed.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/snap/directed.h b/include/snap/directed.h
index 531ac0f..182b290 100644
--- a/include/snap/directed.h
+++ b/include/snap/directed.h
@@ -125,4 +125,8 @@ class Trident_TNGraph {
 
 typedef TPt<Trident_TNGraph> PTrident_TNGraph;
 
+namespace TSnap {
+    template <> struct IsDirected<Trident_TNGraph> { enum { Val = 1 }; };
+}
+
 #endif
-- 
2.43.0


From 510a6acf81cdf7e79151c2600d44f0e60da1ae9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:29 +0000
Subject: [PATCH 059/103] fix: return distance zero from a node to itself

---
 include/snap/nativetasks.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/snap/nativetasks.h b/include/snap/nativetasks.h
index c638bcb..48be8a7 100644
--- a/include/snap/nativetasks.h
+++ b/include/snap/nativetasks.h
@@ -23,6 +23,9 @@ class NativeTasks {
             static int64_t getShortPath(const K &Graph,
                     const int64_t src,
                     const int64_t dst) {
+                if (src == dst) {
+                    return 0;
+                }
                 int limitDist = ~0;
                 TUInt64H NIdDistH;
                 NIdDistH.AddDat(src, 0);
-- 
2.43.0


From 7a308892d306ab91a92960b9429987d619b62835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:29 +0000
Subject: [PATCH 060/103] fix: compute the clustering coefficient of every node
 on all its neighbours

---
 include/snap/nativetasks.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/snap/nativetasks.h b/include/snap/nativetasks.h
index 48be8a7..b591ad4 100644
--- a/include/snap/nativetasks.h
+++ b/include/snap/nativetasks.h
@@ -138,14 +138,14 @@ class NativeTasks {
 
         template <class PGraph>
             static void clustcoef(const PGraph& Graph, std::vector<float>& NIdCCfH) {
-                NIdCCfH.clear();
-                NIdCCfH.reserve(Graph->GetNodes());
-                std::vector<std::pair<int64_t,int64_t>> NIdCOTriadV;
-                GetTriads<PGraph>(Graph, NIdCOTriadV);
+                NIdCCfH.assign(Graph->GetNodes(), 0);
+                //GetTriads above counts a link between two neighbours once per direction
+                std::vector<TUInt64Tr> NIdCOTriadV;
+                TSnap::GetTriads<PGraph>(Graph, NIdCOTriadV, -1);
                 for (int64_t i = 0; i < NIdCOTriadV.size(); i++) {
-                    const int64_t D = NIdCOTriadV[i].first+NIdCOTriadV[i].second;
-                    const double CCf = D!=0 ? NIdCOTriadV[i].first / double(D) : 0.0;
-                    NIdCCfH[i] = CCf;
+                    const int64_t D = NIdCOTriadV[i].Val2+NIdCOTriadV[i].Val3;
+                    const double CCf = D!=0 ? NIdCOTriadV[i].Val2 / double(D) : 0.0;
+                    NIdCCfH[NIdCOTriadV[i].Val1] = CCf;
                 }
             }
 
-- 
2.43.0


From c2cc472ec124de02419a6f7a72163169bc6c8505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:29 +0000
Subject: [PATCH 061/103] fix: test all nodes when the diameter gets no number
 of nodes

---
 include/snap/nativetasks.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/snap/nativetasks.h b/include/snap/nativetasks.h
index b591ad4..c1f56b7 100644
--- a/include/snap/nativetasks.h
+++ b/include/snap/nativetasks.h
@@ -158,7 +158,10 @@ class NativeTasks {
                 TBreathFS<PGraph> BFS(Graph);
 		std::vector<int64_t> NodeIdV;
 		Graph->GetNIdV(NodeIdV); std::random_shuffle(NodeIdV.begin(), NodeIdV.end());
-                int64_t minnodes = min((int64_t)NTestNodes, Graph->GetNodes());
+                int64_t minnodes = Graph->GetNodes();
+                if (NTestNodes > 0) { //By default all nodes are tested
+                    minnodes = min((int64_t)NTestNodes, minnodes);
+                }
                 for (int tries = 0; tries < minnodes; tries++) {
                     const int NId = (int) NodeIdV[tries];
                     BFS.DoBfs(NId, true, ! IsDir, -1, TInt::Mx);
-- 
2.43.0


From 208152289b3d9cefe8002f8e9217dda9cc76a0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:07 +0000
Subject: [PATCH 062/103] fix: read requests that arrive in pieces completely

---
 src/trident/utils/httpserver.cpp | 78 ++++++++++++++++++++------------
 1 file changed, 49 insertions(+), 29 deletions(-)

diff --git a/src/trident/utils/httpserver.cpp b/src/trident/utils/httpserver.cpp
index 25ebdab..f9e88d2 100644
--- a/src/trident/utils/httpserver.cpp
+++ b/src/trident/utils/httpserver.cpp
@@ -2,12 +2,18 @@
 
 #include <kognac/logs.h>
 
+#include <algorithm>
+#include <cerrno>
 #include <chrono>
 
 #if defined(_WIN32)
 //The Http Client and Server are only supported under Linux/Mac
 #else
 
+#ifndef MSG_NOSIGNAL
+#define MSG_NOSIGNAL 0
+#endif
+
 namespace chr = std::chrono;
 
 HttpServer::HttpServer(uint32_t port,
@@ -22,14 +28,18 @@ HttpServer::HttpServer(uint32_t port,
     }
 
 uint64_t HttpServer::getMessageBodyLength(std::string& request) {
-    size_t pos = request.find("Content-Length:");
+    //The names of the fields are case insensitive
+    std::string lrequest = request;
+    std::transform(lrequest.begin(), lrequest.end(), lrequest.begin(), ::tolower);
+    size_t pos = lrequest.find("\r\ncontent-length:");
     if (pos == std::string::npos) {
         // For GET requests, usually message body is not present. Hence Content-Length field can be omitted
         // For POST requests, if message body is not present, then it Content-Length is 0
         return 0;
     }
+    pos += 17; //Skip the name
     size_t endpos = request.find("\r\n", pos);
-    std::string bodyLen = request.substr(pos + 16, endpos - pos - 16);
+    std::string bodyLen = request.substr(pos, endpos - pos);
     uint64_t ret = std::stoul(bodyLen);
     return ret;
 }
@@ -47,39 +57,44 @@ void HttpServer::processSocket() {
         try {
             char buffer[1024];
             std::string request = "";
-            auto len = read(connFd, buffer, 1024);
-            if (len == 0) { //Client has closed the conversation
-                socket.close();
-                queueWait.push(socket);
-            } else if (len == -1) {
-                //can happen. Put it back in the queue, unless there are errors
-                //TODO
-                queueWait.push(socket);
-            } else {
-                request += std::string(buffer, len);
-                int bodyLength = getMessageBodyLength(request);
-                int pos = request.find("\r\n\r\n");
-                int headerLength = 0;
-                if (pos == std::string::npos) {
-                    LOG(ERRORL) << "FATAL: End of header not found in the request";
-                }else {
-                    headerLength = pos;
+            //The request can arrive in pieces: first read until the end of the
+            //header, and then as much as the header announces
+            size_t sizeRequest = 0;
+            bool complete = false;
+            while (!complete) {
+                auto len = read(connFd, buffer, 1024);
+                if (len == -1 && errno == EINTR) {
+                    continue;
+                }
+                if (len <= 0) { //Client has closed the conversation, or errors
+                    break;
                 }
-                if (bodyLength > 0) {
-                    int readBuffer = bodyLength - (1024 - headerLength);
-                    while (readBuffer > 0) {
-                        auto len = read(connFd, buffer, 1024);
-                        readBuffer -= len;
-                        request += std::string(buffer, len);
+                request += std::string(buffer, len);
+                if (sizeRequest == 0) {
+                    size_t pos = request.find("\r\n\r\n");
+                    if (pos != std::string::npos) {
+                        std::string header = request.substr(0, pos + 2);
+                        sizeRequest = pos + 4 + getMessageBodyLength(header);
                     }
                 }
+                complete = sizeRequest > 0 && request.size() >= sizeRequest;
+            }
+            if (!complete) {
+                socket.close();
+                queueWait.push(socket);
+            } else {
                 std::string response = "";
                 handlerFunction(request, response);
                 uint64_t size = 0;
-                do {
-                    size += send(connFd, response.c_str() + size,
-                            response.size() - size, 0);
-                } while (size < response.size());
+                while (size < response.size()) {
+                    auto len = send(connFd, response.c_str() + size,
+                            response.size() - size, MSG_NOSIGNAL);
+                    if (len < 0) { //Client has closed the conversation, or errors
+                        socket.close();
+                        break;
+                    }
+                    size += len;
+                }
                 queueWait.push(socket);
             }
         } catch (...) {
@@ -216,6 +231,11 @@ bool HttpServer::listn() {
         }
         //Make the socket non-blocking
         //fcntl(connFd, F_SETFL, fcntl(connFd, F_GETFL, 0) | O_NONBLOCK);
+        //A client that stops in the middle of a request should not block a thread
+        struct timeval timeout;
+        timeout.tv_sec = maxLifeConn / 1000;
+        timeout.tv_usec = (maxLifeConn % 1000) * 1000;
+        setsockopt(connFd, SOL_SOCKET, SO_RCVTIMEO, &timeout, sizeof(timeout));
         queueReady.push(Socket(connFd));
     }
     launched = false;
-- 
2.43.0


From 1c993725335f345f1a13e13f331ba4a9e92549db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:17 +0000
Subject: [PATCH 063/103] fix: stop the server when it is asked to

---
 include/trident/utils/httpserver.h |  4 +++-
 src/trident/utils/httpserver.cpp   | 17 +++++++++++++----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/trident/utils/httpserver.h b/include/trident/utils/httpserver.h
index 2589001..907e661 100644
--- a/include/trident/utils/httpserver.h
+++ b/include/trident/utils/httpserver.h
@@ -3,6 +3,7 @@
 
 #include <trident/utils/parallel.h>
 
+#include <atomic>
 #include <string>
 #include <thread>
 #include <inttypes.h>
@@ -48,7 +49,8 @@ class HttpServer {
         };
 
         uint32_t port;
-        bool launched;
+        std::atomic<bool> launched;
+        std::atomic<bool> stopping;
         uint64_t maxLifeConn;
 
         int listenFd;
diff --git a/src/trident/utils/httpserver.cpp b/src/trident/utils/httpserver.cpp
index f9e88d2..71868ff 100644
--- a/src/trident/utils/httpserver.cpp
+++ b/src/trident/utils/httpserver.cpp
@@ -20,7 +20,7 @@ HttpServer::HttpServer(uint32_t port,
         std::function<void(const std::string&, std::string&)> handler,
         uint32_t nthreads,
         uint64_t maxLifeConn) : port(port),
-    maxLifeConn(maxLifeConn), handlerFunction(handler) {
+    launched(false), stopping(false), maxLifeConn(maxLifeConn), handlerFunction(handler) {
         threads.resize(nthreads);
         for(uint32_t i = 0; i < nthreads; ++i) {
             threads[i] = std::thread(&HttpServer::processSocket, this);
@@ -110,7 +110,7 @@ void HttpServer::waitForData() {
     std::vector<pollfd> events;
     std::vector<uint64_t > idletime;
 
-    while (true) {
+    while (!stopping) {
         while (!queueWait.isEmpty()) {
             //Process the sockets
             Socket s;
@@ -227,6 +227,10 @@ bool HttpServer::listn() {
         socklen_t len = sizeof(clntAdd);
         int connFd = accept(listenFd, (struct sockaddr *)&clntAdd, &len);
         if (connFd < 0) {
+            if (!stopping && (errno == EINTR || errno == ECONNABORTED)) {
+                continue; //Only this connection has failed
+            }
+            launched = false;
             return false;
         }
         //Make the socket non-blocking
@@ -238,7 +242,6 @@ bool HttpServer::listn() {
         setsockopt(connFd, SOL_SOCKET, SO_RCVTIMEO, &timeout, sizeof(timeout));
         queueReady.push(Socket(connFd));
     }
-    launched = false;
 }
 
 void HttpServer::start() {
@@ -247,15 +250,21 @@ void HttpServer::start() {
 }
 
 void HttpServer::stop() {
+    stopping = true;
     //Stop all processing threads
     for(int i = 0; i < threads.size(); ++i)
         queueReady.push(Socket());
     for(auto &t : threads) {
         t.join();
     }
+    if (threadWait.joinable()) {
+        threadWait.join();
+    }
+    //Closing the socket is not enough to interrupt accept
+    shutdown(listenFd, 2);
     close(listenFd);
     while (launched) {
-        //TODO Wait until the thread has stopped
+        std::this_thread::sleep_for(chr::milliseconds(10));
     }
 }
 
-- 
2.43.0


From b26540a452725eb459871c577e6ec7dfdd649857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:17 +0000
Subject: [PATCH 064/103] fix: accept responses that arrive in pieces, are
 empty, or have no length

---
 src/trident/utils/httpclient.cpp | 236 +++++++++++++++----------------
 1 file changed, 118 insertions(+), 118 deletions(-)

diff --git a/src/trident/utils/httpclient.cpp b/src/trident/utils/httpclient.cpp
index b3f17d9..a219f34 100644
--- a/src/trident/utils/httpclient.cpp
+++ b/src/trident/utils/httpclient.cpp
@@ -3,6 +3,7 @@
 #include <kognac/utils.h>
 #include <kognac/logs.h>
 
+#include <cerrno>
 #include <iostream>
 #include <sstream>
 #include <algorithm>
@@ -14,6 +15,10 @@
 //The Http Client and Server are only supported under Linux/Mac
 #else
 
+#ifndef MSG_NOSIGNAL
+#define MSG_NOSIGNAL 0
+#endif
+
 bool HttpClient::connect() {
     //Get IP address of the host
     struct addrinfo hints, *res, *res0;
@@ -155,136 +160,131 @@ std::string HttpClient::escape(const std::string &s) {
     return escaped.str();
 }
 
+//Waits for more data. Returns false if the connection is closed
+static bool readMore(int sockfd, std::string &data) {
+    char buffer[1024];
+    ssize_t len;
+    do {
+        len = recv(sockfd, buffer, 1024, 0);
+    } while (len == -1 && errno == EINTR);
+    if (len <= 0) {
+        return false;
+    }
+    data.append(buffer, len);
+    return true;
+}
+
+//Removes the next line from the data, without its end
+static bool readLine(int sockfd, std::string &data, std::string &line) {
+    size_t end;
+    while ((end = data.find("\r\n")) == std::string::npos) {
+        if (!readMore(sockfd, data)) {
+            return false;
+        }
+    }
+    line = data.substr(0, end);
+    data.erase(0, end + 2);
+    return true;
+}
+
+//Moves the next bytes of the data to the output
+static bool readBytes(int sockfd, std::string &data, size_t size,
+        std::string &output) {
+    while (data.size() < size) {
+        if (!readMore(sockfd, data)) {
+            return false;
+        }
+    }
+    output.append(data, 0, size);
+    data.erase(0, size);
+    return true;
+}
+
 bool HttpClient::getResponse(const std::string &request,
         std::string &headers,
         std::string &response) {
-    int ret = send(sockfd, request.c_str(), request.size(), 0);
-    if (ret < 0) {
-        return false;
-    } else {
-        char buffer[1024];
-        response = "";
-        headers = "";
+    size_t nsent = 0;
+    while (nsent < request.size()) {
+        auto ret = send(sockfd, request.c_str() + nsent,
+                request.size() - nsent, MSG_NOSIGNAL);
+        if (ret < 0) {
+            return false;
+        }
+        nsent += ret;
+    }
 
-        bool processedHeaders = false;
-        bool processBody = false;
+    response = "";
+    headers = "";
 
-        //uint64_t totalSize = 0; //used if not chunked
-        bool isChunked = false;
-        size_t sizeChunk = 0;
-        size_t currentChunkSize = 0;
+    //Collect headers until '\r\n\r\n'. The data can arrive in any number of pieces
+    std::string data = "";
+    size_t endHeaders;
+    while ((endHeaders = data.find("\r\n\r\n")) == std::string::npos) {
+        if (!readMore(sockfd, data)) {
+            return false;
+        }
+    }
+    headers = data.substr(0, endHeaders);
+    data.erase(0, endHeaders + 4);
 
-        //Pointers to the buffer
-        size_t sizebuffer = 0;
-        const char *remaining = buffer;
+    //Get the response type
+    if (headers.size() < 12 || !Utils::starts_with(headers, "HTTP/1")) {
+        LOG(ERRORL) << "No HTTP header";
+        return false;
+    }
+    //Read the code. Should be 200
+    std::string code = headers.substr(9, 3);
+    if (code != "200") {
+        //not supported
+        LOG(ERRORL) << "No 200 code " << code;
+        return false;
+    }
 
+    //Determine the way to finish reading the body
+    std::string lheaders = headers + "\r\n";
+    std::transform(lheaders.begin(), lheaders.end(),
+            lheaders.begin(), ::tolower);
+    const std::string lengthField = "\r\ncontent-length:";
+    const size_t idx = lheaders.find(lengthField);
+    if (lheaders.find("\r\ntransfer-encoding: chunked") != std::string::npos) {
+        std::string line;
         while (true) {
-            if (sizebuffer <= 0) {
-                sizebuffer = recv(sockfd , buffer, 1024, 0);
-                remaining = buffer;
-                if (sizebuffer == 0 || sizebuffer == -1) {
-                    break;
-                }
+            if (!readLine(sockfd, data, line)) {
+                return false;
             }
-
-            //Process the buffer
-            if (processBody) {
-                //I am reading content ...
-                while (sizebuffer > 0) {
-                    if (currentChunkSize < sizeChunk) {
-                        //Read until sizeChunk
-                        int remainingSize = std::min(
-                                (size_t)(sizeChunk - currentChunkSize),
-                                sizebuffer);
-                        response += std::string(remaining,
-                                remainingSize);
-                        currentChunkSize += remainingSize;
-                        remaining += remainingSize;
-                        sizebuffer -= remainingSize;
-                    } else if (currentChunkSize == sizeChunk) {
-                        //Must read the next chunk
-                        if (sizebuffer >= 1 && remaining[0] == '\r') {
-                            remaining++;
-                            sizebuffer--;
-                        }
-                        if (sizebuffer >= 1 && remaining[0] == '\n') {
-                            remaining++;
-                            sizebuffer--;
-                        }
-                        std::string rest = std::string(remaining, sizebuffer);
-                        auto end = rest.find("\r\n");
-                        if (end == std::string::npos) {
-                            LOG(ERRORL) << "Special case not handled. Must implement it ...";
-                            return false;
-                        }
-                        std::string sSizeChunk = rest.substr(0, end);
-                        std::stringstream ss; //convert the string to number
-                        ss << std::hex << sSizeChunk;
-                        ss >> sizeChunk;
-                        currentChunkSize = 0;
-                        remaining += end + 2;
-                        sizebuffer -= end + 2;
-                        if (sizeChunk == 0) {
-                            return true;
-                        }
-                    }
-                }
-
-                //If not chunked and read everthing then exit
-                if (!isChunked && currentChunkSize == sizeChunk) {
-                    return true;
-                }
-            } else if (!processedHeaders) {
-                //Collect headers until '\r\n\r\n'
-                std::string sbuffer = std::string(remaining, sizebuffer);
-                headers += sbuffer;
-                if (headers.find("\r\n\r\n") != std::string::npos) {
-                    auto idx = headers.find("\r\n\r\n");
-                    headers = headers.substr(0, idx);
-                    remaining += idx + 4;
-                    sizebuffer -= idx + 4;
-                    processedHeaders = true;
-                }
-                if (headers.size() > 13) {
-                    //Get the response type
-                    if (!Utils::starts_with(headers, "HTTP/1")) {
-                        LOG(ERRORL) << "No HTTP header";
-                        return false;
-                    } else {
-                        //Read the code. Should be 200
-                        std::string code = headers.substr(9, 3);
-                        if (code != "200") {
-                            //not supported
-                            LOG(ERRORL) << "No 200 code " << code;
-                            return false;
-                        }
-                    }
-                }
+            size_t sizeChunk = 0;
+            std::stringstream ss; //convert the string to number
+            ss << std::hex << line;
+            if (!(ss >> sizeChunk)) {
+                LOG(ERRORL) << "Size of the chunk not recognized";
+                return false;
+            }
+            if (sizeChunk == 0) {
+                break;
             }
-            if (processedHeaders && !processBody) {
-                //Determine the way to finish reading the body
-                std::string lheaders = headers;
-                std::transform(lheaders.begin(), lheaders.end(),
-                        lheaders.begin(), ::tolower);
-                if (lheaders.find("content-length:") !=
-                        std::string::npos) {
-                    isChunked = false;
-                    //Get the size of the response
-                    auto idx = lheaders.find("content-length:");
-                    std::string line = lheaders.substr(idx + 16);
-                    auto end = line.find("\r\n");
-                    std::stringstream ss;
-                    ss << line.substr(0, end);
-                    ss >> sizeChunk;
-                    processBody = true;
-                } else if (lheaders.
-                        find("transfer-encoding: chunked") !=
-                        std::string::npos) {
-                    isChunked = true;
-                    processBody = true;
-                }
+            if (!readBytes(sockfd, data, sizeChunk, response) ||
+                    !readLine(sockfd, data, line)) {
+                return false;
             }
         }
+        do { //Skip the trailer
+            if (!readLine(sockfd, data, line)) {
+                return false;
+            }
+        } while (!line.empty());
+        return true;
+    } else if (idx != std::string::npos) {
+        //Get the size of the response
+        size_t size = 0;
+        std::stringstream ss;
+        ss << lheaders.substr(idx + lengthField.size());
+        ss >> size;
+        return readBytes(sockfd, data, size, response);
+    } else {
+        //The body ends when the connection is closed
+        while (readMore(sockfd, data)) {
+        }
+        response = data;
         return true;
     }
 }
-- 
2.43.0


From 4293896a833805c07784a6d6e58018900d8137b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:17 +0000
Subject: [PATCH 065/103] fix: close the connection of the client only once

---
 src/trident/utils/httpclient.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/trident/utils/httpclient.cpp b/src/trident/utils/httpclient.cpp
index a219f34..a24c991 100644
--- a/src/trident/utils/httpclient.cpp
+++ b/src/trident/utils/httpclient.cpp
@@ -347,6 +347,7 @@ bool HttpClient::post(const std::string &path,
 void HttpClient::disconnect() {
     if (sockfd != -1) {
         close(sockfd);
+        sockfd = -1;
     }
 }
 
-- 
2.43.0


From 50a612e33a9ba4b6e0094c8c9a5afb683fe0be79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:18 +0000
Subject: [PATCH 066/103] fix: parse the port of an url

---
 src/trident/utils/httpclient.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/trident/utils/httpclient.cpp b/src/trident/utils/httpclient.cpp
index a24c991..57c3f06 100644
--- a/src/trident/utils/httpclient.cpp
+++ b/src/trident/utils/httpclient.cpp
@@ -69,24 +69,24 @@ HttpClient::URL HttpClient::parse(std::string url) {
 
     //Hostname
     advance(protI, protEnd.length());
-    std::string::const_iterator portI = find(protI, url.cend(), ':');
-    std::string::const_iterator pathI;
-    if (portI != url.end()) {
+    //The host and the port end where the path or the query starts
+    std::string::const_iterator pathI = protI;
+    while (pathI != url.cend() && *pathI != '/' && *pathI != '?') {
+        ++pathI;
+    }
+    std::string::const_iterator portI = find(protI, pathI, ':');
+    if (portI != pathI) {
         output.host.reserve(distance(protI, portI));
         transform(protI, portI,
                 back_inserter(output.host),
                 ::tolower); // host is icase
         //Parse the port number
-        pathI  = find(protI, url.cend(), '/');
-        std::string sport;
-        sport.reserve(distance(portI, pathI));
-        transform(portI, pathI,
-                back_inserter(sport),
-                ::tolower);
-        output.port = std::stoi(sport);
+        std::string sport(portI + 1, pathI);
+        if (!sport.empty()) {
+            output.port = std::stoi(sport);
+        }
 
     } else {
-        pathI  = find(protI, url.cend(), '/');
         output.host.reserve(distance(protI, pathI));
         transform(protI, pathI,
                 back_inserter(output.host),
-- 
2.43.0


From 8216d179e444a0341bddc631796abf7eae04f5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:38 +0000
Subject: [PATCH 067/103] fix: keep the plus signs of a query sent to the
 server

---
 src/trident/server/server.cpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/trident/server/server.cpp b/src/trident/server/server.cpp
index 13d58b6..df06a5b 100644
--- a/src/trident/server/server.cpp
+++ b/src/trident/server/server.cpp
@@ -92,14 +92,8 @@ void TridentServer::processRequest(std::string req, std::string &res) {
             string printresults = _getValueParam(form, "print");
             string sparqlquery = _getValueParam(form, "query");
             sparqlquery = HttpClient::unescape(sparqlquery);
-            std::regex e1("\\+");
-            std::string replacedString;
-            std::regex_replace(std::back_inserter(replacedString),
-                    sparqlquery.begin(), sparqlquery.end(),
-                    e1, "$1 ");
-            sparqlquery = replacedString;
             std::regex e2("\\r\\n");
-            replacedString = "";
+            std::string replacedString;
             std::regex_replace(std::back_inserter(replacedString),
                     sparqlquery.begin(), sparqlquery.end(), e2, "$1\n");
             sparqlquery = replacedString;
-- 
2.43.0


From 900ff50c4b0691940874325c3880905ceaa42163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:38 +0000
Subject: [PATCH 068/103] fix: look for the parameters of a request only in its
 body

---
 src/trident/server/server.cpp | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/trident/server/server.cpp b/src/trident/server/server.cpp
index df06a5b..25bd215 100644
--- a/src/trident/server/server.cpp
+++ b/src/trident/server/server.cpp
@@ -52,18 +52,29 @@ void TridentServer::stop() {
 }
 
 string _getValueParam(string req, string param) {
-    int pos = req.find(param);
-    if (pos == string::npos) {
-        return "";
-    } else {
-        int postart = req.find("=", pos);
-        int posend = req.find("&", pos);
+    param += "=";
+    size_t pos = 0;
+    while (pos < req.size()) {
+        size_t posend = req.find("&", pos);
         if (posend == string::npos) {
-            return req.substr(postart + 1);
-        } else {
-            return req.substr(postart + 1, posend - postart - 1);
+            posend = req.size();
+        }
+        if (req.compare(pos, param.size(), param) == 0) {
+            pos += param.size();
+            return req.substr(pos, posend - pos);
         }
+        pos = posend + 1;
+    }
+    return "";
+}
+
+//The content of a POST request
+string _getBody(string req) {
+    size_t pos = req.find("\r\n\r\n");
+    if (pos == string::npos) {
+        return "";
     }
+    return req.substr(pos + 4);
 }
 
 string TridentServer::lookup(string sId, TridentLayer &db) {
@@ -88,7 +99,7 @@ void TridentServer::processRequest(std::string req, std::string &res) {
         string path = req.substr(5, pos - 6);
         if (path == "/sparql") {
             //Get the SPARQL query
-            string form = req.substr(req.find("application/x-www-form-urlencoded"));
+            string form = _getBody(req);
             string printresults = _getValueParam(form, "print");
             string sparqlquery = _getValueParam(form, "query");
             sparqlquery = HttpClient::unescape(sparqlquery);
@@ -126,7 +137,7 @@ void TridentServer::processRequest(std::string req, std::string &res) {
             page = buf.str();
             isjson = true;
         } else if (path == "/lookup") {
-            string form = req.substr(req.find("application/x-www-form-urlencoded"));
+            string form = _getBody(req);
             string id = _getValueParam(form, "id");
             //Lookup the value
             string value = lookup(id, kb);
-- 
2.43.0


From 7cb070aa7416b7d1b03d1aa5b7f483ff1f329814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:38 +0000
Subject: [PATCH 069/103] fix: end the lines of the header with CRLF

---
 src/trident/server/server.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trident/server/server.cpp b/src/trident/server/server.cpp
index 25bd215..f979249 100644
--- a/src/trident/server/server.cpp
+++ b/src/trident/server/server.cpp
@@ -164,7 +164,7 @@ void TridentServer::processRequest(std::string req, std::string &res) {
         page = getDefaultPage();
     }
     if (isjson) {
-        res = "HTTP/1.1 200 OK\r\nContent-Type: application/json\nContent-Length: ";
+        res = "HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nContent-Length: ";
         res += to_string(page.size()) + "\r\n\r\n" + page;
     } else {
         res = "HTTP/1.1 200 OK\r\nContent-Length: ";
-- 
2.43.0


From cf683d7510c6cc47a7aca286e391c6c87805021d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:09 +0000
Subject: [PATCH 070/103] fix: accept any number in a lookup on the server

---
 src/trident/server/server.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/trident/server/server.cpp b/src/trident/server/server.cpp
index f979249..72976bf 100644
--- a/src/trident/server/server.cpp
+++ b/src/trident/server/server.cpp
@@ -80,10 +80,17 @@ string _getBody(string req) {
 string TridentServer::lookup(string sId, TridentLayer &db) {
     const char *start;
     const char *end;
-    unsigned id = stoi(sId);
+    uint64_t id;
+    try {
+        id = stoull(sId);
+    } catch (std::logic_error &e) {
+        return ""; //Not a number
+    }
     ::Type::ID type;
     unsigned st;
-    db.lookupById(id, start, end, type, st);
+    if (!db.lookupById(id, start, end, type, st)) {
+        return ""; //There is no such term
+    }
     return string(start, end - start);
 }
 
-- 
2.43.0


From eea1f26890f6e77c9aedc6662b875915f328810b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:09 +0000
Subject: [PATCH 071/103] fix: do not send files outside the directory of the
 pages

---
 src/trident/server/server.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/trident/server/server.cpp b/src/trident/server/server.cpp
index 72976bf..ce93953 100644
--- a/src/trident/server/server.cpp
+++ b/src/trident/server/server.cpp
@@ -203,7 +203,11 @@ string TridentServer::getPage(string f) {
         return cachehtml.find(f)->second;
     }
 
-    //Read the file (if any) and return it to the user
+    //Read the file (if any) and return it to the user. Only the files in the
+    //directory of the pages can be read
+    if (("/" + f + "/").find("/../") != string::npos) {
+        return "Error! I cannot find the page to show.";
+    }
     string pathfile = dirhtmlfiles + "/" + f;
     if (Utils::exists(pathfile)) {
         //Read the content of the file
-- 
2.43.0


From 355519ab71a9b0cbc2f107413f6ab2ef4ac4e37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:09 +0000
Subject: [PATCH 072/103] fix: process one request at a time

---
 include/trident/server/server.h |  5 ++++-
 src/trident/server/server.cpp   | 15 ++++++++++++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/trident/server/server.h b/include/trident/server/server.h
index 5596b94..aaa2093 100644
--- a/include/trident/server/server.h
+++ b/include/trident/server/server.h
@@ -12,7 +12,9 @@
 #include <cts/parser/SPARQLParser.hpp>
 #include <rts/runtime/QueryDict.hpp>
 
+#include <atomic>
 #include <map>
+#include <mutex>
 
 using namespace std;
 
@@ -26,7 +28,8 @@ class TridentServer {
         std::thread t;
         string cmdArgs;
 
-        bool isActive;
+        std::atomic<bool> isActive;
+        std::mutex mutexRequest;
         int webport;
         std::shared_ptr<HttpServer> server;
         int nthreads;
diff --git a/src/trident/server/server.cpp b/src/trident/server/server.cpp
index ce93953..889c7de 100644
--- a/src/trident/server/server.cpp
+++ b/src/trident/server/server.cpp
@@ -95,7 +95,18 @@ string TridentServer::lookup(string sId, TridentLayer &db) {
 }
 
 void TridentServer::processRequest(std::string req, std::string &res) {
-    setActive();
+    //The knowledge base and the cache of the pages cannot be used by more threads
+    std::lock_guard<std::mutex> lock(mutexRequest);
+    //The request is over also if there is an exception
+    struct Active {
+        TridentServer *server;
+        Active(TridentServer *server) : server(server) {
+            server->setActive();
+        }
+        ~Active() {
+            server->setInactive();
+        }
+    } active(this);
     //Get the page
     string page;
     string message = "";
@@ -184,8 +195,6 @@ void TridentServer::processRequest(std::string req, std::string &res) {
       shared_from_this(),
       boost::asio::placeholders::error,
       boost::asio::placeholders::bytes_transferred));*/
-
-    setInactive();
 }
 
 /*void TridentServer::Server::writeHandler(const boost::system::error_code &err,
-- 
2.43.0


From be04e150dfe13c35f76731b224eb6987e23070fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:09 +0000
Subject: [PATCH 073/103] fix: write lists without elements as lists

---
 include/trident/utils/json.h  | 9 +++++++++
 src/trident/sparql/sparql.cpp | 6 ++++++
 src/trident/utils/json.cpp    | 8 ++++++++
 3 files changed, 23 insertions(+)

diff --git a/include/trident/utils/json.h b/include/trident/utils/json.h
index 577eaf0..3d1b709 100644
--- a/include/trident/utils/json.h
+++ b/include/trident/utils/json.h
@@ -20,7 +20,16 @@ class JSON {
         std::vector<std::string> listvalues;
         std::vector<JSON> listchildren;
 
+        bool isArray; //Also if there are no elements
+
     public:
+        JSON() : isArray(false) {
+        }
+
+        void setArray() {
+            isArray = true;
+        }
+
         void put(std::string name, std::string value) {
             if (name=="")
                 throw 10;
diff --git a/src/trident/sparql/sparql.cpp b/src/trident/sparql/sparql.cpp
index 8af812f..7a03cba 100644
--- a/src/trident/sparql/sparql.cpp
+++ b/src/trident/sparql/sparql.cpp
@@ -53,6 +53,12 @@ void SPARQLUtils::execSPARQLQuery(string sparqlquery,
         JSON *jsonvars,
         JSON *jsonresults,
         JSON *jsonstats) {
+    if (jsonvars) {
+        jsonvars->setArray();
+    }
+    if (jsonresults) {
+        jsonresults->setArray();
+    }
     std::unique_ptr<QueryDict> queryDict = std::unique_ptr<QueryDict>(
             new QueryDict(nterms));
     std::unique_ptr<QueryGraph> queryGraph;
diff --git a/src/trident/utils/json.cpp b/src/trident/utils/json.cpp
index f2a3fa5..31ff7e8 100644
--- a/src/trident/utils/json.cpp
+++ b/src/trident/utils/json.cpp
@@ -45,6 +45,12 @@ void JSON::write(std::ostream &out, JSON &value) {
             firstel = false;
         }
         out << "]";
+    } else if (value.isArray) {
+        if (!value.values.empty() ||
+                !value.children.empty()) {
+            throw 10;
+        }
+        out << "[]";
     } else {
         out << "{";
         bool first = true;
@@ -110,6 +116,7 @@ void parse_value(const rapidjson::Value &src, JSON &dest) {
                 std::vector<std::string> c2;
                 parse_array(itr->value, c1, c2, isArrayOfObjects);
                 JSON cvalue;
+                cvalue.setArray();
                 if (isArrayOfObjects) {
                     for(auto &c : c1) {
                         cvalue.push_back(c);
@@ -125,6 +132,7 @@ void parse_value(const rapidjson::Value &src, JSON &dest) {
             }
         }
     } else if (src.IsArray()) { //array
+        dest.setArray();
         bool isArrayOfObjects = false;
         std::vector<JSON> c1;
         std::vector<std::string> c2;
-- 
2.43.0


From 802ac2c88a558044dfaffe8ad0719cc3a528d39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:19 +0000
Subject: [PATCH 074/103] fix: answer unions of which only one part can match

A part with a term that the dictionary does not have is dropped; the plan of
a merge union read a second part that is not there.
---
 rdf3x/src/cts/PlanGen.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf3x/src/cts/PlanGen.cpp b/rdf3x/src/cts/PlanGen.cpp
index 5b2d201..bf5bf54 100644
--- a/rdf3x/src/cts/PlanGen.cpp
+++ b/rdf3x/src/cts/PlanGen.cpp
@@ -804,7 +804,7 @@ PlanGen::Problem* PlanGen::buildUnion(const vector<QueryGraph::SubQuery>& query,
     for (vector<QueryGraph::SubQuery>::const_iterator iter = query.begin(), limit = query.end(); iter != limit; ++iter)
         collectVariables(*iter, unionVars, 0);
     set_intersection(otherVars.begin(), otherVars.end(), unionVars.begin(), unionVars.end(), back_inserter(commonVars));
-    if (commonVars.size() == 1) {
+    if (commonVars.size() == 1 && solutions.size() > 1) {
         unsigned resultVar = commonVars[0];
         // Can we get all plans sorted in this way?
         bool canMerge = true;
-- 
2.43.0


From 2dd1e9ff7a3fdfa56034e87129e65e7a216b017c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:19 +0000
Subject: [PATCH 075/103] fix: keep the solutions if the pattern of a NOT
 EXISTS cannot match

---
 rdf3x/src/cts/SemanticAnalysis.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/rdf3x/src/cts/SemanticAnalysis.cpp b/rdf3x/src/cts/SemanticAnalysis.cpp
index 1485e7c..4b99610 100644
--- a/rdf3x/src/cts/SemanticAnalysis.cpp
+++ b/rdf3x/src/cts/SemanticAnalysis.cpp
@@ -498,7 +498,15 @@ static bool encodeFilter(SemanticAnalysis *myself, DBLayer& dict, DifferentialIn
 
     // Encode recursively
     output.filters.push_back(QueryGraph::Filter());
-    return encodeFilter(myself, dict, diffIndex, group, input, output.filters.back(), tempQueryDict, currentQueryGraph);
+    if (!encodeFilter(myself, dict, diffIndex, group, input, output.filters.back(), tempQueryDict, currentQueryGraph)) {
+        if (input.type == SPARQLParser::Filter::Builtin_notexists) {
+            // The pattern cannot match, thus the condition always holds
+            output.filters.pop_back();
+            return true;
+        }
+        return false;
+    }
+    return true;
 }
 //---------------------------------------------------------------------------
 static bool encodeAssignment(SemanticAnalysis *myself,
-- 
2.43.0


From b0486665aebed46a467562c0dff339508ab12387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:11 +0000
Subject: [PATCH 076/103] fix: accept terms in VALUES that are not in the
 dictionary

One such term emptied the whole answer, also the rows with other terms.
---
 rdf3x/include/rts/runtime/QueryDict.hpp | 21 +++++++++++++++++++++
 rdf3x/src/cts/SemanticAnalysis.cpp      | 20 +++++++++++++++++++-
 rdf3x/src/rts/ResultsPrinter.cpp        |  4 ++--
 3 files changed, 42 insertions(+), 3 deletions(-)

diff --git a/rdf3x/include/rts/runtime/QueryDict.hpp b/rdf3x/include/rts/runtime/QueryDict.hpp
index 0d9d9a1..0e3d45d 100644
--- a/rdf3x/include/rts/runtime/QueryDict.hpp
+++ b/rdf3x/include/rts/runtime/QueryDict.hpp
@@ -8,6 +8,7 @@ private:
     uint64_t nextId;
     std::unordered_map<uint64_t, std::string> map;
     std::unordered_map<std::string, uint64_t> invertedMap;
+    std::unordered_map<std::string, uint64_t> iris;
 
 public:
     QueryDict(uint64_t nextId) : nextId(nextId) {}
@@ -35,6 +36,26 @@ public:
         }
     }
 
+    uint64_t addIRI(const std::string &iri) {
+        std::unordered_map<std::string, uint64_t>::iterator itr = iris.find(iri);
+        if (itr == iris.end()) {
+            iris.insert(std::make_pair(iri, nextId));
+            map.insert(std::make_pair(nextId, iri));
+            return nextId++;
+        } else {
+            return itr->second;
+        }
+    }
+
+    bool isIRI(uint64_t id) const {
+        std::unordered_map<uint64_t, std::string>::const_iterator itr = map.find(id);
+        if (itr == map.end()) {
+            return false;
+        }
+        std::unordered_map<std::string, uint64_t>::const_iterator iri = iris.find(itr->second);
+        return iri != iris.end() && iri->second == id;
+    }
+
     std::pair<char*, char*> getStringBoundaries(uint64_t id) {
         std::pair<char*, char*> pair;
         std::unordered_map<uint64_t, std::string>::iterator itr = map.find(id);
diff --git a/rdf3x/src/cts/SemanticAnalysis.cpp b/rdf3x/src/cts/SemanticAnalysis.cpp
index 4b99610..7dba2f2 100644
--- a/rdf3x/src/cts/SemanticAnalysis.cpp
+++ b/rdf3x/src/cts/SemanticAnalysis.cpp
@@ -66,6 +66,18 @@ static bool lookup(DBLayer& dict, DifferentialIndex* diffIndex, const std::strin
     return false;
 }
 //---------------------------------------------------------------------------
+static std::string literalText(const SPARQLParser::Element& element)
+    // The text of a literal
+{
+    std::string text = "\"" + element.value + "\"";
+    if (element.subType == SPARQLParser::Element::CustomLanguage) {
+        text += "@" + element.subTypeValue;
+    } else if (element.subType == SPARQLParser::Element::CustomType) {
+        text += "^^<" + element.subTypeValue + ">";
+    }
+    return text;
+}
+//---------------------------------------------------------------------------
 static bool encode(DBLayer& dict, DifferentialIndex* diffIndex, const SPARQLParser::Element& element, uint64_t& id, bool& constant)
     // Encode an element for the query graph
 {
@@ -618,7 +630,13 @@ static bool transformSubquery(SemanticAnalysis *myself, DBLayer& dict,
             bool constV;
             uint64_t v;
             if ((!encode(dict, diffIndex, value, v, constV))) {
-                return false;
+                // The term is not in the database, but it can be in the result
+                if (value.type == SPARQLParser::Element::IRI) {
+                    v = tempQueryDict.addIRI(value.value);
+                } else {
+                    std::string text = literalText(value);
+                    v = tempQueryDict.add(text);
+                }
             }
             n.values.push_back(v);
         }
diff --git a/rdf3x/src/rts/ResultsPrinter.cpp b/rdf3x/src/rts/ResultsPrinter.cpp
index c7d8bdb..5c448a6 100644
--- a/rdf3x/src/rts/ResultsPrinter.cpp
+++ b/rdf3x/src/rts/ResultsPrinter.cpp
@@ -307,7 +307,7 @@ uint64_t ResultsPrinter::first()
                         std::pair<char*, char*> pair = dictQuery->getStringBoundaries(id);
                         c.start = pair.first;
                         c.stop = pair.second;
-                        c.type = Type::Literal;
+                        c.type = dictQuery->isIRI(id) ? Type::URI : Type::Literal;
                     } else {
                         if (tempDict)
                             tempDict->lookupById(id, c.start, c.stop, c.type, c.subType);
@@ -387,7 +387,7 @@ uint64_t ResultsPrinter::first()
             std::pair<char*, char*> pair = dictQuery->getStringBoundaries(iter->first);
             c.start = pair.first;
             c.stop = pair.second;
-            c.type = Type::Literal;
+            c.type = dictQuery->isIRI(iter->first) ? Type::URI : Type::Literal;
         } else {
             if (tempDict)
                 tempDict->lookupById((*iter).first, c.start, c.stop, c.type, c.subType);
-- 
2.43.0


From a9084440c4864bba4e1827fa0fba27482850dd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:11 +0000
Subject: [PATCH 077/103] fix: ignore the terms of IN that are not in the
 dictionary

They made the filter allocate and scan a table of 4 GB.
---
 rdf3x/src/cts/CodeGen.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rdf3x/src/cts/CodeGen.cpp b/rdf3x/src/cts/CodeGen.cpp
index bd26af2..702ef33 100644
--- a/rdf3x/src/cts/CodeGen.cpp
+++ b/rdf3x/src/cts/CodeGen.cpp
@@ -777,7 +777,10 @@ static Operator* translateFilter(Runtime& runtime, const map<unsigned, Register*
                     valid = false;
                     break;
                 }
-                values.push_back(iter->arg1->id);
+                // No value equals a term that is not in the dictionary
+                if (iter->arg1->id != ~0u) {
+                    values.push_back(iter->arg1->id);
+                }
             }
         }
         if (valid) {
-- 
2.43.0


From 8aa135a8609891f5cfabadb22a88310fbc895996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:13 +0000
Subject: [PATCH 078/103] fix: an aggregate without GROUP BY has one row if
 nothing matches

---
 rdf3x/include/rts/operator/AggrFunctions.hpp |  2 ++
 rdf3x/src/rts/AggrFunctions.cpp              | 15 ++++++++++++++-
 src/trident/sparql/aggrhandler.cpp           | 14 ++++----------
 3 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/rdf3x/include/rts/operator/AggrFunctions.hpp b/rdf3x/include/rts/operator/AggrFunctions.hpp
index 3e096e7..c90df0f 100644
--- a/rdf3x/include/rts/operator/AggrFunctions.hpp
+++ b/rdf3x/include/rts/operator/AggrFunctions.hpp
@@ -20,9 +20,11 @@ class AggrFunctions : public Operator {
         std::vector<std::pair<unsigned,Register*>> varsToReturn;
         std::vector<uint64_t> currentGroupKeys;
         uint64_t currentCount;
+        const bool implicitGroup;
 
         void readKeys();
         void processGroup();
+        void finishGroup();
         bool sameKeyAsCurrent();
         void copyVars();
 
diff --git a/rdf3x/src/rts/AggrFunctions.cpp b/rdf3x/src/rts/AggrFunctions.cpp
index 57343c2..148e771 100644
--- a/rdf3x/src/rts/AggrFunctions.cpp
+++ b/rdf3x/src/rts/AggrFunctions.cpp
@@ -12,7 +12,8 @@ AggrFunctions::AggrFunctions(DBLayer& db, Operator* child,
         const AggregateHandler &hdl,
         const std::vector<unsigned> &groupKeys,
         double expectedOutputCardinality) : Operator(expectedOutputCardinality),
-    dict(db), child(child), hdl(hdl) {
+    dict(db), child(child), hdl(hdl),
+    implicitGroup(groupKeys.empty()) {
         for(unsigned v : groupKeys) {
             // assert(bindings.count(v));
 	    if (bindings.count(v)) {
@@ -49,6 +50,9 @@ void AggrFunctions::copyVars() {
             uint64_t val = hdl.getValueInt(varsToReturn[i].first);
             val = val | DICTMGMT_INTEGER;
             varsToReturn[i].second->value = val;
+        } else if (hdl.getValueType(varsToReturn[i].first)
+                == AggregateHandler::VarValue::TYPE::NUL) {
+            varsToReturn[i].second->value = ~(uint64_t) 0; //Unbound
         } else {
             assert(hdl.getValueType(varsToReturn[i].first)
                     == AggregateHandler::VarValue::TYPE::DEC);
@@ -173,6 +177,10 @@ void AggrFunctions::processGroup() {
         }
     }
 
+    finishGroup();
+}
+
+void AggrFunctions::finishGroup() {
     //Add an empty row to tell the handler that the group is finished
     hdl.startUpdate();
     for(auto &var : varsToUpdate) {
@@ -194,6 +202,11 @@ uint64_t AggrFunctions::first() {
         //Update the variables produced by the aggregated functions
         observedOutputCardinality++;
         return 1;
+    } else if (implicitGroup) {
+        //Without GROUP BY there is one group, also if it has no rows
+        finishGroup();
+        observedOutputCardinality++;
+        return 1;
     } else {
         return 0;
     }
diff --git a/src/trident/sparql/aggrhandler.cpp b/src/trident/sparql/aggrhandler.cpp
index 091306f..9b49fa3 100644
--- a/src/trident/sparql/aggrhandler.cpp
+++ b/src/trident/sparql/aggrhandler.cpp
@@ -256,11 +256,8 @@ bool AggregateHandler::execAvg(FunctCall &call) {
 bool AggregateHandler::execMax(FunctCall &call) {
     if (varvalues[call.inputvar].type  == VarValue::TYPE::NUL) {
 	if (call.arg2_bool) {
-	    // No values yet. This is an error. How to deal with that? TODO!
-            LOG(ERRORL) << "No values for MAX";
-	    throw 10;
-	    // varvalues[call.outputvar].v_int = 0;
-            // varvalues[call.outputvar].type = VarValue::TYPE::INT;
+	    // No values, thus the result is unbound
+            varvalues[call.outputvar].type = VarValue::TYPE::NUL;
 	} else {
 	    if (call.arg1_bool) { //Int
 		varvalues[call.outputvar].v_int = call.arg1_int;
@@ -319,11 +316,8 @@ bool AggregateHandler::execMin(FunctCall &call) {
     // TODO: MIN and MAX should work for strings as well ...
     if (varvalues[call.inputvar].type  == VarValue::TYPE::NUL) {
 	if (call.arg2_bool) {
-	    // No values yet. This is an error. How to deal with that? TODO!
-            LOG(ERRORL) << "No values for MIN";
-	    throw 10;
-	    // varvalues[call.outputvar].v_int = 0;
-            // varvalues[call.outputvar].type = VarValue::TYPE::INT;
+	    // No values, thus the result is unbound
+            varvalues[call.outputvar].type = VarValue::TYPE::NUL;
 	} else {
 	    if (call.arg1_bool) { //Int
 		varvalues[call.outputvar].v_int = call.arg1_int;
-- 
2.43.0


From 2afffc6f20a6bcb4cf10822cb4382f325b2d1bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:46 +0000
Subject: [PATCH 079/103] fix: compute aggregates with and without DISTINCT
 independently

---
 include/trident/sparql/aggrhandler.h | 18 ++++--------------
 rdf3x/src/cts/SemanticAnalysis.cpp   |  3 +--
 src/trident/sparql/aggrhandler.cpp   | 17 ++++++++---------
 3 files changed, 13 insertions(+), 25 deletions(-)

diff --git a/include/trident/sparql/aggrhandler.h b/include/trident/sparql/aggrhandler.h
index 2c17f01..c08f674 100644
--- a/include/trident/sparql/aggrhandler.h
+++ b/include/trident/sparql/aggrhandler.h
@@ -22,6 +22,7 @@ class AggregateHandler {
     private:
         struct FunctCall {
             FUNC id;
+            bool distinct;
             uint64_t inputmask;
             uint64_t outputmask;
             unsigned inputvar; //Id input var
@@ -42,8 +43,8 @@ class AggregateHandler {
 
 
         unsigned varcount;
-        std::map<FUNC,std::map<unsigned,unsigned>> assignments;
-        bool distinct[FUNC::NFUNCS];
+        //The functions with and without DISTINCT have different results
+        std::map<std::pair<FUNC,bool>,std::map<unsigned,unsigned>> assignments;
         uint64_t inputmask;
         std::vector<VarValue> varvalues;
         std::vector<FunctCall> executions;
@@ -59,12 +60,9 @@ class AggregateHandler {
 
     public:
         AggregateHandler(unsigned varcount) : varcount(varcount) {
-            for (int i = 0; i < FUNC::NFUNCS; i++) {
-                distinct[i] = false;
-            }
         }
 
-        unsigned getNewOrExistingVar(FUNC funID,
+        unsigned getNewOrExistingVar(FUNC funID, bool distinct,
                 std::vector<unsigned> &signature);
 
         unsigned getVarCount() const {
@@ -75,14 +73,6 @@ class AggregateHandler {
             return assignments.empty();
         }
 
-        void setDistinct(FUNC funID, bool distinct) {
-            this->distinct[funID] = distinct;
-        }
-
-        bool getDistinct(FUNC funID) const {
-            return distinct[funID];
-        }
-
         void prepare();
 
         void reset();
diff --git a/rdf3x/src/cts/SemanticAnalysis.cpp b/rdf3x/src/cts/SemanticAnalysis.cpp
index 7dba2f2..f7b1d54 100644
--- a/rdf3x/src/cts/SemanticAnalysis.cpp
+++ b/rdf3x/src/cts/SemanticAnalysis.cpp
@@ -350,9 +350,8 @@ static bool createAggregatedFilter(QueryGraph::Filter& output,
         getVars(*args, vars);
     unsigned aggrVar = currentQueryGraph.getAggredateHandler().
         getNewOrExistingVar(
-                f, vars);
+                f, distinct, vars);
     output.type = QueryGraph::Filter::Builtin_aggr;
-    currentQueryGraph.getAggredateHandler().setDistinct(f, distinct);
     output.id = aggrVar;
     return true;
 }
diff --git a/src/trident/sparql/aggrhandler.cpp b/src/trident/sparql/aggrhandler.cpp
index 9b49fa3..82ba005 100644
--- a/src/trident/sparql/aggrhandler.cpp
+++ b/src/trident/sparql/aggrhandler.cpp
@@ -9,16 +9,14 @@
 #include <cstring>
 
 unsigned AggregateHandler::getNewOrExistingVar(AggregateHandler::FUNC funID,
+        bool distinct,
         std::vector<unsigned> &signature) {
     if (signature.size() != 1) {
         LOG(ERRORL) << "For now, I only support aggregates with one variable in input";
         throw 10;
     }
     unsigned v = signature[0];
-    if (!assignments.count(funID)) {
-        assignments[funID] = std::map<unsigned, unsigned>();
-    }
-    auto &map = assignments[funID];
+    auto &map = assignments[std::make_pair(funID, distinct)];
     if (!map.count(v)) {
         map[v] = varcount;
         varcount++;
@@ -34,10 +32,11 @@ void AggregateHandler::prepare() {
     executions.clear();
     varvalues.resize(64); //Max number of vars
     for(auto &el : assignments) {
-        FUNC id = el.first;
+        FUNC id = el.first.first;
         for(auto &assignment : el.second) {
             FunctCall call;
             call.id = id;
+            call.distinct = el.first.second;
             call.inputmask = (uint64_t) 1 << assignment.first;
             call.outputmask = (uint64_t) 1 << assignment.second;
             call.inputvar = assignment.first;
@@ -137,7 +136,7 @@ AggregateHandler::VarValue::TYPE AggregateHandler::getValueType(
 
 bool AggregateHandler::executeFunction(FunctCall &call) {
     const VarValue &input = varvalues[call.inputvar];
-    if (distinct[call.id] && input.type != VarValue::TYPE::NUL) {
+    if (call.distinct && input.type != VarValue::TYPE::NUL) {
         uint64_t value = input.v_int;
         if (input.type == VarValue::TYPE::DEC)
             memcpy(&value, &input.v_dec, sizeof(value));
@@ -174,7 +173,7 @@ bool AggregateHandler::execCount(FunctCall &call) {
         varvalues[call.outputvar].type = VarValue::TYPE::INT;
         return true;
     } else {
-        call.arg1_int += distinct[call.id] ? 1 : varvalues[call.inputvar].v_count;
+        call.arg1_int += call.distinct ? 1 : varvalues[call.inputvar].v_count;
         return false;
     }
 }
@@ -192,7 +191,7 @@ bool AggregateHandler::execSum(FunctCall &call) {
         }
 	return true;
     } else {
-        const int64_t n = distinct[call.id] ? 1 : varvalues[call.inputvar].v_count;
+        const int64_t n = call.distinct ? 1 : varvalues[call.inputvar].v_count;
         //Need to get the numerical value of the input
         if (varvalues[call.inputvar].type  == VarValue::TYPE::INT) {
             //Check the internal value
@@ -230,7 +229,7 @@ bool AggregateHandler::execAvg(FunctCall &call) {
 	}
 	return true;
     } else {
-        const int64_t n = distinct[call.id] ? 1 : varvalues[call.inputvar].v_count;
+        const int64_t n = call.distinct ? 1 : varvalues[call.inputvar].v_count;
 	call.arg2_int += n;
         //Need to get the numerical value of the input
         if (varvalues[call.inputvar].type  == VarValue::TYPE::INT) {
-- 
2.43.0


From cb650988117684104958f4c0117fcdeec0611300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:00 +0000
Subject: [PATCH 080/103] fix: look up literals with a language or a custom
 type with it

Only the value was looked up, and only if the language itself was a term:
"en"@en found "en" or nothing.
---
 rdf3x/src/cts/SemanticAnalysis.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/rdf3x/src/cts/SemanticAnalysis.cpp b/rdf3x/src/cts/SemanticAnalysis.cpp
index f7b1d54..f4f587d 100644
--- a/rdf3x/src/cts/SemanticAnalysis.cpp
+++ b/rdf3x/src/cts/SemanticAnalysis.cpp
@@ -93,10 +93,7 @@ static bool encode(DBLayer& dict, DifferentialIndex* diffIndex, const SPARQLPars
                     return true;
                 } else return false;
             } else if (element.subType == SPARQLParser::Element::CustomLanguage) {
-                uint64_t languageId;
-                if (!lookup(dict, diffIndex, element.subTypeValue, Type::Literal, 0, languageId))
-                    return false;
-                if (lookup(dict, diffIndex, element.value, Type::CustomLanguage, languageId, id)) {
+                if (lookup(dict, diffIndex, literalText(element), Type::Literal, 0, id)) {
                     constant = true;
                     return true;
                 } else return false;
@@ -116,9 +113,10 @@ static bool encode(DBLayer& dict, DifferentialIndex* diffIndex, const SPARQLPars
                 } else if (element.subTypeValue == "http://www.w3.org/2001/XMLSchema#boolean") {
                     type = Type::Boolean;
                 } else {
-                    if (!lookup(dict, diffIndex, element.subTypeValue, Type::URI, 0, subType))
-                        return false;
-                    type = Type::CustomType;
+                    if (lookup(dict, diffIndex, literalText(element), Type::Literal, 0, id)) {
+                        constant = true;
+                        return true;
+                    } else return false;
                 }
                 if (lookup(dict, diffIndex, element.value, type, subType, id)) {
                     constant = true;
-- 
2.43.0


From d9ddbda9c9285130bbe69b2b0127c0092eda2673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:00 +0000
Subject: [PATCH 081/103] fix: report the variables of a query that is known to
 be empty

---
 src/trident/sparql/sparql.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/trident/sparql/sparql.cpp b/src/trident/sparql/sparql.cpp
index 7a03cba..b75e430 100644
--- a/src/trident/sparql/sparql.cpp
+++ b/src/trident/sparql/sparql.cpp
@@ -71,6 +71,19 @@ void SPARQLUtils::execSPARQLQuery(string sparqlquery,
     std::chrono::system_clock::time_point start = std::chrono::system_clock::now();
     parseQuery(parsingOk, *parser.get(), queryGraph, *queryDict.get(), db);
     if (!parsingOk) {
+        if (queryGraph && queryGraph->knownEmpty()) {
+            //The query is fine, it just has no answers
+            if (jsonvars) {
+                for (SPARQLParser::projection_iterator itr = parser->projectionBegin();
+                        itr != parser->projectionEnd(); ++itr) {
+                    jsonvars->push_back(parser->getVariableName(*itr));
+                }
+            }
+            if (jsonstats) {
+                jsonstats->put("runtime", to_string(0.0));
+                jsonstats->put("nresults", to_string(0));
+            }
+        }
         std::chrono::duration<double> duration = std::chrono::system_clock::now() - start;
         LOG(INFOL) << "Runtime query: 0ms.";
         LOG(INFOL) << "Runtime total: " << duration.count() * 1000 << "ms.";
-- 
2.43.0


From a9334bf4925de6859d681d4c72d7ae6dbb2bf7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:00 +0000
Subject: [PATCH 082/103] fix: do not take a literal in angle brackets for an
 IRI

---
 src/layers/TridentLayer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/layers/TridentLayer.cpp b/src/layers/TridentLayer.cpp
index 1aa8cb1..05b4c04 100644
--- a/src/layers/TridentLayer.cpp
+++ b/src/layers/TridentLayer.cpp
@@ -44,7 +44,9 @@ bool TridentLayer::lookup(const std::string& text,
         string uri = "<" + text + ">";
         resp = dict->getNumber(uri.c_str(), uri.size(), &longid);
     } else {
-        resp = dict->getNumber(text.c_str(), text.size(), &longid);
+        // A literal that looks like an IRI is not this IRI
+        resp = (text.empty() || text[0] != '<')
+            && dict->getNumber(text.c_str(), text.size(), &longid);
         if (! resp) {
             string tp = "";
             switch(type) {
-- 
2.43.0


From aafcffc72c045365b25607bb0be654c5309a3b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:24 +0000
Subject: [PATCH 083/103] fix: count the distinct rows if the rows are not
 wanted

---
 rdf3x/src/rts/ResultsPrinter.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rdf3x/src/rts/ResultsPrinter.cpp b/rdf3x/src/rts/ResultsPrinter.cpp
index 5c448a6..e96c582 100644
--- a/rdf3x/src/rts/ResultsPrinter.cpp
+++ b/rdf3x/src/rts/ResultsPrinter.cpp
@@ -258,6 +258,13 @@ uint64_t ResultsPrinter::first()
     if (silent && !jsonoutput) {
         //Count the rows and output a single line
         do {
+	    if (duplicateHandling != ExpandDuplicates) {
+		if (duplicateHandling == ShowDuplicates && count < 2) {
+		    continue;
+		}
+		// One row, whatever its count
+		count = 1;
+	    }
 	    if (o > 0) {
 		if (o >= count) {
 		    o -= count;
-- 
2.43.0


From 305e157210e1523f848fb3a224cf9bc01cf22a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:04 +0000
Subject: [PATCH 084/103] fix: reading the last triple of a batch file went
 three bytes past its end

---
 src/trident/ml/batch.cpp | 68 +++++++++++++++++-----------------------
 1 file changed, 28 insertions(+), 40 deletions(-)

diff --git a/src/trident/ml/batch.cpp b/src/trident/ml/batch.cpp
index a8c9498..d137cfb 100644
--- a/src/trident/ml/batch.cpp
+++ b/src/trident/ml/batch.cpp
@@ -3,6 +3,7 @@
 #include <trident/kb/querier.h>
 
 #include <fstream>
+#include <cstring>
 #include <algorithm>
 #include <random>
 #include <unordered_map>
@@ -152,22 +153,23 @@ void BatchCreator::createInputForBatch(bool createTraining,
     LOG(INFOL) << "Done";
 }
 
+//Every term of a triple takes five bytes
+static uint64_t readTerm(const char *p) {
+    uint64_t v = 0;
+    memcpy(&v, p, 5);
+    return v;
+}
+
 struct _pso {
     const char *rawtriples;
     _pso(const char *rawtriples) : rawtriples(rawtriples) {}
     bool operator() (const uint64_t idx1, const uint64_t idx2) const {
-        int64_t s1 = *(int64_t*)(rawtriples + idx1 * 15);
-        s1 = s1 & 0xFFFFFFFFFFl;
-        int64_t p1 = *(int64_t*)(rawtriples + idx1 * 15 + 5);
-        p1 = p1 & 0xFFFFFFFFFFl;
-        int64_t o1 = *(int64_t*)(rawtriples + idx1 * 15 + 10);
-        o1 = o1 & 0xFFFFFFFFFFl;
-        int64_t s2 = *(int64_t*)(rawtriples + idx2 * 15);
-        s2 = s2 & 0xFFFFFFFFFFl;
-        int64_t p2 = *(int64_t*)(rawtriples + idx2 * 15 + 5);
-        p2 = p2 & 0xFFFFFFFFFFl;
-        int64_t o2 = *(int64_t*)(rawtriples + idx2 * 15 + 10);
-        o2 = o2 & 0xFFFFFFFFFFl;
+        int64_t s1 = readTerm(rawtriples + idx1 * 15);
+        int64_t p1 = readTerm(rawtriples + idx1 * 15 + 5);
+        int64_t o1 = readTerm(rawtriples + idx1 * 15 + 10);
+        int64_t s2 = readTerm(rawtriples + idx2 * 15);
+        int64_t p2 = readTerm(rawtriples + idx2 * 15 + 5);
+        int64_t o2 = readTerm(rawtriples + idx2 * 15 + 10);
         if (p1 != p2) {
             return p1 < p2;
         } else if (s1 != s2) {
@@ -182,8 +184,7 @@ int64_t BatchCreator::findFirstOccurrence(int64_t start, int64_t end, uint64_t x
     int64_t idxTerm = -1;
     while (start <= end) {
         int64_t middle = start + (end - start) / 2;
-        int64_t term = *(int64_t*)(rawtriples + middle * 15 + offset);
-        term = term & 0xFFFFFFFFFFl;
+        int64_t term = readTerm(rawtriples + middle * 15 + offset);
         if (term < x) {
             start = middle + 1;
         } else if (term > x) {
@@ -200,8 +201,7 @@ int64_t BatchCreator::findLastOccurrence(int64_t start, int64_t end, uint64_t x,
     int64_t idxTerm = -1;
     while (start <= end) {
         int64_t middle = start + (end - start) / 2;
-        int64_t term = *(int64_t*)(rawtriples + middle * 15 + offset);
-        term = term & 0xFFFFFFFFFFl;
+        int64_t term = readTerm(rawtriples + middle * 15 + offset);
         if (term < x) {
             start = middle + 1;
         } else if (term > x) {
@@ -383,12 +383,9 @@ bool BatchCreator::getBatch(std::vector<uint64_t> &output) {
         int64_t idx = indices[currentidx];
         uint64_t s,p,o;
         if (createBatchFile) {
-            s = *(uint64_t*)(rawtriples + idx * 15);
-            s = s & 0xFFFFFFFFFFl;
-            p = *(uint64_t*)(rawtriples + idx * 15 + 5);
-            p = p & 0xFFFFFFFFFFl;
-            o = *(uint64_t*)(rawtriples + idx * 15 + 10);
-            o = o & 0xFFFFFFFFFFl;
+            s = readTerm(rawtriples + idx * 15);
+            p = readTerm(rawtriples + idx * 15 + 5);
+            o = readTerm(rawtriples + idx * 15 + 10);
         } else {
             kbbatch->getAt(idx, s, p, o);
         }
@@ -425,12 +422,9 @@ bool BatchCreator::getBatchNr(uint64_t nr, std::vector<uint64_t> &output1,
         int64_t idx = indices[cidx];
         uint64_t s, p, o;
         if (createBatchFile) {
-            s = *(uint64_t *)(rawtriples + idx * 15);
-            s = s & 0xFFFFFFFFFFl;
-            p = *(uint64_t *)(rawtriples + idx * 15 + 5);
-            p = p & 0xFFFFFFFFFFl;
-            o = *(uint64_t *)(rawtriples + idx * 15 + 10);
-            o = o & 0xFFFFFFFFFFl;
+            s = readTerm(rawtriples + idx * 15);
+            p = readTerm(rawtriples + idx * 15 + 5);
+            o = readTerm(rawtriples + idx * 15 + 10);
         } else {
             kbbatch->getAt(idx, s, p, o);
         }
@@ -463,12 +457,9 @@ bool BatchCreator::getBatch(std::vector<uint64_t> &output1,
         int64_t idx = indices[currentidx];
         uint64_t s,p,o;
         if (createBatchFile) {
-            s = *(uint64_t *)(rawtriples + idx * 15);
-            s = s & 0xFFFFFFFFFFl;
-            p = *(uint64_t *)(rawtriples + idx * 15 + 5);
-            p = p & 0xFFFFFFFFFFl;
-            o = *(uint64_t *)(rawtriples + idx * 15 + 10);
-            o = o & 0xFFFFFFFFFFl;
+            s = readTerm(rawtriples + idx * 15);
+            p = readTerm(rawtriples + idx * 15 + 5);
+            o = readTerm(rawtriples + idx * 15 + 10);
         } else {
             kbbatch->getAt(idx, s, p, o);
         }
@@ -493,12 +484,9 @@ void BatchCreator::loadTriples(string path, std::vector<uint64_t> &output) {
     char *start = mf.getData();
     char *end = start + mf.getLength();
     while (start < end) {
-        int64_t s = *(int64_t*)(start);
-        s = s & 0xFFFFFFFFFFl;
-        int64_t p = *(int64_t*)(start + 5);
-        p = p & 0xFFFFFFFFFFl;
-        int64_t o = *(int64_t*)(start + 10);
-        o = o & 0xFFFFFFFFFFl;
+        int64_t s = readTerm(start);
+        int64_t p = readTerm(start + 5);
+        int64_t o = readTerm(start + 10);
         output.push_back(s);
         output.push_back(p);
         output.push_back(o);
-- 
2.43.0


From 840a75f3d1d0c97b79d718a93a909c3d07f432eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:04 +0000
Subject: [PATCH 085/103] fix: the search for the triples of a batch query read
 past the last triple

---
 src/trident/ml/batch.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/trident/ml/batch.cpp b/src/trident/ml/batch.cpp
index d137cfb..c2e54a3 100644
--- a/src/trident/ml/batch.cpp
+++ b/src/trident/ml/batch.cpp
@@ -234,10 +234,10 @@ void BatchCreator::populateIndicesFromQuery(int64_t s, int64_t p, int64_t o) {
 
     int64_t idxStartFirstTerm = -1;
     if (firstTerm != -1) {
-        idxStartFirstTerm = findFirstOccurrence(start, end, firstTerm, offset);
+        idxStartFirstTerm = findFirstOccurrence(start, end - 1, firstTerm, offset);
         if (idxStartFirstTerm != -1) {
             int64_t idxEndFirstTerm = findLastOccurrence(idxStartFirstTerm,
-                    end, firstTerm, offset);
+                    end - 1, firstTerm, offset);
             start = idxStartFirstTerm;
             if (idxEndFirstTerm < end)
                 end = idxEndFirstTerm + 1;
@@ -260,11 +260,11 @@ void BatchCreator::populateIndicesFromQuery(int64_t s, int64_t p, int64_t o) {
             offset = 10;
         }
         if (secondTerm != -1) {
-            idxStartSecondTerm = findFirstOccurrence(start, end, secondTerm,
+            idxStartSecondTerm = findFirstOccurrence(start, end - 1, secondTerm,
                     offset);
             if (idxStartSecondTerm != -1) {
                 int64_t idxEndSecondTerm = findLastOccurrence(idxStartSecondTerm,
-                        end, secondTerm, offset);
+                        end - 1, secondTerm, offset);
                 start = idxStartSecondTerm;
                 if (idxEndSecondTerm < end)
                     end = idxEndSecondTerm + 1;
@@ -287,7 +287,7 @@ void BatchCreator::populateIndicesFromQuery(int64_t s, int64_t p, int64_t o) {
             offset = 10;
         }
         if (thirdTerm != -1) {
-            int64_t idxStartThirdTerm = findFirstOccurrence(start, end, thirdTerm,
+            int64_t idxStartThirdTerm = findFirstOccurrence(start, end - 1, thirdTerm,
                     offset);
             if (idxStartThirdTerm != -1) {
                 start = idxStartThirdTerm;
-- 
2.43.0


From 2e365aaa40e7fd183a4052523b24f157f8d5e893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:04 +0000
Subject: [PATCH 086/103] fix: batches in one array were empty unless feedback
 was used

---
 src/trident/ml/batch.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trident/ml/batch.cpp b/src/trident/ml/batch.cpp
index c2e54a3..690c425 100644
--- a/src/trident/ml/batch.cpp
+++ b/src/trident/ml/batch.cpp
@@ -389,7 +389,7 @@ bool BatchCreator::getBatch(std::vector<uint64_t> &output) {
         } else {
             kbbatch->getAt(idx, s, p, o);
         }
-        if (filter && shouldBeUsed(s,p,o)) {
+        if (!filter || shouldBeUsed(s,p,o)) {
             output[i*3] = s;
             output[i*3+1] = p;
             output[i*3+2] = o;
-- 
2.43.0


From 66880fccee6441328d81f3ad6899db8b46c50c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:54 +0000
Subject: [PATCH 087/103] fix: initialising fewer embeddings than threads never
 ended

---
 include/trident/ml/embeddings.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/trident/ml/embeddings.h b/include/trident/ml/embeddings.h
index c6ffba7..36b770b 100644
--- a/include/trident/ml/embeddings.h
+++ b/include/trident/ml/embeddings.h
@@ -236,7 +236,7 @@ class Embeddings {
         void init(const uint16_t nthreads, const bool normalization) {
             K min = -6.0 / sqrt(n + dim);
             K max = 6.0 / sqrt(n + dim);
-            if (nthreads > 1) {
+            if (nthreads > 1 && n >= nthreads) {
                 uint64_t batchPerThread = n / nthreads;
                 std::vector<std::thread> threads;
                 K* begin = raw;
-- 
2.43.0


From bab80d18f17bf9d9993df4f2d81ef804fe732b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:54 +0000
Subject: [PATCH 088/103] fix: the median of the updates was read past the end
 of the list

---
 include/trident/ml/embeddings.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/trident/ml/embeddings.h b/include/trident/ml/embeddings.h
index 36b770b..71af0e7 100644
--- a/include/trident/ml/embeddings.h
+++ b/include/trident/ml/embeddings.h
@@ -221,8 +221,8 @@ class Embeddings {
             std::sort(nonzeroupdates.begin(), nonzeroupdates.end());
             if (nonzeroupdates.size() > 0) {
                 if (nonzeroupdates.size() % 2 == 0) {
-                    medianLastEpoch = (nonzeroupdates[nonzeroupdates.size() / 2] +
-                            nonzeroupdates[nonzeroupdates.size() / 2 + 1]) / 2;
+                    medianLastEpoch = (nonzeroupdates[nonzeroupdates.size() / 2 - 1] +
+                            nonzeroupdates[nonzeroupdates.size() / 2]) / 2;
                 } else {
                     medianLastEpoch = nonzeroupdates[nonzeroupdates.size() / 2];
                 }
-- 
2.43.0


From 82405701ff8a4fd0a605e90de2ae49c102d0c903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:36 +0000
Subject: [PATCH 089/103] fix: batches read from column tables took rows for
 groups of rows

---
 include/trident/binarytables/newcolumntable.h | 23 ++++++++++++++++---
 src/trident/ml/batch.cpp                      |  3 +--
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/include/trident/binarytables/newcolumntable.h b/include/trident/binarytables/newcolumntable.h
index 0e2db8c..33e823d 100644
--- a/include/trident/binarytables/newcolumntable.h
+++ b/include/trident/binarytables/newcolumntable.h
@@ -485,15 +485,32 @@ class NewColumnTable: public AbsNewTable {
             }
 
         template<int nbytes1, int nbytes2>
+            //offset contains the number of bytes of the counters (first four
+            //bits) and of the starting points (last four bits) of the groups
             static void s_getValue12AtRow(const uint64_t sizetable,
                     const uint8_t offset,
                     const char *start,
                     const uint64_t rowId,
                     uint64_t &v1,
                     uint64_t &v2) {
-                const char *currentpos1 = start + (nbytes1 + offset) * rowId;
-                v1 = Utils::decode_longFixedBytes(currentpos1, nbytes1);
-                const char *currentpos2 = start + (nbytes1 + offset) * sizetable +
+                const uint8_t bytesCount = offset >> 4;
+                const uint8_t bytesStart = offset & 15;
+                const uint64_t sizeGroup = nbytes1 + bytesCount + bytesStart;
+                //Find the last group that does not start after the row
+                uint64_t group = 0;
+                uint64_t end = sizetable;
+                while (end - group > 1) {
+                    const uint64_t middle = group + (end - group) / 2;
+                    const char *posStart = start + middle * sizeGroup +
+                        nbytes1 + bytesCount;
+                    if (Utils::decode_longFixedBytes(posStart, bytesStart) <= rowId) {
+                        group = middle;
+                    } else {
+                        end = middle;
+                    }
+                }
+                v1 = Utils::decode_longFixedBytes(start + group * sizeGroup, nbytes1);
+                const char *currentpos2 = start + sizeGroup * sizetable +
                     rowId * nbytes2;
                 v2 = Utils::decode_longFixedBytes(currentpos2, nbytes2);
             }
diff --git a/src/trident/ml/batch.cpp b/src/trident/ml/batch.cpp
index 690c425..404ff36 100644
--- a/src/trident/ml/batch.cpp
+++ b/src/trident/ml/batch.cpp
@@ -537,10 +537,9 @@ void BatchCreator::KBBatch::populateCoordinates() {
             char header2 = info.buffer[1];
             const uint8_t bytesPerStartingPoint =  header2 & 7;
             const uint8_t bytesPerCount = (header2 >> 3) & 7;
-            const uint8_t remBytes = bytesPerCount + bytesPerStartingPoint;
             const uint8_t bytesPerFirstEntry = (header1 >> 3) & 7;
             const uint8_t bytesPerSecondEntry = (header1) & 7;
-            info.offset = remBytes;
+            info.offset = (bytesPerCount << 4) | bytesPerStartingPoint;
 
             //update the buffer
             int offset = 2;
-- 
2.43.0


From 629c272f6588defb2aa33be49de55f985a27df8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:36 +0000
Subject: [PATCH 090/103] fix: batches read from the KB did not number the
 predicates as the models do

---
 src/trident/ml/batch.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/trident/ml/batch.cpp b/src/trident/ml/batch.cpp
index 404ff36..20b715c 100644
--- a/src/trident/ml/batch.cpp
+++ b/src/trident/ml/batch.cpp
@@ -511,7 +511,9 @@ void BatchCreator::KBBatch::populateCoordinates() {
         uint64_t pred = itr->getKey();
         uint64_t card = itr->getCount();
         PredCoordinates info;
-        info.pred = pred;
+        //Like in the batch file, the predicates are numbered from zero unless
+        //the relations have their own IDs
+        info.pred = kb->areRelIDsSeparated() ? pred : predicates.size();
         info.boundary = current + card;
 
         //Get beginning of the table
-- 
2.43.0


From 741400f9e4ceb3bc1cf0b5b101fefe44f71b41e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:56 +0000
Subject: [PATCH 091/103] fix: testing HolE models overran a buffer with more
 entities than dimensions

---
 include/trident/ml/tester.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/trident/ml/tester.h b/include/trident/ml/tester.h
index 0624602..ef5526b 100644
--- a/include/trident/ml/tester.h
+++ b/include/trident/ml/tester.h
@@ -51,7 +51,8 @@ class Tester {
             scores.resize(ne);
             const uint16_t dime = E->getDim();
             const uint16_t dimr = R->getDim();
-            std::vector<K> testArray(dime);
+            //HolE stores a score for every entity
+            std::vector<K> testArray(std::max<uint64_t>(dime, ne));
             double *test = testArray.data();
             std::vector<std::size_t> indices(ne);
             std::iota(indices.begin(), indices.end(), 0u);
-- 
2.43.0


From 22fbeaed7a1eb78e6b7e6e6809384813ac879977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:19 +0000
Subject: [PATCH 092/103] fix: AggrItr::moveto beyond the pairs of a group
 continues with the next group

---
 src/trident/iterators/aggritr.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/trident/iterators/aggritr.cpp b/src/trident/iterators/aggritr.cpp
index 8b76cf4..1181173 100644
--- a/src/trident/iterators/aggritr.cpp
+++ b/src/trident/iterators/aggritr.cpp
@@ -160,12 +160,11 @@ void AggrItr::moveto(const int64_t c1, const int64_t c2) {
         }
     }
 
-    if (n && !noSecColumn) {
+    //The second column must be moved only if the first value is exactly c1
+    if (n && !noSecColumn && mainItr->getValue1() == c1) {
         secondItr->moveto(getKey(), c2);
-        hasNextChecked = true;
-        n = secondItr->hasNext();
-        if (n)
-            secondItr->next();
+        //If no pair of c1 is left, then hasNext() goes to the next first value
+        hasNextChecked = false;
     }
 }
 
-- 
2.43.0


From b6d4c109bf1b90500104358f70d5bcad1f5f6d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:19 +0000
Subject: [PATCH 093/103] fix: mark and reset of AggrItr restore the position
 within a group

---
 include/trident/iterators/aggritr.h |  4 ++++
 src/trident/iterators/aggritr.cpp   | 25 ++++++++++++++++++++++++-
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/include/trident/iterators/aggritr.h b/include/trident/iterators/aggritr.h
index ae6ad5b..a3fd859 100644
--- a/include/trident/iterators/aggritr.h
+++ b/include/trident/iterators/aggritr.h
@@ -41,6 +41,10 @@ class AggrItr: public PairItr {
         bool hasNextChecked, n;
         int idx;
 
+        //Position stored by mark()
+        int64_t m_value1, m_value2, m_secondValue;
+        bool m_hasNextChecked, m_n, m_second;
+
         //int64_t p;
 
 
diff --git a/src/trident/iterators/aggritr.cpp b/src/trident/iterators/aggritr.cpp
index 1181173..d7b969d 100644
--- a/src/trident/iterators/aggritr.cpp
+++ b/src/trident/iterators/aggritr.cpp
@@ -97,6 +97,13 @@ void AggrItr::next() {
 
 void AggrItr::mark() {
     mainItr->mark();
+    m_value1 = value1;
+    m_value2 = value2;
+    m_hasNextChecked = hasNextChecked;
+    m_n = n;
+    m_second = secondItr != NULL;
+    if (m_second)
+        m_secondValue = secondItr->getValue2();
 }
 
 void AggrItr::reset(const char i) {
@@ -106,11 +113,27 @@ void AggrItr::reset(const char i) {
             q->releaseItr(secondItr);
             secondItr = NULL;
         }
+        value1 = m_value1;
+        value2 = m_value2;
+        hasNextChecked = m_hasNextChecked;
+        n = m_n;
+        if (m_second) {
+            //Move the second iterator to the pair where it was
+            setup_second_itr(idx);
+            if (secondItr->hasNext()) {
+                secondItr->next();
+                if (secondItr->getValue2() < m_secondValue) {
+                    secondItr->moveto(getKey(), m_secondValue);
+                    if (secondItr->hasNext())
+                        secondItr->next();
+                }
+            }
+        }
     } else {
         if (secondItr != NULL)
             secondItr->reset(i);
+        hasNextChecked = false;
     }
-    hasNextChecked = false;
 }
 
 void AggrItr::clear() {
-- 
2.43.0


From 7141a8d906c5198ffa8355f32974424ba15dccb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:03 +0000
Subject: [PATCH 094/103] fix: AggrItr answered cardinalities from an
 uninitialised flag

---
 src/trident/iterators/aggritr.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/trident/iterators/aggritr.cpp b/src/trident/iterators/aggritr.cpp
index d7b969d..8ccc450 100644
--- a/src/trident/iterators/aggritr.cpp
+++ b/src/trident/iterators/aggritr.cpp
@@ -198,6 +198,7 @@ void AggrItr::init(int idx, PairItr* itr, Querier *q) {
     this->q = q;
     this->idx = idx;
     hasNextChecked = false;
+    n = true;
     noSecColumn = false;
     secondItr = NULL;
     PairItr::setConstraint1(mainItr->getConstraint1());
@@ -209,6 +210,8 @@ uint64_t AggrItr::getCardinality() {
         if (noSecColumn) {
             return mainItr->getCardinality();
         } else {
+            if (secondItr == NULL && !hasNext())
+                return 0;
             uint64_t cardSec = secondItr->getCardinality();
             if (getConstraint1() >= 0) {
                 return cardSec;
@@ -226,8 +229,8 @@ uint64_t AggrItr::estCardinality() {
         if (noSecColumn) {
             return mainItr->estCardinality();
         } else {
-            if (secondItr == NULL)
-                setup_second_itr(idx);
+            if (secondItr == NULL && !hasNext())
+                return 0;
             uint64_t cardSec = secondItr->estCardinality();
             if (getConstraint1() >= 0) {
                 return cardSec;
-- 
2.43.0


From 38ba9007c97ec1d1a18b37e55ecb7df2084d06f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:01 +0000
Subject: [PATCH 095/103] fix: groups and aggregates of a query are not applied
 to its UNION and OPTIONAL parts

---
 rdf3x/src/cts/PlanGen.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/rdf3x/src/cts/PlanGen.cpp b/rdf3x/src/cts/PlanGen.cpp
index bf5bf54..bcae091 100644
--- a/rdf3x/src/cts/PlanGen.cpp
+++ b/rdf3x/src/cts/PlanGen.cpp
@@ -670,8 +670,10 @@ PlanGen::Problem* PlanGen::buildOptional(const QueryGraph::SubQuery& query,
         uint64_t id, bool completeEstimate)
     // Generate an optional part
 {
-    // Solve the subproblem
-    Plan* p = translate_int(query, entirePlan, completeEstimate);
+    // Solve the subproblem. The groups, aggregates, etc. of the query do not
+    // apply to its parts
+    QueryGraph part(0);
+    Plan* p = translate_int(query, part, completeEstimate);
     Plan *tmp = p;
     while (tmp) {
         tmp->optional = true;
@@ -746,10 +748,12 @@ PlanGen::Problem* PlanGen::buildUnion(const vector<QueryGraph::SubQuery>& query,
         uint64_t id, bool completeEstimate)
     // Generate a union part
 {
-    // Solve the subproblems
+    // Solve the subproblems. The groups, aggregates, etc. of the query do not
+    // apply to its parts
+    QueryGraph part(0);
     vector<Plan*> parts, solutions;
     for (unsigned index = 0; index < query.size(); index++) {
-        Plan* p = translate_int(query[index], entirePlan, completeEstimate), *bp = p;
+        Plan* p = translate_int(query[index], part, completeEstimate), *bp = p;
         for (Plan* iter = p; iter; iter = iter->next)
             if (iter->costs < bp->costs)
                 bp = iter;
-- 
2.43.0


From b3ed6ae5882cb4413cb9e79bfe859b1df8d05f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:57 +0000
Subject: [PATCH 096/103] fix: sorting reads the text and the kind of a term
 from the term itself

---
 src/layers/TridentLayer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/layers/TridentLayer.cpp b/src/layers/TridentLayer.cpp
index 05b4c04..51fef38 100644
--- a/src/layers/TridentLayer.cpp
+++ b/src/layers/TridentLayer.cpp
@@ -27,6 +27,7 @@
 #include <trident/model/table.h>
 #include <layers/TridentLayer.hpp>
 #include <infra/util/Type.hpp>
+#include <cstring>
 #include <string>
 #include <map>
 #include <cmath>
@@ -124,9 +125,9 @@ bool TridentLayer::lookupById(uint64_t id,
     //Subtypes are not supported. Set default value to zero.
     subType = 0;
     if (resp) {
-        if (supportBuffer[0] == '<') {
-            output = output + 1;
+        if (output[0] == '<') {
             length -= 2;
+            memmove(output, output + 1, length);
             type = ::Type::ID::URI;
         } else {
             type = ::Type::ID::Literal;
-- 
2.43.0


From 5688c5f6c5e3836564511c1affa13e2b17cae9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:56 +0000
Subject: [PATCH 097/103] fix: comparisons with a constant read an
 uninitialised identifier

---
 rdf3x/include/rts/operator/Selection.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf3x/include/rts/operator/Selection.hpp b/rdf3x/include/rts/operator/Selection.hpp
index 4e80eb6..6bb0651 100644
--- a/rdf3x/include/rts/operator/Selection.hpp
+++ b/rdf3x/include/rts/operator/Selection.hpp
@@ -46,7 +46,7 @@ class Selection : public Operator {
             bool boolean;
 
             /// Constructor
-            Result() : flags(0) {}
+            Result() : flags(0), id(0) {}
             /// Destructor
             ~Result();
 
-- 
2.43.0


From 5aca1d2bf9165e7ad4b31fdadcafff830abe7eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:56 +0000
Subject: [PATCH 098/103] fix: Less compared texts without reading the left one

---
 rdf3x/src/rts/Selection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf3x/src/rts/Selection.cpp b/rdf3x/src/rts/Selection.cpp
index 28ca494..dc7f0f9 100644
--- a/rdf3x/src/rts/Selection.cpp
+++ b/rdf3x/src/rts/Selection.cpp
@@ -395,7 +395,7 @@ void Selection::Less::eval(Result& result)
         if (selection->isNumericComparison(l,r)) {
             result.setBoolean(selection->numLess(l,r));
         } else {
-	    r.ensureString(selection);
+	    l.ensureString(selection);
 	    r.ensureString(selection);
             result.setBoolean(l.value < r.value);
         }
-- 
2.43.0


From 0d27dc903f05d497047bdd71fffb1c5418d4b5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:52 +0000
Subject: [PATCH 099/103] fix: comparisons with constants that are not in the
 dictionary compare their values

---
 rdf3x/include/cts/infra/QueryGraph.hpp   |  2 +
 rdf3x/include/rts/operator/Selection.hpp |  9 +++-
 rdf3x/src/cts/CodeGen.cpp                |  2 +-
 rdf3x/src/cts/QueryGraph.cpp             |  3 +-
 rdf3x/src/cts/SemanticAnalysis.cpp       |  2 +
 rdf3x/src/rts/Selection.cpp              | 64 ++++++++++++++++--------
 6 files changed, 59 insertions(+), 23 deletions(-)

diff --git a/rdf3x/include/cts/infra/QueryGraph.hpp b/rdf3x/include/cts/infra/QueryGraph.hpp
index 0daec4b..084cd67 100644
--- a/rdf3x/include/cts/infra/QueryGraph.hpp
+++ b/rdf3x/include/cts/infra/QueryGraph.hpp
@@ -75,6 +75,8 @@ class QueryGraph {
             unsigned id;
             /// The raw value (for constants)
             std::string value;
+            /// The datatype of the raw value (if any)
+            std::string valueType;
             uint64_t valueid; //id of constants
             std::shared_ptr<QueryGraph> subquery;
             std::shared_ptr<QueryGraph::SubQuery> subpattern;
diff --git a/rdf3x/include/rts/operator/Selection.hpp b/rdf3x/include/rts/operator/Selection.hpp
index 6bb0651..795ac4d 100644
--- a/rdf3x/include/rts/operator/Selection.hpp
+++ b/rdf3x/include/rts/operator/Selection.hpp
@@ -36,6 +36,8 @@ class Selection : public Operator {
             uint64_t id;
             /// The value
             std::string value;
+            /// The value with its datatype (only for typed constants without id)
+            std::string typedValue;
             /// The type
             Type::ID type;
             /// The sub-type
@@ -331,10 +333,15 @@ class Selection : public Operator {
             private:
                 /// The value
                 std::string value;
+                /// The value with its datatype, if it has one
+                std::string typedValue;
 
             public:
                 /// Constructor
-                TemporaryConstantLiteral(const std::string& value) : value(value) {}
+                TemporaryConstantLiteral(const std::string& value, const std::string& valueType = "") : value(value) {
+                    if (!valueType.empty())
+                        typedValue = "\"" + value + "\"^^<" + valueType + ">";
+                }
 
                 /// Evaluate the predicate
                 void eval(Result& result);
diff --git a/rdf3x/src/cts/CodeGen.cpp b/rdf3x/src/cts/CodeGen.cpp
index 702ef33..8cc8eb4 100644
--- a/rdf3x/src/cts/CodeGen.cpp
+++ b/rdf3x/src/cts/CodeGen.cpp
@@ -530,7 +530,7 @@ static Selection::Predicate* buildSelection(Runtime &runtime, const map<unsigned
             if (~filter.id)
                 return new Selection::ConstantLiteral(filter.id);
             else
-                return new Selection::TemporaryConstantLiteral(filter.value);
+                return new Selection::TemporaryConstantLiteral(filter.value, filter.valueType);
         case QueryGraph::Filter::Variable:
             if (bindings.count(filter.id))
                 return new Selection::Variable((*bindings.find(filter.id)).second);
diff --git a/rdf3x/src/cts/QueryGraph.cpp b/rdf3x/src/cts/QueryGraph.cpp
index d4c4f60..36ceb2c 100644
--- a/rdf3x/src/cts/QueryGraph.cpp
+++ b/rdf3x/src/cts/QueryGraph.cpp
@@ -59,7 +59,7 @@ QueryGraph::Filter::Filter()
 }
 //---------------------------------------------------------------------------
 QueryGraph::Filter::Filter(const Filter& other)
-    : type(other.type), arg1(other.arg1 ? new Filter(*other.arg1) : 0), arg2(other.arg2 ? new Filter(*other.arg2) : 0), arg3(other.arg3 ? new Filter(*other.arg3) : 0), arg4(other.arg4 ? new Filter(*other.arg4) : 0), id(other.id), value(other.value),
+    : type(other.type), arg1(other.arg1 ? new Filter(*other.arg1) : 0), arg2(other.arg2 ? new Filter(*other.arg2) : 0), arg3(other.arg3 ? new Filter(*other.arg3) : 0), arg4(other.arg4 ? new Filter(*other.arg4) : 0), id(other.id), value(other.value), valueType(other.valueType),
     valueid(other.valueid), subquery(other.subquery), subpattern(other.subpattern)
     // Copy-Constructor
 {
@@ -89,6 +89,7 @@ QueryGraph::Filter& QueryGraph::Filter::operator=(const Filter& other)
         arg4 = other.arg4 ? new Filter(*other.arg4) : 0;
         id = other.id;
         value = other.value;
+        valueType = other.valueType;
         valueid = other.valueid;
     }
     return *this;
diff --git a/rdf3x/src/cts/SemanticAnalysis.cpp b/rdf3x/src/cts/SemanticAnalysis.cpp
index f4f587d..0d10144 100644
--- a/rdf3x/src/cts/SemanticAnalysis.cpp
+++ b/rdf3x/src/cts/SemanticAnalysis.cpp
@@ -404,6 +404,8 @@ static bool encodeFilter(SemanticAnalysis *myself, DBLayer& dict, DifferentialIn
                                                     output.type = QueryGraph::Filter::Literal;
                                                     output.id = ~0u;
                                                     output.value = input.value;
+                                                    if (e.subType == SPARQLParser::Element::CustomType)
+                                                        output.valueType = e.subTypeValue;
                                                     //In this case the literal is completely new (and is not present in the KB.)
                                                     output.valueid = tempDict.add(output.value);
                                                 }
diff --git a/rdf3x/src/rts/Selection.cpp b/rdf3x/src/rts/Selection.cpp
index dc7f0f9..203c28a 100644
--- a/rdf3x/src/rts/Selection.cpp
+++ b/rdf3x/src/rts/Selection.cpp
@@ -94,29 +94,52 @@ Selection::NumType Selection::getNumType(std::string s) {
     return NumType::UNKNOWN;
 }
 
+static bool _parseNumeric(const std::string &s, IdValue &val) {
+    val.tp = Selection::getNumType(s);
+    if (val.tp == Selection::NumType::DECIMAL) {
+	val.val.dv = _getDouble(s);
+	return true;
+    } else if (val.tp == Selection::NumType::INT) {
+	val.val.iv = _getLong(s);
+	return true;
+    } else if (val.tp == Selection::NumType::DATE || val.tp == Selection::NumType::DATETIME) {
+	val.val.iv = _getTime(s, val.tp);
+	return true;
+    }
+    return false;
+}
+
+static IdValue _numericValue(Runtime &runtime, const Selection::Result &v) {
+    if (v.hasId()) {
+	return runtime.valueMap[v.id];
+    }
+    IdValue val;
+    _parseNumeric(v.typedValue, val);
+    return val;
+}
+
+// The text of a literal without the quotes. Constants that are not in the
+// dictionary do not have them
+static std::string _unquoted(const std::string &s) {
+    size_t end = s.rfind('"');
+    if (end != std::string::npos && end > 0 && s[0] == '"') {
+	return s.substr(1, end - 1) + s.substr(end + 1);
+    }
+    return s;
+}
+
 bool Selection::numeric(Result &v) {
+    IdValue val;
     if (! (v.flags & Result::idAvailable)) {
-	return false;
+	return _parseNumeric(v.typedValue, val);
     }
     auto r = runtime.valueMap.find(v.id);
     if (r == runtime.valueMap.end()) {
-	IdValue val;
 	v.ensureString(this);
-	val.tp = getNumType(v.value);
-	if (val.tp == NumType::DECIMAL) {
-	    val.val.dv = _getDouble(v.value);
-	    runtime.valueMap[v.id] = val;
-	    return true;
-	} else if (val.tp == NumType::INT) {
-	    val.val.iv = _getLong(v.value);
-	    runtime.valueMap[v.id] = val;
-	    return true;
-	} else if (val.tp == NumType::DATE || val.tp == NumType::DATETIME) {
-	    val.val.iv = _getTime(v.value, val.tp);
-	    runtime.valueMap[v.id] = val;
-	    return true;
+	if (! _parseNumeric(v.value, val)) {
+	    return false;
 	}
-	return false;
+	runtime.valueMap[v.id] = val;
     }
     return true;
 }
@@ -126,8 +149,8 @@ bool Selection::isNumericComparison(Result &l, Result &r) {
 }
 
 bool Selection::numLess(const Result &l, const Result &r) {
-    IdValue v1 = runtime.valueMap[l.id];
-    IdValue v2 = runtime.valueMap[r.id];
+    IdValue v1 = _numericValue(runtime, l);
+    IdValue v2 = _numericValue(runtime, r);
     if (v1.tp != NumType::DECIMAL) {
 	if (v2.tp != NumType::DECIMAL) {
 	    return v1.val.iv < v2.val.iv;
@@ -397,7 +420,7 @@ void Selection::Less::eval(Result& result)
         } else {
 	    l.ensureString(selection);
 	    r.ensureString(selection);
-            result.setBoolean(l.value < r.value);
+            result.setBoolean(_unquoted(l.value) < _unquoted(r.value));
         }
     } else if (num1 && !num2) {
         r.ensureString(selection);
@@ -475,7 +498,7 @@ void Selection::LessOrEqual::eval(Result& result)
         } else {
 	    l.ensureString(selection);
 	    r.ensureString(selection);
-            result.setBoolean(l.value <= r.value);
+            result.setBoolean(_unquoted(l.value) <= _unquoted(r.value));
         }
     } else if (num1 && !num2) {
         //The comparison is numeric
@@ -689,6 +712,7 @@ void Selection::TemporaryConstantLiteral::eval(Result& result)
     // Evaluate the predicate
 {
     result.setLiteral(value);
+    result.typedValue = typedValue;
 }
 //---------------------------------------------------------------------------
 bool Selection::TemporaryConstantLiteral::check() {
-- 
2.43.0


From 4e8adecd5bc218ad5e1249db18456440b848ce84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:39 +0000
Subject: [PATCH 100/103] fix: hash joins returned wrong columns when a
 variable of the last pattern is not projected

---
 src/trident/sparql/joinplan.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/trident/sparql/joinplan.cpp b/src/trident/sparql/joinplan.cpp
index 0e142dc..063e131 100644
--- a/src/trident/sparql/joinplan.cpp
+++ b/src/trident/sparql/joinplan.cpp
@@ -295,11 +295,10 @@ void JoinPlan::prepare(std::vector<std::shared_ptr<SPARQLOperator>> children,
                                 break;
                             }
                         }
-                        if (found)
-                            pc.push_back(j);
-                    } else {
-                        pc.push_back(j);
+                        if (!found)
+                            continue; //Not in the rows that are returned
                     }
+                    pc.push_back(j);
                     currentVars.push_back(newVars[j]);
                 }
             }
-- 
2.43.0


From db7611adc81e5f4931f999c84611862810dd1b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:39 +0000
Subject: [PATCH 101/103] fix: reset of a row table restores the current pair,
 as in the other tables

---
 include/trident/binarytables/newrowtable.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/trident/binarytables/newrowtable.h b/include/trident/binarytables/newrowtable.h
index c6740da..5f878fe 100644
--- a/include/trident/binarytables/newrowtable.h
+++ b/include/trident/binarytables/newrowtable.h
@@ -43,6 +43,8 @@ class NewRowTable: public AbsNewTable {
         bool isSecondColumnIgnored;
 
         const char *currentMark;
+        int64_t m_currentValue1, m_currentValue2;
+        int64_t m_count;
 
     public:
         int64_t getValue1() {
@@ -294,10 +296,16 @@ class NewRowTable: public AbsNewTable {
 
         void mark() {
             currentMark = current;
+            m_currentValue1 = currentValue1;
+            m_currentValue2 = currentValue2;
+            m_count = count;
         }
 
         void reset(const char i) {
             current = currentMark;
+            currentValue1 = m_currentValue1;
+            currentValue2 = m_currentValue2;
+            count = m_count;
         }
 
         void ignoreSecondColumn() {
-- 
2.43.0


From 683894f0679381e92eefe1b5c97552e5a3de9b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:39 +0000
Subject: [PATCH 102/103] fix: nested merge joins lost rows after an iterator
 was reset or found empty

mark() was taken after the first pair had been read, reset() was called with
the constraints of the previous values, the same values of a two-variable join
did not go back to their pair, and an empty iterator of one value ended the
whole join (a cartesian product read a join that does not exist).
---
 src/trident/sparql/nesmeritr.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/trident/sparql/nesmeritr.cpp b/src/trident/sparql/nesmeritr.cpp
index c1a2e1a..d07c627 100644
--- a/src/trident/sparql/nesmeritr.cpp
+++ b/src/trident/sparql/nesmeritr.cpp
@@ -216,17 +216,19 @@ int NestedMergeJoinItr::executeJoin(int64_t *row, Pattern *patterns, int idxPatt
             q->releaseItr(itr);
             iterators[idxPattern] = NULL;
 
-            if (!need_new_iterator) {
+            if (nJoins == 0 || joins[0].posIndex != 0) {
+                //The pattern is empty, whatever the other patterns return
                 return NOMORE_JOIN;
             } else {
                 return GO_BACK(joins[0].sourcePattern)
             }
         } else {
+            //Mark before the first pair, so that a reset goes back to it
+            if (nJoins > 0)
+                itr->mark();
             itr->next();
         }
 
-        itr->mark();
-
         //Otherwise, we should not do itr->next
         int leftJoins = nJoins - performed_joins;
         bool shouldMoveToNext = false;
@@ -327,7 +329,14 @@ int NestedMergeJoinItr::executeJoin(int64_t *row, Pattern *patterns, int idxPatt
             //the iterator first...
             int64_t joinvalue = compressedRow[joins[performed_joins].posRow];
             if (joinvalue <= joins[performed_joins].lastValue) {
+                if (joins[performed_joins].posIndex == 1) {
+                    itr->setConstraint1(NO_CONSTRAINT);
+                } else {
+                    itr->setConstraint2(NO_CONSTRAINT);
+                }
                 itr->reset(0);
+                if (itr->hasNext())
+                    itr->next(); //moveto starts from the current pair
             }
             if (joins[performed_joins].posIndex == 1) {
                 itr->setConstraint1(joinvalue);
@@ -359,8 +368,12 @@ int NestedMergeJoinItr::executeJoin(int64_t *row, Pattern *patterns, int idxPatt
             }
             assert(valuejoin1 != -1 && valuejoin2 != -1);
             if (valuejoin1 < lastval1 || (valuejoin1 == lastval1 &&
-                                          valuejoin2 < lastval2)) {
+                                          valuejoin2 <= lastval2)) {
+                itr->setConstraint1(NO_CONSTRAINT);
+                itr->setConstraint2(NO_CONSTRAINT);
                 itr->reset(0);
+                if (itr->hasNext())
+                    itr->next(); //moveto starts from the current pair
             }
 
             itr->setConstraint1(valuejoin1);
-- 
2.43.0


From 921f14bd79e832e8abfc5e65831c279e0b467c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:02 +0000
Subject: [PATCH 103/103] fix: merging updates kept additions of triples that
 are in the original data

---
 src/trident/kb/kb.cpp | 84 ++++++++++++++++++-------------------------
 1 file changed, 34 insertions(+), 50 deletions(-)

diff --git a/src/trident/kb/kb.cpp b/src/trident/kb/kb.cpp
index 8e4d115..6e69bb3 100644
--- a/src/trident/kb/kb.cpp
+++ b/src/trident/kb/kb.cpp
@@ -668,62 +668,46 @@ void KB::createSingleUpdate(DiffIndex::TypeUpdate type, PairItr *itr, std::strin
         return;
     }
 
-    // Filter: the only deletes that should be left are in the db.
-    if (type == DiffIndex::TypeUpdate::DELETE_df) {
-        std::vector<uint64_t> del_s;
-        std::vector<uint64_t> del_p;
-        std::vector<uint64_t> del_o;
-
-        PairItr *kbitr = q->getIterator(IDX_SPO, -1, -1, -1);
-        if (kbitr->hasNext()) {
-            kbitr->next();
-        } else {
-            q->releaseItr(kbitr);
-            kbitr = NULL;
-        }
+    // Filter: the only deletes that should be left are in the db, and the only additions are not in the db.
+    std::vector<uint64_t> new_s;
+    std::vector<uint64_t> new_p;
+    std::vector<uint64_t> new_o;
+
+    PairItr *kbitr = q->getIterator(IDX_SPO, -1, -1, -1);
+    if (kbitr->hasNext()) {
+        kbitr->next();
+    } else {
+        q->releaseItr(kbitr);
+        kbitr = NULL;
+    }
 
-        size_t i = 0;
-        while (i != all_s.size()) {
-            //move kbitr to the good position
-            int cmpResult;
-            while (kbitr && (cmpResult = cmp(kbitr, all_s[i], all_p[i], all_o[i])) < 0) {
-                if (kbitr->hasNext()) {
-                    kbitr->next();
-                } else {
-                    q->releaseItr(kbitr);
-                    kbitr = NULL;
-                }
-            }
-            if (kbitr) {
-                //do the check
-                if (cmpResult == 0) {
-                    del_s.push_back(all_s[i]);
-                    del_p.push_back(all_p[i]);
-                    del_o.push_back(all_o[i]);
-                    //Must move also the original iterator
-                    if (kbitr->hasNext()) {
-                        kbitr->next();
-                    } else {
-                        break;
-                    }
-                }
-                i++;
+    for (size_t i = 0; i < all_s.size(); ++i) {
+        //move kbitr to the good position
+        int cmpResult;
+        while (kbitr && (cmpResult = cmp(kbitr, all_s[i], all_p[i], all_o[i])) < 0) {
+            if (kbitr->hasNext()) {
+                kbitr->next();
             } else {
-                break;
+                q->releaseItr(kbitr);
+                kbitr = NULL;
             }
         }
-        if (kbitr)
-            q->releaseItr(kbitr);
-
-        if (del_s.size() == 0) {
-            return;
+        //do the check
+        const bool inKB = kbitr && cmpResult == 0;
+        if (inKB == (type == DiffIndex::TypeUpdate::DELETE_df)) {
+            new_s.push_back(all_s[i]);
+            new_p.push_back(all_p[i]);
+            new_o.push_back(all_o[i]);
         }
-        Utils::create_directories(dir);
-        DiffIndex3::createDiffIndex(type, dir, diffDir, del_s, del_p, del_o, true, q, true);
-    } else {
-        Utils::create_directories(dir);
-        DiffIndex3::createDiffIndex(type, dir, diffDir, all_s, all_p, all_o, true, q, true);
     }
+    if (kbitr)
+        q->releaseItr(kbitr);
+
+    if (new_s.size() == 0) {
+        return;
+    }
+    Utils::create_directories(dir);
+    DiffIndex3::createDiffIndex(type, dir, diffDir, new_s, new_p, new_o, true, q, true);
 
     //Write the type of file
     string flagup;
-- 
2.43.0

