From 11f6fc1e167d4ce9de24afb475f429f646b5d901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:04 +0000
Subject: [PATCH 01/16] fix: AlgorithmReducibleRecursionAndTempering::search
 with one tempering algorithm could not be instantiated

---
 include/MTToolBox/AlgorithmReducibleRT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/MTToolBox/AlgorithmReducibleRT.hpp b/include/MTToolBox/AlgorithmReducibleRT.hpp
index a2b8279..0d106b7 100644
--- a/include/MTToolBox/AlgorithmReducibleRT.hpp
+++ b/include/MTToolBox/AlgorithmReducibleRT.hpp
@@ -230,7 +230,7 @@ namespace MTToolBox {
          * state transition function are found.
          *\endenglish
          */
-        bool search(TemperingCalculatable<U>& rg,
+        bool search(G& rg,
                     AlgorithmTempering<U>& st,
                     bool verbose = false,
                     std::ostream& os = std::cout) {
-- 
2.43.0


From b8c976b3fbb361c433fab15ddab6c932a11de10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:12 +0000
Subject: [PATCH 02/16] fix: AlgorithmBestBits evaluated patterns without
 calling setUpTempering

---
 include/MTToolBox/AlgorithmBestBits.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/MTToolBox/AlgorithmBestBits.hpp b/include/MTToolBox/AlgorithmBestBits.hpp
index 6b96656..b619c5f 100644
--- a/include/MTToolBox/AlgorithmBestBits.hpp
+++ b/include/MTToolBox/AlgorithmBestBits.hpp
@@ -392,6 +392,7 @@ namespace MTToolBox {
                 for (int j = 0; j < size; j++) {
                     rand.setTemperingPattern(mask, pattern->param[j], j);
                 }
+                rand.setUpTempering();
                 pattern->delta = get_equidist(rand, v_bit + 1);
                 if (verbose) {
                     cout << "pattern->delta:" << dec << pattern->delta << endl;
-- 
2.43.0


From 6bafb7f38fae300890d276907f2c5da992bb96e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:53 +0000
Subject: [PATCH 03/16] fix: the default constructor of Sequential left its
 counter and mask uninitialised

---
 include/MTToolBox/Sequential.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/MTToolBox/Sequential.hpp b/include/MTToolBox/Sequential.hpp
index 8e2264d..a8689e1 100644
--- a/include/MTToolBox/Sequential.hpp
+++ b/include/MTToolBox/Sequential.hpp
@@ -56,6 +56,9 @@ namespace MTToolBox {
          *\endenglish
          */
         Sequential() {
+            status = static_cast<T>(-1);
+            mask = 0;
+            error = false;
         }
 
         /**
-- 
2.43.0


From 9a2df82c778e0e7b312dd547426c6f11a9aab3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:53 +0000
Subject: [PATCH 04/16] fix: MTGP32search isZero() looked at the wrong words
 with an uninitialised mask

---
 samples/MTGPDC/MTGP32search.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/samples/MTGPDC/MTGP32search.hpp b/samples/MTGPDC/MTGP32search.hpp
index 2720d43..c4da9af 100644
--- a/samples/MTGPDC/MTGP32search.hpp
+++ b/samples/MTGPDC/MTGP32search.hpp
@@ -275,10 +275,10 @@ namespace mtgp {
          * @return true if all elements of status is zero
          */
         bool isZero() const {
-            if ((state[idx] & mask) != 0) {
+            if ((state[(idx + 1) % state_size] & param.mask) != 0) {
                 return false;
             }
-            for (int i = 1; i < state_size; i++) {
+            for (int i = 2; i <= state_size; i++) {
                 if (state[(idx + i) % state_size] != 0) {
                     return false;
                 }
@@ -305,7 +305,6 @@ namespace mtgp {
             return reverse_bit_flag;
         }
     private:
-        uint32_t mask;
         int state_size;
         mtgp_param<uint32_t> param;
         int idx;
-- 
2.43.0


From c400795392438bf20a8dfcbbcd1bb663a5e62639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:53 +0000
Subject: [PATCH 05/16] fix: RMT64Search setOneBit() shifted an int and lost
 the upper 32 bits

---
 samples/RMT/rmt64.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/samples/RMT/rmt64.hpp b/samples/RMT/rmt64.hpp
index 23a7245..3ffe367 100644
--- a/samples/RMT/rmt64.hpp
+++ b/samples/RMT/rmt64.hpp
@@ -128,7 +128,7 @@ public:
 #endif
             return;
         }
-        state[idx] = 1 << r;
+        state[idx] = UINT64_C(1) << r;
 #if defined(DEBUG) && 0
         debug_print();
         fflush(stdout);
-- 
2.43.0


From fb099bcda8cf83f3ce0fe9761ef5f1de330b2807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:53 +0000
Subject: [PATCH 06/16] fix: xorshift128_init_by_array() never stored the
 computed state

---
 samples/XORSHIFT/xorshift128.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/samples/XORSHIFT/xorshift128.c b/samples/XORSHIFT/xorshift128.c
index 26807ea..bd7cf55 100644
--- a/samples/XORSHIFT/xorshift128.c
+++ b/samples/XORSHIFT/xorshift128.c
@@ -93,6 +93,10 @@ void xorshift128_init_by_array(xorshift128_t * xor,
         st[i % size] = r;
         i = (i + 1) % size;
     }
+    xor->x = st[0];
+    xor->y = st[1];
+    xor->z = st[2];
+    xor->w = st[3];
     period_certification(xor);
 }
 
-- 
2.43.0


From c4ca6a7432b685551fd1d1d50e93a8428a1970fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:53 +0000
Subject: [PATCH 07/16] fix: mtgp_param() left the sha1 string uninitialised

---
 samples/MTGPDC/mtgp_param.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/samples/MTGPDC/mtgp_param.h b/samples/MTGPDC/mtgp_param.h
index 6fc46f3..9fb2135 100644
--- a/samples/MTGPDC/mtgp_param.h
+++ b/samples/MTGPDC/mtgp_param.h
@@ -37,6 +37,7 @@ namespace mtgp {
                 p[i] = 0;
                 tp[i] = 0;
             }
+            sha1[0] = 0;
         }
         mtgp_param(const mtgp_param<T>& that) {
             mexp = that.mexp;
@@ -61,8 +62,8 @@ namespace mtgp {
             for (int i = 0; i < SHA_DIGEST_LENGTH * 2; i++) {
                 sha1[i] = that.sha1[i];
             }
-            sha1[0] = that.sha1[0];
 #endif
+            sha1[0] = that.sha1[0];
         }
 
 #if __cplusplus >= 201103L
-- 
2.43.0


From 84d455f0ed2f99eadfb9e1c25f540ba1c4333045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:48 +0000
Subject: [PATCH 08/16] fix: dSFMT isZero() compared a 32-bit half of the
 previous output in weight mode 1

---
 samples/dSFMTdc/dSFMTsearch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/samples/dSFMTdc/dSFMTsearch.hpp b/samples/dSFMTdc/dSFMTsearch.hpp
index e54d833..74699c9 100644
--- a/samples/dSFMTdc/dSFMTsearch.hpp
+++ b/samples/dSFMTdc/dSFMTsearch.hpp
@@ -424,7 +424,7 @@ namespace MTToolBox {
                 return true;
             case 1:
             default:
-                return previous.u[1] == 0;
+                return previous.u64[1] == 0;
             }
         }
 
-- 
2.43.0


From 430ad664070a73b2ef70a1b1ab34f13758530f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:36 +0000
Subject: [PATCH 09/16] fix: -f option of the dynamic creators created an empty
 file

The help says parameters are output to this file, but the file was only
opened and closed, and everything went to standard output.
---
 samples/MTGPDC/MTGP32dc.cpp     | 13 +++++++++++--
 samples/RMT/rmt64dc.cpp         | 10 +++++++++-
 samples/TinyMTDC/tinymt32dc.cpp | 13 +++++++++++--
 samples/dSFMTdc/dSFMTdc.cpp     | 10 +++++++++-
 samples/sfmtdc/sfmtdc.cpp       | 10 +++++++++-
 samples/sfmtdc/sfmtdcfixed.cpp  | 10 +++++++++-
 6 files changed, 58 insertions(+), 8 deletions(-)

diff --git a/samples/MTGPDC/MTGP32dc.cpp b/samples/MTGPDC/MTGP32dc.cpp
index ffc523a..81f4eae 100644
--- a/samples/MTGPDC/MTGP32dc.cpp
+++ b/samples/MTGPDC/MTGP32dc.cpp
@@ -41,16 +41,25 @@ int main(int argc, char** argv) {
     if (!parse) {
         return -1;
     }
+    ofstream ofs;
+    streambuf *cout_buf = cout.rdbuf();
+    if (!opt.filename.empty()) {
+        ofs.open(opt.filename.c_str());
+        cout.rdbuf(ofs.rdbuf());
+    }
+    int result = 0;
     while (opt.count > 0) {
         if (indexed_search(opt, first)) {
             opt.id += 1;
             opt.count -= 1;
         } else {
-            return -1;
+            result = -1;
+            break;
         }
         first = false;
     }
-    return 0;
+    cout.rdbuf(cout_buf);
+    return result;
 }
 
 int indexed_search(mtgp_options& opt, bool first) {
diff --git a/samples/RMT/rmt64dc.cpp b/samples/RMT/rmt64dc.cpp
index 07bbe92..0226837 100644
--- a/samples/RMT/rmt64dc.cpp
+++ b/samples/RMT/rmt64dc.cpp
@@ -66,7 +66,15 @@ int main(int argc, char** argv) {
     }
     //cout << "mexp = " << dec << opt.mexp;
     //cout << " seed = " << dec << opt.seed << endl;
-    return search(opt, static_cast<int>(opt.count));
+    ofstream ofs;
+    streambuf *cout_buf = cout.rdbuf();
+    if (!opt.filename.empty()) {
+        ofs.open(opt.filename.c_str());
+        cout.rdbuf(ofs.rdbuf());
+    }
+    int result = search(opt, static_cast<int>(opt.count));
+    cout.rdbuf(cout_buf);
+    return result;
 }
 
 /**
diff --git a/samples/TinyMTDC/tinymt32dc.cpp b/samples/TinyMTDC/tinymt32dc.cpp
index 412e569..16a1de6 100644
--- a/samples/TinyMTDC/tinymt32dc.cpp
+++ b/samples/TinyMTDC/tinymt32dc.cpp
@@ -51,11 +51,20 @@ int main(int argc, char** argv) {
     if (!parse) {
         return -1;
     }
+    ofstream ofs;
+    streambuf *cout_buf = cout.rdbuf();
+    if (!opt.filename.empty()) {
+        ofs.open(opt.filename.c_str());
+        cout.rdbuf(ofs.rdbuf());
+    }
+    int result = 0;
     try {
-        return search(opt, static_cast<int>(opt.count));
+        result = search(opt, static_cast<int>(opt.count));
     } catch (underflow_error &e) {
-        return 0;
+        result = 0;
     }
+    cout.rdbuf(cout_buf);
+    return result;
 }
 
 /**
diff --git a/samples/dSFMTdc/dSFMTdc.cpp b/samples/dSFMTdc/dSFMTdc.cpp
index a1b18d4..92bc321 100644
--- a/samples/dSFMTdc/dSFMTdc.cpp
+++ b/samples/dSFMTdc/dSFMTdc.cpp
@@ -68,7 +68,15 @@ int main(int argc, char** argv) {
     if (!parse) {
         return -1;
     }
-    return search(opt, static_cast<int>(opt.count));
+    ofstream ofs;
+    streambuf *cout_buf = cout.rdbuf();
+    if (!opt.filename.empty()) {
+        ofs.open(opt.filename.c_str());
+        cout.rdbuf(ofs.rdbuf());
+    }
+    int result = search(opt, static_cast<int>(opt.count));
+    cout.rdbuf(cout_buf);
+    return result;
 }
 
 /**
diff --git a/samples/sfmtdc/sfmtdc.cpp b/samples/sfmtdc/sfmtdc.cpp
index 9154042..7a4be1a 100644
--- a/samples/sfmtdc/sfmtdc.cpp
+++ b/samples/sfmtdc/sfmtdc.cpp
@@ -65,7 +65,15 @@ int main(int argc, char** argv) {
     if (!parse) {
         return -1;
     }
-    return search(opt, static_cast<int>(opt.count));
+    ofstream ofs;
+    streambuf *cout_buf = cout.rdbuf();
+    if (!opt.filename.empty()) {
+        ofs.open(opt.filename.c_str());
+        cout.rdbuf(ofs.rdbuf());
+    }
+    int result = search(opt, static_cast<int>(opt.count));
+    cout.rdbuf(cout_buf);
+    return result;
 }
 
 /**
diff --git a/samples/sfmtdc/sfmtdcfixed.cpp b/samples/sfmtdc/sfmtdcfixed.cpp
index 0fa1c9a..a098502 100644
--- a/samples/sfmtdc/sfmtdcfixed.cpp
+++ b/samples/sfmtdc/sfmtdcfixed.cpp
@@ -66,7 +66,15 @@ int main(int argc, char** argv) {
     if (!parse) {
         return -1;
     }
-    return search(opt, static_cast<int>(opt.count));
+    ofstream ofs;
+    streambuf *cout_buf = cout.rdbuf();
+    if (!opt.filename.empty()) {
+        ofs.open(opt.filename.c_str());
+        cout.rdbuf(ofs.rdbuf());
+    }
+    int result = search(opt, static_cast<int>(opt.count));
+    cout.rdbuf(cout_buf);
+    return result;
 }
 
 /**
-- 
2.43.0


From 5552bb9973d3c3c882303cf2333a9d7f115c314a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:15 +0000
Subject: [PATCH 10/16] fix: reducible search measured equidistribution against
 the state size

The largest possible dimension of a reducible generator is bounded by
its Mersenne exponent, not by bitSize(): rmt64dc printed delta 231 for
a parameter set whose defect is 66 (as calc_equidist says).
---
 include/MTToolBox/AlgorithmReducibleRT.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/MTToolBox/AlgorithmReducibleRT.hpp b/include/MTToolBox/AlgorithmReducibleRT.hpp
index 0d106b7..7c8a4eb 100644
--- a/include/MTToolBox/AlgorithmReducibleRT.hpp
+++ b/include/MTToolBox/AlgorithmReducibleRT.hpp
@@ -136,10 +136,11 @@ namespace MTToolBox {
             int veq[bit_size<U>()];
             AlgorithmReducibleRecursionSearch<U> search(rg, *baseGenerator);
             AlgorithmCalculateParity<U, G> cp;
-            int mexp = rg.bitSize();
+            int bitSize = rg.bitSize();
+            int mexp = rg.getMexp();
             bool found = false;
             for (int i = 0;; i++) {
-                if (search.start(1000 * mexp)) {
+                if (search.start(1000 * bitSize)) {
                     found = true;
                     break;
                 }
@@ -166,7 +167,7 @@ namespace MTToolBox {
             NTL::GF2X quotient = lcm / poly;
             annihilate(&rg, quotient);
             if (verbose) {
-                AlgorithmEquidistribution<U> sb(rg, bit_size<U>());
+                AlgorithmEquidistribution<U> sb(rg, bit_size<U>(), mexp);
                 int delta = sb.get_all_equidist(veq);
                 print_kv(veq, mexp, bit_size<U>());
                 *out << "delta = " << dec << delta << endl;
@@ -177,7 +178,7 @@ namespace MTToolBox {
                     if (st2.isLSBTempering()) {
                         rg.setReverseOutput();
                     }
-                    AlgorithmEquidistribution<U> sc(rg, bit_size<U>());
+                    AlgorithmEquidistribution<U> sc(rg, bit_size<U>(), mexp);
                     delta = sc.get_all_equidist(veq);
                     rg.resetReverseOutput();
                     time_t t = time(NULL);
@@ -188,7 +189,7 @@ namespace MTToolBox {
                 }
             }
             st1(rg, verbose);
-            AlgorithmEquidistribution<U> sc(rg, bit_size<U>());
+            AlgorithmEquidistribution<U> sc(rg, bit_size<U>(), mexp);
             delta = sc.get_all_equidist(veq);
             if (verbose) {
                 time_t t = time(NULL);
-- 
2.43.0


From 15d1efb698c9307cf2c00002be8cd4ad9adba362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:02 +0000
Subject: [PATCH 11/16] fix: dSFMT tools crashed without a parameter line and
 ignored wrong options

calc_fixpoint, calc_parity and make_old_format read the parameter line
even when there was none, went on after an unknown option, and
make_old_format took argv[1] for the line whatever the options were.
---
 samples/dSFMTdc/calc_fixpoint_main.cpp | 5 +++++
 samples/dSFMTdc/calc_parity_main.cpp   | 5 +++++
 samples/dSFMTdc/make_old_format.cpp    | 7 ++++++-
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/samples/dSFMTdc/calc_fixpoint_main.cpp b/samples/dSFMTdc/calc_fixpoint_main.cpp
index 0c148b4..dc4bc9c 100644
--- a/samples/dSFMTdc/calc_fixpoint_main.cpp
+++ b/samples/dSFMTdc/calc_fixpoint_main.cpp
@@ -144,6 +144,11 @@ static bool option(dSFMT_param& param, int argc, char * argv[])
             break;
         }
     }
+    if (error || optind >= argc) {
+        cerr << "usage: " << argv[0] << " [-c] mexp,pos1,sl1,msk1,msk2"
+             << endl;
+        return false;
+    }
     char * para = argv[optind];
     param.mexp = static_cast<int>(strtoul(para, &para, 10));
     para++;
diff --git a/samples/dSFMTdc/calc_parity_main.cpp b/samples/dSFMTdc/calc_parity_main.cpp
index 11d3f5f..1b82096 100644
--- a/samples/dSFMTdc/calc_parity_main.cpp
+++ b/samples/dSFMTdc/calc_parity_main.cpp
@@ -159,6 +159,11 @@ static bool option(dSFMT_param& param, int argc, char * argv[])
             break;
         }
     }
+    if (error || optind >= argc) {
+        cerr << "usage: " << argv[0] << " [-c] [-v] mexp,pos1,sl1,msk1,msk2,fix1,fix2"
+             << endl;
+        return false;
+    }
     char * para = argv[optind];
     param.mexp = static_cast<int>(strtoul(para, &para, 10));
     para++;
diff --git a/samples/dSFMTdc/make_old_format.cpp b/samples/dSFMTdc/make_old_format.cpp
index c927d4c..0bd81d1 100644
--- a/samples/dSFMTdc/make_old_format.cpp
+++ b/samples/dSFMTdc/make_old_format.cpp
@@ -37,7 +37,12 @@ static bool option(dSFMT_param& param, int argc, char * argv[]) {
             break;
         }
     }
-    char * para = argv[1];
+    if (error || optind >= argc) {
+        cerr << "usage: " << argv[0] << " mexp,pos1,sl1,msk1,msk2,fix1,fix2,parity1,parity2"
+             << endl;
+        return false;
+    }
+    char * para = argv[optind];
     param.mexp = strtoul(para, &para, 10);
     para++;
     param.pos1 = strtoul(para, &para, 10);
-- 
2.43.0


From cc8329993fe906eb9a5fd1cb1d0cb724c8ab28c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:54 +0000
Subject: [PATCH 12/16] fix: isZero() of the MT classes in samples/MTDC looked
 at the newest word for the unused bits

---
 samples/MTDC/mt1.cpp | 5 +++--
 samples/MTDC/mt2.cpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/samples/MTDC/mt1.cpp b/samples/MTDC/mt1.cpp
index 4beff09..d76847e 100644
--- a/samples/MTDC/mt1.cpp
+++ b/samples/MTDC/mt1.cpp
@@ -40,10 +40,11 @@ public:
     }
 
     bool isZero() const {
-        if ((upper_mask & state[index]) != 0) {
+        // the oldest word, of which only the upper bits count
+        if ((upper_mask & state[(index + 1) % N]) != 0) {
             return false;
         }
-        for (int i = 1; i < N; i++) {
+        for (int i = 2; i <= N; i++) {
             if (state[(index + i) % N] != 0) {
                 return false;
             }
diff --git a/samples/MTDC/mt2.cpp b/samples/MTDC/mt2.cpp
index e55a6ca..22a60c4 100644
--- a/samples/MTDC/mt2.cpp
+++ b/samples/MTDC/mt2.cpp
@@ -102,10 +102,11 @@ public:
     }
 
     bool isZero() const {
-        if ((upper_mask & state[index]) != 0) {
+        // the oldest word, of which only the upper bits count
+        if ((upper_mask & state[(index + 1) % size]) != 0) {
             return false;
         }
-        for (int i = 1; i < size; i++) {
+        for (int i = 2; i <= size; i++) {
             if (state[(index + i) % size] != 0) {
                 return false;
             }
-- 
2.43.0


From 848fe9d34355b416b9c2cb14661783f4c77490bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:40 +0000
Subject: [PATCH 13/16] fix: searchParity() lost the states that a singular
 transition turns to zero

---
 include/MTToolBox/AlgorithmCalculateParity.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/MTToolBox/AlgorithmCalculateParity.hpp b/include/MTToolBox/AlgorithmCalculateParity.hpp
index 9c92c2d..0751db2 100644
--- a/include/MTToolBox/AlgorithmCalculateParity.hpp
+++ b/include/MTToolBox/AlgorithmCalculateParity.hpp
@@ -260,7 +260,7 @@ namespace MTToolBox {
                 return;
             }
             st.zero = false;
-            st.rg->generate();
+            // before the next step: a singular transition would lose a part
             st.next = st.rg->getParityValue();
             while (isZero(st.next)) {
                 if (st.rg->isZero()) {
-- 
2.43.0


From 38f97e83c82b2902d4336c1fba7d13cfa26460be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:58 +0000
Subject: [PATCH 14/16] fix: ids and start numbers of more than 32 bits were
 cut off instead of refused

---
 samples/MTGPDC/parse_opt.cpp   | 2 +-
 samples/TinyMTDC/parse_opt.cpp | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/samples/MTGPDC/parse_opt.cpp b/samples/MTGPDC/parse_opt.cpp
index 707528d..5494440 100644
--- a/samples/MTGPDC/parse_opt.cpp
+++ b/samples/MTGPDC/parse_opt.cpp
@@ -91,7 +91,7 @@ bool parse_opt(mtgp_options& opt, int argc, char **argv) {
         }
         long long id = strtoll(argv[1], NULL, 10);
         opt.id = static_cast<uint32_t>(id);
-        if (errno != 0) {
+        if (errno != 0 || (id < 0 || id > 0xffffffffLL)) {
             error = true;
             cerr << "id must be a number between 0 and 2^32-1" << endl;
         }
diff --git a/samples/TinyMTDC/parse_opt.cpp b/samples/TinyMTDC/parse_opt.cpp
index 56f36e3..6b6d65a 100644
--- a/samples/TinyMTDC/parse_opt.cpp
+++ b/samples/TinyMTDC/parse_opt.cpp
@@ -41,6 +41,7 @@ static void output_help(string& pgm, uint32_t start);
  */
 bool parse_opt(tinymt_options& opt, int argc, char **argv, uint32_t start) {
     int c;
+    unsigned long long num;
     bool error = false;
     string pgm = argv[0];
     static struct option longopts[] = {
@@ -73,12 +74,13 @@ bool parse_opt(tinymt_options& opt, int argc, char **argv, uint32_t start) {
             opt.verbose = true;
             break;
         case 's':
-            opt.start = static_cast<uint32_t>(strtoull(optarg, NULL, 0));
+            num = strtoull(optarg, NULL, 0);
+            opt.start = static_cast<uint32_t>(num);
             if (errno) {
                 error = true;
                 cerr << "start must be a number" << endl;
             }
-            if (opt.start > start) {
+            if (num > start) {
                 error = true;
                 cerr << "start must be less than or equal to " << start << endl;
             }
-- 
2.43.0


From 88098b5d5dd288779308b8bea8e27f3907457b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:09 +0000
Subject: [PATCH 15/16] fix: options and arguments of the creators and
 calc_equidist that are no numbers were read as numbers

---
 samples/MTDC/mt2.cpp              | 24 +++++++++++++-----------
 samples/MTGPDC/parse_opt.cpp      | 14 ++++++++------
 samples/RMT/rmt64dc.cpp           | 15 ++++++++-------
 samples/TinyMTDC/parse_opt.cpp    | 18 ++++++++++--------
 samples/dSFMTdc/calc_equidist.cpp |  5 +++--
 samples/dSFMTdc/dSFMTdc.cpp       | 19 ++++++++++---------
 samples/sfmtdc/calc_equidist.cpp  |  5 +++--
 samples/sfmtdc/sfmtdc.cpp         | 15 ++++++++-------
 samples/sfmtdc/sfmtdcfixed.cpp    | 15 ++++++++-------
 9 files changed, 71 insertions(+), 59 deletions(-)

diff --git a/samples/MTDC/mt2.cpp b/samples/MTDC/mt2.cpp
index 22a60c4..2dae40e 100644
--- a/samples/MTDC/mt2.cpp
+++ b/samples/MTDC/mt2.cpp
@@ -260,6 +260,7 @@ void output_help(string& pgm)
 
 bool parse_opt(options& opt, int argc, char **argv) {
     int c;
+    char *end;
     bool error = false;
     string pgm = argv[0];
     static struct option longopts[] = {
@@ -304,22 +305,22 @@ bool parse_opt(options& opt, int argc, char **argv) {
             opt.verbose = true;
             break;
         case 's':
-            opt.seed = static_cast<uint32_t>(strtoull(optarg, NULL, 0));
-            if (errno) {
+            opt.seed = static_cast<uint32_t>(strtoull(optarg, &end, 0));
+            if (errno || end == optarg || *end != '\0') {
                 error = true;
                 cerr << "seed must be a number" << endl;
             }
             break;
         case 'm':
-            opt.max_delta = static_cast<int>(strtol(optarg, NULL, 10));
-            if (errno) {
+            opt.max_delta = static_cast<int>(strtol(optarg, &end, 10));
+            if (errno || end == optarg || *end != '\0') {
                 error = true;
                 cerr << "max must be a number" << endl;
             }
             break;
         case 'c':
-            opt.count = static_cast<int>(strtoll(optarg, NULL, 10));
-            if (errno) {
+            opt.count = static_cast<int>(strtoll(optarg, &end, 10));
+            if (errno || end == optarg || *end != '\0') {
                 error = true;
                 cerr << "count must be a number" << endl;
             }
@@ -335,12 +336,12 @@ bool parse_opt(options& opt, int argc, char **argv) {
     if (argc < 2) {
         error = true;
     } else {
-        long mexp = strtol(argv[0], NULL, 10);
+        long mexp = strtol(argv[0], &end, 10);
         static const int allowed_mexp[] = {521, 607, 1279, 2203,
                                            2281, 3217, 4253, 4423,
                                            9689, 9941, 11213, 19937,
                                            21701, 23209, 44497, -1};
-        if (! errno) {
+        if (! errno && *end == '\0') {
             bool found = false;
             for (int i = 0; allowed_mexp[i] > 0; i++) {
                 if (mexp == allowed_mexp[i]) {
@@ -352,7 +353,7 @@ bool parse_opt(options& opt, int argc, char **argv) {
                 error = true;
             }
         }
-        if (errno || error){
+        if (errno || *end != '\0' || error){
             error = true;
             cerr << "mexp must be one of ";
             for (int i = 0; allowed_mexp[i] > 0; i++) {
@@ -361,8 +362,9 @@ bool parse_opt(options& opt, int argc, char **argv) {
             cerr << endl;
         }
         opt.mexp = static_cast<int>(mexp);
-        long id = strtol(argv[1], NULL, 10);
-        if (errno != 0 || (id < 0 || id > 0xffff)) {
+        long id = strtol(argv[1], &end, 10);
+        if (errno != 0 || end == argv[1] || *end != '\0'
+            || (id < 0 || id > 0xffff)) {
             error = true;
             cerr << "id must be a number between 0 and " << 0xffff
                  << endl;
diff --git a/samples/MTGPDC/parse_opt.cpp b/samples/MTGPDC/parse_opt.cpp
index 5494440..1c24431 100644
--- a/samples/MTGPDC/parse_opt.cpp
+++ b/samples/MTGPDC/parse_opt.cpp
@@ -26,6 +26,7 @@ using namespace std;
 
 bool parse_opt(mtgp_options& opt, int argc, char **argv) {
     int c;
+    char *end;
     bool error = false;
     string pgm = argv[0];
     static struct option longopts[] = {
@@ -55,8 +56,8 @@ bool parse_opt(mtgp_options& opt, int argc, char **argv) {
             opt.filename = optarg;
             break;
         case 'c':
-            opt.count = strtoll(optarg, NULL, 10);
-            if (errno) {
+            opt.count = strtoll(optarg, &end, 10);
+            if (errno || end == optarg || *end != '\0') {
                 error = true;
                 cerr << "count must be number" << endl;
             }
@@ -72,8 +73,8 @@ bool parse_opt(mtgp_options& opt, int argc, char **argv) {
     if (argc < 2) {
         error = true;
     } else {
-        opt.mexp = static_cast<int>(strtol(argv[0], NULL, 10));
-        if (errno != 0) {
+        opt.mexp = static_cast<int>(strtol(argv[0], &end, 10));
+        if (errno != 0 || end == argv[0] || *end != '\0') {
             error = true;
             cerr << "mexp must be number" << endl;
         } else {
@@ -89,9 +90,10 @@ bool parse_opt(mtgp_options& opt, int argc, char **argv) {
                     " 110503 or 216091" << endl;
             }
         }
-        long long id = strtoll(argv[1], NULL, 10);
+        long long id = strtoll(argv[1], &end, 10);
         opt.id = static_cast<uint32_t>(id);
-        if (errno != 0 || (id < 0 || id > 0xffffffffLL)) {
+        if (errno != 0 || end == argv[1] || *end != '\0'
+            || (id < 0 || id > 0xffffffffLL)) {
             error = true;
             cerr << "id must be a number between 0 and 2^32-1" << endl;
         }
diff --git a/samples/RMT/rmt64dc.cpp b/samples/RMT/rmt64dc.cpp
index 0226837..cff7b3e 100644
--- a/samples/RMT/rmt64dc.cpp
+++ b/samples/RMT/rmt64dc.cpp
@@ -138,6 +138,7 @@ bool parse_opt(rmt_options& opt, int argc, char **argv) {
     opt.seed = (uint64_t)clock();
     opt.filename = "";
     int c;
+    char *end;
     bool error = false;
     string pgm = argv[0];
     static struct option longopts[] = {
@@ -157,8 +158,8 @@ bool parse_opt(rmt_options& opt, int argc, char **argv) {
         }
         switch (c) {
         case 's':
-            opt.seed = strtoull(optarg, NULL, 0);
-            if (errno) {
+            opt.seed = strtoull(optarg, &end, 0);
+            if (errno || end == optarg || *end != '\0') {
                 error = true;
                 cerr << "seed must be a number" << endl;
             }
@@ -170,8 +171,8 @@ bool parse_opt(rmt_options& opt, int argc, char **argv) {
             opt.filename = optarg;
             break;
         case 'c':
-            opt.count = strtoll(optarg, NULL, 10);
-            if (errno) {
+            opt.count = strtoll(optarg, &end, 10);
+            if (errno || end == optarg || *end != '\0') {
                 error = true;
                 cerr << "count must be a number" << endl;
             }
@@ -187,12 +188,12 @@ bool parse_opt(rmt_options& opt, int argc, char **argv) {
     if (argc < 1) {
         error = true;
     } else {
-        long mexp = strtol(argv[0], NULL, 10);
+        long mexp = strtol(argv[0], &end, 10);
         static const int allowed_mexp[] = {521, 607, 1279, 2203,
                                            2281, 3217, 4253, 4423,
                                            9689, 9941, 11213, 19937,
                                            21701, 23209, 44497, -1};
-        if (! errno) {
+        if (! errno && *end == '\0') {
             bool found = false;
             for (int i = 0; allowed_mexp[i] > 0; i++) {
                 if (mexp == allowed_mexp[i]) {
@@ -204,7 +205,7 @@ bool parse_opt(rmt_options& opt, int argc, char **argv) {
                 error = true;
             }
         }
-        if (errno || error){
+        if (errno || *end != '\0' || error){
             error = true;
             cerr << "mexp must be one of ";
             for (int i = 0; allowed_mexp[i] > 0; i++) {
diff --git a/samples/TinyMTDC/parse_opt.cpp b/samples/TinyMTDC/parse_opt.cpp
index 6b6d65a..4d915ed 100644
--- a/samples/TinyMTDC/parse_opt.cpp
+++ b/samples/TinyMTDC/parse_opt.cpp
@@ -41,6 +41,7 @@ static void output_help(string& pgm, uint32_t start);
  */
 bool parse_opt(tinymt_options& opt, int argc, char **argv, uint32_t start) {
     int c;
+    char *end;
     unsigned long long num;
     bool error = false;
     string pgm = argv[0];
@@ -74,9 +75,9 @@ bool parse_opt(tinymt_options& opt, int argc, char **argv, uint32_t start) {
             opt.verbose = true;
             break;
         case 's':
-            num = strtoull(optarg, NULL, 0);
+            num = strtoull(optarg, &end, 0);
             opt.start = static_cast<uint32_t>(num);
-            if (errno) {
+            if (errno || end == optarg || *end != '\0') {
                 error = true;
                 cerr << "start must be a number" << endl;
             }
@@ -89,15 +90,15 @@ bool parse_opt(tinymt_options& opt, int argc, char **argv, uint32_t start) {
             opt.filename = optarg;
             break;
         case 'm':
-            opt.max_delta = static_cast<int>(strtol(optarg, NULL, 10));
-            if (errno) {
+            opt.max_delta = static_cast<int>(strtol(optarg, &end, 10));
+            if (errno || end == optarg || *end != '\0') {
                 error = true;
                 cerr << "max must be a number" << endl;
             }
             break;
         case 'c':
-            opt.count = strtoll(optarg, NULL, 10);
-            if (errno) {
+            opt.count = strtoll(optarg, &end, 10);
+            if (errno || end == optarg || *end != '\0') {
                 error = true;
                 cerr << "count must be a number" << endl;
             }
@@ -113,8 +114,9 @@ bool parse_opt(tinymt_options& opt, int argc, char **argv, uint32_t start) {
     if (argc < 1) {
         error = true;
     } else {
-        long long id = strtoll(argv[0], NULL, 10);
-        if (errno != 0 || (id < 0 || id > 0xffffffff)) {
+        long long id = strtoll(argv[0], &end, 10);
+        if (errno != 0 || end == argv[0] || *end != '\0'
+            || (id < 0 || id > 0xffffffff)) {
             error = true;
             cerr << "id must be a number between 0 and " << 0xffffffff
                  << endl;
diff --git a/samples/dSFMTdc/calc_equidist.cpp b/samples/dSFMTdc/calc_equidist.cpp
index 4359481..3ce1ac1 100644
--- a/samples/dSFMTdc/calc_equidist.cpp
+++ b/samples/dSFMTdc/calc_equidist.cpp
@@ -109,6 +109,7 @@ static bool parse_opt(options& opt, int argc, char **argv) {
     opt.verbose = false;
     opt.seed = (uint64_t)clock();
     int c;
+    char *end;
     bool error = false;
     string pgm = argv[0];
     static struct option longopts[] = {
@@ -126,8 +127,8 @@ static bool parse_opt(options& opt, int argc, char **argv) {
         }
         switch (c) {
         case 's':
-            opt.seed = strtoull(optarg, NULL, 0);
-            if (errno) {
+            opt.seed = strtoull(optarg, &end, 0);
+            if (errno || end == optarg || *end != '\0') {
                 error = true;
                 cerr << "seed must be a number" << endl;
             }
diff --git a/samples/dSFMTdc/dSFMTdc.cpp b/samples/dSFMTdc/dSFMTdc.cpp
index 92bc321..7def9f3 100644
--- a/samples/dSFMTdc/dSFMTdc.cpp
+++ b/samples/dSFMTdc/dSFMTdc.cpp
@@ -167,6 +167,7 @@ bool parse_opt(options& opt, int argc, char **argv) {
     opt.fixed = false;
     opt.fixedSL1 = 19;
     int c;
+    char *end;
     bool error = false;
     string pgm = argv[0];
     static struct option longopts[] = {
@@ -187,8 +188,8 @@ bool parse_opt(options& opt, int argc, char **argv) {
         }
         switch (c) {
         case 's':
-            opt.seed = strtoull(optarg, NULL, 0);
-            if (errno) {
+            opt.seed = strtoull(optarg, &end, 0);
+            if (errno || end == optarg || *end != '\0') {
                 error = true;
                 cerr << "seed must be a number" << endl;
             }
@@ -197,8 +198,8 @@ bool parse_opt(options& opt, int argc, char **argv) {
             opt.fixed = true;
             //if ((optarg != NULL) && (strlen(optarg) > 0)) {
             if (optarg != NULL) {
-                opt.fixedSL1 = static_cast<int>(strtoull(optarg, NULL, 0));
-                if (errno) {
+                opt.fixedSL1 = static_cast<int>(strtoull(optarg, &end, 0));
+                if (errno || end == optarg || *end != '\0') {
                     error = true;
                     cerr << "fixed sl1 must be a number" << endl;
                 }
@@ -213,8 +214,8 @@ bool parse_opt(options& opt, int argc, char **argv) {
             opt.filename = optarg;
             break;
         case 'c':
-            opt.count = strtoll(optarg, NULL, 10);
-            if (errno) {
+            opt.count = strtoll(optarg, &end, 10);
+            if (errno || end == optarg || *end != '\0') {
                 error = true;
                 cerr << "count must be a number" << endl;
             }
@@ -230,12 +231,12 @@ bool parse_opt(options& opt, int argc, char **argv) {
     if (argc < 1) {
         error = true;
     } else {
-        long mexp = strtol(argv[0], NULL, 10);
+        long mexp = strtol(argv[0], &end, 10);
         static const int allowed_mexp[] = {521, 1279,
                                            2203, 4253,
                                            11213, 19937,
                                            44497, -1};
-        if (! errno) {
+        if (! errno && *end == '\0') {
             bool found = false;
             for (int i = 0; allowed_mexp[i] > 0; i++) {
                 if (mexp == allowed_mexp[i]) {
@@ -247,7 +248,7 @@ bool parse_opt(options& opt, int argc, char **argv) {
                 error = true;
             }
         }
-        if (errno || error){
+        if (errno || *end != '\0' || error){
             error = true;
             cerr << "mexp must be one of ";
             for (int i = 0; allowed_mexp[i] > 0; i++) {
diff --git a/samples/sfmtdc/calc_equidist.cpp b/samples/sfmtdc/calc_equidist.cpp
index a84d1f5..7ffd283 100644
--- a/samples/sfmtdc/calc_equidist.cpp
+++ b/samples/sfmtdc/calc_equidist.cpp
@@ -130,6 +130,7 @@ static bool parse_opt(options& opt, int argc, char **argv) {
     opt.seed = (uint64_t)clock();
     opt.reverse = false;
     int c;
+    char *end;
     bool error = false;
     string pgm = argv[0];
     static struct option longopts[] = {
@@ -148,8 +149,8 @@ static bool parse_opt(options& opt, int argc, char **argv) {
         }
         switch (c) {
         case 's':
-            opt.seed = strtoull(optarg, NULL, 0);
-            if (errno) {
+            opt.seed = strtoull(optarg, &end, 0);
+            if (errno || end == optarg || *end != '\0') {
                 error = true;
                 cerr << "seed must be a number" << endl;
             }
diff --git a/samples/sfmtdc/sfmtdc.cpp b/samples/sfmtdc/sfmtdc.cpp
index 7a4be1a..1275ae5 100644
--- a/samples/sfmtdc/sfmtdc.cpp
+++ b/samples/sfmtdc/sfmtdc.cpp
@@ -188,6 +188,7 @@ bool parse_opt(options& opt, int argc, char **argv) {
     opt.seed = (uint64_t)clock();
     opt.filename = "";
     int c;
+    char *end;
     bool error = false;
     string pgm = argv[0];
     static struct option longopts[] = {
@@ -207,8 +208,8 @@ bool parse_opt(options& opt, int argc, char **argv) {
         }
         switch (c) {
         case 's':
-            opt.seed = strtoull(optarg, NULL, 0);
-            if (errno) {
+            opt.seed = strtoull(optarg, &end, 0);
+            if (errno || end == optarg || *end != '\0') {
                 error = true;
                 cerr << "seed must be a number" << endl;
             }
@@ -220,8 +221,8 @@ bool parse_opt(options& opt, int argc, char **argv) {
             opt.filename = optarg;
             break;
         case 'c':
-            opt.count = strtoll(optarg, NULL, 10);
-            if (errno) {
+            opt.count = strtoll(optarg, &end, 10);
+            if (errno || end == optarg || *end != '\0') {
                 error = true;
                 cerr << "count must be a number" << endl;
             }
@@ -237,12 +238,12 @@ bool parse_opt(options& opt, int argc, char **argv) {
     if (argc < 1) {
         error = true;
     } else {
-        long mexp = strtol(argv[0], NULL, 10);
+        long mexp = strtol(argv[0], &end, 10);
         static const int allowed_mexp[] = {607, 1279,
                                            2281, 3217, 4253, 4423,
                                            9689, 9941, 11213, 19937,
                                            21701, 23209, 44497, -1};
-        if (! errno) {
+        if (! errno && *end == '\0') {
             bool found = false;
             for (int i = 0; allowed_mexp[i] > 0; i++) {
                 if (mexp == allowed_mexp[i]) {
@@ -254,7 +255,7 @@ bool parse_opt(options& opt, int argc, char **argv) {
                 error = true;
             }
         }
-        if (errno || error){
+        if (errno || *end != '\0' || error){
             error = true;
             cerr << "mexp must be one of ";
             for (int i = 0; allowed_mexp[i] > 0; i++) {
diff --git a/samples/sfmtdc/sfmtdcfixed.cpp b/samples/sfmtdc/sfmtdcfixed.cpp
index a098502..d00b239 100644
--- a/samples/sfmtdc/sfmtdcfixed.cpp
+++ b/samples/sfmtdc/sfmtdcfixed.cpp
@@ -189,6 +189,7 @@ bool parse_opt(options& opt, int argc, char **argv) {
     opt.seed = (uint64_t)clock();
     opt.filename = "";
     int c;
+    char *end;
     bool error = false;
     string pgm = argv[0];
     static struct option longopts[] = {
@@ -208,8 +209,8 @@ bool parse_opt(options& opt, int argc, char **argv) {
         }
         switch (c) {
         case 's':
-            opt.seed = strtoull(optarg, NULL, 0);
-            if (errno) {
+            opt.seed = strtoull(optarg, &end, 0);
+            if (errno || end == optarg || *end != '\0') {
                 error = true;
                 cerr << "seed must be a number" << endl;
             }
@@ -221,8 +222,8 @@ bool parse_opt(options& opt, int argc, char **argv) {
             opt.filename = optarg;
             break;
         case 'c':
-            opt.count = strtoll(optarg, NULL, 10);
-            if (errno) {
+            opt.count = strtoll(optarg, &end, 10);
+            if (errno || end == optarg || *end != '\0') {
                 error = true;
                 cerr << "count must be a number" << endl;
             }
@@ -238,12 +239,12 @@ bool parse_opt(options& opt, int argc, char **argv) {
     if (argc < 1) {
         error = true;
     } else {
-        long mexp = strtol(argv[0], NULL, 10);
+        long mexp = strtol(argv[0], &end, 10);
         static const int allowed_mexp[] = {607, 1279,
                                            2281, 3217, 4253, 4423,
                                            9689, 9941, 11213, 19937,
                                            21701, 23209, 44497, -1};
-        if (! errno) {
+        if (! errno && *end == '\0') {
             bool found = false;
             for (int i = 0; allowed_mexp[i] > 0; i++) {
                 if (mexp == allowed_mexp[i]) {
@@ -255,7 +256,7 @@ bool parse_opt(options& opt, int argc, char **argv) {
                 error = true;
             }
         }
-        if (errno || error){
+        if (errno || *end != '\0' || error){
             error = true;
             cerr << "mexp must be one of ";
             for (int i = 0; allowed_mexp[i] > 0; i++) {
-- 
2.43.0


From 7597007273b48812d35fb57addfbe0040f71d4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:54 +0000
Subject: [PATCH 16/16] fix: options beyond the range of int were cut off;
 dSFMTdc shifted by fixed values over 63

---
 samples/MTDC/mt2.cpp           | 13 +++++++++----
 samples/MTGPDC/parse_opt.cpp   |  6 ++++--
 samples/TinyMTDC/parse_opt.cpp |  7 +++++--
 samples/dSFMTdc/dSFMTdc.cpp    |  9 ++++++---
 4 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/samples/MTDC/mt2.cpp b/samples/MTDC/mt2.cpp
index 2dae40e..a02532f 100644
--- a/samples/MTDC/mt2.cpp
+++ b/samples/MTDC/mt2.cpp
@@ -261,6 +261,7 @@ void output_help(string& pgm)
 bool parse_opt(options& opt, int argc, char **argv) {
     int c;
     char *end;
+    long long num;
     bool error = false;
     string pgm = argv[0];
     static struct option longopts[] = {
@@ -312,15 +313,19 @@ bool parse_opt(options& opt, int argc, char **argv) {
             }
             break;
         case 'm':
-            opt.max_delta = static_cast<int>(strtol(optarg, &end, 10));
-            if (errno || end == optarg || *end != '\0') {
+            num = strtoll(optarg, &end, 10);
+            opt.max_delta = static_cast<int>(num);
+            if (errno || end == optarg || *end != '\0'
+                || num != opt.max_delta) {
                 error = true;
                 cerr << "max must be a number" << endl;
             }
             break;
         case 'c':
-            opt.count = static_cast<int>(strtoll(optarg, &end, 10));
-            if (errno || end == optarg || *end != '\0') {
+            num = strtoll(optarg, &end, 10);
+            opt.count = static_cast<int>(num);
+            if (errno || end == optarg || *end != '\0'
+                || num != opt.count) {
                 error = true;
                 cerr << "count must be a number" << endl;
             }
diff --git a/samples/MTGPDC/parse_opt.cpp b/samples/MTGPDC/parse_opt.cpp
index 1c24431..abc52c4 100644
--- a/samples/MTGPDC/parse_opt.cpp
+++ b/samples/MTGPDC/parse_opt.cpp
@@ -73,8 +73,10 @@ bool parse_opt(mtgp_options& opt, int argc, char **argv) {
     if (argc < 2) {
         error = true;
     } else {
-        opt.mexp = static_cast<int>(strtol(argv[0], &end, 10));
-        if (errno != 0 || end == argv[0] || *end != '\0') {
+        long mexp = strtol(argv[0], &end, 10);
+        opt.mexp = static_cast<int>(mexp);
+        if (errno != 0 || end == argv[0] || *end != '\0'
+            || mexp != opt.mexp) {
             error = true;
             cerr << "mexp must be number" << endl;
         } else {
diff --git a/samples/TinyMTDC/parse_opt.cpp b/samples/TinyMTDC/parse_opt.cpp
index 4d915ed..9c45922 100644
--- a/samples/TinyMTDC/parse_opt.cpp
+++ b/samples/TinyMTDC/parse_opt.cpp
@@ -43,6 +43,7 @@ bool parse_opt(tinymt_options& opt, int argc, char **argv, uint32_t start) {
     int c;
     char *end;
     unsigned long long num;
+    long max;
     bool error = false;
     string pgm = argv[0];
     static struct option longopts[] = {
@@ -90,8 +91,10 @@ bool parse_opt(tinymt_options& opt, int argc, char **argv, uint32_t start) {
             opt.filename = optarg;
             break;
         case 'm':
-            opt.max_delta = static_cast<int>(strtol(optarg, &end, 10));
-            if (errno || end == optarg || *end != '\0') {
+            max = strtol(optarg, &end, 10);
+            opt.max_delta = static_cast<int>(max);
+            if (errno || end == optarg || *end != '\0'
+                || max != opt.max_delta) {
                 error = true;
                 cerr << "max must be a number" << endl;
             }
diff --git a/samples/dSFMTdc/dSFMTdc.cpp b/samples/dSFMTdc/dSFMTdc.cpp
index 7def9f3..cb4f530 100644
--- a/samples/dSFMTdc/dSFMTdc.cpp
+++ b/samples/dSFMTdc/dSFMTdc.cpp
@@ -168,6 +168,7 @@ bool parse_opt(options& opt, int argc, char **argv) {
     opt.fixedSL1 = 19;
     int c;
     char *end;
+    unsigned long long num;
     bool error = false;
     string pgm = argv[0];
     static struct option longopts[] = {
@@ -198,10 +199,12 @@ bool parse_opt(options& opt, int argc, char **argv) {
             opt.fixed = true;
             //if ((optarg != NULL) && (strlen(optarg) > 0)) {
             if (optarg != NULL) {
-                opt.fixedSL1 = static_cast<int>(strtoull(optarg, &end, 0));
-                if (errno || end == optarg || *end != '\0') {
+                num = strtoull(optarg, &end, 0);
+                opt.fixedSL1 = static_cast<int>(num);
+                if (errno || end == optarg || *end != '\0' || num > 63) {
                     error = true;
-                    cerr << "fixed sl1 must be a number" << endl;
+                    cerr << "fixed sl1 must be a number between 0 and 63"
+                         << endl;
                 }
             } else {
                 opt.fixedSL1 = 19;
-- 
2.43.0

