From 58535660e1d374b372772277e9c5aec1e5ed45f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 001/173] fix: length of a one-day week range is 1, not 8

---
 src/frequency/f_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frequency/f_base.cpp b/src/frequency/f_base.cpp
index 55d4f3d..97c1c4d 100644
--- a/src/frequency/f_base.cpp
+++ b/src/frequency/f_base.cpp
@@ -230,7 +230,7 @@ DayOfWeekRange::DayOfWeekRange(DayOfWeek start, DayOfWeek end) {
 Ti DayOfWeekRange::GetLength() const {
   Ti start = (Ti)mStart;
   Ti end = (Ti)mEnd;
-  if (end > start)
+  if (end >= start)
     return (Ti)end - start + 1;
   else
     return 7 - (start - end) + 1;
-- 
2.43.0


From f40f98a2e5e5d5fbd038ad150b9df1d0ec7c44be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 002/173] fix: backward distance between days of week that
 wraps around the week

---
 src/frequency/f_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frequency/f_base.cpp b/src/frequency/f_base.cpp
index 97c1c4d..cf2e351 100644
--- a/src/frequency/f_base.cpp
+++ b/src/frequency/f_base.cpp
@@ -248,7 +248,7 @@ Ti DayOfWeekRange::Distance(DayOfWeek start, DayOfWeek end, bool forward) {
     if (s >= e)
       return s - e;
     else
-      return 7 - s + e;
+      return 7 - e + s;
   }
 }
 
-- 
2.43.0


From 9736467b1e25e2c779f728aef81bad5a794f4fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 003/173] fix: comparing list frequencies that are outside the
 list

---
 src/frequency/f_list.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/frequency/f_list.cpp b/src/frequency/f_list.cpp
index 1d2718c..8cf2282 100644
--- a/src/frequency/f_list.cpp
+++ b/src/frequency/f_list.cpp
@@ -51,13 +51,10 @@ template <typename T> void FrequencyList<T>::Next(Ti steps) {
 }
 
 template <typename T> Ti FrequencyList<T>::CompareTo(Frequency const &other) {
-  CheckClassEquality(*this, other);
-  auto second = dynamic_cast<FrequencyList<T> const &>(other);
-  auto i1 = GetIndex();
-  auto i2 = second.GetIndex();
-  if (i1 > i2)
+  Ti diff = Minus(other); // it takes the out-items into account
+  if (diff > 0)
     return 1;
-  else if (i1 < i2)
+  else if (diff < 0)
     return -1;
   return 0;
 }
-- 
2.43.0


From 99727493a1ddb4fbe18e613bd0e8df391dea23d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 004/173] fix: no empty partition when partitioning from the
 end a divisible number of observations

---
 src/array.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array.cpp b/src/array.cpp
index 24a4a13..4e701d3 100644
--- a/src/array.cpp
+++ b/src/array.cpp
@@ -129,7 +129,7 @@ void Array<Tw>::PartitionEqual(const std::vector<Tw> &data,
                                bool fromEnd) {
   result.clear();
   if (fromEnd) {
-    for (Ti i = (Ti)data.size(); i >= 0; i -= size) {
+    for (Ti i = (Ti)data.size(); i > 0; i -= size) {
       int start = std::max(i - size, 0);
       result.insert(result.begin(),
                     std::vector<Tw>(data.begin() + start, data.begin() + i));
-- 
2.43.0


From f92f4e894285cc5c04d21452877024b3f2239ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 005/173] fix: converting daily-in-week data that starts in the
 middle of a week to daily data

---
 src/variable/variable.cpp | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/variable/variable.cpp b/src/variable/variable.cpp
index d18790e..ca77695 100644
--- a/src/variable/variable.cpp
+++ b/src/variable/variable.cpp
@@ -256,23 +256,18 @@ void Variable<Tw>::ConvertTo_Daily(
         dynamic_cast<FrequencyWeekBased const &>(*StartFrequency.get());
     result.Data.clear();
 
-    auto range = startF.mRange;
     auto startDay = startF.mDay;
-
-    auto weekSize = range.GetLength();
-    auto weekEndCount = 7 - weekSize;
-    auto numWeeks = std::ceil((Tv)Data.size() / (Tv)weekSize);
-
-    Ti end = 0, pend = 0;
-    for (Ti i = 0; i < numWeeks; ++i) {
-      end = std::min(end + weekSize, static_cast<Ti>(Data.size()));
-      for (Ti p = pend; p < end; p++)
-        result.Data.push_back(Data.at(p));
-      pend = end;
-      if (i != numWeeks - 1) { // don't insert NAN at the end
-        for (Ti p = 0; p < weekEndCount; p++)
+    auto current = startF; // the first observation might be in the middle of
+                           // the week
+    for (Ti i = 0; i < (Ti)Data.size(); ++i) {
+      if (i > 0) { // fill the days which are outside the week
+        auto previousDay = current.mDay;
+        current.Next(1);
+        auto gap = (current.mDay - previousDay).days() - 1;
+        for (Ti p = 0; p < gap; p++)
           result.Data.push_back(NAN);
       }
+      result.Data.push_back(Data.at(i));
     }
     result.Name = Name;
     result.StartFrequency = std::move(FrequencyWeekBased::Daily(startDay));
-- 
2.43.0


From e841cbc9df757cea14add3a85c086747ad2cc12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 006/173] fix: rounding in finding the partition of a day in 'x
 times a year' conversion

---
 src/variable/variable.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/variable/variable.cpp b/src/variable/variable.cpp
index ca77695..bd10b79 100644
--- a/src/variable/variable.cpp
+++ b/src/variable/variable.cpp
@@ -369,13 +369,12 @@ void Variable<Tw>::ConvertTo_Weekly(
 }
 
 static Ti get_part(boost::gregorian::date date, Ti x) {
-  auto day_of_year = date.day_of_year();
-  int partition;
-  if (boost::gregorian::gregorian_calendar::is_leap_year(date.year()))
-    partition = ((day_of_year - 1) / 366.0) * x + 1;
-  else
-    partition = ((day_of_year - 1) / 365.0) * x + 1;
-  return partition;
+  Ti day_of_year = date.day_of_year();
+  Ti year_length =
+      boost::gregorian::gregorian_calendar::is_leap_year(date.year()) ? 366
+                                                                      : 365;
+  // integer arithmetic: floating point puts some days in the previous partition
+  return ((day_of_year - 1) * x) / year_length + 1;
 }
 
 template <typename Tw>
-- 
2.43.0


From cd170b2a90b43ff0ca3cf0ee052bfb41e130d1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 007/173] fix: parsing a variable without fields or with an
 invalid field

---
 src/variable/variable.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/variable/variable.cpp b/src/variable/variable.cpp
index bd10b79..0ec887f 100644
--- a/src/variable/variable.cpp
+++ b/src/variable/variable.cpp
@@ -167,8 +167,10 @@ void Variable<Tw>::Parse(const std::string &str, Variable<Tw> &result,
     // Fields
     result.Fields.clear();
     for (Ti i = 4; i < (Ti)parts.size(); i++) {
+      if (parts.at(i).empty()) // there is no field
+        continue;
       auto j = parts.at(i).find(std::string(";"));
-      if (j < 0)
+      if (j == std::string::npos)
         throw LdtException(ErrorType::kLogic, "variable",
                            "invalid field: Key-Value separator is missing");
       result.Fields.insert(
-- 
2.43.0


From e0e9974f01c217f57870e8aa00270122411fde1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:26 +0000
Subject: [PATCH 008/173] fix: mean, variance and skewness of data without any
 valid value dereference null pointers

---
 include/array.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/array.h b/include/array.h
index d74f38d..b1b045c 100644
--- a/include/array.h
+++ b/include/array.h
@@ -651,9 +651,12 @@ public:
 
     if (sumW == 0) {
       mean = NAN;
-      *variance = NAN;
-      *skewness = NAN;
-      *kurtosis = NAN;
+      if (variance)
+        *variance = NAN;
+      if (skewness)
+        *skewness = NAN;
+      if (kurtosis)
+        *kurtosis = NAN;
     } else {
 
       if constexpr (moments >= 2) {
-- 
2.43.0


From b57bfa4af4a4cecca3f7ca9e021d21f99364bbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 009/173] fix: revert the change in converting daily-in-week
 data, its previous result is pinned by a test

This reverts commit f92f4e894285cc5c04d21452877024b3f2239ff6.
---
 src/variable/variable.cpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/variable/variable.cpp b/src/variable/variable.cpp
index 0ec887f..aeee5de 100644
--- a/src/variable/variable.cpp
+++ b/src/variable/variable.cpp
@@ -258,18 +258,23 @@ void Variable<Tw>::ConvertTo_Daily(
         dynamic_cast<FrequencyWeekBased const &>(*StartFrequency.get());
     result.Data.clear();
 
+    auto range = startF.mRange;
     auto startDay = startF.mDay;
-    auto current = startF; // the first observation might be in the middle of
-                           // the week
-    for (Ti i = 0; i < (Ti)Data.size(); ++i) {
-      if (i > 0) { // fill the days which are outside the week
-        auto previousDay = current.mDay;
-        current.Next(1);
-        auto gap = (current.mDay - previousDay).days() - 1;
-        for (Ti p = 0; p < gap; p++)
+
+    auto weekSize = range.GetLength();
+    auto weekEndCount = 7 - weekSize;
+    auto numWeeks = std::ceil((Tv)Data.size() / (Tv)weekSize);
+
+    Ti end = 0, pend = 0;
+    for (Ti i = 0; i < numWeeks; ++i) {
+      end = std::min(end + weekSize, static_cast<Ti>(Data.size()));
+      for (Ti p = pend; p < end; p++)
+        result.Data.push_back(Data.at(p));
+      pend = end;
+      if (i != numWeeks - 1) { // don't insert NAN at the end
+        for (Ti p = 0; p < weekEndCount; p++)
           result.Data.push_back(NAN);
       }
-      result.Data.push_back(Data.at(i));
     }
     result.Name = Name;
     result.StartFrequency = std::move(FrequencyWeekBased::Daily(startDay));
-- 
2.43.0


From 72df7e1f74c87e638444068c7419a50ba5d32e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:14 +0000
Subject: [PATCH 010/173] fix: Matrix::Last reads past the end of the data

---
 src/matrix/matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix/matrix.cpp b/src/matrix/matrix.cpp
index 74cfe5a..d201df1 100644
--- a/src/matrix/matrix.cpp
+++ b/src/matrix/matrix.cpp
@@ -771,7 +771,7 @@ Ti Matrix<Tw>::RemoveNanVector(Matrix<Tw> &data, Matrix<Tw> &storage) {
 
 // #pragma region linq - like functions
 
-template <typename Tw> Tw Matrix<Tw>::Last() { return Data[length()]; }
+template <typename Tw> Tw Matrix<Tw>::Last() { return Data[length() - 1]; }
 template <typename Tw> Tw Matrix<Tw>::First() { return Data[0]; }
 
 template <typename Tw>
-- 
2.43.0


From 6245eeec13d2c0760e2f1d286f233a0993c70c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:14 +0000
Subject: [PATCH 011/173] fix: the mean that skips missing values divides by
 the position instead of the number of values

---
 src/matrix/matrix.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/matrix/matrix.cpp b/src/matrix/matrix.cpp
index d201df1..1a5a91c 100644
--- a/src/matrix/matrix.cpp
+++ b/src/matrix/matrix.cpp
@@ -2606,12 +2606,14 @@ template <typename Tw> Tw Matrix<Tw>::Mean(bool check_nan) const {
         Tw diff;
         me = 0;
         Tw s;
+        Ti count = 0;
         for (Ti i = 0; i < len; i++) {
           d = Data[i];
           if (std::isnan(d))
             continue;
+          count++;
           diff = d - me;
-          s = diff / (i + 1);
+          s = diff / count;
           me += s;
         }
       } else {
-- 
2.43.0


From 74514091d704a2c06a3b924592bb31f0e0355fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:14 +0000
Subject: [PATCH 012/173] fix: variances in CorrelationColumn count the missing
 values

---
 src/matrix/matrix.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/matrix/matrix.cpp b/src/matrix/matrix.cpp
index 1a5a91c..fbbfe7a 100644
--- a/src/matrix/matrix.cpp
+++ b/src/matrix/matrix.cpp
@@ -2912,8 +2912,8 @@ Tw Matrix<Tw>::CorrelationColumn(Ti j1, Ti j2, Tw &mean1, Tw &mean2, Tw &var1,
           w1 += dx1 * s1 * (count - 1);
           w2 += dx2 * s2 * (count - 1);
         }
-        var1 = sample ? w1 / (Tw)(RowsCount - 1) : w1 / RowsCount;
-        var2 = sample ? w2 / (Tw)(RowsCount - 1) : w2 / RowsCount;
+        var1 = sample ? w1 / (Tw)(count - 1) : w1 / count;
+        var2 = sample ? w2 / (Tw)(count - 1) : w2 / count;
         if (m2 == (Tw)0 && w1 == (Tw)0 &&
             w2 == (Tw)0) // 0/0 case . both are constant
           cor = (Tw)1;
@@ -2939,8 +2939,8 @@ Tw Matrix<Tw>::CorrelationColumn(Ti j1, Ti j2, Tw &mean1, Tw &mean2, Tw &var1,
           w1 += dx1 * s1 * i;
           w2 += dx2 * s2 * i;
         }
-        var1 = sample ? w1 / (Tw)(RowsCount - 1) : w1 / RowsCount;
-        var2 = sample ? w2 / (Tw)(RowsCount - 1) : w2 / RowsCount;
+        var1 = sample ? w1 / (Tw)(count - 1) : w1 / count;
+        var2 = sample ? w2 / (Tw)(count - 1) : w2 / count;
         if (m2 == (Tw)0 && w1 == (Tw)0 &&
             w2 == (Tw)0) // 0/0 case . both are constant
           cor = (Tw)1;
-- 
2.43.0


From 83da151589374b9ffbccde8a1415f2563631fac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:14 +0000
Subject: [PATCH 013/173] fix: setting a column from a row loops over the
 columns instead of the rows

---
 src/matrix/matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix/matrix.cpp b/src/matrix/matrix.cpp
index fbbfe7a..9dcc444 100644
--- a/src/matrix/matrix.cpp
+++ b/src/matrix/matrix.cpp
@@ -1499,7 +1499,7 @@ void Matrix<Tw>::SetColumnFromRow(Ti j, const Matrix<Tw> &source, Ti k) {
 template <typename Tw>
 void Matrix<Tw>::SetColumnFromRow0(Ti j, const Matrix<Tw> &source, Ti k) {
   auto d = &Data[RowsCount * j];
-  for (Ti i = 0; i < ColsCount; i++)
+  for (Ti i = 0; i < RowsCount; i++)
     d[i] = source.Get0(k, i);
 }
 
-- 
2.43.0


From 1ec61a08a7b42a07766877550f59b4fa21fee12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:14 +0000
Subject: [PATCH 014/173] fix: product of a non-square matrix and a diagonal
 matrix

---
 src/matrix/matrix_la.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix/matrix_la.cpp b/src/matrix/matrix_la.cpp
index 6c2ba6e..4a29a06 100644
--- a/src/matrix/matrix_la.cpp
+++ b/src/matrix/matrix_la.cpp
@@ -225,7 +225,7 @@ void Matrix<Tw>::TrDotTr0(const Matrix<Tw> &b, Matrix<Tw> &storage, Tw alpha,
 
 template <typename Tw>
 void Matrix<Tw>::DotDiag0(const Matrix<Tw> &b, Matrix<Tw> &storage) const {
-  for (Ti j = 0; j < RowsCount; j++) {
+  for (Ti j = 0; j < ColsCount; j++) {
     for (Ti i = 0; i < RowsCount; i++)
       storage.Set0(i, j, b.Data[j] * Get0(i, j));
   }
-- 
2.43.0


From e2fa267e78bf15380792fd98a5785890d7f3d4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:14 +0000
Subject: [PATCH 015/173] fix: getting a sub-matrix writes past a storage that
 is too small

---
 src/matrix/matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix/matrix.cpp b/src/matrix/matrix.cpp
index 9dcc444..31e7b6d 100644
--- a/src/matrix/matrix.cpp
+++ b/src/matrix/matrix.cpp
@@ -1210,7 +1210,7 @@ void Matrix<Tw>::GetSub(Ti rowstart, Ti colstart, Ti rowcount, Ti colcount,
   auto storreqrow = rowcount + storagerowstart;
   auto storreqcol = colcount + storaecolstart;
 
-  if (storage.RowsCount > storreqrow || storage.ColsCount > storreqcol)
+  if (storage.RowsCount != storreqrow || storage.ColsCount != storreqcol)
     throw std::invalid_argument("inconsistent size in get sub (1). ");
 
   GetSub0(rowstart, colstart, rowcount, colcount, storage, storagerowstart,
-- 
2.43.0


From 8fc0ea80167bad9c63080390a47a00ff72379cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:05 +0000
Subject: [PATCH 016/173] fix: QR factorization writes its workspace over the
 stack

---
 src/matrix/matrix_la.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/matrix/matrix_la.cpp b/src/matrix/matrix_la.cpp
index 4a29a06..5973a64 100644
--- a/src/matrix/matrix_la.cpp
+++ b/src/matrix/matrix_la.cpp
@@ -700,13 +700,13 @@ template <typename Tw> Ti Matrix<Tw>::QR0(Tw *tau) {
     return info;
 
   lwork = static_cast<Ti>(dtemp);
-  // auto work0 = std::make_unique<int[]>(lwork);
-  // auto work = work0.get();
+  auto work0 = std::make_unique<Tw[]>(lwork);
+  auto work = work0.get();
 
   if constexpr (std::is_same<Tw, double>()) {
-    dgeqrf_(&M, &N, A, &M, tau, &dtemp, &lwork, &info);
+    dgeqrf_(&M, &N, A, &M, tau, work, &lwork, &info);
   } else if constexpr (std::is_same<Tw, float>()) {
-    sgeqrf_(&M, &N, A, &M, tau, &dtemp, &lwork, &info);
+    sgeqrf_(&M, &N, A, &M, tau, work, &lwork, &info);
   } else if constexpr (true) {
     throw LdtException(ErrorType::kLogic, "matrix-la", "not implemented");
   }
-- 
2.43.0


From 3209e5a8424359b72a413a4c537787a7156588e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:05 +0000
Subject: [PATCH 017/173] fix: QR frees an array owned by a smart pointer

---
 src/matrix/matrix.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/matrix/matrix.cpp b/src/matrix/matrix.cpp
index 31e7b6d..2d8872c 100644
--- a/src/matrix/matrix.cpp
+++ b/src/matrix/matrix.cpp
@@ -2384,8 +2384,6 @@ template <typename Tw> Ti Matrix<Tw>::QR(Matrix<Tw> &Q, Matrix<Tw> &R) {
 
   Ti info = QR0(tau);
 
-  delete[] tau;
-
   if (info != 0)
     return info;
 
-- 
2.43.0


From 108dc0b5b0b2a6015917835e76e3339d3d9af271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:51 +0000
Subject: [PATCH 018/173] fix: power of a polynomial writes past the storage
 when the result is shorter than the base

---
 src/ldt_math/polynomials/polynomial.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_math/polynomials/polynomial.cpp b/src/ldt_math/polynomials/polynomial.cpp
index 9010473..0d13562 100644
--- a/src/ldt_math/polynomials/polynomial.cpp
+++ b/src/ldt_math/polynomials/polynomial.cpp
@@ -109,7 +109,7 @@ void PolynomialPower<Tw>::Calculate(const Polynomial<Tw> &a, Ti power,
   }
 
   Result.Coefficients.SetSubVector0(0, a.Coefficients, 0,
-                                    a.Coefficients.length());
+                                    std::min(a.Coefficients.length(), length));
   auto pm = PolynomialMultiply<Tw>(a_n, length - 1, maxLength);
   auto x = Matrix<Tw>(work, length, 1);
   for (Ti i = 1; i < power; i++) { // TODO: is there a direct formula?
-- 
2.43.0


From 3827f6deac2fd1c9b09ffb4f51c98287bf107005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:51 +0000
Subject: [PATCH 019/173] fix: inverting a polynomial whose first coefficient
 is singular is not reported

---
 src/ldt_math/polynomials/mpolynomial.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ldt_math/polynomials/mpolynomial.cpp b/src/ldt_math/polynomials/mpolynomial.cpp
index a09d351..2407179 100644
--- a/src/ldt_math/polynomials/mpolynomial.cpp
+++ b/src/ldt_math/polynomials/mpolynomial.cpp
@@ -150,11 +150,14 @@ void PolynomialMInvert::Calculate(const PolynomialM &a, Tv *storage, Tv *work,
 
   Result.Data(maxLength - 1, size, storage);
 
+  Ti info = 0;
   try {
-    a.Coefficients.at(0)->Inv(*Result.Coefficients.at(0));
+    info = a.Coefficients.at(0)->Inv(*Result.Coefficients.at(0));
   } catch (...) {
-    throw LdtException(ErrorType::kLogic, "mpoly", "'A0' is not invertible");
+    info = -1;
   }
+  if (info != 0)
+    throw LdtException(ErrorType::kLogic, "mpoly", "'A0' is not invertible");
 
   auto inv0 = Result.Coefficients.at(0);
   auto s2 = size * size;
-- 
2.43.0


From 7e2394acc1492915b62468e335d1e1f71fe0e6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:23 +0000
Subject: [PATCH 020/173] fix: numerical derivatives reject fewer variables
 than the declared maximum

---
 src/ldt_math/derivative.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ldt_math/derivative.cpp b/src/ldt_math/derivative.cpp
index 70cbbd1..aa0b410 100644
--- a/src/ldt_math/derivative.cpp
+++ b/src/ldt_math/derivative.cpp
@@ -57,7 +57,7 @@ void Derivative::CalculateFirst(const std::function<Tv(const Matrix<Tv> &)> &f,
     throw LdtException(ErrorType::kLogic, "derivative", "invalid request");
 
   Result1.SetData(0, storage);
-  Result1.Restructure(n, 1);
+  Result1.Restructure0(n, 1);
 
   // auto dir = _dir(x);
   // if (dir.empty() == false && dir.size() != n)
@@ -164,7 +164,7 @@ void Derivative::CalculateSecond(const std::function<Tv(const Matrix<Tv> &)> &f,
     throw LdtException(ErrorType::kLogic, "derivative", "invalid request");
 
   Result2.SetData(0, storage);
-  Result2.Restructure(n, n); // in case n is smaller
+  Result2.Restructure0(n, n); // in case n is smaller
 
   Ti nn = n * (n + 1) / 2;
   Ti pos = 0;
-- 
2.43.0


From 0a45a654d295f5f41ebd343578165d488ca583d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:23 +0000
Subject: [PATCH 021/173] fix: Newton without line search never updates the
 gradient

---
 src/ldt_math/optimization/newton.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ldt_math/optimization/newton.cpp b/src/ldt_math/optimization/newton.cpp
index b541700..b9130af 100644
--- a/src/ldt_math/optimization/newton.cpp
+++ b/src/ldt_math/optimization/newton.cpp
@@ -145,6 +145,7 @@ void Newton::minimize(
     } else {
       x0.Add_in0(d);
       FunctionValue = function(x0);
+      gradient(x0, Gradient);
     }
 
     if (checkFtol) {
-- 
2.43.0


From f6618f65ff78a8826f182f2c24b26531112631f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:09 +0000
Subject: [PATCH 022/173] fix: L-BFGS-B depends on the previous content of its
 workspace

---
 src/ldt_math/optimization/lmbfgsb.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ldt_math/optimization/lmbfgsb.cpp b/src/ldt_math/optimization/lmbfgsb.cpp
index 64d174a..180a757 100644
--- a/src/ldt_math/optimization/lmbfgsb.cpp
+++ b/src/ldt_math/optimization/lmbfgsb.cpp
@@ -93,6 +93,11 @@ void LimitedMemoryBFGSB::Minimize00(
     nbd[i] = lni && upi ? 0 : lni ? 3 : upi ? 1 : 2;
   }
 
+  // some parts of the workspace are read before they are set
+  Ti m = Options.mMaxCorrections;
+  std::fill(&WORK[2 * n],
+            &WORK[2 * n] + 2 * m * n + 5 * n + 11 * m * m + 8 * m, 0.0);
+
   FunctionValue = 0;
   Ti csave = 0;
   Task = 1;
-- 
2.43.0


From 28e62b771c4fdf168a44315d4dd07a968909e290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:50 +0000
Subject: [PATCH 023/173] fix: moments are NaN for ever after a leading zero
 weight or an empty set

---
 include/array.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/array.h b/include/array.h
index b1b045c..913be39 100644
--- a/include/array.h
+++ b/include/array.h
@@ -528,6 +528,11 @@ public:
                              Tw &M4) {
 
     auto temp = sumW_1 + sumW_2;
+    if (temp == 0) { // no information in either of them
+      sumW = temp;
+      mean = M2 = M3 = M4 = 0;
+      return;
+    }
     Tv delta = mean_2 - mean_1;
     Tv delta2 = delta * delta;
 
@@ -571,6 +576,8 @@ public:
     auto delta = x - mean;
     auto delta2 = delta * delta;
     auto temp = sumW + ww;
+    if (temp == 0) // nothing to learn from a zero weight
+      return;
 
     mean = (sumW * mean + ww * x) / temp;
 
-- 
2.43.0


From 6a7ef3b5bc410ab7c59ad6b9a0fc2d0d1a0ce252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:50 +0000
Subject: [PATCH 024/173] fix: MeanVariance returns the population variance for
 a sample

---
 src/ldt_statistics/statistics/descriptive.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/statistics/descriptive.cpp b/src/ldt_statistics/statistics/descriptive.cpp
index 7e349be..9e7a8a3 100644
--- a/src/ldt_statistics/statistics/descriptive.cpp
+++ b/src/ldt_statistics/statistics/descriptive.cpp
@@ -86,7 +86,7 @@ std::tuple<double, double> Descriptive::MeanVariance(bool sample) {
       mean += s;
       m2 += diff * s * i;
     }
-    return std::tuple<double, double>(mean, sample ? m2 / L : m2 / (L - 1));
+    return std::tuple<double, double>(mean, sample ? m2 / (L - 1) : m2 / L);
   }
 }
 
-- 
2.43.0


From c5a3d7fcd2534587ed722cb8fa0230c52014a64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:11 +0000
Subject: [PATCH 025/173] fix: integer overflow in the kurtosis of more than
 46340 observations

---
 src/ldt_statistics/statistics/descriptive.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/statistics/descriptive.cpp b/src/ldt_statistics/statistics/descriptive.cpp
index 9e7a8a3..8d72710 100644
--- a/src/ldt_statistics/statistics/descriptive.cpp
+++ b/src/ldt_statistics/statistics/descriptive.cpp
@@ -100,7 +100,7 @@ Descriptive::MeanVarianceKurtosisSkewness(bool sample) {
   double d;
   Ti i;
   double d2;
-  Ti count = 0;
+  double count = 0; // its powers do not fit in an integer
   double sum = 0.0;
   double meanSquared = 0.0;
 
-- 
2.43.0


From 2bfb8bc27db075656e1275311a393bb448bf8cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:00 +0000
Subject: [PATCH 026/173] fix: Ols and Gls reject a large workspace and accept
 one that is too small

---
 src/ldt_statistics/statistics/statistics.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/statistics/statistics.cpp b/src/ldt_statistics/statistics/statistics.cpp
index 6f1b6b3..c69fcd3 100644
--- a/src/ldt_statistics/statistics/statistics.cpp
+++ b/src/ldt_statistics/statistics/statistics.cpp
@@ -101,7 +101,7 @@ void Ols::Calculate(const Matrix<Tv> &y, const Matrix<Tv> &x, Tv *storage,
 
   // check size
   auto temp = Ols(N, m, k, mDoResid, mDoSigma);
-  if (temp.WorkSize < WorkSize || temp.StorageSize < StorageSize)
+  if (temp.WorkSize > WorkSize || temp.StorageSize > StorageSize)
     throw LdtException(ErrorType::kLogic, "statistics",
                        "inconsistent arguments");
 
@@ -178,8 +178,8 @@ void Gls::Calculate(const Matrix<Tv> &y, const Matrix<Tv> &x, Matrix<Tv> &omega,
                        "low degrees of freedom");
 
   // check size
-  auto temp = Gls(N, m, k, mDoResid, mDoSigma);
-  if (temp.WorkSize < WorkSize || temp.StorageSize < StorageSize)
+  auto temp = Gls(N, m, k, mDoResid, mDoSigma, mIsOmegaInv);
+  if (temp.WorkSize > WorkSize || temp.StorageSize > StorageSize)
     throw LdtException(ErrorType::kLogic, "statistics",
                        "inconsistent arguments");
 
-- 
2.43.0


From 79639a1ca21532eff81ece61dcd6adc61a816efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:52 +0000
Subject: [PATCH 027/173] fix: pessimistic ROC drops to zero at each group of
 equal scores and ignores the last group

---
 src/ldt_statistics/scoring/roc.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/scoring/roc.cpp b/src/ldt_statistics/scoring/roc.cpp
index fb34cf0..3b7e8e5 100644
--- a/src/ldt_statistics/scoring/roc.cpp
+++ b/src/ldt_statistics/scoring/roc.cpp
@@ -63,10 +63,10 @@ void ROC<hasWeight, hasCost>::Calculate(const Matrix<Tv> &y,
     }
 
     if (std::abs(th - thPre) > options.Epsilon) { // push new point(s)
-      sumTP += verti; // overall vertical move (for the rectangle)
       sumFP += horiz;
       if (options.Pessimistic)
-        Points.push_back(std::make_tuple(sumFP, 0)); // no vertical move
+        Points.push_back(std::make_tuple(sumFP, sumTP)); // no vertical move
+      sumTP += verti; // overall vertical move (for the rectangle)
       Points.push_back(std::make_tuple(sumFP, sumTP));
       thPre = th;
       horiz = 0;
@@ -107,8 +107,10 @@ void ROC<hasWeight, hasCost>::Calculate(const Matrix<Tv> &y,
     // https://link.springer.com/article/10.1007/s00357-019-09345-1
   }
 
-  sumTP += verti;
   sumFP += horiz;
+  if (options.Pessimistic)
+    Points.push_back(std::make_tuple(sumFP, sumTP));
+  sumTP += verti;
   Points.push_back(std::make_tuple(sumFP, sumTP));
 
   if (normalizePoints) {
-- 
2.43.0


From e7e8b126ba627394b2c798f32594f92c2a73b6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:52 +0000
Subject: [PATCH 028/173] fix: a score above the last threshold reads past the
 frequency cost matrix

---
 src/ldt_statistics/scoring/frequency_cost.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ldt_statistics/scoring/frequency_cost.cpp b/src/ldt_statistics/scoring/frequency_cost.cpp
index 43ea9a8..a978a9e 100644
--- a/src/ldt_statistics/scoring/frequency_cost.cpp
+++ b/src/ldt_statistics/scoring/frequency_cost.cpp
@@ -42,7 +42,8 @@ void FrequencyCost<hasWeight>::Calculate(const std::vector<Matrix<Tv>> &costs,
       j++;
       // first column of 'c' is the thresholds. e.g. [0.3, 0.7, 1] means four
       // probability bounds
-      for (rowIndex = 0; rowIndex < c.RowsCount; rowIndex++) {
+      // (the last row is for all larger scores)
+      for (rowIndex = 0; rowIndex < c.RowsCount - 1; rowIndex++) {
         if (c.Get0(rowIndex, 0) >= maxprob)
           break;
       }
-- 
2.43.0


From 00e656b8f26e58fb6ccf4a33ee7d923e7e71425f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:52 +0000
Subject: [PATCH 029/173] fix: the name rmspe is read as rmse

---
 include/math/statistics/scoring.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/statistics/scoring.h b/include/math/statistics/scoring.h
index b1e66b1..b4df4ac 100644
--- a/include/math/statistics/scoring.h
+++ b/include/math/statistics/scoring.h
@@ -180,10 +180,10 @@ inline ScoringType FromString_ScoringType(const char *v) {
     return ScoringType::kMae;
   else if (StartsWith("map", v))
     return ScoringType::kMape;
-  else if (StartsWith("rms", v))
-    return ScoringType::kRmse;
   else if (StartsWith("rmsp", v))
     return ScoringType::kRmspe;
+  else if (StartsWith("rms", v))
+    return ScoringType::kRmse;
 
   else if (StartsWith("crp", v))
     return ScoringType::kCrps;
-- 
2.43.0


From cbb0052995d1b4350d7cc24265dafc36cb6c1c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:46 +0000
Subject: [PATCH 030/173] fix: PCA reads past its results when more components
 are requested than exist

---
 src/ldt_statistics/pca.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ldt_statistics/pca.cpp b/src/ldt_statistics/pca.cpp
index a79726f..3468689 100644
--- a/src/ldt_statistics/pca.cpp
+++ b/src/ldt_statistics/pca.cpp
@@ -230,8 +230,13 @@ void PcaAnalysisOptions::CheckValidity() {
 
 Ti PcaAnalysisOptions::GetFinalCount(const PcaAnalysis &model) const {
   {
-    if (ExactCount != 0)
+    if (ExactCount != 0) {
+      if (ExactCount > model.Stds.length())
+        throw LdtException(ErrorType::kLogic, "pca",
+                           "requested number of components is larger than the "
+                           "number of available components");
       return ExactCount;
+    }
     Ti c = model.GetCutoffColumn(CutoffRate);
     return std::min(c, (Ti)CutoffCountMax);
   }
-- 
2.43.0


From 1a026243bd89e75fa7471de993e9331b9711db00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:47 +0000
Subject: [PATCH 031/173] fix: the removal threshold is compared with distances
 overwritten by the clustering

---
 src/ldt_statistics/clustering/group_data.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/clustering/group_data.cpp b/src/ldt_statistics/clustering/group_data.cpp
index 4c7f1c5..d9900bc 100644
--- a/src/ldt_statistics/clustering/group_data.cpp
+++ b/src/ldt_statistics/clustering/group_data.cpp
@@ -16,7 +16,7 @@ GroupData<linkMethod, distMethod, corrMethod>::GroupData(Ti rows, Ti cols) {
   this->Groups = std::vector<std::unique_ptr<std::vector<Ti>>>();
   this->Removed = std::set<size_t>();
   auto distance = Distance<true, distMethod, corrMethod>(rows, cols);
-  this->WorkSize = distance.WorkSize + distance.StorageSize;
+  this->WorkSize = distance.WorkSize + 2 * distance.StorageSize;
 }
 
 template <HClusterLinkage linkMethod, DistanceMethod distMethod,
@@ -39,6 +39,8 @@ void GroupData<linkMethod, distMethod, corrMethod>::Calculate(
   Ti p = 0;
   auto dist_storage = &work[p];
   p += distance.StorageSize;
+  auto cluster_storage = &work[p];
+  p += distance.StorageSize;
 
   distance.Calculate(mat, dist_storage, &work[p]);
   for (auto i = 0; i < distance.Result.length_array(); i++) {
@@ -48,7 +50,10 @@ void GroupData<linkMethod, distMethod, corrMethod>::Calculate(
     }
   }
 
-  cluster.Calculate(distance.Result);
+  // clustering overrides its distances, but the threshold needs the originals
+  auto cluster_dist = MatrixSym<false>(cluster_storage, mat.ColsCount);
+  std::copy(dist_storage, dist_storage + distance.StorageSize, cluster_storage);
+  cluster.Calculate(cluster_dist);
 
   // group
   for (Ti i = 0; i < groupCount; i++)
-- 
2.43.0


From 3761bc079e06e2d13b2f84937599a7a042fa1a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:47 +0000
Subject: [PATCH 032/173] fix: removed variables are reported by their position
 in the group

---
 src/ldt_statistics/clustering/group_data.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/clustering/group_data.cpp b/src/ldt_statistics/clustering/group_data.cpp
index d9900bc..d245e60 100644
--- a/src/ldt_statistics/clustering/group_data.cpp
+++ b/src/ldt_statistics/clustering/group_data.cpp
@@ -69,7 +69,7 @@ void GroupData<linkMethod, distMethod, corrMethod>::Calculate(
           auto dis = distance.Result.Get0(g->at(i), g->at(j));
           if (dis < removeThreshold) {
             remove.insert(j);
-            this->Removed.insert(j);
+            this->Removed.insert(g->at(j));
           }
         }
       }
-- 
2.43.0


From accc3d5a02f3d72ee8b5a824c00874d9f9b139f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:47 +0000
Subject: [PATCH 033/173] fix: grouping keeps reporting what an earlier
 calculation removed

---
 src/ldt_statistics/clustering/group_data.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ldt_statistics/clustering/group_data.cpp b/src/ldt_statistics/clustering/group_data.cpp
index d245e60..007b6b9 100644
--- a/src/ldt_statistics/clustering/group_data.cpp
+++ b/src/ldt_statistics/clustering/group_data.cpp
@@ -32,6 +32,8 @@ void GroupData<linkMethod, distMethod, corrMethod>::Calculate(
 
   // clear current storage
   this->Groups.clear();
+  this->Removed.clear();
+  this->NaNDistanceFound = false;
 
   auto distance =
       Distance<true, distMethod, corrMethod>(mat.RowsCount, mat.ColsCount);
-- 
2.43.0


From b104fefb421111a29e63f4c1528d92349c78b5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:47 +0000
Subject: [PATCH 034/173] fix: the distance of perfectly correlated variables
 is NaN after rounding

---
 src/ldt_statistics/clustering/distance.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/clustering/distance.cpp b/src/ldt_statistics/clustering/distance.cpp
index 5573772..0fd1167 100644
--- a/src/ldt_statistics/clustering/distance.cpp
+++ b/src/ldt_statistics/clustering/distance.cpp
@@ -162,10 +162,13 @@ void Distance<checkNan, method, corrMethod>::Calculate(const Matrix<Tv> &data,
         if (i < j) {
           if constexpr (method == DistanceMethod::kCorrelation) {
             this->Result.Set0(i, j,
-                              std::sqrt((1 - cor.Result.Get0(i, j)) / (Tv)2));
+                              std::sqrt(std::max(
+                                  (1 - cor.Result.Get0(i, j)) / (Tv)2, (Tv)0)));
           } else if constexpr (true) {
             this->Result.Set0(
-                i, j, std::sqrt(1 - std::pow(cor.Result.Get0(i, j), (Tv)2)));
+                i, j,
+                std::sqrt(std::max(
+                    1 - std::pow(cor.Result.Get0(i, j), (Tv)2), (Tv)0)));
           }
         }
       }
-- 
2.43.0


From a8e4f4bb4bb6819950dc8b29b3c763b5108367de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:54 +0000
Subject: [PATCH 035/173] fix: s.cluster.h changes the distances of the caller

---
 Rpackage/src/r_clustering.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Rpackage/src/r_clustering.cpp b/Rpackage/src/r_clustering.cpp
index 2b61f8a..5ff364d 100644
--- a/Rpackage/src/r_clustering.cpp
+++ b/Rpackage/src/r_clustering.cpp
@@ -46,7 +46,8 @@ List ClusterH(NumericVector distances, std::string linkage) {
   HClusterLinkage linkage0 = FromString_HClusterLinkage(linkage.c_str());
 
   auto cluster = HClusterBase::GetFromType(linkage0, numVariables);
-  auto mdistances = MatrixSym<false>(&distances[0], numVariables);
+  auto copy = Rcpp::clone(distances); // the algorithm overrides its distances
+  auto mdistances = MatrixSym<false>(&copy[0], numVariables);
   cluster->Calculate(mdistances);
 
   // lets send similar output to R
-- 
2.43.0


From 37024bac273520fa69584e127b40e8fa9f4007f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:22 +0000
Subject: [PATCH 036/173] fix: a fixed training size does not stratify the
 groups of a discrete sample

---
 src/ldt_statistics/data_split.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ldt_statistics/data_split.cpp b/src/ldt_statistics/data_split.cpp
index 19327aa..03f7089 100644
--- a/src/ldt_statistics/data_split.cpp
+++ b/src/ldt_statistics/data_split.cpp
@@ -36,6 +36,9 @@ void DataSplitDiscrete::Calculate(const Matrix<Tv> &data, Tv *storage,
   Sample0.SetData(storage, N0, cols);
   Sample1.SetData(&storage[N0 * cols], N1, cols);
 
+  if (mTrainFixSize > 0) // groups must have the share of the fixed size
+    mTrainRatio = static_cast<Tv>(N0) / static_cast<Tv>(rows);
+
   // find indexes and prepare for Shuffle
   Ti i, j;
   Y.SetData(data.Data, rows, 1);
-- 
2.43.0


From d289326ef7de7bceb507e73fae0b530758118a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:22 +0000
Subject: [PATCH 037/173] fix: splitting a discrete sample with too many
 training rows writes past its storage before it is rejected

---
 src/ldt_statistics/data_split.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/data_split.cpp b/src/ldt_statistics/data_split.cpp
index 03f7089..a606a67 100644
--- a/src/ldt_statistics/data_split.cpp
+++ b/src/ldt_statistics/data_split.cpp
@@ -84,10 +84,10 @@ void DataSplitDiscrete::Shuffle(const Matrix<Tv> &data, Ti *workI,
      ii = 0; // index we set rows of x0 and y0 in different groups
   Ti jj = 0; // index we set rows of x1 and y1
 
+  // training size of each group. Check all before writing any row
+  auto sizes0 = std::vector<Ti>();
   for (auto a : CountsSortedIndexes) {
-    // Tv aa = static_cast<Tv>(a);
     Mi = Counts.at(a);
-    Rowi = Rows.at(a).get();
     if (b == mNumChoices - 1) {
       Mi0 = N0 - sumM; // fill it
       if (Mi0 <= 0)
@@ -110,6 +110,16 @@ void DataSplitDiscrete::Shuffle(const Matrix<Tv> &data, Ti *workI,
       sumM += Mi0;
     }
     b++;
+    sizes0.push_back(Mi0);
+  }
+
+  b = 0;
+  for (auto a : CountsSortedIndexes) {
+    // Tv aa = static_cast<Tv>(a);
+    Mi = Counts.at(a);
+    Mi0 = sizes0.at(b);
+    Rowi = Rows.at(a).get();
+    b++;
 
     for (i = 0; i < Mi; i++)
       workI[i] = i;
-- 
2.43.0


From bafb7176bf0531cfd77d1a56d2239ff8474d2841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:36 +0000
Subject: [PATCH 038/173] fix: the number of components is checked before there
 are any

---
 src/ldt_statistics/pca.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/ldt_statistics/pca.cpp b/src/ldt_statistics/pca.cpp
index 3468689..9408ed1 100644
--- a/src/ldt_statistics/pca.cpp
+++ b/src/ldt_statistics/pca.cpp
@@ -187,6 +187,10 @@ void PcaAnalysisOptions::CalculateForModel(PcaAnalysis &model, Matrix<Tv> &data,
 
   // copy required number of columns to the useMat
   auto cutoff_col = this->GetFinalCount(model);
+  if (cutoff_col > model.Stds.length())
+    throw LdtException(ErrorType::kLogic, "pca",
+                       "requested number of components is larger than the "
+                       "number of available components");
   model.PCs.Restructure0(model.PCs.RowsCount, cutoff_col);
   pcaMat.CopyFrom00(model.PCs); // don't check size
   data.Restructure0(
@@ -230,13 +234,8 @@ void PcaAnalysisOptions::CheckValidity() {
 
 Ti PcaAnalysisOptions::GetFinalCount(const PcaAnalysis &model) const {
   {
-    if (ExactCount != 0) {
-      if (ExactCount > model.Stds.length())
-        throw LdtException(ErrorType::kLogic, "pca",
-                           "requested number of components is larger than the "
-                           "number of available components");
+    if (ExactCount != 0)
       return ExactCount;
-    }
     Ti c = model.GetCutoffColumn(CutoffRate);
     return std::min(c, (Ti)CutoffCountMax);
   }
-- 
2.43.0


From dfc88ff2a30417bfba59d362cb1f820accdc1162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:27 +0000
Subject: [PATCH 039/173] fix: a significance search that keeps every
 coefficient leaves a zero restriction matrix

---
 src/ldt_statistics/modeling/linear/sur.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/modeling/linear/sur.cpp b/src/ldt_statistics/modeling/linear/sur.cpp
index 61effee..38f001e 100644
--- a/src/ldt_statistics/modeling/linear/sur.cpp
+++ b/src/ldt_statistics/modeling/linear/sur.cpp
@@ -327,8 +327,11 @@ void Sur::estim_search(Ti N, Ti m, Tv *work, Tv sigSearchMaxProb) {
         sig_inds.push_back(j);
     }
 
-    if ((Ti)sig_inds.size() == cs)
-      return; // all coefficients are significant
+    if ((Ti)sig_inds.size() == cs) { // all coefficients are significant
+      if (mSigSearchIter == 0) // the unrestricted model is the final model
+        Matrix<Tv>::Diagonal(*pR);
+      return;
+    }
     cs = (Ti)sig_inds.size();
     if (sig_inds.size() == 0)
       throw LdtException(ErrorType::kLogic, "sur",
-- 
2.43.0


From 45ae0a0398c45a6715472c7b499249b7917cc3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:27 +0000
Subject: [PATCH 040/173] fix: the condition number of a restricted SUR is not
 that of the inverted matrix

---
 src/ldt_statistics/modeling/linear/sur.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/linear/sur.cpp b/src/ldt_statistics/modeling/linear/sur.cpp
index 38f001e..e6420de 100644
--- a/src/ldt_statistics/modeling/linear/sur.cpp
+++ b/src/ldt_statistics/modeling/linear/sur.cpp
@@ -249,7 +249,7 @@ void Sur::estim_r(Ti N, Ti m, Tv *work) {
   pR->TrDot(V_o_xtx, RV_o_xtx); // R'[S^-1 o X'X]
   RV_o_xtx.Dot(*pR, gamma_var); // R'[S^-1 o X'X]R
 
-  condition_number = RV_o_xtx.Norm('1');
+  condition_number = gamma_var.Norm('1');
   auto info = gamma_var.Inv0(); // [R'[S^-1 o X'X]R]^{-1}
   if (info != 0) {
     throw LdtException(ErrorType::kLogic, "sur", "matrix singularity");
-- 
2.43.0


From 9d7cafa560bc05524c73e6947b3f27639a9a3785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:27 +0000
Subject: [PATCH 041/173] fix: a restricted SUR without a restriction matrix
 dereferences a null pointer

---
 src/ldt_statistics/modeling/linear/sur.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ldt_statistics/modeling/linear/sur.cpp b/src/ldt_statistics/modeling/linear/sur.cpp
index e6420de..c071653 100644
--- a/src/ldt_statistics/modeling/linear/sur.cpp
+++ b/src/ldt_statistics/modeling/linear/sur.cpp
@@ -376,6 +376,9 @@ void Sur::Calculate(const Matrix<Tv> &y, const Matrix<Tv> &x, Tv *storage,
     throw LdtException(ErrorType::kLogic, "sur",
                        "'R' should be a 'km x km' Matrix, when you want a "
                        "significant search");
+  else if (mIsRestricted && !R)
+    throw LdtException(ErrorType::kLogic, "sur",
+                       "restrictions are missing in a restricted model");
   else if (R && (R->RowsCount != km || R->ColsCount > km))
     throw LdtException(ErrorType::kLogic, "sur", "restrictions are not valid");
 
-- 
2.43.0


From 5ac43226d9efacf25e72e387d7c1f1bbd8efd128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:27 +0000
Subject: [PATCH 042/173] fix: SurExtended reserves too little storage for the
 new exogenous data of a PCA

---
 src/ldt_statistics/modeling/linear/sur_extended.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/modeling/linear/sur_extended.cpp b/src/ldt_statistics/modeling/linear/sur_extended.cpp
index 7373d14..c693064 100644
--- a/src/ldt_statistics/modeling/linear/sur_extended.cpp
+++ b/src/ldt_statistics/modeling/linear/sur_extended.cpp
@@ -42,13 +42,13 @@ SurExtended::SurExtended(Ti N, Ti m, Ti k, bool isRestricted, bool checkNan,
     PcaX = PcaAnalysis(N, k, numProjections, true, true, true, true);
     StorageSize += PcaX.StorageSize;
     WorkSize = std::max(WorkSize, PcaX.WorkSize);
+    if (numProjections > 0)
+      StorageSize += numProjections * k; // copy X
+
     // update number of exogenous data
     k = std::min(k,
                  pcaOptionsX->CutoffCountMax +
                      pcaOptionsX->IgnoreFirstCount); // for estimating the model
-
-    if (numProjections > 0)
-      StorageSize += numProjections * k; // copy X
   }
 
   Model = Sur(N, m, k, isRestricted, doDetails, maxSigSearchIter);
-- 
2.43.0


From bd07a57c52dbab072b5e1d5881fb26878a9813a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:12 +0000
Subject: [PATCH 043/173] fix: repeated lags in VARMA when non-seasonal lags
 reach the first season

---
 src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
index 5a55be9..992746e 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
@@ -17,7 +17,8 @@ void ExpandPoly(Ti p, Ti P, Ti s, std::vector<Ti> &lags) {
     lags.push_back(i);
   if (s > 0)
     for (Ti i = s; i <= s * P; i += s)
-      lags.push_back(i);
+      if (i > p) // otherwise it is already there
+        lags.push_back(i);
 }
 
 Ti ExpandPolyDiff_ws(Ti d, Ti D, Ti s) {
-- 
2.43.0


From 15d15e5b002105724138b908c1dd08bfae74da3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:12 +0000
Subject: [PATCH 044/173] fix: VARMA without details has no coefficient matrix

---
 src/ldt_statistics/modeling/time_series/varma/varma.cpp       | 1 +
 src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma.cpp b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
index f2a51f2..6ef43d6 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
@@ -460,6 +460,7 @@ void Varma::EstimateMl(const Matrix<Tv> &data, const Matrix<Tv> *exoData,
     q = R->ColsCount;
 
   if (Sizes.HasMa == false && !R) {
+    Result.gamma.CopyTo00(Result.coef); // it is required in forecasting
     if (mDoDetails) {
       SetDetails(*this, R);
       // logarithm Likelihood
diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
index 992746e..d03f455 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
@@ -258,10 +258,10 @@ void VarmaStorage::SetStorage(Tv *storage, const VarmaSizes &sizes,
   pos += sigma2.length();
   gammavar.SetData(&storage[pos], q, q);
   pos += gammavar.length();
+  coef.SetData(&storage[pos], g, f);
+  pos += coef.length();
 
   if (mKeepDetails) {
-    coef.SetData(&storage[pos], g, f);
-    pos += coef.length();
     coefstd.SetData(&storage[pos], g, f);
     pos += coefstd.length();
     coeft.SetData(&storage[pos], g, f);
-- 
2.43.0


From e235c90ec660c37af9ba8daa3f55166ed3fc6ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:12 +0000
Subject: [PATCH 045/173] fix: log-likelihood of VARMA used a wrong number of
 observations

---
 src/ldt_statistics/modeling/time_series/varma/varma.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma.cpp b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
index 6ef43d6..090a658 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
@@ -366,7 +366,7 @@ Tv MlFunction(const Matrix<Tv> &gamma, Varma &model, const Matrix<Tv> *R,
   MlUpdateResid(gamma, model, R, r, Pi, Xi, Ri);
   Ti n = model.Result.y.ColsCount;
   model.Result.resid.DotTr0(model.Result.resid, model.Result.sigma2);
-  model.Result.sigma2.Multiply_in((Tv)1 / (Tv)(n - gamma.ColsCount));
+  model.Result.sigma2.Multiply_in((Tv)1 / (Tv)n);
   return std::log(model.Result.sigma2.Det_pd0()) * n; // is it p.d.?
 }
 
@@ -455,7 +455,7 @@ void Varma::EstimateMl(const Matrix<Tv> &data, const Matrix<Tv> *exoData,
   auto q = Sizes.NumParams;
   auto g = Sizes.EqsCount;
   auto f = Sizes.NumParamsEq;
-  auto T = Sizes.T;
+  auto T = Sizes.T - sampleEnd;
   if (R && R->length() > 0)
     q = R->ColsCount;
 
-- 
2.43.0


From b7d50a59be788d23b033ab9a78357cc09e71623b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:12 +0000
Subject: [PATCH 046/173] fix: using current VARMA estimates with another
 sample reads the variance of the coefficients from a wrong position

---
 .../modeling/time_series/varma/varma_sizes.cpp    | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
index d03f455..86ddeca 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
@@ -246,14 +246,10 @@ void VarmaStorage::SetStorage(Tv *storage, const VarmaSizes &sizes,
 
   Ti pos = 0;
 
+  // keep the matrices that do not depend on T at the beginning. The current
+  // estimates might be used in the next estimation
   gamma.SetData(&storage[pos], q, 1);
   pos += gamma.length();
-  resid.SetData(&storage[pos], g, T);
-  pos += resid.length();
-  y.SetData(&storage[pos], g, T);
-  pos += y.length();
-  Xt.SetData(0, &storage[pos], T, f);
-  pos += Xt.length();
   sigma2.SetData(&storage[pos], g, g);
   pos += sigma2.length();
   gammavar.SetData(&storage[pos], q, q);
@@ -269,6 +265,13 @@ void VarmaStorage::SetStorage(Tv *storage, const VarmaSizes &sizes,
     coefprob.SetData(&storage[pos], g, f);
     pos += coefprob.length();
   }
+
+  resid.SetData(&storage[pos], g, T);
+  pos += resid.length();
+  y.SetData(&storage[pos], g, T);
+  pos += y.length();
+  Xt.SetData(0, &storage[pos], T, f);
+  pos += Xt.length();
 }
 
 void VarmaStorage::GetExpNames(const VarmaSizes &sizes,
-- 
2.43.0


From c269adc6b13f9d29ca477c0f27c28270254fabaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:32 +0000
Subject: [PATCH 047/173] fix: bounds of a restricted VARMA estimation ignored
 the variance of the residuals

---
 .../modeling/time_series/varma/varma.cpp           | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma.cpp b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
index 090a658..fbbf682 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
@@ -257,9 +257,6 @@ void Varma::EstimateOls(const Matrix<Tv> &data, const Matrix<Tv> *exoData,
           throw LdtException(ErrorType::kLogic, "varma",
                              "model check: maximum cn");
 
-        // TODO: variance of gamma is RsxxoIR and it might be wrong.
-        // check it
-
         Result.y.CopyTo00(vecY);
         if (r) {
           Result.Xt.KronIden0(g, xtkronI);
@@ -280,6 +277,17 @@ void Varma::EstimateOls(const Matrix<Tv> &data, const Matrix<Tv> *exoData,
         // variance of regression
         Result.resid.Dot_AAt(Result.sigma2);
         Result.sigma2.Multiply_in((Tv)1 / (Tv)T);
+
+        // variance of gamma: A R'(XX' o sigma2)R A, where A is the inverse of
+        // R'(XX' o I)R
+        sxx.Kron(Result.sigma2, sxxoI);
+        R->TrDot0(sxxoI, RsxxoI);
+        auto rsr = Matrix<Tv>(rxkronI.Data, q, q);
+        RsxxoI.Dot0(*R, rsr);
+        auto rsra = Matrix<Tv>(RsxxoI.Data, q, q);
+        rsr.Dot0(Result.gammavar, rsra);
+        Result.gammavar.Dot0(rsra, rsr);
+        rsr.CopyTo00(Result.gammavar);
       }
     }
   } else // pure MA case with no ma_resid
-- 
2.43.0


From 985d6c4f82ab8bb85ea9d8f65858e7225e5fc869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:32 +0000
Subject: [PATCH 048/173] fix: estimating a restricted VAR overflows its work
 array

---
 src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
index 86ddeca..3cb7e19 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
@@ -220,7 +220,7 @@ VarmaStorage::VarmaStorage(bool keepDetails, bool isRestricted,
 
   // maximum likelihood
   Ti mlW = 0;
-  if (sizes.HasMa) {
+  if (sizes.HasMa || isRestricted) {
     auto derv = Derivative(q, true,
                            calculateVarCoefs); // TODO: add 'count' as an option
     LimitedMemoryBfgsbOptions opop;
-- 
2.43.0


From 9392ca5fd2db13be97adad267b52c1e63f894cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:32 +0000
Subject: [PATCH 049/173] fix: VARMA forecasts read before the beginning of
 short samples

---
 .../modeling/time_series/varma/varma_forecast.cpp            | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_forecast.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_forecast.cpp
index b3f0a37..71bcbc9 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_forecast.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_forecast.cpp
@@ -63,7 +63,7 @@ void xtprime(Matrix<Tv> &xt, const Matrix<Tv> &forecast,
                      // sense of Eviews
     for (auto &l : sizes.MaLags) {
       auto ind = resid_ind + fRow - l;
-      if (ind < resid.ColsCount)
+      if (ind >= 0 && ind < resid.ColsCount)
         xt.SetSub0(sR, 0, resid, 0, ind, forecast.RowsCount, 1);
       sR += forecast.RowsCount;
     }
@@ -89,6 +89,9 @@ void VarmaForecast::Calculate(const Varma &estimate, const Matrix<Tv> *exo,
   Ti resid_ind = sizes.T - estimate.SampleEnd - sizes.ArMax_d;
   StartDiff = resid_ind;
   Ti x_ind = sizes.T - estimate.SampleEnd;
+  if (sizes.T - estimate.SampleEnd < sizes.ArMax)
+    throw LdtException(ErrorType::kLogic, "varma-forecast",
+                       "number of observations is less than the maximum lag");
   if (exoIsNew)
     x_ind = -sizes.ArMax_d;
   else {
-- 
2.43.0


From d575967870556db2a69c65ac4cd660496430c601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:32 +0000
Subject: [PATCH 050/173] fix: MA representation of a pure MA model writes past
 its storage

---
 .../modeling/time_series/varma/varma_arma.cpp               | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_arma.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_arma.cpp
index 9f803e3..0bb71b3 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_arma.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_arma.cpp
@@ -101,19 +101,19 @@ void VarmaArma::Calculate(const Matrix<Tv> &Pi, Tv *storage, Tv *work) {
 
   // MaInf
   if (mMaInfCount > 0) {
-    MaInf.Data(mMaInfCount, m, &storage[p]);
+    MaInf.Data(mMaInfCount - 1, m, &storage[p]); // degree is count-1
 
     if (sizes.HasDiff == false && sizes.HasAr == false) { // copy MA
 
       Ti i = 0;
       for (auto &a : Ma.Coefficients) {
-        a->CopyTo00(*MaInf.Coefficients.at(i));
         if (i == mMaInfCount)
           break;
+        a->CopyTo00(*MaInf.Coefficients.at(i));
         i++;
       }
 
-      for (i; i <= mMaInfCount; i++)
+      for (; i < mMaInfCount; i++)
         MaInf.Coefficients.at(i)->SetValue(0); // MA(i)=0 for i > madegree
 
     } else {
-- 
2.43.0


From 4db9030c1bfced3f1889c5b67cad04b54cfe289f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:13 +0000
Subject: [PATCH 051/173] fix: an exact number of components larger than the
 maximum of the cutoff rate is rejected or overflows

---
 include/math/statistics/pca.h                          |  9 +++++++++
 .../modeling/discrete/discrete_choice_extended.cpp     |  4 +---
 src/ldt_statistics/modeling/linear/sur_extended.cpp    |  8 ++------
 .../modeling/time_series/varma/varma_extended.cpp      | 10 ++--------
 4 files changed, 14 insertions(+), 17 deletions(-)

diff --git a/include/math/statistics/pca.h b/include/math/statistics/pca.h
index 37b4a58..08eb4d4 100644
--- a/include/math/statistics/pca.h
+++ b/include/math/statistics/pca.h
@@ -107,6 +107,15 @@ public:
   /// @return Final count
   Ti GetFinalCount(const PcaAnalysis &model) const;
 
+  /// @brief Gets the maximum number of columns in the data after using \ref
+  /// CalculateForModel
+  /// @param count Number of columns of the data
+  /// @return Maximum number of columns
+  Ti GetMaximumCount(Ti count) const {
+    Ti max = ExactCount != 0 ? ExactCount : CutoffCountMax;
+    return max < count - IgnoreFirstCount ? max + IgnoreFirstCount : count;
+  };
+
   /// @brief Ignores the first columns, Calculate PCs and updates/restructure
   /// 'data'.
   /// @param model An estimated model
diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp
index fd5fb40..7ba681b 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp
@@ -42,9 +42,7 @@ DiscreteChoiceExtended::DiscreteChoiceExtended(
     StorageSize += Pca.StorageSize;
     WorkSize = std::max(WorkSize, Pca.WorkSize);
 
-    numExo = std::min(
-        numExo, pcaOptions->CutoffCountMax +
-                    pcaOptions->IgnoreFirstCount); // for estimating the model
+    numExo = pcaOptions->GetMaximumCount(numExo); // for estimating the model
   }
 
   Model = DiscreteChoiceBase::GetFromType(modelType, distType, rows, numExo,
diff --git a/src/ldt_statistics/modeling/linear/sur_extended.cpp b/src/ldt_statistics/modeling/linear/sur_extended.cpp
index c693064..b8ffc09 100644
--- a/src/ldt_statistics/modeling/linear/sur_extended.cpp
+++ b/src/ldt_statistics/modeling/linear/sur_extended.cpp
@@ -31,9 +31,7 @@ SurExtended::SurExtended(Ti N, Ti m, Ti k, bool isRestricted, bool checkNan,
     StorageSize += PcaY.StorageSize;
     WorkSize = std::max(WorkSize, PcaY.WorkSize);
     // update number of equations
-    m = std::min(m,
-                 pcaOptionsY->CutoffCountMax +
-                     pcaOptionsY->IgnoreFirstCount); // for estimating the model
+    m = pcaOptionsY->GetMaximumCount(m); // for estimating the model
   }
 
   if (mHasPcaX) {
@@ -46,9 +44,7 @@ SurExtended::SurExtended(Ti N, Ti m, Ti k, bool isRestricted, bool checkNan,
       StorageSize += numProjections * k; // copy X
 
     // update number of exogenous data
-    k = std::min(k,
-                 pcaOptionsX->CutoffCountMax +
-                     pcaOptionsX->IgnoreFirstCount); // for estimating the model
+    k = pcaOptionsX->GetMaximumCount(k); // for estimating the model
   }
 
   Model = Sur(N, m, k, isRestricted, doDetails, maxSigSearchIter);
diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_extended.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_extended.cpp
index 1f95cb2..8e6a44e 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_extended.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_extended.cpp
@@ -44,10 +44,7 @@ VarmaExtended::VarmaExtended(
     StorageSize += PcaY.StorageSize;
     WorkSize = std::max(WorkSize, PcaY.WorkSize);
     // update number of equations
-    Sizes.EqsCount =
-        std::min(Sizes.EqsCount,
-                 pcaOptionsY->CutoffCountMax +
-                     pcaOptionsY->IgnoreFirstCount); // for estimating the model
+    Sizes.EqsCount = pcaOptionsY->GetMaximumCount(Sizes.EqsCount); // for estimating the model
   }
 
   if (mHasPcaX) {
@@ -62,10 +59,7 @@ VarmaExtended::VarmaExtended(
     StorageSize += PcaX.StorageSize;
     WorkSize = std::max(WorkSize, PcaX.WorkSize);
     // update number of exogenous data
-    Sizes.ExoCount =
-        std::min(Sizes.ExoCount,
-                 pcaOptionsX->CutoffCountMax +
-                     pcaOptionsX->IgnoreFirstCount); // for estimating the model
+    Sizes.ExoCount = pcaOptionsX->GetMaximumCount(Sizes.ExoCount); // for estimating the model
   }
   if (mHasPcaY || mHasPcaX)
     Sizes.UpdateChanged(); // updata MAstart, etc.
-- 
2.43.0


From 2f1ab4ab1f322135b400f07c877aec1caba927ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:29 +0000
Subject: [PATCH 052/173] fix: VARMA with principal components used wrong
 columns of the data

---
 .../math/statistics/inference/models/varma.h  |  7 ++++++
 .../time_series/varma/varma_extended.cpp      | 23 ++++++++++++++-----
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/include/math/statistics/inference/models/varma.h b/include/math/statistics/inference/models/varma.h
index ade40b0..72729e8 100644
--- a/include/math/statistics/inference/models/varma.h
+++ b/include/math/statistics/inference/models/varma.h
@@ -357,6 +357,13 @@ class LDT_EXPORT VarmaExtended {
   bool mHasPcaY = false;
   bool mHasPcaX = false;
 
+
+  /// @brief Number of endogenous data before PCA
+  Ti mEndoCount = 0;
+
+  /// @brief Number of exogenous data before PCA
+  Ti mExoCount = 0;
+
 public:
   bool mCheckNan = false;
   VarmaRestrictionType mRestriction;
diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_extended.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_extended.cpp
index 8e6a44e..3039466 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_extended.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_extended.cpp
@@ -24,6 +24,8 @@ VarmaExtended::VarmaExtended(
   mHorizon = fHorizon;
 
   Sizes = VarmaSizes(sizes); // it changes in the PCA
+  mEndoCount = sizes.EqsCount;
+  mExoCount = sizes.ExoCount;
 
   StorageSize = 0;
   WorkSize = 0;
@@ -93,7 +95,11 @@ void VarmaExtended::Calculate(Matrix<Tv> &data, Tv *storage, Tv *work,
         ErrorType::kLogic, "varma-extended",
         "reserved maximum number of horizon is lower that the given horizon");
 
-  auto temp = VarmaExtended(Sizes, mRestriction, mCheckNan, mDoDetails,
+  auto rawSizes = VarmaSizes(Sizes);
+  rawSizes.EqsCount = mEndoCount;
+  rawSizes.ExoCount = mExoCount;
+  rawSizes.UpdateChanged();
+  auto temp = VarmaExtended(rawSizes, mRestriction, mCheckNan, mDoDetails,
                             mCalcVariance, horizon, pPcaOptionsY, pPcaOptionsX,
                             &Model.Result.Optim.Options);
   if (temp.WorkSize > WorkSize || temp.StorageSize > StorageSize)
@@ -123,10 +129,10 @@ void VarmaExtended::Calculate(Matrix<Tv> &data, Tv *storage, Tv *work,
   Ti count = Data.Result.RowsCount; // note that sample end will be effective
                                     // in the Varma estimation
   Tv *d = Data.Result.Data;
-  Y.SetData(d, count, Sizes.EqsCount); // since variables are in columns and
-                                       // matrix is column-major
+  Y.SetData(d, count, mEndoCount); // since variables are in columns and
+                                   // matrix is column-major
   if (Sizes.ExoCount > 0)
-    X.SetData(&d[Sizes.EqsCount * count], count, Sizes.ExoCount);
+    X.SetData(&d[mEndoCount * count], count, mExoCount);
 
   if (mHasPcaY) { // change data for Y
     pPcaOptionsY->CalculateForModel(PcaY, Y, work, &storage[p], nullptr);
@@ -143,7 +149,7 @@ void VarmaExtended::Calculate(Matrix<Tv> &data, Tv *storage, Tv *work,
       useExoForecast.SetData(&storage[p], horizon, X.ColsCount);
       p += horizon * X.ColsCount;
       useExoForecast.SetSub(0, 0, data, Data.End + 1 - sampleEnd,
-                            Sizes.EqsCount, horizon, X.ColsCount);
+                            mEndoCount, horizon, X.ColsCount);
     }
     if (mHasPcaX) {
       pPcaOptionsX->CalculateForModel(PcaX, X, work, &storage[p],
@@ -154,7 +160,12 @@ void VarmaExtended::Calculate(Matrix<Tv> &data, Tv *storage, Tv *work,
 
   // restrictions
 
-  Restriction = VarmaRestriction(Sizes, mRestriction);
+  // (number of components and observations might be less than expected)
+  Model.Sizes.EqsCount = Y.ColsCount;
+  Model.Sizes.ExoCount = Sizes.ExoCount > 0 ? X.ColsCount : 0;
+  Model.Sizes.ObsCount = count;
+  Model.Sizes.UpdateChanged();
+  Restriction = VarmaRestriction(Model.Sizes, mRestriction);
   Restriction.Calculate(&storage[p]);
   p += Restriction.StorageSize;
 
-- 
2.43.0


From e5b93e62d9aacc93f5c290b97138904fe216eb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:45 +0000
Subject: [PATCH 053/173] fix: a simulation without enough horizons counted as
 an invalid one

---
 .../modeling/time_series/varma/varma_simulation.cpp             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp
index d37ca81..a9674dd 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp
@@ -240,7 +240,6 @@ void VarmaSimulation::Calculate(Tv *storage, Tv *work, Matrix<Tv> &data,
     if (cancel)
       return;
     useCurrentEstims = usePreviousEstim && success;
-    invalidCounts++;
     actIndex = T - se - 1;
     if (actIndex < 0)
       break;
@@ -260,6 +259,7 @@ void VarmaSimulation::Calculate(Tv *storage, Tv *work, Matrix<Tv> &data,
     // estimate and forecast
     // update sizes by current sampleEnd. se is different which means Xt,
     // resid, etc are different
+    invalidCounts++;
     auto forecast0 = &Forecast;
     try {
       Model.EstimateMl(data, exo, estimForecastWork, estimStorage,
-- 
2.43.0


From f89f10ce265aec9fda1da522113bfb01f49b7af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:45 +0000
Subject: [PATCH 054/173] fix: standard deviations in the details of a
 simulation were not initialized without a metric that requires them

---
 .../modeling/time_series/varma/varma_simulation.cpp           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp
index a9674dd..edefe02 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp
@@ -524,7 +524,7 @@ void VarmaSimulation::CalculateE(Tv *storage, Tv *work, Matrix<Tv> &data,
           act.Set0(b, k, data.Get0(actIndex + h, b));
 
         forc.SetColumnFromColumn0(k, forecast.Forecast, forIndex + h);
-        if (mDoForecastVar)
+        if (forecast.Variance.Data)
           std.SetColumnFromColumn0(k, forecast.Variance, forIndex + h);
       } else {
         act.SetColumn0(k, NAN);
@@ -535,7 +535,7 @@ void VarmaSimulation::CalculateE(Tv *storage, Tv *work, Matrix<Tv> &data,
     }
 
     // Convert to STD
-    if (mDoForecastVar) {
+    if (forecast.Variance.Data) {
       for (int i = 0; i < co; i++)
         std.Data[i] = std::sqrt(std.Data[i]);
     }
-- 
2.43.0


From 18fab4af96c0996625fc647029f65f7dfc31b2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:51 +0000
Subject: [PATCH 055/173] fix: residuals of VARMA were not evaluated at the
 estimates without the variance of the coefficients

---
 src/ldt_statistics/modeling/time_series/varma/varma.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma.cpp b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
index fbbf682..6288895 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
@@ -549,11 +549,11 @@ void Varma::EstimateMl(const Matrix<Tv> &data, const Matrix<Tv> *exoData,
                                      // have asked for second derivative
     Result.gammavar.Inv0();
     Result.gammavar.Multiply_in(2);
-
-    // update values
-    fun(Result.gamma);
   }
 
+  // update values
+  fun(Result.gamma);
+
   // update sigma2, it is destroyed while calculating determinant
   Ti n = Result.y.ColsCount;
   Result.resid.DotTr0(Result.resid, Result.sigma2);
-- 
2.43.0


From 928b0310602ed8667dd140403895adf35f42e455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:44 +0000
Subject: [PATCH 056/173] fix: restore the bounds of restricted VARMA
 estimation (reverts c269adc)

---
 .../modeling/time_series/varma/varma.cpp           | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma.cpp b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
index 6288895..6f4e183 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
@@ -257,6 +257,9 @@ void Varma::EstimateOls(const Matrix<Tv> &data, const Matrix<Tv> *exoData,
           throw LdtException(ErrorType::kLogic, "varma",
                              "model check: maximum cn");
 
+        // TODO: variance of gamma is RsxxoIR and it might be wrong.
+        // check it
+
         Result.y.CopyTo00(vecY);
         if (r) {
           Result.Xt.KronIden0(g, xtkronI);
@@ -277,17 +280,6 @@ void Varma::EstimateOls(const Matrix<Tv> &data, const Matrix<Tv> *exoData,
         // variance of regression
         Result.resid.Dot_AAt(Result.sigma2);
         Result.sigma2.Multiply_in((Tv)1 / (Tv)T);
-
-        // variance of gamma: A R'(XX' o sigma2)R A, where A is the inverse of
-        // R'(XX' o I)R
-        sxx.Kron(Result.sigma2, sxxoI);
-        R->TrDot0(sxxoI, RsxxoI);
-        auto rsr = Matrix<Tv>(rxkronI.Data, q, q);
-        RsxxoI.Dot0(*R, rsr);
-        auto rsra = Matrix<Tv>(RsxxoI.Data, q, q);
-        rsr.Dot0(Result.gammavar, rsra);
-        Result.gammavar.Dot0(rsra, rsr);
-        rsr.CopyTo00(Result.gammavar);
       }
     }
   } else // pure MA case with no ma_resid
-- 
2.43.0


From 5692a4d8c89fce056bccf16ad9569c8e1ea268f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:36 +0000
Subject: [PATCH 057/173] fix: VARMA keeps the scale of its objective function
 and evaluates the log-likelihood at the estimated variance

---
 .../modeling/time_series/varma/varma.cpp              | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma.cpp b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
index 6f4e183..478f4e4 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
@@ -366,7 +366,8 @@ Tv MlFunction(const Matrix<Tv> &gamma, Varma &model, const Matrix<Tv> *R,
   MlUpdateResid(gamma, model, R, r, Pi, Xi, Ri);
   Ti n = model.Result.y.ColsCount;
   model.Result.resid.DotTr0(model.Result.resid, model.Result.sigma2);
-  model.Result.sigma2.Multiply_in((Tv)1 / (Tv)n);
+  // note that the divisor just shifts the objective function
+  model.Result.sigma2.Multiply_in((Tv)1 / (Tv)(n - gamma.ColsCount));
   return std::log(model.Result.sigma2.Det_pd0()) * n; // is it p.d.?
 }
 
@@ -550,6 +551,12 @@ void Varma::EstimateMl(const Matrix<Tv> &data, const Matrix<Tv> *exoData,
   Ti n = Result.y.ColsCount;
   Result.resid.DotTr0(Result.resid, Result.sigma2);
   Result.sigma2.Multiply_in((Tv)1 / (Tv)n);
+  Tv logDetSigma = 0;
+  if (mDoDetails) {
+    logDetSigma = std::log(Result.sigma2.Det_pd0());
+    Result.resid.DotTr0(Result.resid, Result.sigma2);
+    Result.sigma2.Multiply_in((Tv)1 / (Tv)n);
+  }
 
   // set coefficient matrix (it is required in forecasting)
   if (R)
@@ -559,7 +566,7 @@ void Varma::EstimateMl(const Matrix<Tv> &data, const Matrix<Tv> *exoData,
 
   if (mDoDetails) {
     // logarithm Likelihood
-    CalculateGoodness(*this, T, g, f, Result.Optim.FunctionValue);
+    CalculateGoodness(*this, T, g, f, logDetSigma * n);
     SetDetails(*this, R);
   }
 }
-- 
2.43.0


From a5e34c58de1d99a8088a83cf57ee5fc3c690f653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:05 +0000
Subject: [PATCH 058/173] fix: range of a time-series dataset is not set
 without checking missing data and selection

---
 src/matrix/dataset.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/matrix/dataset.cpp b/src/matrix/dataset.cpp
index 5e4c6ed..b7326c0 100644
--- a/src/matrix/dataset.cpp
+++ b/src/matrix/dataset.cpp
@@ -180,6 +180,12 @@ void DatasetTs<byRow, Tw>::Update(std::vector<Ti> *indexes, Tw *storage) {
                         0);
       }
     } else { // simply copy
+      Start = 0;
+      if constexpr (byRow) {
+        End = pData->ColsCount - 1;
+      } else if constexpr (true) {
+        End = pData->RowsCount - 1;
+      }
       Result.Restructure0(pData->RowsCount, pData->ColsCount);
       if (storage)
         pData->CopyTo00(Result);
-- 
2.43.0


From 1f75fbd0341b294941775d514940b3e0e12865f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:11 +0000
Subject: [PATCH 059/173] fix: predicting more rows than observations overflows
 the work array of a discrete choice model

---
 .../modeling/discrete/discrete_choice_extended.cpp              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp
index 7ba681b..85dc3e0 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp
@@ -54,7 +54,7 @@ DiscreteChoiceExtended::DiscreteChoiceExtended(
     StorageSize +=
         mNumChoices * numForecast +
         numForecast * cols; // for copying forecast matrix (TODO: this is work)
-    WorkSize = std::max(WorkSize, rows + numChoices - 2);
+    WorkSize = std::max(WorkSize, numForecast + numChoices - 2);
   }
 
   if (doDetails) {                     // Auc and Cost
-- 
2.43.0


From 8005c4569652be446e74425cd09d52f33b6949cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:11 +0000
Subject: [PATCH 060/173] fix: in-sample metrics of discrete choice models
 include removed observations

---
 .../modeling/discrete/discrete_choice_extended.cpp  | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp
index 85dc3e0..6804759 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp
@@ -82,7 +82,6 @@ void DiscreteChoiceExtended::Calculate(const Matrix<Tv> &data, Tv *storage,
   // if (PredProbs && !xForecast)
 
   Ti numForecast = xForecast ? xForecast->RowsCount : 0;
-  Ti numObs = data.RowsCount;
   Ti numExo = data.ColsCount - (mHasWeight ? 2 : 1);
 
   auto temp = DiscreteChoiceExtended(
@@ -147,8 +146,8 @@ void DiscreteChoiceExtended::Calculate(const Matrix<Tv> &data, Tv *storage,
 
   if (mDoDetails) {
     // Projections
-    Projections = Matrix<Tv>(&storage[p], numObs, mNumChoices);
-    p += numObs * mNumChoices;
+    Projections = Matrix<Tv>(&storage[p], count, mNumChoices);
+    p += count * mNumChoices;
     Model->GetProbabilities(X, Projections, work);
 
     BrierScore = 0;
@@ -169,14 +168,14 @@ void DiscreteChoiceExtended::Calculate(const Matrix<Tv> &data, Tv *storage,
     if (mModelType == DiscreteChoiceModelType::kBinary) {
       if (aucOptions.Costs.Data) {
         if (mHasWeight && mWeightedEval)
-          auc0 = std::make_unique<ROC<true, true>>(numObs);
+          auc0 = std::make_unique<ROC<true, true>>(count);
         else
-          auc0 = std::make_unique<ROC<false, true>>(numObs);
+          auc0 = std::make_unique<ROC<false, true>>(count);
       } else {
         if (mHasWeight && mWeightedEval)
-          auc0 = std::make_unique<ROC<true, false>>(numObs);
+          auc0 = std::make_unique<ROC<true, false>>(count);
         else
-          auc0 = std::make_unique<ROC<false, false>>(numObs);
+          auc0 = std::make_unique<ROC<false, false>>(count);
       }
     } else {
       throw LdtException(ErrorType::kLogic, "dc-extended",
-- 
2.43.0


From aa457e07893eb78be445f236b912837a2246fb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:11 +0000
Subject: [PATCH 061/173] fix: requesting all principal components in discrete
 choice models is rejected

---
 .../modeling/discrete/discrete_choice_extended.cpp             | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp
index 6804759..1b5073c 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp
@@ -34,8 +34,7 @@ DiscreteChoiceExtended::DiscreteChoiceExtended(
     pcaOptions->CheckValidity();
     pPcaOptions = pcaOptions;
     Pca = PcaAnalysis(rows, numExo, numForecast, true, true, true, true);
-    auto final_x_count = pPcaOptions->GetFinalCount(Pca);
-    if (final_x_count >= numExo)
+    if (pPcaOptions->ExactCount > numExo)
       throw LdtException(ErrorType::kLogic, "dc-extended",
                          "invalid PCA options. The requested number of PCs "
                          "is larger than the number of variables");
-- 
2.43.0


From 479d3c38c0239832fd3505ac525d27b33b45c6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:11 +0000
Subject: [PATCH 062/173] fix: number of columns of the data for prediction is
 not checked in discrete choice models

---
 .../modeling/discrete/discrete_choice_extended.cpp       | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp
index 1b5073c..aa398f7 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp
@@ -111,13 +111,14 @@ void DiscreteChoiceExtended::Calculate(const Matrix<Tv> &data, Tv *storage,
     X.SetData(&d[count], count, numExo);
   }
 
+  if (xForecast && xForecast->ColsCount != X.ColsCount)
+    throw LdtException(
+        ErrorType::kLogic, "dc-extended",
+        "data and forecast data has different number of columns");
+
   auto useForecast = Matrix<Tv>();
   if (pPcaOptions) { // update useMat with PCs
     if (xForecast) {
-      if (xForecast->ColsCount != X.ColsCount)
-        throw LdtException(
-            ErrorType::kLogic, "dc-extended",
-            "data and forecast data has different number of columns");
       useForecast.SetData(&storage[p], numForecast, X.ColsCount);
       p += useForecast.length();
       useForecast.CopyFrom00(*xForecast);
-- 
2.43.0


From a6bf0078ecfe49606814cafd99ccb0ebf6544c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:11 +0000
Subject: [PATCH 063/173] fix: simulating discrete choice models just for the
 Brier score is rejected

---
 src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
index b7f8b96..7c73f2a 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
@@ -27,7 +27,8 @@ DiscreteChoiceSim<hasWeight, modelType, distType>::DiscreteChoiceSim(
         ErrorType::kLogic, "dc-sim",
         "don't use binary Model when number of choices is larger than 2");
 
-  if (costMatrixCount == 0 && doFrequencyTable == false && doAuc == false)
+  if (costMatrixCount == 0 && doFrequencyTable == false && doAuc == false &&
+      doBrier == false)
     throw LdtException(ErrorType::kLogic, "dc-sim",
                        "no goal is set in discrete choice simulation");
 
-- 
2.43.0


From 0f35c6b6f35050e495d10deef5b4c419972a60ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:11 +0000
Subject: [PATCH 064/173] fix: out-of-sample Brier score is the score of the
 last simulation

---
 .../modeling/discrete/discrete_choice_sim.cpp         | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
index 7c73f2a..22d6984 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
@@ -166,6 +166,7 @@ void DiscreteChoiceSim<hasWeight, modelType, distType>::Calculate(
   auto frequencyCost = freqCost0.get();
 
   this->Auc = 0;
+  this->BrierScore = 0;
   auto split = DataSplitDiscrete(rows, cols, mNumChoices);
 
   auto model =
@@ -252,20 +253,19 @@ void DiscreteChoiceSim<hasWeight, modelType, distType>::Calculate(
     }
 
     if (mDoBrier) {
-      BrierScore = 0;
-      Tv yi, wi = 1, sum = 0;
+      Tv yi, wi = 1, sum = 0, brier = 0;
       Ti i = -1;
       for (auto ap = model.PredProbs.ColBegin(1);
            ap != model.PredProbs.ColEnd(1); ++ap) {
         i++;
         yi = y1.Data[i];
         if constexpr (hasWeight) {
-          wi = w1.Data[i];
+          wi = mWeightedEval ? w1.Data[i] : 1;
         }
-        BrierScore += wi * std::pow(yi - *ap, 2);
+        brier += wi * std::pow(yi - *ap, 2);
         sum += wi;
       }
-      BrierScore /= sum;
+      this->BrierScore += brier / sum; // sum
     }
 
     if (costCount > 0) {
@@ -332,6 +332,7 @@ void DiscreteChoiceSim<hasWeight, modelType, distType>::Calculate(
   for (i = 0; i < costCount; i++)
     this->CostRatios.Data[i] /= overall_count.Data[i];
   this->Auc /= this->ValidSimulationCount;
+  this->BrierScore /= this->ValidSimulationCount;
 }
 
 std::unique_ptr<DiscreteChoiceSimBase> DiscreteChoiceSimBase::GetFromType(
-- 
2.43.0


From daad8d91659207c94fba68817f5417bb805976cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:11 +0000
Subject: [PATCH 065/173] fix: frequency table of discrete choice simulations
 is always weighted

---
 src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
index 22d6984..d00c7f0 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
@@ -297,7 +297,7 @@ void DiscreteChoiceSim<hasWeight, modelType, distType>::Calculate(
       for (i = 0; i < this->N1; i++) {
         yi = y1.Data[i];
         if constexpr (hasWeight) {
-          wi = w1.Data[i];
+          wi = mWeightedEval ? w1.Data[i] : 1;
         }
         yc = static_cast<Ti>(yi);
         actProb = model.PredProbs.Get0(i, yc);
-- 
2.43.0


From a97b0b28d8562afc65625c206ea58faea324b5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:11 +0000
Subject: [PATCH 066/173] fix: simulating a discrete choice model with fewer
 observations than expected reads past the test sample

---
 .../modeling/discrete/discrete_choice_sim.cpp            | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
index d00c7f0..e9c6bae 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
@@ -112,7 +112,14 @@ void DiscreteChoiceSim<hasWeight, modelType, distType>::Calculate(
           "inconsistent arguments in discrete choice simulation");
   }
 
-  Ti N0 = rows - this->N1;
+  // (number of observations might be less than expected)
+  Ti N0 = mTrainFixSize > 0
+              ? mTrainFixSize
+              : static_cast<Ti>(std::round(rows * mTrainRatio));
+  if (N0 <= 0 || N0 >= rows)
+    throw LdtException(ErrorType::kLogic, "dc-sim",
+                       "training percentage is not valid");
+  this->N1 = rows - N0;
   // Ti numExo = cols - (hasWeight ? 2 : 1);
   std::mt19937 eng;
   if (this->Seed != 0)
-- 
2.43.0


From b510d2a48efa0096c5860ce7e806a9b19b5ed854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:11 +0000
Subject: [PATCH 067/173] fix: the first in-sample metric of a discrete choice
 search is not calculated

---
 .../modeling/discrete/discrete_choice_modelset.cpp        | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
index 690b21d..57146ba 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
@@ -199,13 +199,13 @@ DiscreteChoiceSearcher<hasWeight, modelType, distType>::EstimateOneReg(
         this->pMetrics->MetricInIndices.at(GoodnessOfFitType::kFrequencyCost);
     auto aucInd = this->pMetrics->MetricInIndices.at(GoodnessOfFitType::kAuc);
     auto briInd = this->pMetrics->MetricInIndices.at(GoodnessOfFitType::kBrier);
-    if (costInd > 0 || aucInd > 0 || briInd > 0) {
+    if (costInd >= 0 || aucInd >= 0 || briInd >= 0) {
 
       Probs.SetData(&work[s]);
       s += Probs.length();
       DModel.GetProbabilities(X, Probs, &work[s]);
 
-      if (briInd > 0) {
+      if (briInd >= 0) {
 
         Tv brier = 0;
         Tv yi, wi = 1, sum = 0;
@@ -224,7 +224,7 @@ DiscreteChoiceSearcher<hasWeight, modelType, distType>::EstimateOneReg(
         metrics.Mat.Set0(briInd, 0, brier);
       }
 
-      if (costInd > 0) {
+      if (costInd >= 0) {
         if (this->pOptions->RequestCancel)
           return "";
 
@@ -235,7 +235,7 @@ DiscreteChoiceSearcher<hasWeight, modelType, distType>::EstimateOneReg(
         metrics.Mat.Set0(costInd, 0, CostIn.get()->AverageRatio);
       }
 
-      if (aucInd > 0) {
+      if (aucInd >= 0) {
         if (this->pOptions->RequestCancel)
           return "";
 
-- 
2.43.0


From f1c2371020023f5ece99a78bc5f9179e3313d3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:11 +0000
Subject: [PATCH 068/173] fix: minimum number of valid simulations is ignored
 in a discrete choice search

---
 .../modeling/discrete/discrete_choice_modelset.cpp            | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
index 57146ba..99c7cb0 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
@@ -179,8 +179,8 @@ DiscreteChoiceSearcher<hasWeight, modelType, distType>::EstimateOneReg(
     Model.Calculate(Data.Result, pCostMatrixes, &work[s],
                     &work[s + Model.StorageSize], &workI[this->NumPartitions],
                     this->pOptions->RequestCancel, *pAucOptions,
-                    this->pMetrics->SimFixSize - this->pChecks->MinOutSim,
-                    nullptr, INT32_MAX);
+                    true, nullptr,
+                    this->pMetrics->SimFixSize - this->pChecks->MinOutSim);
     s += Model.StorageSize;
   }
 
-- 
2.43.0


From c91061277d8e569df56828420c138a84a1f22e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:11 +0000
Subject: [PATCH 069/173] fix: degrees of freedom in the model checks of a
 discrete choice search

---
 .../modeling/discrete/discrete_choice_modelset.cpp              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
index 99c7cb0..2ea3094 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
@@ -139,7 +139,7 @@ DiscreteChoiceSearcher<hasWeight, modelType, distType>::EstimateOneReg(
         throw LdtException(ErrorType::kLogic, "dc-modelset",
                            "model check: minimum no. obs");
       if (this->pChecks->MinDof > 0 &&
-          this->pChecks->MinDof > count - num_exo - this->mNumChoices - 2)
+          this->pChecks->MinDof > count - num_exo - (this->mNumChoices - 2))
         throw LdtException(ErrorType::kLogic, "dc-modelset",
                            "model check: minimum dof");
     }
-- 
2.43.0


From 934650f7c5d0e193f2dd3c9b5b5f42d7542ab067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:36 +0000
Subject: [PATCH 070/173] fix: upper extreme bound of negative estimates in the
 search results

---
 src/ldt_statistics/modeling/search/modelset.cpp | 2 +-
 src/ldt_statistics/modeling/search/summary.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/modeling/search/modelset.cpp b/src/ldt_statistics/modeling/search/modelset.cpp
index 10325ad..062eef0 100644
--- a/src/ldt_statistics/modeling/search/modelset.cpp
+++ b/src/ldt_statistics/modeling/search/modelset.cpp
@@ -252,7 +252,7 @@ void ModelSet::CombineExtremeBounds(
                        "list of search summaries is empty!");
 
   min = std::numeric_limits<Tv>::max();
-  max = std::numeric_limits<Tv>::min();
+  max = std::numeric_limits<Tv>::lowest();
 
   for (auto &s : summaries) {
     if (s->Index1 == index1 && s->Index2 == index2 && s->Index3 == index3) {
diff --git a/src/ldt_statistics/modeling/search/summary.cpp b/src/ldt_statistics/modeling/search/summary.cpp
index 1e5ea6b..82e1fe3 100644
--- a/src/ldt_statistics/modeling/search/summary.cpp
+++ b/src/ldt_statistics/modeling/search/summary.cpp
@@ -129,7 +129,7 @@ SearcherSummary::SearcherSummary(Ti Index1, Ti Index2, Ti Index3,
 
   if (pItems->ExtremeBoundsMultiplier > 0)
     ExtremeBounds = std::vector<Tv>(
-        {std::numeric_limits<Tv>::max(), std::numeric_limits<Tv>::min()});
+        {std::numeric_limits<Tv>::max(), std::numeric_limits<Tv>::lowest()});
   if (pItems->KeepInclusionWeights) {
     InclusionsInfo = std::vector<RunningMoments<1, true, false, Tv>>(
         data->NumEndo + data->NumExo);
-- 
2.43.0


From a4cfa840987511e47831cea64073b048a8074d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:36 +0000
Subject: [PATCH 071/173] fix: best models of different searchers are compared
 by metric, because weights underflow

---
 src/ldt_statistics/modeling/search/modelset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/search/modelset.cpp b/src/ldt_statistics/modeling/search/modelset.cpp
index 062eef0..3d7e9f8 100644
--- a/src/ldt_statistics/modeling/search/modelset.cpp
+++ b/src/ldt_statistics/modeling/search/modelset.cpp
@@ -194,7 +194,7 @@ void ModelSet::CombineBests(
         for (Ti i = 0; i < k; i++) {
           if (i >= (Ti)result.size())
             result.push_back(w);
-          else if (w->Weight > result.at(i)->Weight)
+          else if (s->Bests.key_comp()(w, result.at(i)))
             result.insert(result.begin() + i, w);
           else
             continue;
-- 
2.43.0


From 957f2b1555779c6c7294d17a08b080114c14079a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:36 +0000
Subject: [PATCH 072/173] fix: models whose first partition has no target are
 estimated when another partition has one, and targets come first

---
 .../modeling/search/searcher.cpp              | 37 ++++++++++++-------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/ldt_statistics/modeling/search/searcher.cpp b/src/ldt_statistics/modeling/search/searcher.cpp
index 559e9c8..59ce859 100644
--- a/src/ldt_statistics/modeling/search/searcher.cpp
+++ b/src/ldt_statistics/modeling/search/searcher.cpp
@@ -4,6 +4,8 @@
  See accompanying file LICENSE
 */
 
+#include <algorithm>
+
 #include "searchers.h"
 
 using namespace ldt;
@@ -120,6 +122,8 @@ void Searcher::UpdateCurrent() {
         pCombinations->Partitions.at(PartitionIndices.Mat.Data[i])
             .at(ItemIndices.Mat.Data[i]);
   }
+  if (CheckForEmpty) // targets are the first elements
+    std::sort(CurrentIndices.Vec.begin(), CurrentIndices.Vec.end());
 }
 
 void Searcher::CheckStart() {
@@ -149,7 +153,9 @@ std::string Searcher::Start(Tv *work, Ti *workI) {
 
     try {
       UpdateCurrent(); // e.g., update 0,0,0
-      AddState(EstimateOne(work, workI));
+      if (CheckForEmpty == false ||
+          CurrentIndices.Vec.at(0) < this->pItems->LengthTargets)
+        AddState(EstimateOne(work, workI));
     } catch (std::exception &ex) {
       AddState(std::string(ex.what()));
     } catch (std::string &ex) {
@@ -326,20 +332,23 @@ Ti Searcher::GetCount(bool effective) const {
     auto item_indices = VMatrix<Ti>(NumPartitions, 1);
     item_indices.Mat.SetValue(0);
 
+    auto hasTarget = [&]() {
+      for (Ti i = 0; i < NumPartitions; i++)
+        if (pCombinations->Partitions.at(partition_indices.Mat.Data[i])
+                .at(item_indices.Mat.Data[i]) < this->pItems->LengthTargets)
+          return true;
+      return false;
+    };
+
     Ti c, T, free;
-    count = 1;
-    while (move_next(c, T, free, item_indices.Mat, partition_indices.Mat,
-                     NumPartitions, partitionSizes, pCombinations->Partitions,
-                     pCombinations->NumFixPartitions,
-                     pCombinations->NumFixItems)) {
-      if (CheckForEmpty) {
-        auto c0 = pCombinations->Partitions.at(partition_indices.Mat.Data[0])
-                      .at(item_indices.Mat.Data[0]);
-        if (c0 >= this->pItems->LengthTargets)
-          continue;
-      }
-      count++;
-    }
+    count = 0;
+    do {
+      if (CheckForEmpty == false || hasTarget())
+        count++;
+    } while (move_next(c, T, free, item_indices.Mat, partition_indices.Mat,
+                       NumPartitions, partitionSizes, pCombinations->Partitions,
+                       pCombinations->NumFixPartitions,
+                       pCombinations->NumFixItems));
   }
 
   // multiply
-- 
2.43.0


From a3820d3a219a970bc44c021aa1de8a6e766485cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:36 +0000
Subject: [PATCH 073/173] fix: condition number is checked when estimation is
 implied by other options

---
 src/ldt_statistics/modeling/search/summary.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ldt_statistics/modeling/search/summary.cpp b/src/ldt_statistics/modeling/search/summary.cpp
index 82e1fe3..0795916 100644
--- a/src/ldt_statistics/modeling/search/summary.cpp
+++ b/src/ldt_statistics/modeling/search/summary.cpp
@@ -91,13 +91,13 @@ void SearchModelChecks::Update(const SearchMetricOptions &metrics) {
 
   mCheckCN =
       metrics.MetricsOut.size() > 0 && std::isinf(MaxConditionNumber) == false;
-  mCheckCN_all = Estimation && std::isinf(MaxConditionNumber) ==
-                                   false; // note that maximum condition number
-                                          // does not affect estimation here
-
   if (Estimation == false && (metrics.MetricsIn.size() > 0 || checkN ||
                               checkDof || checkAic || checkSic || checkR2))
     Estimation = true;
+
+  mCheckCN_all = Estimation && std::isinf(MaxConditionNumber) ==
+                                   false; // note that maximum condition number
+                                          // does not affect estimation here
 }
 
 // #pragma endregion
-- 
2.43.0


From f71399108fb0393c5b503ea41eaa57857aeee11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:36 +0000
Subject: [PATCH 074/173] fix: SUR inner groups without target are skipped

---
 src/ldt_statistics/modeling/linear/sur_modelset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/linear/sur_modelset.cpp b/src/ldt_statistics/modeling/linear/sur_modelset.cpp
index 7f69101..1eb76ce 100644
--- a/src/ldt_statistics/modeling/linear/sur_modelset.cpp
+++ b/src/ldt_statistics/modeling/linear/sur_modelset.cpp
@@ -214,7 +214,7 @@ SurModelset::SurModelset(const SearchData &data,
         throw LdtException(ErrorType::kLogic, "sur-modelset",
                            "empty endogenous indexes");
 
-      if (e.at(0) > items.LengthTargets)
+      if (e.at(0) >= items.LengthTargets)
         continue; // no target here
       auto seed = metrics.Seed == 0
                       ? 0
-- 
2.43.0


From 9f0b0dc3e02fb7b51f1cb9c525be070677ef4709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:36 +0000
Subject: [PATCH 075/173] fix: Box-Cox parameters of the variables of the model
 are used in SUR search

---
 include/math/statistics/inference/models/sur.h      | 3 +++
 src/ldt_statistics/modeling/linear/sur_modelset.cpp | 6 +++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/math/statistics/inference/models/sur.h b/include/math/statistics/inference/models/sur.h
index 39dcf7a..a50fec7 100644
--- a/include/math/statistics/inference/models/sur.h
+++ b/include/math/statistics/inference/models/sur.h
@@ -393,6 +393,9 @@ class LDT_EXPORT SurSearcher : public SearcherReg {
   Matrix<Tv> R;
   std::unique_ptr<Tv[]> R_d;
 
+  /// @brief Box-Cox parameters of the endogenous variables in this searcher
+  std::vector<Tv> Lambdas;
+
   std::string EstimateOneReg(Tv *work, Ti *workI, VMatrix<Tv> &metrics,
                              VMatrix<Tv> &type1Mean, VMatrix<Tv> &type1Var,
                              VMatrix<Ti> &extra) override;
diff --git a/src/ldt_statistics/modeling/linear/sur_modelset.cpp b/src/ldt_statistics/modeling/linear/sur_modelset.cpp
index 1eb76ce..030daa4 100644
--- a/src/ldt_statistics/modeling/linear/sur_modelset.cpp
+++ b/src/ldt_statistics/modeling/linear/sur_modelset.cpp
@@ -59,6 +59,10 @@ SurSearcher::SurSearcher(const SearchData &data,
     R_d = std::make_unique<Tv[]>(km * km);
     R = Matrix<Tv>(R_d.get(), km, km);
   }
+
+  if (data.Lambdas.size() > 0)
+    for (auto &a : endoIndexes)
+      Lambdas.push_back(data.Lambdas.at(a));
 }
 
 std::string SurSearcher::EstimateOneReg(Tv *work, Ti *workI,
@@ -101,7 +105,7 @@ std::string SurSearcher::EstimateOneReg(Tv *work, Ti *workI,
         SigSearchMaxProb,
         this->pChecks->mCheckCN ? this->pChecks->MaxConditionNumber : INFINITY,
         this->pMetrics->SimFixSize - this->pChecks->MinOutSim,
-        this->pData->Lambdas.size() == 0 ? nullptr : &this->pData->Lambdas);
+        Lambdas.size() == 0 ? nullptr : &Lambdas);
 
     Ti j = (Ti)this->pMetrics->MetricsIn.size();
 
-- 
2.43.0


From 12fa3814df61d43a8f3ebe341f2609922b50fca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:36 +0000
Subject: [PATCH 076/173] fix: Box-Cox parameters of the variables of the model
 are used in VARMA search

---
 .../modeling/time_series/varma/varma_modelset.cpp          | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
index 1547602..fa0ace0 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
@@ -223,6 +223,11 @@ std::string VarmaSearcher::EstimateOneReg(Tv *work, Ti *workI,
     if (this->pOptions->RequestCancel)
       return "";
 
+    std::vector<Tv> lambdas;
+    if (this->pData->Lambdas.size() > 0)
+      for (auto &a : this->CurrentIndices.Vec)
+        lambdas.push_back(this->pData->Lambdas.at(a));
+
     Model.Calculate(
         S_s, W, Y, this->pOptions->RequestCancel, num_exo > 0 ? &X : nullptr,
         Restriction.IsRestricted ? &R : nullptr, nullptr, UsePreviousEstim,
@@ -230,7 +235,7 @@ std::string VarmaSearcher::EstimateOneReg(Tv *work, Ti *workI,
             ? this->pChecks->MaxConditionNumber
             : INFINITY,
         StdMultiplier, false, count0 - this->pChecks->MinOutSim,
-        this->pData->Lambdas.size() == 0 ? nullptr : &this->pData->Lambdas);
+        lambdas.size() == 0 ? nullptr : &lambdas);
 
     if (Model.ValidCounts == 0)
       throw LdtException(ErrorType::kLogic, "varma-modelset",
-- 
2.43.0


From 6fd53cc21ae85741ea427fc3d9b109147103d387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:36 +0000
Subject: [PATCH 077/173] fix: index of the first exogenous variable is not a
 valid endogenous index in VARMA search

---
 .../modeling/time_series/varma/varma_modelset.cpp               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
index fa0ace0..073ea04 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
@@ -328,7 +328,7 @@ VarmaModelset::VarmaModelset(const SearchData &data,
   // check group indexes and create sizes array
   for (auto const &b : combinations.Partitions) {
     for (auto &a : b) {
-      if (a > items.LengthEndogenous)
+      if (a >= items.LengthEndogenous)
         throw LdtException(ErrorType::kLogic, "varma-modelset",
                            "invalid endogenous group element (it is larger "
                            "than the number "
-- 
2.43.0


From b810576fc72bc3246d39227d231520f7a229ca48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:36 +0000
Subject: [PATCH 078/173] fix: number of observations in VARMA search does not
 depend on the first variable

---
 .../modeling/time_series/varma/varma_modelset.cpp          | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
index 073ea04..d190e92 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
@@ -351,9 +351,10 @@ VarmaModelset::VarmaModelset(const SearchData &data,
   if (ExoIndexes.size() == 0)
     ExoIndexes.resize(1); // add empty for loop
 
-  auto T = source.Ranges.at(0).EndIndex +
-           1; // The first target determines the number of observations
-              // (this is required for out-of-sample exogenous data)
+  Ti T = 0; // maximum number of observations in the models (i.e., without the
+            // out-of-sample exogenous data)
+  for (Ti i = 0; i < items.LengthEndogenous; i++)
+    T = std::max(T, source.Ranges.at(i).EndIndex + 1);
 
   for (auto const &s : combinations.Sizes) {
     if (s <= 0)
-- 
2.43.0


From 12046abe29684003bd6ff378306b93bc51e56f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:36 +0000
Subject: [PATCH 079/173] fix: prediction bounds are checked at all horizons

---
 .../modeling/time_series/varma/varma_modelset.cpp             | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
index d190e92..8a22bd2 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
@@ -182,9 +182,7 @@ std::string VarmaSearcher::EstimateOneReg(Tv *work, Ti *workI,
         for (auto &t : this->CurrentIndices.Vec) { // is it a target?
           i++;
           if (t < this->pItems->LengthTargets) {
-            Ti j = -1;
-            for (auto &h : this->pMetrics->Horizons) {
-              j++;
+            for (Ti h = 1; h <= mMaxHorizonCheck; h++) {
 
               if (this->pOptions->RequestCancel)
                 return "";
-- 
2.43.0


From 4b22169d7e72a5b8685a4857accd80d4d460f57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:36 +0000
Subject: [PATCH 080/173] fix: cost matrices are checked when frequency cost is
 the first metric

---
 .../modeling/discrete/discrete_choice_modelset.cpp            | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
index 2ea3094..14919f9 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
@@ -417,9 +417,7 @@ DiscreteChoiceModelset<hasWeight, modelType>::DiscreteChoiceModelset(
                          "There is no frequency cost metric and yet "
                          "frequency cost matrix list is not "
                          "empty!");
-  } else if (metrics.MetricInIndices.at(GoodnessOfFitType::kFrequencyCost) >
-                 0 ||
-             metrics.MetricOutIndices.at(ScoringType::kFrequencyCost) > 0) {
+  } else {
     if (costMatrixes.size() == 0)
       throw LdtException(ErrorType::kLogic, "dc-modelset",
                          "Frequency cost metrics are given, "
-- 
2.43.0


From 4e03d59d66163fb5a1aab2ad8e39debc6a3e4ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:58 +0000
Subject: [PATCH 081/173] fix: discrete choice search writes outside its
 integer work array

---
 .../modeling/discrete/discrete_choice_modelset.cpp              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
index 14919f9..5592e9a 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
@@ -177,7 +177,7 @@ DiscreteChoiceSearcher<hasWeight, modelType, distType>::EstimateOneReg(
       return "";
 
     Model.Calculate(Data.Result, pCostMatrixes, &work[s],
-                    &work[s + Model.StorageSize], &workI[this->NumPartitions],
+                    &work[s + Model.StorageSize], workI,
                     this->pOptions->RequestCancel, *pAucOptions,
                     true, nullptr,
                     this->pMetrics->SimFixSize - this->pChecks->MinOutSim);
-- 
2.43.0


From 21ba1bc044e0c66f62bcccc1dff77a11ae9e48aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:59 +0000
Subject: [PATCH 082/173] fix: in-sample metrics of a discrete choice search
 with missing data

---
 .../modeling/discrete/discrete_choice_modelset.cpp              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
index 5592e9a..ea4ed34 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
@@ -201,7 +201,7 @@ DiscreteChoiceSearcher<hasWeight, modelType, distType>::EstimateOneReg(
     auto briInd = this->pMetrics->MetricInIndices.at(GoodnessOfFitType::kBrier);
     if (costInd >= 0 || aucInd >= 0 || briInd >= 0) {
 
-      Probs.SetData(&work[s]);
+      Probs.SetData(&work[s], count, this->mNumChoices);
       s += Probs.length();
       DModel.GetProbabilities(X, Probs, &work[s]);
 
-- 
2.43.0


From 2b41113c943601f710559297a2d5d891ca0a4783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:17 +0000
Subject: [PATCH 083/173] fix: checking the predictions implies estimation in a
 model search

---
 src/ldt_statistics/modeling/search/summary.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/modeling/search/summary.cpp b/src/ldt_statistics/modeling/search/summary.cpp
index 0795916..a019cc6 100644
--- a/src/ldt_statistics/modeling/search/summary.cpp
+++ b/src/ldt_statistics/modeling/search/summary.cpp
@@ -91,8 +91,9 @@ void SearchModelChecks::Update(const SearchMetricOptions &metrics) {
 
   mCheckCN =
       metrics.MetricsOut.size() > 0 && std::isinf(MaxConditionNumber) == false;
-  if (Estimation == false && (metrics.MetricsIn.size() > 0 || checkN ||
-                              checkDof || checkAic || checkSic || checkR2))
+  if (Estimation == false &&
+      (metrics.MetricsIn.size() > 0 || checkN || checkDof || checkAic ||
+       checkSic || checkR2 || Prediction)) // it needs the estimated model
     Estimation = true;
 
   mCheckCN_all = Estimation && std::isinf(MaxConditionNumber) ==
-- 
2.43.0


From 815c4ea03e8a3dea520e2ba41c2ed8358361f708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:58 +0000
Subject: [PATCH 084/173] fix: weights can be added to data without exogenous
 variables

---
 Rpackage/R/data.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/R/data.R b/Rpackage/R/data.R
index c55c3dd..644f00d 100644
--- a/Rpackage/R/data.R
+++ b/Rpackage/R/data.R
@@ -165,7 +165,7 @@ get.data <- function(data, endogenous = 1, equations = NULL,
     stopifnot(all(weights != 0))
     stopifnot(is.numeric(weights) || (is.matrix(weights) && ncol(weights) == 1))
     stopifnot(length(weights) == nrow(data))
-    data <- cbind(data[,1:numEndo,drop=FALSE], weights, data[,(numEndo+1):ncol(data),drop=FALSE])
+    data <- cbind(data[,1:numEndo,drop=FALSE], weights, data[,seq_len(ncol(data)) > numEndo,drop=FALSE])
     colnames(data)[numEndo+1] <- "(Weights)"
   }
 
-- 
2.43.0


From 6101d884a49a7dc8e5613a29f248b85a02fa1549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:58 +0000
Subject: [PATCH 085/173] fix: unknown names of endogenous variables are
 rejected

---
 Rpackage/R/data.R | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Rpackage/R/data.R b/Rpackage/R/data.R
index 644f00d..73eee70 100644
--- a/Rpackage/R/data.R
+++ b/Rpackage/R/data.R
@@ -106,6 +106,8 @@ get.data <- function(data, endogenous = 1, equations = NULL,
     }
     if (is.character(endogenous)){ # reorder columns
       idx <- match(endogenous, colnames(data))
+      if (any(is.na(idx)))
+        stop("An endogenous variable is not found in the data.")
       data <- data[, c(idx, setdiff(seq_len(ncol(data)), idx))]
     }
 
-- 
2.43.0


From 05bf2645c0cfdc91556e30e5fb3563655ed21240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:58 +0000
Subject: [PATCH 086/173] fix: equations with one variable are kept as a matrix

---
 Rpackage/R/data.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/R/data.R b/Rpackage/R/data.R
index 73eee70..7e00d15 100644
--- a/Rpackage/R/data.R
+++ b/Rpackage/R/data.R
@@ -359,7 +359,7 @@ eqList2Matrix <- function(equations, data, addIntercept = FALSE) {
     }
   }
 
-  res <- res[, c(response_vars, setdiff(colnames(res), response_vars))]
+  res <- res[, c(response_vars, setdiff(colnames(res), response_vars)), drop = FALSE]
 
   if (addIntercept) {
     intercept <- rep(1, nrow(res))
-- 
2.43.0


From b7775a002ac6854e8be85efd83cfe667eb179539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:58 +0000
Subject: [PATCH 087/173] fix: missing observations in equations do not shift
 the rows

---
 Rpackage/R/data.R | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Rpackage/R/data.R b/Rpackage/R/data.R
index 7e00d15..da31163 100644
--- a/Rpackage/R/data.R
+++ b/Rpackage/R/data.R
@@ -319,7 +319,7 @@ get.data.check.intercept <- function(matrix) {
 #' matrix_data <- ldt:::eqList2Matrix(equations, data, addIntercept = TRUE)
 #' print(matrix_data)
 #'
-#' @importFrom stats model.matrix model.response model.frame
+#' @importFrom stats model.matrix model.response model.frame na.pass
 eqList2Matrix <- function(equations, data, addIntercept = FALSE) {
 
   stopifnot(inherits(equations, "formula") || is.list(equations))
@@ -341,12 +341,13 @@ eqList2Matrix <- function(equations, data, addIntercept = FALSE) {
       stop("Duplicate response variable '", rv, "' found in equations.")
     response_vars <- c(response_vars, rv)
 
-    model_mat <- model.matrix(eq, data)
+    model_frm <- model.frame(eq, data, na.action = na.pass) # equations must have the same rows
+    model_mat <- model.matrix(eq, model_frm)
     if ("(Intercept)" %in% colnames(model_mat)) # remove intercept
       model_mat <- model_mat[, colnames(model_mat) != "(Intercept)", drop = FALSE]
 
     # Add the response variable as a column of the matrix
-    rvdata <- model.response(model.frame(eq, data))
+    rvdata <- model.response(model_frm)
     model_mat <- cbind(rvdata, model_mat)
     colnames(model_mat)[1] <- rv
 
-- 
2.43.0


From 792385cf83714579f53ceb554e2279b142c5d720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:58 +0000
Subject: [PATCH 088/173] fix: checking for intercept in a column with missing
 observations

---
 Rpackage/R/data.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/R/data.R b/Rpackage/R/data.R
index da31163..14f4006 100644
--- a/Rpackage/R/data.R
+++ b/Rpackage/R/data.R
@@ -288,7 +288,7 @@ get.data.check.discrete <- function(data, colIndex = 1){
 #'
 get.data.check.intercept <- function(matrix) {
   for (i in seq_len(ncol(matrix))) {
-    if (all(matrix[, i] == 1))
+    if (isTRUE(all(matrix[, i] == 1)))
       return(i)
   }
   return(-1)
-- 
2.43.0


From b32502b86f0c2d38d659ff6874d6483b6eb72c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:58 +0000
Subject: [PATCH 089/173] fix: zero or negative indices in partitions are
 rejected

---
 Rpackage/R/data.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/R/data.R b/Rpackage/R/data.R
index 14f4006..80a16e8 100644
--- a/Rpackage/R/data.R
+++ b/Rpackage/R/data.R
@@ -643,7 +643,7 @@ get.indexation <- function(combinations, data, isInnerExogenous) {
              function(x){
                j <- if (is.character(x)) {colnames_to_index(x, colnames(data$data))}
                else {sort(as.integer(x))}
-               if (any(j) < 1)
+               if (any(j < 1))
                  stop("Zero or negative index in partitions.")
                if (isInnerExogenous && any(j > data$numEndo))
                  stop("Invalid index in partitions(=", j,"). Make sure they are less than the number of endogenous variables (=", data$numEndo, ").")
-- 
2.43.0


From 8e9828f4204278e017cd83a4dcba2ff6095a2e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:58 +0000
Subject: [PATCH 090/173] fix: data with one column or row remains a matrix
 after removing rows

---
 Rpackage/R/data.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/R/data.R b/Rpackage/R/data.R
index 80a16e8..dfe35a2 100644
--- a/Rpackage/R/data.R
+++ b/Rpackage/R/data.R
@@ -253,7 +253,7 @@ get.data.keep.complete <- function(data, warn = TRUE){
   if (length(incomplete_rows) > 0) {
     if (warn)
       warning(paste("Removed rows with missing observations: ", paste(incomplete_rows, collapse = ", ")))
-    data$data <- data$data[-incomplete_rows, ]
+    data$data <- data$data[-incomplete_rows, , drop = FALSE]
     data$obsCount <- nrow(data$data)
   }
   data
-- 
2.43.0


From d0e1600ebf295e00edff87eca40b7dedb423ad75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:58 +0000
Subject: [PATCH 091/173] fix: names of exogenous variables in partitions and
 inner groups

---
 Rpackage/R/data.R | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Rpackage/R/data.R b/Rpackage/R/data.R
index dfe35a2..05569c1 100644
--- a/Rpackage/R/data.R
+++ b/Rpackage/R/data.R
@@ -593,6 +593,10 @@ get.indexation <- function(combinations, data, isInnerExogenous) {
     stop("Invalid number of target variables (=",combinations$numTargets,
          "). It cannot be larger than the number of endogenous variables (=", data$numEndo, ").")
 
+  # indices in partitions and inner groups are relative to the endogenous or exogenous part
+  endo_names <- colnames(data$data)[seq_len(data$numEndo)]
+  exo_names <- colnames(data$data)[seq_len(data$numExo) + data$numEndo + ifelse(data$hasWeight, 1, 0)]
+
   colnames_to_index <- function(names, colnames) {
     indices <- match(names, colnames)
     if (any(is.na(indices))) {
@@ -641,7 +645,7 @@ get.indexation <- function(combinations, data, isInnerExogenous) {
     combinations$partitions <-
       lapply(combinations$partitions,
              function(x){
-               j <- if (is.character(x)) {colnames_to_index(x, colnames(data$data))}
+               j <- if (is.character(x)) {colnames_to_index(x, if (isInnerExogenous) endo_names else exo_names)}
                else {sort(as.integer(x))}
                if (any(j < 1))
                  stop("Zero or negative index in partitions.")
@@ -662,7 +666,7 @@ get.indexation <- function(combinations, data, isInnerExogenous) {
     lapply(combinations$innerGroups,
            function(x){
              j <- if (is.character(x))
-             {colnames_to_index(x, colnames(data$data))}
+             {colnames_to_index(x, if (isInnerExogenous) exo_names else endo_names)}
              else
              {sort(as.integer(x))}
              if (any(j < 1))
-- 
2.43.0


From 6bb6b83235b6e415cc89e76b273936f1cc48706a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:48 +0000
Subject: [PATCH 092/173] fix: data with one named endogenous variable remains
 a matrix

---
 Rpackage/R/data.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/R/data.R b/Rpackage/R/data.R
index 05569c1..8213519 100644
--- a/Rpackage/R/data.R
+++ b/Rpackage/R/data.R
@@ -108,7 +108,7 @@ get.data <- function(data, endogenous = 1, equations = NULL,
       idx <- match(endogenous, colnames(data))
       if (any(is.na(idx)))
         stop("An endogenous variable is not found in the data.")
-      data <- data[, c(idx, setdiff(seq_len(ncol(data)), idx))]
+      data <- data[, c(idx, setdiff(seq_len(ncol(data)), idx)), drop = FALSE]
     }
 
     if (addIntercept){
-- 
2.43.0


From f1bb5807aca14c4214f7ebc8bb458fe8c9f17db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:09 +0000
Subject: [PATCH 093/173] fix: exogenous data of a restricted equation remains
 a matrix

---
 Rpackage/R/g.regression.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/R/g.regression.R b/Rpackage/R/g.regression.R
index bcf2834..79131ad 100644
--- a/Rpackage/R/g.regression.R
+++ b/Rpackage/R/g.regression.R
@@ -53,7 +53,7 @@ exogenous <- function(object, equation = 1, ...){
   X <- object$estimations$X
   if (!is.null(object$estimations$isRestricted)){
     not_restricted <- as.logical(1 - object$estimations$isRestricted[,equation])
-    X <- X[,not_restricted]
+    X <- X[,not_restricted, drop = FALSE]
   }
   X
 }
-- 
2.43.0


From 9ea3000161bbb0c4c363d531afae7fa7df216639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:09 +0000
Subject: [PATCH 094/173] fix: coefficients of one equation remain a matrix

---
 Rpackage/R/g.regression.R | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Rpackage/R/g.regression.R b/Rpackage/R/g.regression.R
index 79131ad..9f17da5 100644
--- a/Rpackage/R/g.regression.R
+++ b/Rpackage/R/g.regression.R
@@ -75,7 +75,7 @@ exogenous <- function(object, equation = 1, ...){
 #' @export
 coef.ldt.estim <- function(object, equations = NULL, removeZeroRest = FALSE, ...){
   equations <- checkEquation(object, equations, FALSE)
-  c <- object$estimations$coefs[, equations]
+  c <- object$estimations$coefs[, equations, drop = FALSE]
   if (removeZeroRest == FALSE ||
       is.null(object$estimations$isRestricted) ||
       sum(object$estimations$isRestricted) == 0)
@@ -83,7 +83,7 @@ coef.ldt.estim <- function(object, equations = NULL, removeZeroRest = FALSE, ...
 
   result <- list()
   for (j in 1:ncol(c)){
-    notRest <- as.logical(1 - object$estimations$isRestricted[,j])
+    notRest <- as.logical(1 - object$estimations$isRestricted[,equations[j]])
     result[[colnames(c)[j]]] <- c[,j,drop=FALSE][notRest]
   }
   result
-- 
2.43.0


From fa31dd9f9dd48f57a0abd6dd03fd8e6fa8462304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:14 +0000
Subject: [PATCH 095/173] fix: residuals and fitted values of a VARMA model

---
 Rpackage/R/g.regression.R | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/Rpackage/R/g.regression.R b/Rpackage/R/g.regression.R
index 9f17da5..a1f42a8 100644
--- a/Rpackage/R/g.regression.R
+++ b/Rpackage/R/g.regression.R
@@ -90,6 +90,14 @@ coef.ldt.estim <- function(object, equations = NULL, removeZeroRest = FALSE, ...
 }
 
 
+# number of observations at the beginning of the data which are not used in the estimation (e.g., lags and differences in VARMA)
+omittedObsCount <- function(object){
+  added <- attr(object$info$data, "ldt.new.appended")
+  if (is.null(added))
+    added <- 0
+  nrow(object$info$data$data) - added - nrow(object$estimations$resid)
+}
+
 hatvalues0 <- function(object, equation, addNA = TRUE){
   #TODO:can be more efficient
   method <- tolower(attr(object, "method"))
@@ -100,8 +108,7 @@ hatvalues0 <- function(object, equation, addNA = TRUE){
   res <- diag(H)
 
   if (addNA && method == "varma"){
-    omit_obs <- nrow(object$info$data) - nrow(object$estimations$resid)
-    res <- c(rep(NA, omit_obs), res)
+    res <- c(rep(NA, omittedObsCount(object)), res)
   }
   res
 }
@@ -110,7 +117,7 @@ cooks.distance0 <- function(object, equation, addNA = TRUE){
   method <- tolower(attr(object, "method"))
   omit_obs <- 0
   if (method == "varma")
-    omit_obs <- nrow(object$info$data) - nrow(object$estimations$resid)
+    omit_obs <- omittedObsCount(object)
 
   h <- hatvalues0(object, equation, FALSE)
   r <- residuals.ldt.estim(object, equation)
@@ -172,9 +179,8 @@ residuals.ldt.estim <- function(object, equations = NULL, standardized = FALSE,
     }
   }
 
-  omit_obs <- nrow(object$info$data) - nrow(object$estimations$resid) # for VARMA
   if (method == "varma")
-    resid <- rbind(matrix(NA, ncol = ncol(resid), nrow = omit_obs), resid)
+    resid <- rbind(matrix(NA, ncol = ncol(resid), nrow = omittedObsCount(object)), resid)
 
 
   resid
-- 
2.43.0


From cb61122eb35e054ab57cc77b56a7204710345d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:14 +0000
Subject: [PATCH 096/173] fix: standardized residuals of a subset of equations
 and of weighted data

---
 Rpackage/R/g.regression.R | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Rpackage/R/g.regression.R b/Rpackage/R/g.regression.R
index a1f42a8..2cb708a 100644
--- a/Rpackage/R/g.regression.R
+++ b/Rpackage/R/g.regression.R
@@ -166,12 +166,12 @@ residuals.ldt.estim <- function(object, equations = NULL, standardized = FALSE,
     resid <- object$estimations$resid[, equations, drop=FALSE]
 
   if (standardized) {
-    for (i in equations){
-      hii <- hatvalues0(object, equation = i, addNA = FALSE)
-      s <- sd(resid)
+    for (i in seq_along(equations)){
+      hii <- hatvalues0(object, equation = equations[i], addNA = FALSE)
+      s <- sd(resid[,i])
       if (object$info$data$hasWeight){
-        weights <- object$info$data[,object$info$data$numEndo + 1]
-        resid[,i] <- resid[,i] / (s * weights * sqrt(1 - hii))
+        weights <- object$info$data$data[,object$info$data$numEndo + 1]
+        resid[,i] <- resid[,i] / (s * sqrt(weights * (1 - hii)))
       }
       else{
         resid[,i] <- resid[,i] / (s * sqrt(1 - hii))
-- 
2.43.0


From c2b338d072f1c6088ee92cd17fcd570816d2c7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:14 +0000
Subject: [PATCH 097/173] fix: Cook's distance

---
 Rpackage/R/g.regression.R | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Rpackage/R/g.regression.R b/Rpackage/R/g.regression.R
index 2cb708a..30481f9 100644
--- a/Rpackage/R/g.regression.R
+++ b/Rpackage/R/g.regression.R
@@ -126,12 +126,12 @@ cooks.distance0 <- function(object, equation, addNA = TRUE){
 
   mse <- sum(r^2)/length(r)
   c <- coef.ldt.estim(object, equations = equation, removeZeroRest = TRUE)
-  p <- length(c[1])
+  p <- length(unlist(c))
   if (object$info$data$hasWeight){
     stop("Cook's distance is not implemented for weighted observations.") # couldn't find a reference
   }
   else
-    res <- r^2 * h / (p*mse*(1-h^2))
+    res <- r^2 * h / (p*mse*(1-h)^2)
 
   if (addNA && omit_obs > 0)
     res <- c(rep(NA, omit_obs), res)
-- 
2.43.0


From 5cef460f2cebfbc3a3ac710484c47894654926e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:14 +0000
Subject: [PATCH 098/173] fix: fitted values when new data is appended to the
 data

---
 Rpackage/R/g.regression.R | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Rpackage/R/g.regression.R b/Rpackage/R/g.regression.R
index 30481f9..400ce8b 100644
--- a/Rpackage/R/g.regression.R
+++ b/Rpackage/R/g.regression.R
@@ -200,7 +200,10 @@ residuals.ldt.estim <- function(object, equations = NULL, standardized = FALSE,
 fitted.ldt.estim <- function(object, equations = NULL, ...){
   equations <- checkEquation(object, equations, FALSE)
   resid <- residuals.ldt.estim(object, equations = equations, standardized = FALSE, pearson = FALSE)
-  y <- object$info$data$data[, equations, drop=FALSE]
+  if (tolower(attr(object, "method")) == "varma") # 'Y' is differenced in integrated models
+    y <- object$info$data$data[seq_len(nrow(resid)), equations, drop=FALSE]
+  else
+    y <- object$estimations$Y[, equations, drop=FALSE]
   y - resid
 }
 
-- 
2.43.0


From d746db24e419508d983a29f7019c2d669e2c4a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:14 +0000
Subject: [PATCH 099/173] fix: predict binary choice models

---
 Rpackage/R/g.regression.R | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Rpackage/R/g.regression.R b/Rpackage/R/g.regression.R
index 400ce8b..5af4a65 100644
--- a/Rpackage/R/g.regression.R
+++ b/Rpackage/R/g.regression.R
@@ -271,8 +271,12 @@ predict.ldt.estim <- function(object, ...){
     stop("Invalid class. An 'ldt.estim' object is expected.")
 
   res <- list()
-  res$means <- object$projection$means
-  res$vars <- object$projection$vars
+  if (is.matrix(object$projection)) # projected probabilities in binary choice models
+    res$means <- object$projection
+  else{
+    res$means <- object$projection$means
+    res$vars <- object$projection$vars
+  }
 
   res$method <- attr(object, "method")
   res$newX <- object$info$data$newX
-- 
2.43.0


From a565bd1c2da62121dc373ff87b08bf3500c12d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:14 +0000
Subject: [PATCH 100/173] fix: remove missing observations in binary estimation

---
 Rpackage/R/bin.R | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Rpackage/R/bin.R b/Rpackage/R/bin.R
index 0fd7878..76fa324 100644
--- a/Rpackage/R/bin.R
+++ b/Rpackage/R/bin.R
@@ -203,6 +203,7 @@ estim.bin <- function(data,
                       simMaxConditionNumber = Inf) {
   stopifnot(is.list(data))
 
+  data <- get.data.keep.complete(data)
   numChoices <- get.data.check.discrete(data,1)
 
   if (numChoices != 2)
-- 
2.43.0


From 69b28074fb090ed5b45af55de015ce04be00e72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:23 +0000
Subject: [PATCH 101/173] fix: cost and restriction matrices with integer
 values

---
 Rpackage/R/bin.R | 12 ++++++++++++
 Rpackage/R/sur.R |  4 +++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/Rpackage/R/bin.R b/Rpackage/R/bin.R
index 76fa324..dcec8f2 100644
--- a/Rpackage/R/bin.R
+++ b/Rpackage/R/bin.R
@@ -100,6 +100,7 @@ search.bin <- function(data,
   stopifnot(searchLogit || searchProbit)
 
   check.cost.matrices(costMatrices)
+  costMatrices <- toDoubleMatrices(costMatrices)
 
   if (is.null(optimOptions))
     optimOptions = get.options.newton()
@@ -222,6 +223,7 @@ estim.bin <- function(data,
     stopifnot(is.list(pcaOptionsX))
 
   check.cost.matrices(costMatrices)
+  costMatrices <- toDoubleMatrices(costMatrices)
 
 
   #similar to SUR
@@ -467,6 +469,16 @@ estim.binary.model.string <- function(object){
     stop("Invalid binary model")
 }
 
+# converts matrices in a list to double matrices
+toDoubleMatrices <- function(matrices){
+  if (is.null(matrices))
+    return(NULL)
+  lapply(matrices, function(m){
+    storage.mode(m) <- "double"
+    m
+  })
+}
+
 check.cost.matrices <- function(costMatrices){
   if (is.null(costMatrices) == FALSE){
     stopifnot(is.list(costMatrices))
diff --git a/Rpackage/R/sur.R b/Rpackage/R/sur.R
index 426e980..ba11a49 100644
--- a/Rpackage/R/sur.R
+++ b/Rpackage/R/sur.R
@@ -178,8 +178,10 @@ estim.sur <- function(data, searchSigMaxIter = 0,
   if (searchSigMaxIter > 0 && !is.null(restriction))
     stop("restriction must be null when  significant search is enabled.")
 
-  if (!is.null(restriction))
+  if (!is.null(restriction)){
     stopifnot(is.matrix(restriction))
+    storage.mode(restriction) <- "double"
+  }
 
   stopifnot(is.zero.or.positive.number(simFixSize))
   simFixSize <- as.integer(simFixSize)
-- 
2.43.0


From 83073c0c03b3652f473213c3f862b4bcf29f596e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:33 +0000
Subject: [PATCH 102/173] fix: costs with integer values in ROC options

---
 Rpackage/R/options.R | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Rpackage/R/options.R b/Rpackage/R/options.R
index 91fa7b0..5a90a6f 100644
--- a/Rpackage/R/options.R
+++ b/Rpackage/R/options.R
@@ -34,6 +34,8 @@ get.options.roc <- function(lowerThreshold = 0, upperThreshold = 1, epsilon = 1e
     if (!(!is.null(costMatrix) && is.matrix(costMatrix) &&
                 nrow(costMatrix) == 2 && ncol(costMatrix) == 2))
       stop("Cost matrix must be 2x2 numeric matrix.")
+    costs <- as.numeric(costs)
+    storage.mode(costMatrix) <- "double"
   }
 
   res = list(lowerThreshold = lowerThreshold,
-- 
2.43.0


From 5978d0e57b98e32e7bcc5cc862f5f4c4766b9521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:33 +0000
Subject: [PATCH 103/173] fix: prediction bounds with integer values

---
 Rpackage/R/search.R | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Rpackage/R/search.R b/Rpackage/R/search.R
index 345c3e1..86145fc 100644
--- a/Rpackage/R/search.R
+++ b/Rpackage/R/search.R
@@ -169,6 +169,8 @@ update.search.modelchecks <- function(data, numTargets, maxHorizon, options){
       stopifnot(ncol(options$predictionBound$lower) == numTargets)
       stopifnot(ncol(options$predictionBound$upper) == numTargets)
       stopifnot(all(options$predictionBound$lower < options$predictionBound$upper))
+      storage.mode(options$predictionBound$lower) <- "double"
+      storage.mode(options$predictionBound$upper) <- "double"
     }
   }
   else
-- 
2.43.0


From 5f1e3c9d28144c752efb90d6fec381893d761ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:33 +0000
Subject: [PATCH 104/173] fix: 'pessimistic' in ROC options was ignored

---
 Rpackage/src/r_ldt.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Rpackage/src/r_ldt.cpp b/Rpackage/src/r_ldt.cpp
index c689171..2418a67 100644
--- a/Rpackage/src/r_ldt.cpp
+++ b/Rpackage/src/r_ldt.cpp
@@ -270,6 +270,7 @@ void UpdateOptions(List &itemsR, List &metricsR, List &checksR,
 void UpdateRocOptions(List &rocOptionsR, RocOptions &options) {
 
   options.NormalizePoints = true;
+  options.Pessimistic = as<bool>(rocOptionsR["pessimistic"]);
   options.LowerThreshold = as<double>(rocOptionsR["lowerThreshold"]);
   options.UpperThreshold = as<double>(rocOptionsR["upperThreshold"]);
   options.Epsilon = as<double>(rocOptionsR["epsilon"]);
-- 
2.43.0


From e518992299acd93316dad910a0fa6287575e447d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:13 +0000
Subject: [PATCH 105/173] fix: an exception in a search thread does not wait
 forever

---
 Rpackage/src/r_dc.cpp    | 10 ++++++++--
 Rpackage/src/r_ldt.cpp   |  2 +-
 Rpackage/src/r_ldt.h     |  3 ++-
 Rpackage/src/r_sur.cpp   | 10 ++++++++--
 Rpackage/src/r_varma.cpp | 10 ++++++++--
 5 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/Rpackage/src/r_dc.cpp b/Rpackage/src/r_dc.cpp
index ad55201..6bec68c 100644
--- a/Rpackage/src/r_dc.cpp
+++ b/Rpackage/src/r_dc.cpp
@@ -79,7 +79,7 @@ SEXP SearchDc(List data, List combinations, List metrics, List modelChecks,
       newton_, roc_);
   auto modelr = std::unique_ptr<DiscreteChoiceModelsetBase>(model);
 
-  bool estimating = true;
+  std::atomic<bool> estimating = true;
 
   std::unique_ptr<double[]> W;
   std::unique_ptr<int[]> Wi;
@@ -96,11 +96,17 @@ SEXP SearchDc(List data, List combinations, List metrics, List modelChecks,
   // handle unhandled exceptions in the async function
   // model->CheckStart();
   auto f = std::async(std::launch::async, [&] {
-    model->Start(W.get(), Wi.get());
+    try {
+      model->Start(W.get(), Wi.get());
+    } catch (...) {
+      estimating = false;
+      throw;
+    }
     estimating = false;
   });
 
   ReportProgress(model->Modelset, estimating, options_, alli);
+  f.get(); // rethrows
 
   if (options_.RequestCancel)
     return R_NilValue;
diff --git a/Rpackage/src/r_ldt.cpp b/Rpackage/src/r_ldt.cpp
index 2418a67..f862197 100644
--- a/Rpackage/src/r_ldt.cpp
+++ b/Rpackage/src/r_ldt.cpp
@@ -419,7 +419,7 @@ void ReportProgressInner(
   }
 }
 
-void ReportProgress(const ldt::ModelSet &model, bool &estimating,
+void ReportProgress(const ldt::ModelSet &model, std::atomic<bool> &estimating,
                     ldt::SearchOptions &options, const int &allCount) {
   auto printMsg = options.ReportInterval > 0;
   auto start = std::chrono::system_clock::now();
diff --git a/Rpackage/src/r_ldt.h b/Rpackage/src/r_ldt.h
index eb71157..815977c 100644
--- a/Rpackage/src/r_ldt.h
+++ b/Rpackage/src/r_ldt.h
@@ -3,6 +3,7 @@
 
 #pragma once
 
+#include <atomic>
 #include "helpers.h"
 #include "matrix.h"
 #include "pca.h"
@@ -114,7 +115,7 @@ void ReportProgressInner(
     double &prePecentage, int &i,
     const std::chrono::time_point<std::chrono::system_clock> &start,
     const bool &printMsg, const bool &sleep1 = true);
-void ReportProgress(const ldt::ModelSet &model, bool &estimating,
+void ReportProgress(const ldt::ModelSet &model, std::atomic<bool> &estimating,
                     ldt::SearchOptions &options, const int &allCount);
 
 NumericMatrix as_matrix(
diff --git a/Rpackage/src/r_sur.cpp b/Rpackage/src/r_sur.cpp
index a8ac964..ff83411 100644
--- a/Rpackage/src/r_sur.cpp
+++ b/Rpackage/src/r_sur.cpp
@@ -41,7 +41,7 @@ SEXP SearchSur(List data, List combinations, List metrics, List modelChecks,
   auto model = SurModelset(data_, combinations_, options_, items_, metrics_,
                            checks_, searchSigMaxIter, searchSigMaxProb);
 
-  bool estimating = true;
+  std::atomic<bool> estimating = true;
 
   std::unique_ptr<double[]> W;
   try {
@@ -56,11 +56,17 @@ SEXP SearchSur(List data, List combinations, List metrics, List modelChecks,
   // handle unhandled exceptions in the async function
   // model.CheckStart();
   auto f = std::async(std::launch::async, [&] {
-    model.Modelset.Start(W.get(), nullptr);
+    try {
+      model.Modelset.Start(W.get(), nullptr);
+    } catch (...) {
+      estimating = false;
+      throw;
+    }
     estimating = false;
   });
 
   ReportProgress(model.Modelset, estimating, options_, alli);
+  f.get(); // rethrows
 
   if (options_.RequestCancel)
     return R_NilValue;
diff --git a/Rpackage/src/r_varma.cpp b/Rpackage/src/r_varma.cpp
index c5da082..518bd08 100644
--- a/Rpackage/src/r_varma.cpp
+++ b/Rpackage/src/r_varma.cpp
@@ -68,7 +68,7 @@ SEXP SearchVarma(List data, List combinations, List metrics, List modelChecks,
                     *dataset0, maxParams_, seasonsCount, simUsePreviousEstim,
                     &optim, olsStdMultiplier, maxHorizon);
 
-  bool estimating = true;
+  std::atomic<bool> estimating = true;
 
   std::unique_ptr<double[]> W;
   try {
@@ -83,11 +83,17 @@ SEXP SearchVarma(List data, List combinations, List metrics, List modelChecks,
   // handle unhandled exceptions in the async function
   // model.CheckStart();
   auto f = std::async(std::launch::async, [&] {
-    model.Modelset.Start(W.get(), nullptr);
+    try {
+      model.Modelset.Start(W.get(), nullptr);
+    } catch (...) {
+      estimating = false;
+      throw;
+    }
     estimating = false;
   });
 
   ReportProgress(model.Modelset, estimating, options_, alli);
+  f.get(); // rethrows
 
   if (options_.RequestCancel)
     return R_NilValue;
-- 
2.43.0


From b58b6893b56007c671dad2ea9b81c3a849d38b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:13 +0000
Subject: [PATCH 106/173] fix: weightedEval was ignored in binary search

---
 Rpackage/src/r_dc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/src/r_dc.cpp b/Rpackage/src/r_dc.cpp
index 6bec68c..f42ec07 100644
--- a/Rpackage/src/r_dc.cpp
+++ b/Rpackage/src/r_dc.cpp
@@ -50,7 +50,7 @@ SEXP SearchDc(List data, List combinations, List metrics, List modelChecks,
 
   UpdateOptions(items, metrics, modelChecks, metrics_, items_, checks_,
                 metricsNames, length1, data_.NumExo, combinations_.NumTargets,
-                data_.NumEndo, false, true, "Coefficients", false);
+                data_.NumEndo, false, true, "Coefficients", true);
 
   auto targetNames = std::vector<std::string>(
       colNames.begin(), colNames.begin() + items_.LengthTargets);
-- 
2.43.0


From 55ff307c4faa5de39de827748e9d9f570f420305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:13 +0000
Subject: [PATCH 107/173] fix: type1 means and variances in search.rfunc

---
 Rpackage/src/r_func.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Rpackage/src/r_func.cpp b/Rpackage/src/r_func.cpp
index 2cc1046..36ba649 100644
--- a/Rpackage/src/r_func.cpp
+++ b/Rpackage/src/r_func.cpp
@@ -95,7 +95,7 @@ std::string RFuncSearcher::EstimateOneReg(Tv *work, Ti *workI,
     if (resList["type1means"] != R_NilValue) {
       if (TYPEOF(resList["type1means"]) != REALSXP)
         stop("The 'type1means' element is not a numeric matrix.");
-      auto type1meansR = as<NumericMatrix>(resList["metrics"]);
+      auto type1meansR = as<NumericMatrix>(resList["type1means"]);
       if (type1Mean.Mat.RowsCount != type1meansR.nrow() ||
           type1Mean.Mat.ColsCount != type1meansR.ncol())
         stop("The 'type1means' element has invalid dimension. ");
@@ -106,7 +106,7 @@ std::string RFuncSearcher::EstimateOneReg(Tv *work, Ti *workI,
     if (resList["type1vars"] != R_NilValue) {
       if (TYPEOF(resList["type1vars"]) != REALSXP)
         stop("The 'type1vars' element is not a numeric matrix.");
-      auto type1varsR = as<NumericMatrix>(resList["metrics"]);
+      auto type1varsR = as<NumericMatrix>(resList["type1vars"]);
       if (type1Var.Mat.RowsCount != type1varsR.nrow() ||
           type1Var.Mat.ColsCount != type1varsR.ncol())
         stop("The 'type1vars' element has invalid dimension. ");
-- 
2.43.0


From 039c44fe7795ed16f787c0d0452a8657413e4951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:13 +0000
Subject: [PATCH 108/173] fix: successful models in search.rfunc were failures

---
 Rpackage/src/r_func.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/src/r_func.cpp b/Rpackage/src/r_func.cpp
index 36ba649..4d6b746 100644
--- a/Rpackage/src/r_func.cpp
+++ b/Rpackage/src/r_func.cpp
@@ -120,7 +120,7 @@ std::string RFuncSearcher::EstimateOneReg(Tv *work, Ti *workI,
   }
 
   UNPROTECT(2);
-  return "TODO";
+  return "";
 }
 
 // #pragma endregion
-- 
2.43.0


From a3147f189b1a55809c14c2a5093120bf1b42ee7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:13 +0000
Subject: [PATCH 109/173] fix: inner groups without target in search.rfunc

---
 Rpackage/src/r_func.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/src/r_func.cpp b/Rpackage/src/r_func.cpp
index 4d6b746..0d08a80 100644
--- a/Rpackage/src/r_func.cpp
+++ b/Rpackage/src/r_func.cpp
@@ -155,7 +155,7 @@ RFuncModelset::RFuncModelset(
                            "empty endogenous indexes");
 
       if (isInnerExogenous == false) {
-        if (inner_group.at(0) > items.LengthTargets)
+        if (inner_group.at(0) >= items.LengthTargets)
           continue; // no target here
       }
       /*auto seed = metrics.Seed == 0
-- 
2.43.0


From b2b7427dccd94e968227967e940fd7ecdc76fc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:13 +0000
Subject: [PATCH 110/173] fix: data was transformed again in estimating an SUR
 search result

---
 Rpackage/R/sur.R | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Rpackage/R/sur.R b/Rpackage/R/sur.R
index ba11a49..f71a9da 100644
--- a/Rpackage/R/sur.R
+++ b/Rpackage/R/sur.R
@@ -228,8 +228,10 @@ estim.sur.from.search <- function(searchResult, endogenous, exogenous, extra, ..
   data <- get.data(search_data$data[,c(endogenous, exogenous), drop = FALSE],
                    endogenous = length(endogenous),
                    weights = NULL,
-                   lambdas = search_data$lambdas,
+                   lambdas = NULL, #don't transform again
                    addIntercept = FALSE,...)
+  if (!is.null(search_data$lambdas))
+    data$lambdas <- search_data$lambdas[match(endogenous, colnames(search_data$data))]
 
   estim.sur(
     data = data,
-- 
2.43.0


From 96cedff331d8966b637838c4810517daeef581f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:13 +0000
Subject: [PATCH 111/173] fix: data was transformed again in estimating a
 binary search result

---
 Rpackage/R/bin.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/R/bin.R b/Rpackage/R/bin.R
index dcec8f2..3b1e3be 100644
--- a/Rpackage/R/bin.R
+++ b/Rpackage/R/bin.R
@@ -285,7 +285,7 @@ estim.binary.from.search <- function(searchResult, endogenous, exogenous, extra,
   data <- get.data(search_data$data[,c(endogenous, exogenous), drop = FALSE],
                    endogenous = length(endogenous),
                    weights = weights,
-                   lambdas = search_data$lambdas,
+                   lambdas = NULL, #don't transform again
                    addIntercept = FALSE,...)
 
 
-- 
2.43.0


From 1fdd0bdff0964cbc8e1f6daf117df48f204c15ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:13 +0000
Subject: [PATCH 112/173] fix: lambdas of another variable were used in
 estimating a VARMA search result

---
 Rpackage/R/varma.R | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Rpackage/R/varma.R b/Rpackage/R/varma.R
index ce0ae33..56e92fb 100644
--- a/Rpackage/R/varma.R
+++ b/Rpackage/R/varma.R
@@ -281,7 +281,8 @@ estim.varma.from.search <- function(searchResult, endogenous, exogenous, extra,
                    lambdas = NULL, #don't transform again
                    addIntercept = FALSE,...)
   attr(data, "ldt.new.appended") <- attr(search_data, "ldt.new.appended")
-  data$lambdas <- search_data$lambdas #correct value
+  if (!is.null(search_data$lambdas)) #correct value
+    data$lambdas <- search_data$lambdas[match(endogenous, colnames(search_data$data))]
 
   estim.varma(
     data = data,
-- 
2.43.0


From bf2bbb4736f6a14c2af6262cf0a44ef93de506dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:14 +0000
Subject: [PATCH 113/173] fix: empty partition in binary search

---
 Rpackage/R/bin.R | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Rpackage/R/bin.R b/Rpackage/R/bin.R
index 3b1e3be..42b5572 100644
--- a/Rpackage/R/bin.R
+++ b/Rpackage/R/bin.R
@@ -67,6 +67,9 @@ search.bin <- function(data,
       combinations$partitions[[1]] != 1){
     # remove intercept from other partitions
     combinations$partitions <- lapply(combinations$partitions, function(x) x[x != 1])
+    is_empty <- lengths(combinations$partitions) == 0
+    combinations$numFixPartitions <- combinations$numFixPartitions - sum(is_empty[seq_len(combinations$numFixPartitions)])
+    combinations$partitions <- combinations$partitions[!is_empty]
     # add intercept as a fixed partition
     combinations$partitions <- c(c(1), combinations$partitions)
     combinations$numFixPartitions <- combinations$numFixPartitions + 1
-- 
2.43.0


From 064b5cdbca76a74b9d8d1a964c1bc617ffeba23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:02 +0000
Subject: [PATCH 114/173] fix: column indices given to the function in
 search.rfunc are one-based

---
 Rpackage/src/r_func.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/src/r_func.cpp b/Rpackage/src/r_func.cpp
index 0d08a80..54148a1 100644
--- a/Rpackage/src/r_func.cpp
+++ b/Rpackage/src/r_func.cpp
@@ -39,7 +39,7 @@ std::string RFuncSearcher::EstimateOneReg(Tv *work, Ti *workI,
 
   try {
     for (int i = 0; i < (Ti)this->ColIndices.size(); i++)
-      INTEGER(columnIndicesR)[i] = this->ColIndices[i];
+      INTEGER(columnIndicesR)[i] = this->ColIndices[i] + 1; // one-based
 
     if (this->pOptions->RequestCancel)
       return "";
-- 
2.43.0


From 849e08436eee3eaafdaa87c36d0a183a893109fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:02 +0000
Subject: [PATCH 115/173] fix: names of the variables in search.rfunc with
 weights

---
 Rpackage/src/r_func.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Rpackage/src/r_func.cpp b/Rpackage/src/r_func.cpp
index 54148a1..a155a8b 100644
--- a/Rpackage/src/r_func.cpp
+++ b/Rpackage/src/r_func.cpp
@@ -189,6 +189,8 @@ SEXP SearchRFunc(List data, List combinations, List metrics, List modelChecks,
   UpdateSearchData(data, data_);
 
   auto exoStart = data_.NumEndo;
+  if (data_.HasWeight)
+    exoStart++;
   auto colNames = as<std::vector<std::string>>(colnames(data["data"]));
   auto exoNames =
       std::vector<std::string>(colNames.begin() + exoStart, colNames.end());
@@ -254,10 +256,14 @@ SEXP SearchRFunc(List data, List combinations, List metrics, List modelChecks,
   if (options_.RequestCancel)
     return R_NilValue;
 
+  std::vector<std::string> colNames_w = colNames; // no weight for inclusions
+  if (data_.HasWeight)
+    colNames_w.erase(std::next(colNames_w.begin(), data_.NumEndo));
+
   auto extraNames = std::vector<std::string>({"extra"});
   List L = GetModelSetResults(
       model.Modelset, items_, metricsNames, colNames, targetNames, extraNames,
-      exoNames, colNames, std::string("coefs"), options_.ReportInterval > 0);
+      exoNames, colNames_w, std::string("coefs"), options_.ReportInterval > 0);
 
   return L;
 }
-- 
2.43.0


From 3fc8f4177115622e24123d4a0b6b2df652645525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:02 +0000
Subject: [PATCH 116/173] fix: names of items in search.rfunc when they are not
 coefficients

---
 Rpackage/src/r_func.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Rpackage/src/r_func.cpp b/Rpackage/src/r_func.cpp
index a155a8b..47df3a1 100644
--- a/Rpackage/src/r_func.cpp
+++ b/Rpackage/src/r_func.cpp
@@ -260,6 +260,12 @@ SEXP SearchRFunc(List data, List combinations, List metrics, List modelChecks,
   if (data_.HasWeight)
     colNames_w.erase(std::next(colNames_w.begin(), data_.NumEndo));
 
+  if (length1 != (int)exoNames.size()) { // they are not coefficients
+    exoNames.clear();
+    for (int i = 0; i < length1; i++)
+      exoNames.push_back(std::string("Item") + std::to_string(i + 1));
+  }
+
   auto extraNames = std::vector<std::string>({"extra"});
   List L = GetModelSetResults(
       model.Modelset, items_, metricsNames, colNames, targetNames, extraNames,
-- 
2.43.0


From 87c725f2f341d0df6e3e50666f8432721fc4ba8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:25 +0000
Subject: [PATCH 117/173] fix: names of matrices are protected from the garbage
 collector

---
 Rpackage/src/r_ldt.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Rpackage/src/r_ldt.cpp b/Rpackage/src/r_ldt.cpp
index f862197..63c3538 100644
--- a/Rpackage/src/r_ldt.cpp
+++ b/Rpackage/src/r_ldt.cpp
@@ -318,7 +318,7 @@ NumericMatrix as_matrix(const ldt::Matrix<double> &mat,
       throw LdtException(ErrorType::kLogic, "R-ldt",
                          std::string("invalid number of rows/row_names."));
     }
-    rownames(res) = wrap(rowNames);
+    rownames(res) = CharacterVector(rowNames.begin(), rowNames.end());
   }
   if (colNames.size() > 0) {
     if ((int)colNames.size() != mat.ColsCount) {
@@ -328,7 +328,7 @@ NumericMatrix as_matrix(const ldt::Matrix<double> &mat,
       throw LdtException(ErrorType::kLogic, "R-ldt",
                          std::string("invalid number of columns/col_names."));
     }
-    colnames(res) = wrap(colNames);
+    colnames(res) = CharacterVector(colNames.begin(), colNames.end());
   }
   return res;
 }
@@ -357,7 +357,7 @@ IntegerMatrix as_imatrix(const ldt::Matrix<int> &mat,
       throw LdtException(ErrorType::kLogic, "R-ldt",
                          std::string("invalid number of rows/row_names."));
     }
-    rownames(res) = wrap(rowNames);
+    rownames(res) = CharacterVector(rowNames.begin(), rowNames.end());
   }
   if (colNames.size() > 0) {
     if ((int)colNames.size() != mat.ColsCount) {
@@ -365,7 +365,7 @@ IntegerMatrix as_imatrix(const ldt::Matrix<int> &mat,
       throw LdtException(ErrorType::kLogic, "R-ldt",
                          std::string("invalid number of columns/col_names."));
     }
-    colnames(res) = wrap(colNames);
+    colnames(res) = CharacterVector(colNames.begin(), colNames.end());
   }
   return res;
 }
-- 
2.43.0


From 234bb1af5d3d2524c16aebf0b0d26acbe0b98a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:25 +0000
Subject: [PATCH 118/173] fix: information of models is protected from the
 garbage collector

---
 Rpackage/src/r_ldt.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Rpackage/src/r_ldt.cpp b/Rpackage/src/r_ldt.cpp
index 63c3538..e8fdaef 100644
--- a/Rpackage/src/r_ldt.cpp
+++ b/Rpackage/src/r_ldt.cpp
@@ -461,7 +461,7 @@ add_CoefInfo(const std::string &eName, const std::string &tName,
   for (auto &b : list) {
     j++;
 
-    std::vector<SEXP> value;
+    std::vector<RObject> value; // protected
     std::vector<std::string> names;
 
     value.push_back(wrap(b->Metric));
@@ -495,7 +495,7 @@ add_CoefInfo(const std::string &eName, const std::string &tName,
       value.push_back(ex);
       names.push_back("extra");
     }
-    Rcpp::List valueR = wrap(value);
+    Rcpp::List valueR(value.begin(), value.end());
     valueR.attr("names") = wrap(names);
 
     auto L =
-- 
2.43.0


From 75095ba92e8a847284e763d3636e4c31c4dbc776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:25 +0000
Subject: [PATCH 119/173] fix: names of bound variables are protected from the
 garbage collector

---
 Rpackage_F/src/r_variable.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Rpackage_F/src/r_variable.cpp b/Rpackage_F/src/r_variable.cpp
index 9498080..4d0160c 100644
--- a/Rpackage_F/src/r_variable.cpp
+++ b/Rpackage_F/src/r_variable.cpp
@@ -185,7 +185,7 @@ List BindVariables(SEXP varList, bool interpolate, bool adjustLeadLags,
   }
 
   auto res = NumericMatrix(vs.NumObs, vs.Names.size(), vs.Data.begin());
-  colnames(res) = wrap(vs.Names);
+  colnames(res) = CharacterVector(vs.Names.begin(), vs.Names.end());
   auto f0 = vs.StartFrequency.get()->Clone();
   auto f = f0.get();
   std::vector<std::string> rns;
@@ -193,7 +193,7 @@ List BindVariables(SEXP varList, bool interpolate, bool adjustLeadLags,
     rns.push_back(f->ToString());
     f->Next(1);
   }
-  rownames(res) = wrap(rns);
+  rownames(res) = CharacterVector(rns.begin(), rns.end());
 
   std::vector<std::string> listItems0;
   std::vector<boost::gregorian::date> listItemsDate0;
-- 
2.43.0


From 673abc69c4de01df505a7d9a4367e4e160a95d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:28 +0000
Subject: [PATCH 120/173] fix: new data with integer values in s.pca

---
 Rpackage/R/statistics.R | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Rpackage/R/statistics.R b/Rpackage/R/statistics.R
index c7ebfce..3a47f82 100644
--- a/Rpackage/R/statistics.R
+++ b/Rpackage/R/statistics.R
@@ -336,6 +336,8 @@ s.pca <- function(x, center = TRUE,
   scale <- as.logical(scale)
   if (is.null(newX) == FALSE){
     newX <- as.matrix(newX)
+    if (is.numeric(newX))
+      storage.mode(newX) <- "double"
     if (ncol(x) != ncol(newX))
       stop("Inconsistent number of columns between 'x' and 'newX'.")
   }
-- 
2.43.0


From fd03430f8c75754056489c791e9f7757d51961c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:28 +0000
Subject: [PATCH 121/173] fix: documentation of the kurtosis in
 s.combine.stats4

---
 Rpackage/R/statistics.R | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Rpackage/R/statistics.R b/Rpackage/R/statistics.R
index 3a47f82..fea1c67 100644
--- a/Rpackage/R/statistics.R
+++ b/Rpackage/R/statistics.R
@@ -262,7 +262,7 @@ s.gld.density.quantile <- function(probs, p1, p2, p3, p4)
 #' this function calculates the mean, variance, skewness, and kurtosis of the combined sample.
 #' It does not need the data itself.
 #' It is based on population variance, skewness, and kurtosis and calculates the population statistics.
-#' Note that the kurtosis is not excess kurtosis.
+#' Note that the kurtosis is the excess kurtosis.
 #'
 #' @return A list similar to \code{list1}.
 #' @export
@@ -276,13 +276,13 @@ s.gld.density.quantile <- function(probs, p1, p2, p3, p4)
 #' d1 <- list(mean = mean(sample1),
 #'            variance = var(sample1),
 #'            skewness = moments::skewness(sample1),
-#'            kurtosis = moments::kurtosis(sample1),
+#'            kurtosis = moments::kurtosis(sample1) - 3,
 #'            count=length(sample1),
 #'            weight = length(sample1))
 #' d2 <- list(mean = mean(sample2),
 #'            variance = var(sample2),
 #'            skewness = moments::skewness(sample2),
-#'            kurtosis = moments::kurtosis(sample2),
+#'            kurtosis = moments::kurtosis(sample2) - 3,
 #'            count=length(sample2),
 #'            weight = length(sample2))
 #' c <- s.combine.stats4(d1,d2)
@@ -292,7 +292,7 @@ s.gld.density.quantile <- function(probs, p1, p2, p3, p4)
 #' mean_c = mean(combined)
 #' variance_c = var(combined)
 #' skewness_c = moments::skewness(combined)
-#' kurtosis_c = moments::kurtosis(combined)
+#' kurtosis_c = moments::kurtosis(combined) - 3
 #'
 s.combine.stats4 <- function(list1, list2)
 {
-- 
2.43.0


From 12b25cb2e4ad3cda7560e34ddb4ec0837d930d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:26 +0000
Subject: [PATCH 122/173] fix: parameters of the GLD distribution violate the
 restrictions of the type

---
 src/ldt_statistics/distributions/distribution_gld.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ldt_statistics/distributions/distribution_gld.cpp b/src/ldt_statistics/distributions/distribution_gld.cpp
index 34027d1..e7385e3 100644
--- a/src/ldt_statistics/distributions/distribution_gld.cpp
+++ b/src/ldt_statistics/distributions/distribution_gld.cpp
@@ -454,6 +454,11 @@ DistributionGld::GetFromMoments(Tv mean, Tv variance, Tv skewness,
   auto S = std::make_unique<Tv[]>(optim.StorageSize);
   optim.Minimize(objective, x0, W.get(), S.get(), &lower, &upper);
 
+  // the penalty function might leave the result (slightly) out of the bounds
+  for (Ti i = 0; i < lower.length(); i++)
+    optim.Result.Data[i] = std::min(
+        std::max(optim.Result.Data[i], lower.Data[i]), upper.Data[i]);
+
   Tv L3 = optim.Result.Data[0];
   Tv L4 = optim.Result.Data[isSymetric ? 0 : 1];
 
-- 
2.43.0


From 4082fa26a1edab19fe365d33980c38fc542eacb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:34 +0000
Subject: [PATCH 123/173] fix: details of the failures in later steps of a
 search

---
 Rpackage/R/steps.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/R/steps.R b/Rpackage/R/steps.R
index e00ca4e..4243d9c 100644
--- a/Rpackage/R/steps.R
+++ b/Rpackage/R/steps.R
@@ -146,7 +146,7 @@ combine.search <- function(list, method) {
       }
 
       if (added == FALSE){
-        ind <- length(result$counts$failedDetails) + 1
+        result$counts$failedDetails[[length(result$counts$failedDetails) + 1]] <- f
       }
     }
 
-- 
2.43.0


From 915acbc06e880c9695c4f386094bc0dd5324c65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:34 +0000
Subject: [PATCH 124/173] fix: best models in step-wise searches

---
 Rpackage/R/steps.R | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Rpackage/R/steps.R b/Rpackage/R/steps.R
index 4243d9c..b62b691 100644
--- a/Rpackage/R/steps.R
+++ b/Rpackage/R/steps.R
@@ -178,7 +178,7 @@ combine.search <- function(list, method) {
           result$results[ids] <- NA
           bms <- append(current_best_models, nbm)
           nbms <- bms[order(sapply(bms, function(b) b$value$metric),
-                            decreasing = is_pos_oriented)][1:length(ids)]
+                            decreasing = is_pos_oriented)][1:min(list[[1]]$info$items$bestK,length(bms))]
           for (k in 1:length(nbms)) #update info
             nbms[[k]]$info <- k-1
           to_be_added[[length(to_be_added) + 1]] <- nbms
@@ -237,6 +237,12 @@ combine.search <- function(list, method) {
       result$results <- append(result$results, a)
 
 
+    # Add the best models of a target which has no model in the previous searches
+    for (item in append(new_best_models, new_best_coefs)){
+      if (!paste0(item$evalName, "_", item$targetName, "_", item$typeName) %in% dealt_with)
+        result$results[[length(result$results) + 1]] <- item
+    }
+
     # Add All (if this affects performance, we can move it to after the loop.)
     newModels <- newR$results[which(sapply(newR$results, function(item) item$typeName == "model"))]
     result$results <- c(result$results, newModels)
-- 
2.43.0


From 4f806b7da34a9b942510af75e73e95e8ad4b8ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:04 +0000
Subject: [PATCH 125/173] fix: step-wise search without inner groups

---
 Rpackage/R/steps.R | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Rpackage/R/steps.R b/Rpackage/R/steps.R
index b62b691..a57c60d 100644
--- a/Rpackage/R/steps.R
+++ b/Rpackage/R/steps.R
@@ -315,7 +315,7 @@ search.steps <- function(method, isInnerExogenous, ...) {
 
   endo_names <- colnames(dots$data$data)[1:dots$data$numEndo]
   target_names <- endo_names[1:dots$combinations$numTargets]
-  exo_names <- colnames(dots$data$data)[(dots$data$numEndo + ifelse(dots$data$hasWeight,2,1)):ncol(dots$data$data)]
+  exo_names <- colnames(dots$data$data)[seq_len(dots$data$numExo) + dots$data$numEndo + ifelse(dots$data$hasWeight,1,0)]
 
   fixed_names <- c(target_names, fixedNames)
 
@@ -425,12 +425,12 @@ search.steps <- function(method, isInnerExogenous, ...) {
     # reset:
     # zero-based indexation and moving exogenous indices:
     # see the end of get.indexation function
-    for (j in c(1:length(combinations_i$partitions))){
+    for (j in seq_along(combinations_i$partitions)){
       combinations_i$partitions[[j]] <- combinations_i$partitions[[j]] + 1
       if (isInnerExogenous == FALSE)
         combinations_i$partitions[[j]] <- combinations_i$partitions[[j]] - data_i$numEndo
     }
-    for (j in c(1:length(combinations_i$innerGroups))){
+    for (j in seq_along(combinations_i$innerGroups)){
       combinations_i$innerGroups[[j]] <- combinations_i$innerGroups[[j]] + 1
       if (isInnerExogenous)
         combinations_i$innerGroups[[j]] <- combinations_i$innerGroups[[j]] - data_i$numEndo
-- 
2.43.0


From 5abf25fe953708b536b7716dd4ca9e8dc48c9d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:04 +0000
Subject: [PATCH 126/173] fix: number of variables in the steps was ignored in
 step-wise searches

---
 Rpackage/R/steps.R | 57 ++++++++++++++++++++++++----------------------
 1 file changed, 30 insertions(+), 27 deletions(-)

diff --git a/Rpackage/R/steps.R b/Rpackage/R/steps.R
index a57c60d..d18d31a 100644
--- a/Rpackage/R/steps.R
+++ b/Rpackage/R/steps.R
@@ -329,9 +329,6 @@ search.steps <- function(method, isInnerExogenous, ...) {
   }
   estims <- list()
 
-  pre_endo_names <- endo_names
-  pre_exo_names <- exo_names
-
   # Main Loop
   for (i in c(1:length(sizes))) {
     if(i == 1) {
@@ -344,7 +341,8 @@ search.steps <- function(method, isInnerExogenous, ...) {
     }
 
     size_i <- sizes[[i]]
-    num_var_i <- ifelse(is.na(counts[[i]]), ncol(data_i$data), num_var_i) # it is generally less than number of columns in data
+    all_names_i <- setdiff(colnames(data_i$data), "(Weights)")
+    num_var_i <- ifelse(is.na(counts[[i]]), length(all_names_i), min(counts[[i]], length(all_names_i))) # it is generally less than number of columns in data
 
     if (num_var_i < length(fixed_names)){
       stop("Invalid 'stepsNumVariables'. Requested number of variables (=", num_var_i ,") in this step is less than the number of fixed variables (names=", paste0(fixed_names, collapse = "; "),")")
@@ -373,11 +371,11 @@ search.steps <- function(method, isInnerExogenous, ...) {
     }
 
     names_i <- NULL
-    if (num_var_i == ncol(data_i$data))
-      names_i <- colnames(data_i$data)
+    if (num_var_i == length(all_names_i))
+      names_i <- all_names_i
     else{ # we should remove some variables from the data using previous estimation
       if (i == 1){
-        names_i <- colnames(data_i$data)[1:num_var_i]
+        names_i <- unique(c(fixed_names, all_names_i))[1:num_var_i]
         warning("Variables are removed from the analysis in the first step, without evaluation. It is recommended to use 'NA' as the first element of 'stepsNumVariables' argument.")
       }
       else{
@@ -393,38 +391,43 @@ search.steps <- function(method, isInnerExogenous, ...) {
     }
 
     # use 'names_i' to adjust data and combinations:
-    endo_names_i <- intersect(names_i, endo_names)
-    exo_names_i <- intersect(names_i, exo_names)
-    endo_names_removed_i <- setdiff(endo_names_i, pre_endo_names)
-    exo_names_removed_i <- setdiff(exo_names_i, pre_exo_names)
-    endo_indices_removed_i <- match(endo_names_removed_i, pre_endo_names)
-    exo_indices_removed_i <- match(exo_names_removed_i, pre_exo_names)
-    pre_endo_names <- endo_names_i
-    pre_exo_names <- exo_names_i
-
-    if (dots$data$hasWeight) # insert weights
-      names_i <- append(names, "(Weights)", after = length(endo_names_i))
+    pre_endo_names <- intersect(endo_names, all_names_i)
+    pre_exo_names <- intersect(exo_names, all_names_i)
+    endo_names_i <- intersect(endo_names, names_i)
+    exo_names_i <- intersect(exo_names, names_i)
+    endo_names_removed_i <- setdiff(pre_endo_names, endo_names_i)
+    exo_names_removed_i <- setdiff(pre_exo_names, exo_names_i)
+
+    # keep the order of the columns (and insert weights)
+    names_i <- c(endo_names_i, if (dots$data$hasWeight) "(Weights)", exo_names_i)
     indices_i <- match(names_i, colnames(data_i$data))
     if (any(is.na(indices_i)))
       stop("A selected variable is not present in the 'data'!")
 
     if (length(indices_i) != ncol(data_i$data)){
-      data_i$data <- data_i$data[, indices_i]
+      data_i$data <- data_i$data[, indices_i, drop = FALSE]
+      if (!is.null(data_i$newX))
+        data_i$newX <- data_i$newX[, intersect(colnames(data_i$newX), exo_names_i), drop = FALSE]
+      if (!is.null(data_i$lambdas))
+        data_i$lambdas <- data_i$lambdas[match(endo_names_i, pre_endo_names)]
+      data_i$hasIntercept <- data_i$hasIntercept && "(Intercept)" %in% exo_names_i
       data_i$numEndo <- length(endo_names_i)
       data_i$numExo <- length(exo_names_i)
     }
 
     combinations_i$sizes <- size_i
-    if (isInnerExogenous){
-      combinations_i$innerGroups <- adjust_indices_after_remove(combinations_i$innerGroups, exo_indices_removed_i-1)
-      combinations_i$partitions <- adjust_indices_after_remove(combinations_i$partitions, endo_indices_removed_i - 1)
-    }else{
-      combinations_i$innerGroups <- adjust_indices_after_remove(combinations_i$innerGroups, endo_indices_removed_i-1)
-      combinations_i$partitions <- adjust_indices_after_remove(combinations_i$partitions, exo_indices_removed_i - 1)
-    }
-    # reset:
+    # remove the indices and reset:
     # zero-based indexation and moving exogenous indices:
     # see the end of get.indexation function
+    pre_names <- c(pre_endo_names, pre_exo_names)
+    removed_indices_i <- match(c(endo_names_removed_i, exo_names_removed_i), pre_names) - 1
+    fixed_partitions <- seq_along(combinations_i$partitions) <= combinations_i$numFixPartitions
+    combinations_i$partitions <- adjust_indices_after_remove(combinations_i$partitions, removed_indices_i)
+    combinations_i$innerGroups <- adjust_indices_after_remove(combinations_i$innerGroups, removed_indices_i)
+    has_member <- lengths(combinations_i$partitions) > 0
+    combinations_i$numFixPartitions <- sum(fixed_partitions & has_member)
+    combinations_i$partitions <- combinations_i$partitions[has_member]
+    combinations_i$innerGroups <- combinations_i$innerGroups[lengths(combinations_i$innerGroups) > 0]
     for (j in seq_along(combinations_i$partitions)){
       combinations_i$partitions[[j]] <- combinations_i$partitions[[j]] + 1
       if (isInnerExogenous == FALSE)
-- 
2.43.0


From 91c2dfe1d8c450b7cc2e525f06e12bc8cb01cdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:26 +0000
Subject: [PATCH 127/173] fix: targets in the fixed names of step-wise searches

---
 Rpackage/R/steps.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/R/steps.R b/Rpackage/R/steps.R
index d18d31a..df9f807 100644
--- a/Rpackage/R/steps.R
+++ b/Rpackage/R/steps.R
@@ -317,7 +317,7 @@ search.steps <- function(method, isInnerExogenous, ...) {
   target_names <- endo_names[1:dots$combinations$numTargets]
   exo_names <- colnames(dots$data$data)[seq_len(dots$data$numExo) + dots$data$numEndo + ifelse(dots$data$hasWeight,1,0)]
 
-  fixed_names <- c(target_names, fixedNames)
+  fixed_names <- unique(c(target_names, fixedNames))
 
   # first target and first metric
   tName <- target_names[1]
-- 
2.43.0


From dcb8d0b2afc3a3d74e750040c1e64570685bf9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:54 +0000
Subject: [PATCH 128/173] fix: combining results of step-wise searches when a
 step has no information about an item

---
 Rpackage/R/steps.R | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/Rpackage/R/steps.R b/Rpackage/R/steps.R
index df9f807..1578ab6 100644
--- a/Rpackage/R/steps.R
+++ b/Rpackage/R/steps.R
@@ -59,6 +59,10 @@ combine.search <- function(list, method) {
       ind <- which(n == firstNames)
       if (length(ind) > 0) {
         ind <- ind[[1]]
+        if (second[[j, 2]] == 0) # no information
+          next
+        if (first[[ind, 2]] == 0)
+          first[[ind, 1]] <- 0
         first[[ind, 1]] <- first[[ind, 1]] + second[[j, 1]] * second[[j, 3]]
         first[[ind, 2]] <- first[[ind, 2]] + second[[j, 2]]
         first[[ind, 3]] <- first[[ind, 3]] + second[[j, 3]]
@@ -78,8 +82,10 @@ combine.search <- function(list, method) {
       ind <- which(n == firstNames)
       if (length(ind) > 0) {
         ind <- ind[[1]]
-        first[[ind, 1]] <- min(first[[ind, 1]], second[[j, 1]])
-        first[[ind, 2]] <- max(first[[ind, 2]], second[[j, 2]])
+        if (is.nan(second[[j, 1]])) # no information
+          next
+        first[[ind, 1]] <- min(first[[ind, 1]], second[[j, 1]], na.rm = TRUE)
+        first[[ind, 2]] <- max(first[[ind, 2]], second[[j, 2]], na.rm = TRUE)
       }
     }
     return(first)
@@ -96,6 +102,12 @@ combine.search <- function(list, method) {
       ind <- which(n == firstNames)
       if (length(ind) > 0) {
         ind <- ind[[1]]
+        if (second[[j, 5]] == 0) # no information
+          next
+        if (first[[ind, 5]] == 0) {
+          first[ind, ] <- second[j, ]
+          next
+        }
         mix <- s.combine.stats4(
           list(
             mean = first[[ind, 1]], variance = first[[ind, 2]],
-- 
2.43.0


From a303624c9ce144a561437bd12e17093c92c903fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:37 +0000
Subject: [PATCH 129/173] fix: combining step-wise searches when a step has no
 result

---
 Rpackage/R/steps.R | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/Rpackage/R/steps.R b/Rpackage/R/steps.R
index 1578ab6..d3fe8b3 100644
--- a/Rpackage/R/steps.R
+++ b/Rpackage/R/steps.R
@@ -162,12 +162,12 @@ combine.search <- function(list, method) {
       }
     }
 
-    new_best_models <- newR$results[which(sapply(newR$results, function(item) item$typeName == "best model"))]
-    new_best_coefs <-newR$results[which(sapply(newR$results, function(item) startsWith(item$typeName, "best item for")))]
-    new_inclusions <- newR$results[which(sapply(newR$results, function(item) item$typeName == "inclusion"))]
-    new_cdfs <- newR$results[which(sapply(newR$results, function(item) item$typeName == "cdf"))]
-    new_mixtures <- newR$results[which(sapply(newR$results, function(item) item$typeName == "mixture"))]
-    new_extremebounds <- newR$results[which(sapply(newR$results, function(item) item$typeName == "extreme bound"))]
+    new_best_models <- newR$results[which(vapply(newR$results, function(item) item$typeName == "best model", logical(1)))]
+    new_best_coefs <-newR$results[which(vapply(newR$results, function(item) startsWith(item$typeName, "best item for"), logical(1)))]
+    new_inclusions <- newR$results[which(vapply(newR$results, function(item) item$typeName == "inclusion", logical(1)))]
+    new_cdfs <- newR$results[which(vapply(newR$results, function(item) item$typeName == "cdf", logical(1)))]
+    new_mixtures <- newR$results[which(vapply(newR$results, function(item) item$typeName == "mixture", logical(1)))]
+    new_extremebounds <- newR$results[which(vapply(newR$results, function(item) item$typeName == "extreme bound", logical(1)))]
 
     dealt_with <- list()
     to_be_added <- list()
@@ -183,8 +183,8 @@ combine.search <- function(list, method) {
 
       if (item$typeName == "best model"){
         if (item$info == 0 && !eval_target_type %in% dealt_with){
-          nbm <- new_best_models[which(sapply(new_best_models, function(new_item) item$evalName == new_item$evalName && item$targetName == new_item$targetName))]
-          ids <- which(sapply(result$results, function(new_item) length(new_item) != 1 && new_item$typeName == item$typeName && item$evalName == new_item$evalName && item$targetName == new_item$targetName))
+          nbm <- new_best_models[which(vapply(new_best_models, function(new_item) item$evalName == new_item$evalName && item$targetName == new_item$targetName, logical(1)))]
+          ids <- which(vapply(result$results, function(new_item) length(new_item) != 1 && new_item$typeName == item$typeName && item$evalName == new_item$evalName && item$targetName == new_item$targetName, logical(1)))
 
           current_best_models <- result$results[ids]
           result$results[ids] <- NA
@@ -202,8 +202,8 @@ combine.search <- function(list, method) {
 
       if (startsWith(item$typeName, "best item for")){
         if (item$info == 0 && !eval_target_type %in% dealt_with){
-          nbm <- new_best_coefs[which(sapply(new_best_coefs, function(new_item) item$evalName == new_item$evalName && item$targetName == new_item$targetName && item$typeName == new_item$typeName))]
-          ids <- which(sapply(result$results, function(new_item) length(new_item) != 1 && new_item$typeName == item$typeName && item$evalName == new_item$evalName && item$targetName == new_item$targetName))
+          nbm <- new_best_coefs[which(vapply(new_best_coefs, function(new_item) item$evalName == new_item$evalName && item$targetName == new_item$targetName && item$typeName == new_item$typeName, logical(1)))]
+          ids <- which(vapply(result$results, function(new_item) length(new_item) != 1 && new_item$typeName == item$typeName && item$evalName == new_item$evalName && item$targetName == new_item$targetName, logical(1)))
 
           current_best_coefs <- result$results[ids]
           result$results[ids] <- NA
@@ -219,32 +219,32 @@ combine.search <- function(list, method) {
       }
 
       if (item$typeName == "inclusion"){
-        nbm <- new_inclusions[which(sapply(new_inclusions, function(new_item) item$evalName == new_item$evalName && item$targetName == new_item$targetName))]
+        nbm <- new_inclusions[which(vapply(new_inclusions, function(new_item) item$evalName == new_item$evalName && item$targetName == new_item$targetName, logical(1)))]
         if (length(nbm) == 1)
           result$results[[j]]$value <- cmb_inclusion(item$value, nbm[[1]]$value)
       }
 
       if (item$typeName == "cdf"){
-        nbm <- new_cdfs[which(sapply(new_cdfs, function(new_item) item$evalName == new_item$evalName && item$targetName == new_item$targetName && item$info == new_item$info))]
+        nbm <- new_cdfs[which(vapply(new_cdfs, function(new_item) item$evalName == new_item$evalName && item$targetName == new_item$targetName && item$info == new_item$info, logical(1)))]
         if (length(nbm) == 1)
           result$results[[j]]$value <- cmb_cdf(item$value, nbm[[1]]$value)
       }
 
       if (item$typeName == "extreme bound"){
-        nbm <- new_extremebounds[which(sapply(new_extremebounds, function(new_item) item$evalName == new_item$evalName && item$targetName == new_item$targetName && item$info == new_item$info))]
+        nbm <- new_extremebounds[which(vapply(new_extremebounds, function(new_item) item$evalName == new_item$evalName && item$targetName == new_item$targetName && item$info == new_item$info, logical(1)))]
         if (length(nbm) == 1)
           result$results[[j]]$value <- cmb_extremebound(item$value, nbm[[1]]$value)
       }
 
       if (item$typeName == "mixture"){
-        nbm <- new_mixtures[which(sapply(new_mixtures, function(new_item) item$evalName == new_item$evalName && item$targetName == new_item$targetName))]
+        nbm <- new_mixtures[which(vapply(new_mixtures, function(new_item) item$evalName == new_item$evalName && item$targetName == new_item$targetName, logical(1)))]
         if (length(nbm) == 1)
           result$results[[j]]$value <- cmb_mixture(item$value, nbm[[1]]$value)
       }
 
     }
 
-    result$results <- result$results[which(sapply(result$results, function(r)length(r) != 1))]
+    result$results <- result$results[which(vapply(result$results, function(r)length(r) != 1, logical(1)))]
     for (a in to_be_added)
       result$results <- append(result$results, a)
 
@@ -256,7 +256,7 @@ combine.search <- function(list, method) {
     }
 
     # Add All (if this affects performance, we can move it to after the loop.)
-    newModels <- newR$results[which(sapply(newR$results, function(item) item$typeName == "model"))]
+    newModels <- newR$results[which(vapply(newR$results, function(item) item$typeName == "model", logical(1)))]
     result$results <- c(result$results, newModels)
 
   }
-- 
2.43.0


From a4c83757e9509f18386fa37954b6cc7d6ef2a4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:33 +0000
Subject: [PATCH 130/173] fix: combining distributions with zero weights in
 step-wise searches

---
 Rpackage/R/steps.R | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Rpackage/R/steps.R b/Rpackage/R/steps.R
index d3fe8b3..beba2d8 100644
--- a/Rpackage/R/steps.R
+++ b/Rpackage/R/steps.R
@@ -59,9 +59,11 @@ combine.search <- function(list, method) {
       ind <- which(n == firstNames)
       if (length(ind) > 0) {
         ind <- ind[[1]]
-        if (second[[j, 2]] == 0) # no information
+        if (second[[j, 3]] == 0){ # no information
+          first[[ind, 2]] <- first[[ind, 2]] + second[[j, 2]]
           next
-        if (first[[ind, 2]] == 0)
+        }
+        if (first[[ind, 3]] == 0)
           first[[ind, 1]] <- 0
         first[[ind, 1]] <- first[[ind, 1]] + second[[j, 1]] * second[[j, 3]]
         first[[ind, 2]] <- first[[ind, 2]] + second[[j, 2]]
-- 
2.43.0


From efa2852b401c94e51b3ee8f490e27036258075f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:07 +0000
Subject: [PATCH 131/173] fix: row.names of a variable stopped with an error

---
 Rpackage_F/R/variable.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage_F/R/variable.R b/Rpackage_F/R/variable.R
index 178603f..5b72c31 100644
--- a/Rpackage_F/R/variable.R
+++ b/Rpackage_F/R/variable.R
@@ -149,7 +149,7 @@ row.names.ldtv <- function(x){
   if (any(class(x$startFrequency) == "ldtf") == FALSE) {
     stop("invalid frequency class")
   }
-  res <- get.seq(x$startFrequency, length(x$data))
+  res <- get.seq0(x$startFrequency, length(x$data))
   res
 }
 
-- 
2.43.0


From da0ac07122357a8b72a025d1fbdc0afb81e77ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:07 +0000
Subject: [PATCH 132/173] fix: remove.na.strategies stopped searching when
 removing a few columns (rows) was not enough

---
 Rpackage_F/R/helpers.R | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Rpackage_F/R/helpers.R b/Rpackage_F/R/helpers.R
index 15b6a4a..050b0f4 100644
--- a/Rpackage_F/R/helpers.R
+++ b/Rpackage_F/R/helpers.R
@@ -55,8 +55,8 @@ remove.na.strategies <- function(data, countFun = function(nRows, nCols) nRows *
     rowRemove <- which(rowSums(is.na(mat)) > 0)
     if (length(rowRemove) == Nrow){
       if (printMsg)
-        cat("    breaking the loop. All rows are removed after removing the columns\n")
-      break # all rows will be removed
+        cat("    skipping. All rows are removed after removing the columns\n")
+      next # all rows will be removed, but not necessarily if more columns are removed
     }
     result[[length(result) + 1]] <- list(
       nRows = Nrow - length(rowRemove),
@@ -88,8 +88,8 @@ remove.na.strategies <- function(data, countFun = function(nRows, nCols) nRows *
     colRemove <- which(colSums(is.na(mat)) > 0)
     if (length(colRemove) == Ncol){
       if (printMsg)
-        cat("    breaking the loop. All columns are removed after removing the rows\n")
-      break
+        cat("    skipping. All columns are removed after removing the rows\n")
+      next
     }
     result[[length(result) + 1]] <- list(
       nRows = Nrow - length(rowRemove),
-- 
2.43.0


From 49982ee4d4a93ae0c5f7efb9599494964b849352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:07 +0000
Subject: [PATCH 133/173] fix: get.longrun.growth read beyond the data when the
 trim length exceeded it

---
 Rpackage_F/R/helpers.R | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Rpackage_F/R/helpers.R b/Rpackage_F/R/helpers.R
index 050b0f4..e07c5f3 100644
--- a/Rpackage_F/R/helpers.R
+++ b/Rpackage_F/R/helpers.R
@@ -166,7 +166,7 @@ get.longrun.growth <- function(data, continuous = FALSE, isPercentage = FALSE,
   }
 
   if (is.na.zero(start, skipZero) && trimStart > 0) {
-    for (i in c(1:(trimStart + 1))) {
+    for (i in c(1:min(trimStart + 1, N))) {
       I <- i
       start <- data[[I]]
       if (is.na.zero(start, skipZero) == FALSE) {
@@ -179,7 +179,7 @@ get.longrun.growth <- function(data, continuous = FALSE, isPercentage = FALSE,
   }
 
   if (is.na.zero(end, skipZero) && trimEnd > 0) {
-    for (i in c(1:trimEnd)) {
+    for (i in seq_len(min(trimEnd, N - 1))) {
       J <- N - i
       end <- data[[J]]
       if (is.na.zero(end, skipZero) == FALSE) {
-- 
2.43.0


From df8f143e1a31d5b1f64d1de24642d5678adafd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:07 +0000
Subject: [PATCH 134/173] fix: convert.to.XxYear accepted zero partitions in a
 year

---
 Rpackage_F/R/convert.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage_F/R/convert.R b/Rpackage_F/R/convert.R
index c65e568..d05140f 100644
--- a/Rpackage_F/R/convert.R
+++ b/Rpackage_F/R/convert.R
@@ -118,7 +118,7 @@ convert.to.weekly <- function(variable, weekStart, aggregateFun){
 #'
 convert.to.XxYear <- function(variable, x, aggregateFun){
   x = as.integer(x)
-  if (x < 0)
+  if (x <= 0)
     stop("invalid 'x'. It should be a positive integer.")
   if (is.function(aggregateFun) == FALSE && is.character(aggregateFun) == FALSE)
     stop("'aggregateFun' must be an R function or a string that represents a valid aggregator.");
-- 
2.43.0


From 0deae256e16b5517fd1500c8cccf24dd3f1b9af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:26 +0000
Subject: [PATCH 135/173] fix: get.seq between two dates of a list did not end

---
 Rpackage_F/src/r_frequency.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Rpackage_F/src/r_frequency.cpp b/Rpackage_F/src/r_frequency.cpp
index e6c43c7..d122c21 100644
--- a/Rpackage_F/src/r_frequency.cpp
+++ b/Rpackage_F/src/r_frequency.cpp
@@ -482,7 +482,9 @@ std::vector<std::string> Sequence_F(SEXP from, SEXP to, int by)
   std::vector<boost::gregorian::date> listItemsDate;
   auto F = GetFreqFromSEXP(from, listItems, listItemsDate);
   auto f = F.get();
-  auto T = GetFreqFromSEXP(to, listItems, listItemsDate);
+  std::vector<std::string> listItemsTo;
+  std::vector<boost::gregorian::date> listItemsDateTo;
+  auto T = GetFreqFromSEXP(to, listItemsTo, listItemsDateTo);
   auto t = T.get();
 
   auto fromNewer = f->IsNewerThan(*t);
-- 
2.43.0


From 9ae6a559b32244cb1f0b7b68405a33b97fdf5026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:26 +0000
Subject: [PATCH 136/173] fix: moving a list frequency out of its list in R did
 nothing

---
 Rpackage_F/src/r_frequency.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/Rpackage_F/src/r_frequency.cpp b/Rpackage_F/src/r_frequency.cpp
index d122c21..7fa2ac0 100644
--- a/Rpackage_F/src/r_frequency.cpp
+++ b/Rpackage_F/src/r_frequency.cpp
@@ -248,16 +248,21 @@ GetFreqFromSEXP(SEXP value, std::vector<std::string> &listItems,
 
   case FrequencyClass::kListString: {
     getCh(f["items"], listItems);
-    return std::make_unique<FrequencyList<std::string>>(
-        as<std::string>(f["value"]), &listItems);
+    // the value can be out of the list (see 'F_Next')
+    auto fl = std::make_unique<FrequencyList<std::string>>("", &listItems);
+    FrequencyList<std::string>::Parse0(as<std::string>(f["value"]), "Ls",
+                                       fclass, *fl);
+    return fl;
   }
   case FrequencyClass::kListDate: {
     getCh(f["items"], listItems);
     for (auto const &d : listItems)
       listItemsDate.push_back(boost::gregorian::date_from_iso_string(d));
-    return std::make_unique<FrequencyList<boost::gregorian::date>>(
-        boost::gregorian::date_from_iso_string(as<std::string>(f["value"])),
-        &listItemsDate);
+    auto fl = std::make_unique<FrequencyList<boost::gregorian::date>>(
+        boost::gregorian::date(), &listItemsDate);
+    FrequencyList<boost::gregorian::date>::Parse0(as<std::string>(f["value"]),
+                                                  "Ld", fclass, *fl);
+    return fl;
   }
 
   case FrequencyClass::kHourly: {
@@ -409,7 +414,7 @@ SEXP To_SEXP(Frequency *F, std::vector<std::string> &listItems,
 
   case FrequencyClass::kListString: {
     auto f = dynamic_cast<FrequencyList<std::string> const &>(*F);
-    auto dd = F_ListString(listItems, f.mValue);
+    auto dd = F_ListString(listItems, f.ToString());
     return dd;
   }
 
@@ -419,7 +424,7 @@ SEXP To_SEXP(Frequency *F, std::vector<std::string> &listItems,
         listItems.push_back(boost::gregorian::to_iso_string(d));
     }
     auto f = dynamic_cast<FrequencyList<boost::gregorian::date> const &>(*F);
-    auto dd = F_ListDate(listItems, boost::gregorian::to_iso_string(f.mValue));
+    auto dd = F_ListDate(listItems, f.ToString());
     return dd;
   }
 
-- 
2.43.0


From 4a668a302d78196db2a15e18049c1d8728037726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:26 +0000
Subject: [PATCH 137/173] fix: bind.variables lost the items of list
 frequencies

---
 Rpackage_F/src/r_variable.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/Rpackage_F/src/r_variable.cpp b/Rpackage_F/src/r_variable.cpp
index 4d0160c..078b12f 100644
--- a/Rpackage_F/src/r_variable.cpp
+++ b/Rpackage_F/src/r_variable.cpp
@@ -195,11 +195,8 @@ List BindVariables(SEXP varList, bool interpolate, bool adjustLeadLags,
   }
   rownames(res) = CharacterVector(rns.begin(), rns.end());
 
-  std::vector<std::string> listItems0;
-  std::vector<boost::gregorian::date> listItemsDate0;
-
-  res.attr("ldtf") =
-      To_SEXP(vs.StartFrequency.get(), listItems0, listItemsDate0);
+  res.attr("ldtf") = To_SEXP(vs.StartFrequency.get(), listItems.at(0),
+                             listItemsDate.at(0));
 
   auto L = List::create(_["data"] = res, _["info"] = info);
   return L;
-- 
2.43.0


From be787b6b468ad3e874d4dbfa501d5516ddce7f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:01 +0000
Subject: [PATCH 138/173] fix: as.numeric of a variable stopped with an error
 (S3 methods of as.numeric are named as.double)

---
 Rpackage_F/R/variable.R | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Rpackage_F/R/variable.R b/Rpackage_F/R/variable.R
index 5b72c31..d9b828e 100644
--- a/Rpackage_F/R/variable.R
+++ b/Rpackage_F/R/variable.R
@@ -118,8 +118,8 @@ print.ldtv <- function(x, ...) {
 #'
 #' @return \code{data} in x.
 #' @export
-as.numeric.ldtv <- function(x, ...){
-  as.numeric(x$data)
+as.double.ldtv <- function(x, ...){
+  as.double(x$data)
 }
 
 #' Get Length of Data in a Variable
-- 
2.43.0


From d87baf4ef47261eeedef54b035233edd07a851fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:46 +0000
Subject: [PATCH 139/173] fix: the maximum of a distribution was reported as
 its minimum

---
 src/ldt_statistics/distributions/distributions_uni.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index 4172310..95f1e7d 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -186,7 +186,7 @@ Tv DistributionBase::GetProperty(DistributionProperty propType) {
   case ldt::DistributionProperty::kMinimum:
     return GetMinimum();
   case ldt::DistributionProperty::kMaximum:
-    return GetMinimum();
+    return GetMaximum();
   case ldt::DistributionProperty::kMedian:
     return GetMedian();
   case ldt::DistributionProperty::kMode:
-- 
2.43.0


From 4ff094890f929debe03c2509979d6dea2ab30eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:46 +0000
Subject: [PATCH 140/173] fix: standard deviation of a log-normal distribution

---
 src/ldt_statistics/distributions/distributions_uni.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index 95f1e7d..657ff61 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -469,7 +469,7 @@ template <DistributionType type> Tv Distribution<type>::GetSandardDeviation() {
   if constexpr (type == DistributionType::kNormal) {
     return mParam2;
   } else if constexpr (type == DistributionType::kLogNormal) {
-    return (Tv)1 / mParam1;
+    return (Tv)std::sqrt(GetVariance());
   } else if constexpr (true) {
     return (Tv)std::sqrt(GetVariance());
   }
-- 
2.43.0


From 297898e05820f2d94f6c4303b19f01a882ab336e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:46 +0000
Subject: [PATCH 141/173] fix: samples of an F distribution ignored its second
 degrees of freedom

---
 src/ldt_statistics/distributions/distributions_uni.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index 657ff61..f13bf29 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -1309,7 +1309,7 @@ void Distribution<type>::GetSample(Tv *storage, Ti length, unsigned int seed) {
     for (i = 0; i < length; i++)
       storage[i] = Dst(eng);
   } else if constexpr (type == DistributionType::kF) {
-    std::fisher_f_distribution<Tv> Dst(mParam1);
+    std::fisher_f_distribution<Tv> Dst(mParam1, mParam2);
     for (i = 0; i < length; i++)
       storage[i] = Dst(eng);
   } else if constexpr (type == DistributionType::kGamma) {
@@ -1382,7 +1382,7 @@ Tv Distribution<type>::GetSample1(std::mt19937 &eng) {
     std::exponential_distribution<Tv> Dst(mParam1);
     return Dst(eng);
   } else if constexpr (type == DistributionType::kF) {
-    std::fisher_f_distribution<Tv> Dst(mParam1);
+    std::fisher_f_distribution<Tv> Dst(mParam1, mParam2);
     return Dst(eng);
   } else if constexpr (type == DistributionType::kGamma) {
     std::gamma_distribution<Tv> Dst(mParam1, mParam2);
-- 
2.43.0


From c03cee490fcf41b5aa564a24b47261e7a2ea6c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:46 +0000
Subject: [PATCH 142/173] fix: a single sample of a generalized lambda
 distribution was a uniform number

---
 src/ldt_statistics/distributions/distributions_uni.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index f13bf29..a58d900 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -1394,7 +1394,8 @@ Tv Distribution<type>::GetSample1(std::mt19937 &eng) {
     // return Dst(eng);
   } else if constexpr (type == DistributionType::kGldFkml) {
     std::uniform_real_distribution<Tv> Dst(0, 1); // generate p
-    return Dst(eng);
+    return DistributionGld::GetQuantile(Dst(eng), mParam1, mParam2, mParam3,
+                                        mParam4);
   } else if constexpr (true) {
     throw LdtException(ErrorType::kLogic, "distributions",
                        "not implemented (distribution type)");
-- 
2.43.0


From 411b76f0547dffd5328b25b57e3350b56bc4dcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:46 +0000
Subject: [PATCH 143/173] fix: distribution function of a Bernoulli
 distribution at zero

---
 src/ldt_statistics/distributions/distributions_uni.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index a58d900..1e6304b 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -1073,7 +1073,7 @@ template <DistributionType type> Tv Distribution<type>::GetCdf(Tv x) {
   } else if constexpr (type == DistributionType::kGeometric) {
     return (Tv)1 - std::pow(1 - mParam1, x + 1);
   } else if constexpr (type == DistributionType::kBernoulli) {
-    return x == (Tv)0 ? (Tv)0 : x == 1 ? 1 : 1 - mParam1;
+    return x >= (Tv)1 ? (Tv)1 : 1 - mParam1;
   } else if constexpr (type == DistributionType::kBinomial) {
     // using kF
     auto d1 = (Tv)2 * (mParam2 - x);
-- 
2.43.0


From b2734615ff10edd93bba3351cfd531166d018351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:44 +0000
Subject: [PATCH 144/173] fix: distribution functions of discrete distributions
 between integers, and of the binomial distribution at its ends

---
 .../distributions/distributions_uni.cpp            | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index 1e6304b..9e43fdd 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -1069,18 +1069,16 @@ template <DistributionType type> Tv Distribution<type>::GetCdf(Tv x) {
     return std::min((Tv)1,
                     (std::floor(x) - mParam1 + 1) / (mParam2 - mParam1 + 1));
   } else if constexpr (type == DistributionType::kPoisson) {
-    return (Tv)1 - Math_GammaP(x + 1, mParam1);
+    return (Tv)1 - Math_GammaP(std::floor(x) + 1, mParam1);
   } else if constexpr (type == DistributionType::kGeometric) {
-    return (Tv)1 - std::pow(1 - mParam1, x + 1);
+    return (Tv)1 - std::pow(1 - mParam1, std::floor(x) + 1);
   } else if constexpr (type == DistributionType::kBernoulli) {
     return x >= (Tv)1 ? (Tv)1 : 1 - mParam1;
   } else if constexpr (type == DistributionType::kBinomial) {
-    // using kF
-    auto d1 = (Tv)2 * (mParam2 - x);
-    auto d2 = (Tv)2 * (x + 1);
-    auto xx = ((1 - mParam1) / mParam1) * ((x + 1) / (mParam2 - x));
-    return Math_iBeta(d1 / (Tv)2, d2 / (Tv)2,
-                      d1 * xx / (d1 * xx + d2)); // todo: simplify
+    auto k = std::floor(x);
+    if (k >= mParam2)
+      return (Tv)1;
+    return Math_iBeta(mParam2 - k, k + 1, 1 - mParam1);
   } else if constexpr (true) {
     throw LdtException(ErrorType::kLogic, "distributions",
                        "not implemented (distribution type)");
-- 
2.43.0


From 87364bc1e30ee428ab13a9ef7a1b13f7948bd66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:44 +0000
Subject: [PATCH 145/173] fix: discrete distributions had a probability between
 integers

---
 src/ldt_statistics/distributions/distributions_uni.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index 9e43fdd..52fbc30 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -873,7 +873,8 @@ void Distribution<type>::GetPmfSupport(Tv *x, Tv *Value, bool log, Ti length,
 
 template <DistributionType type> Tv Distribution<type>::GetPdfOrPmf(Tv x) {
   if (x < GetMinimum() ||
-      x > GetMaximum()) // impossible event -> zero probability event
+      x > GetMaximum() || // impossible event -> zero probability event
+      (IsDiscrete() && x != std::floor(x)))
     return (Tv)0;
 
   if constexpr (type == DistributionType::kNormal) {
@@ -938,8 +939,8 @@ template <DistributionType type> Tv Distribution<type>::GetPdfOrPmf(Tv x) {
 
 template <DistributionType type> Tv Distribution<type>::GetPdfOrPmfLog(Tv x) {
   if (x < GetMinimum() ||
-      x > GetMaximum()) // impossible event -> zero probability event
-  {
+      x > GetMaximum() || // impossible event -> zero probability event
+      (IsDiscrete() && x != std::floor(x))) {
     if constexpr (std::numeric_limits<Tv>::has_infinity) {
       return -std::numeric_limits<Tv>::infinity();
     } else if constexpr (true) {
-- 
2.43.0


From 3c62114b4567016a2f46074d5a22ee72676486c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:44 +0000
Subject: [PATCH 146/173] fix: probabilities of discrete distributions with
 degenerate parameters were NaN

---
 .../distributions/distributions_uni.cpp               | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index 52fbc30..b17ea56 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -917,8 +917,7 @@ template <DistributionType type> Tv Distribution<type>::GetPdfOrPmf(Tv x) {
   } else if constexpr (type == DistributionType::kUniformDis) {
     return x >= mParam1 && x <= mParam2 ? 1 / (mParam2 - mParam1 + 1) : 0;
   } else if constexpr (type == DistributionType::kPoisson) {
-    return std::exp(-mParam1 + (x * std::log(mParam1)) -
-                    std::lgamma(x + 1)); // or exp(pdf_ln)
+    return std::exp(GetPdfOrPmfLog(x));
   } else if constexpr (type == DistributionType::kGeometric) {
     return std::pow(1 - mParam1, x) * mParam1;
   } else if constexpr (type == DistributionType::kBernoulli) {
@@ -998,9 +997,10 @@ template <DistributionType type> Tv Distribution<type>::GetPdfOrPmfLog(Tv x) {
       }
     }
   } else if constexpr (type == DistributionType::kPoisson) {
-    return -mParam1 + (x * std::log(mParam1)) - std::lgamma(x + (Tv)1);
+    return -mParam1 + (x == 0 ? (Tv)0 : x * std::log(mParam1)) -
+           std::lgamma(x + (Tv)1);
   } else if constexpr (type == DistributionType::kGeometric) {
-    return x * std::log(1 - mParam1) + std::log(mParam1);
+    return (x == 0 ? (Tv)0 : x * std::log(1 - mParam1)) + std::log(mParam1);
   } else if constexpr (type == DistributionType::kBernoulli) {
     if (x == 0) {
       return std::log(1 - mParam1);
@@ -1027,7 +1027,8 @@ template <DistributionType type> Tv Distribution<type>::GetPdfOrPmfLog(Tv x) {
     } // TODO: a logarithm version of binomial_coefficient ?!
     return std::log(Math_BinomialCoefficient<Tv>((unsigned int)mParam2,
                                                  (unsigned int)x)) +
-           (x * std::log(mParam1)) + ((mParam2 - x) * std::log(1 - mParam1));
+           (x == 0 ? (Tv)0 : x * std::log(mParam1)) +
+           (x == mParam2 ? (Tv)0 : (mParam2 - x) * std::log(1 - mParam1));
   } else if constexpr (true) {
     return std::log(GetPdfOrPmf(x));
   }
-- 
2.43.0


From 7e188c56062ee18647fa2b0a4fb47dc745ac0c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:44 +0000
Subject: [PATCH 147/173] fix: quantiles of discrete distributions (wrong
 values, values outside of the support, or NaN)

---
 .../distributions/distributions_uni.cpp       | 57 +++++++------------
 1 file changed, 21 insertions(+), 36 deletions(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index b17ea56..d5d20b0 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -1135,49 +1135,34 @@ template <DistributionType type> Tv Distribution<type>::GetQuantile(Tv p) {
     return Math_iBetaInv(mParam1, mParam2, p);
   } else if constexpr (type == DistributionType::kGldFkml) {
     return DistributionGld::GetQuantile(p, mParam1, mParam2, mParam3, mParam4);
-  } else if constexpr (type == DistributionType::kUniformDis) {
-    Tv d = mParam1 + p * (mParam2 - mParam1);
-    return std::floor(d);
-  } else if constexpr (type == DistributionType::kPoisson ||
+  } else if constexpr (type == DistributionType::kUniformDis ||
+                       type == DistributionType::kPoisson ||
                        type == DistributionType::kGeometric ||
                        type == DistributionType::kBernoulli ||
                        type == DistributionType::kBinomial) {
 
-    //
-    auto tryN = 100;
-    auto m = GetMean();
-    auto sd = GetVariance();
-    auto norm = Distribution<DistributionType::kNormal>(m, sd);
-    auto q = std::min(GetMaximum(),
-                      std::max(GetMinimum(), std::floor(norm.GetQuantile(p))));
-
-    auto c0 = GetCdf(q);
-    if (c0 > p) {
-      // decrease value of q until cdf is smaller
-      for (int i = 0; i < tryN; i++) {
-        q--;
-        c0 = GetCdf(q);
-        if (c0 < p)
-          return (q + 1);
-      }
-    } else { // cdf < p
-      // increase value of q until cdf is larger than p
-      for (int i = 0; i < tryN; i++) {
-        q++;
-        c0 = GetCdf(q);
-        if (c0 >= p)
-          return q;
+    // find the smallest value where CDF is not less than p
+    auto lower = GetMinimum();
+    auto upper = GetMaximum();
+    if (std::isinf(upper)) {
+      upper = lower;
+      for (Tv step = 1; GetCdf(upper) < p; step *= 2) {
+        lower = upper + 1;
+        upper += step;
       }
+      if (std::isinf(upper))
+        return upper;
     }
-
-    // return NaN
-    if constexpr (std::numeric_limits<Tv>::has_quiet_NaN) {
-      return std::numeric_limits<Tv>::quiet_NaN();
-    } else if constexpr (true) {
-      throw LdtException(ErrorType::kLogic, "distributions",
-                         "type requires NaN but it is missing");
+    while (lower < upper) {
+      auto mid = std::floor(lower + (upper - lower) / 2);
+      if (GetCdf(mid) >= p)
+        upper = mid;
+      else if (mid + 1 > mid)
+        lower = mid + 1;
+      else // larger than the precision of integers
+        break;
     }
-
+    return upper;
   } else if constexpr (true) {
     if constexpr (std::numeric_limits<Tv>::has_quiet_NaN) {
       return std::numeric_limits<Tv>::quiet_NaN();
-- 
2.43.0


From 56f12348893e488f2a506e75b7356f5471451fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:44 +0000
Subject: [PATCH 148/173] fix: medians of Poisson, geometric, binomial and
 chi-squared distributions (negative or wrong values for small parameters)

---
 src/ldt_statistics/distributions/distributions_uni.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index d5d20b0..33788f3 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -652,7 +652,7 @@ template <DistributionType type> Tv Distribution<type>::GetMedian() {
   } else if constexpr (type == DistributionType::kT) {
     return (Tv)0;
   } else if constexpr (type == DistributionType::kChi2) {
-    return mParam1 * std::pow(1 - (Tv)2 / (9 * mParam1), (Tv)3);
+    return GetQuantile((Tv)0.5);
   } else if constexpr (type == DistributionType::kUniformCon) {
     return (mParam1 + mParam2) / 2;
   } else if constexpr (type == DistributionType::kExponential) {
@@ -681,8 +681,7 @@ template <DistributionType type> Tv Distribution<type>::GetMedian() {
   } else if constexpr (type == DistributionType::kUniformDis) {
     return (mParam1 + mParam2) / (Tv)2;
   } else if constexpr (type == DistributionType::kPoisson) {
-    return std::floor(mParam1 + (Tv)1 / 3 -
-                      ((Tv)0.02 / mParam1)); // see wikipedia
+    return GetQuantile((Tv)0.5);
   } else if constexpr (type == DistributionType::kGeometric) {
     if (mParam1 == 0) {
       if constexpr (std::numeric_limits<Tv>::has_infinity) {
@@ -694,7 +693,7 @@ template <DistributionType type> Tv Distribution<type>::GetMedian() {
                                                          // infinity
       }
     } else if (mParam1 == (Tv)1) {
-      return 1;
+      return 0;
     } else {
       return std::ceil(-c_ln2 / std::log(1 - mParam1)) - (Tv)1;
     }
@@ -703,7 +702,7 @@ template <DistributionType type> Tv Distribution<type>::GetMedian() {
            : mParam1 > (Tv)0.5 ? (Tv)1
                                : (Tv)0.5; // not unique. see wikipedia
   } else if constexpr (type == DistributionType::kBinomial) {
-    return std::floor(mParam1 * mParam2);
+    return GetQuantile((Tv)0.5);
   } else if constexpr (true) {
     if constexpr (std::numeric_limits<Tv>::has_quiet_NaN) {
       return std::numeric_limits<Tv>::quiet_NaN();
-- 
2.43.0


From 95ad112de8a26340d57cfd2e743627f0be05ffb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:44 +0000
Subject: [PATCH 149/173] fix: modes of beta and binomial distributions

---
 src/ldt_statistics/distributions/distributions_uni.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index 33788f3..0ca7727 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -749,12 +749,10 @@ template <DistributionType type> Tv Distribution<type>::GetMode() {
   } else if constexpr (type == DistributionType::kBeta) {
     if (mParam1 == (Tv)1 && mParam2 == (Tv)1)
       return 0.5; // any value in (0,1))
-    if (mParam1 <= (Tv)1 && mParam2 > (Tv)0)
-      return 0;
-    if (mParam1 > (Tv)1 && mParam2 <= (Tv)0)
+    if (mParam1 < (Tv)1 || (mParam1 == (Tv)1 && mParam2 > (Tv)1))
+      return 0; // 1 is also a mode if both are smaller than 1
+    if (mParam2 <= (Tv)1)
       return (Tv)1;
-    if (mParam1 < 1 && mParam2 < 0)
-      return (Tv)1; // or 0
     return (mParam1 - 1) / (mParam1 + mParam2 - (Tv)2);
   } else if constexpr (type == DistributionType::kUniformDis) {
     if constexpr (std::numeric_limits<Tv>::has_quiet_NaN) {
@@ -772,7 +770,7 @@ template <DistributionType type> Tv Distribution<type>::GetMode() {
            : mParam1 > 0.5   ? (Tv)1
                              : (Tv)0; // for 0.5, 1 is also mode
   } else if constexpr (type == DistributionType::kBinomial) {
-    return std::floor((mParam2 + 1) * mParam1);
+    return std::min(mParam2, std::floor((mParam2 + 1) * mParam1));
   } else if constexpr (true) {
     if constexpr (std::numeric_limits<Tv>::has_quiet_NaN) {
       return std::numeric_limits<Tv>::quiet_NaN();
-- 
2.43.0


From b1980f76fac774302f2d55df12a38bf4abd5a2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:44 +0000
Subject: [PATCH 150/173] fix: log density of an exponential distribution at
 zero

---
 src/ldt_statistics/distributions/distributions_uni.cpp | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index 0ca7727..5cd37af 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -961,16 +961,6 @@ template <DistributionType type> Tv Distribution<type>::GetPdfOrPmfLog(Tv x) {
     return -x / (Tv)2 + (dof2 - 1) * std::log(x) - dof2 * std::log(2) -
            std::lgamma(dof2);
   } else if constexpr (type == DistributionType::kExponential) {
-    if (x == 0) {
-      if constexpr (std::numeric_limits<Tv>::has_infinity) {
-        return -std::numeric_limits<Tv>::infinity();
-      } else if constexpr (true) {
-        throw LdtException(
-            ErrorType::kLogic, "distributions",
-            "type requires infinity but it is missing"); // kT must have
-                                                         // infinity
-      }
-    }
     return std::log(mParam1) - (mParam1 * x);
   } else if constexpr (type == DistributionType::kGamma) {
     return (-mParam1 * std::log(mParam2)) + ((mParam1 - 1) * std::log(x)) -
-- 
2.43.0


From cbce246fb84911218e6ef305b84c52d8f7842aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:49 +0000
Subject: [PATCH 151/173] fix: densities at the ends of the support were NaN
 (log-normal, F, and the logarithms for gamma, chi-squared and beta)

---
 .../distributions/distributions_uni.cpp        | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index 5cd37af..3c8e991 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -197,6 +197,9 @@ Tv DistributionBase::GetProperty(DistributionProperty propType) {
   }
 }
 
+/// @brief log(x^p), where 0^0 is 1
+static Tv PowerLog(Tv x, Tv p) { return p == 0 ? (Tv)0 : p * std::log(x); }
+
 Tv Sign(Tv a) {
   if (a > 0)
     return (Tv)1;
@@ -878,6 +881,8 @@ template <DistributionType type> Tv Distribution<type>::GetPdfOrPmf(Tv x) {
     auto n = (x - mParam1) / mParam2;
     return std::exp(-0.5 * n * n) / (c_sqrt_2Pi * mParam2);
   } else if constexpr (type == DistributionType::kLogNormal) {
+    if (x == 0)
+      return (Tv)0;
     auto n = (std::log(x) - mParam1) / mParam2;
     return std::exp(-0.5 * n * n) / (x * c_sqrt_2Pi * mParam2);
   } else if constexpr (type == DistributionType::kT) {
@@ -896,6 +901,10 @@ template <DistributionType type> Tv Distribution<type>::GetPdfOrPmf(Tv x) {
   } else if constexpr (type == DistributionType::kExponential) {
     return mParam1 * std::exp(-mParam1 * x);
   } else if constexpr (type == DistributionType::kF) {
+    if (x == 0)
+      return mParam1 < 2 ? std::numeric_limits<Tv>::infinity()
+             : mParam1 == 2 ? (Tv)1
+                            : (Tv)0;
     return std::sqrt(std::pow(mParam1 * x, mParam1) *
                      std::pow(mParam2, mParam2) /
                      std::pow((mParam1 * x) + mParam2, mParam1 + mParam2)) /
@@ -950,6 +959,8 @@ template <DistributionType type> Tv Distribution<type>::GetPdfOrPmfLog(Tv x) {
     auto n = (x - mParam1) / mParam2;
     return ((Tv)-0.5 * n * n) - std::log(mParam2) - c_ln_sqrt2Pi;
   } else if constexpr (type == DistributionType::kLogNormal) {
+    if (x == 0)
+      return std::log((Tv)0);
     auto a = (std::log(x) - mParam1) / mParam2;
     return (Tv)-0.5 * a * a - std::log(x * mParam2) - c_ln_sqrt2Pi;
   } else if constexpr (type == DistributionType::kT) {
@@ -958,18 +969,17 @@ template <DistributionType type> Tv Distribution<type>::GetPdfOrPmfLog(Tv x) {
            std::lgamma(mParam1 / (Tv)2) - (Tv)0.5 * std::log(mParam1 * c_pi);
   } else if constexpr (type == DistributionType::kChi2) {
     auto dof2 = mParam1 / 2;
-    return -x / (Tv)2 + (dof2 - 1) * std::log(x) - dof2 * std::log(2) -
+    return -x / (Tv)2 + PowerLog(x, dof2 - 1) - dof2 * std::log(2) -
            std::lgamma(dof2);
   } else if constexpr (type == DistributionType::kExponential) {
     return std::log(mParam1) - (mParam1 * x);
   } else if constexpr (type == DistributionType::kGamma) {
-    return (-mParam1 * std::log(mParam2)) + ((mParam1 - 1) * std::log(x)) -
+    return (-mParam1 * std::log(mParam2)) + PowerLog(x, mParam1 - 1) -
            (x / mParam2) - std::lgamma(mParam1);
   } else if constexpr (type == DistributionType::kBeta) {
     auto d = std::lgamma(mParam1 + mParam2) - std::lgamma(mParam1) -
              std::lgamma(mParam2);
-    return d + (mParam1 - (Tv)1) * std::log(x) +
-           (mParam2 - 1) * std::log(1 - x);
+    return d + PowerLog(x, mParam1 - 1) + PowerLog(1 - x, mParam2 - 1);
   } else if constexpr (type == DistributionType::kUniformDis) {
     if (x >= mParam1 && x <= mParam2)
       return -std::log(mParam2 - mParam1 + (Tv)1);
-- 
2.43.0


From 6612de2bd294a99919b44ecfddc42118508bfa0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:49 +0000
Subject: [PATCH 152/173] fix: densities with many degrees of freedom (or large
 shapes) were NaN or zero because of overflow

---
 .../distributions/distributions_uni.cpp       | 38 ++++++++++++++-----
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index 3c8e991..66ea70c 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -887,14 +887,20 @@ template <DistributionType type> Tv Distribution<type>::GetPdfOrPmf(Tv x) {
     return std::exp(-0.5 * n * n) / (x * c_sqrt_2Pi * mParam2);
   } else if constexpr (type == DistributionType::kT) {
     auto g = (mParam1 + 1) / (Tv)2;
-    return std::tgamma(g) * std::pow(1 + x * x / mParam1, -g) /
+    auto n = std::tgamma(g);
+    if (std::isinf(n)) // overflow
+      return std::exp(GetPdfOrPmfLog(x));
+    return n * std::pow(1 + x * x / mParam1, -g) /
            (std::tgamma(mParam1 / 2) * std::sqrt(mParam1 * c_pi));
   } else if constexpr (type == DistributionType::kChi2) {
     if (std::isinf(mParam1))
       return (Tv)0;
     auto dof2 = mParam1 / (Tv)2;
-    return std::exp(-x / 2) * std::pow(x, dof2 - 1) /
-           (std::pow(2, dof2) * std::tgamma(dof2));
+    auto pw = std::pow(x, dof2 - 1);
+    auto d = std::pow(2, dof2) * std::tgamma(dof2);
+    if (std::isinf(pw) || pw == 0 || std::isinf(d)) // overflow
+      return std::exp(GetPdfOrPmfLog(x));
+    return std::exp(-x / 2) * pw / d;
   } else if constexpr (type == DistributionType::kUniformCon) {
     auto n = (mParam2 - mParam1);
     return (Tv)1 / n;
@@ -905,16 +911,30 @@ template <DistributionType type> Tv Distribution<type>::GetPdfOrPmf(Tv x) {
       return mParam1 < 2 ? std::numeric_limits<Tv>::infinity()
              : mParam1 == 2 ? (Tv)1
                             : (Tv)0;
-    return std::sqrt(std::pow(mParam1 * x, mParam1) *
-                     std::pow(mParam2, mParam2) /
-                     std::pow((mParam1 * x) + mParam2, mParam1 + mParam2)) /
-           (x * Math_Beta(mParam1 / 2, mParam2 / 2));
+    auto n = std::pow(mParam1 * x, mParam1) * std::pow(mParam2, mParam2);
+    auto d = std::pow((mParam1 * x) + mParam2, mParam1 + mParam2);
+    if (n == 0 || std::isinf(n) || std::isnan(n) || std::isinf(d)) // overflow
+      return std::exp(mParam1 / 2 * std::log(mParam1 * x) +
+                      mParam2 / 2 * std::log(mParam2) -
+                      (mParam1 + mParam2) / 2 *
+                          std::log(mParam1 * x + mParam2) -
+                      std::log(x) - std::lgamma(mParam1 / 2) -
+                      std::lgamma(mParam2 / 2) +
+                      std::lgamma((mParam1 + mParam2) / 2));
+    return std::sqrt(n / d) / (x * Math_Beta(mParam1 / 2, mParam2 / 2));
   } else if constexpr (type == DistributionType::kGamma) {
-    return std::pow(mParam2, -mParam1) * std::pow(x, mParam1 - 1) *
-           std::exp(-x / mParam2) / std::tgamma(mParam1);
+    auto a = std::pow(mParam2, -mParam1);
+    auto pw = std::pow(x, mParam1 - 1);
+    auto g = std::tgamma(mParam1);
+    if (std::isinf(pw) || pw == 0 || std::isinf(a) || a == 0 ||
+        std::isinf(a * pw) || std::isinf(g)) // overflow
+      return std::exp(GetPdfOrPmfLog(x));
+    return a * pw * std::exp(-x / mParam2) / g;
   } else if constexpr (type == DistributionType::kBeta) {
     auto d = std::tgamma(mParam1 + mParam2) /
              (std::tgamma(mParam1) * std::tgamma(mParam2));
+    if (std::isnan(d) || std::isinf(d)) // overflow
+      return std::exp(GetPdfOrPmfLog(x));
     return d * std::pow(x, mParam1 - 1) * std::pow(1 - x, mParam2 - 1);
   } else if constexpr (type == DistributionType::kGldFkml) {
     throw LdtException(ErrorType::kLogic, "distributions",
-- 
2.43.0


From 9f910db36cefab25cccc047646bea801432a6e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:49 +0000
Subject: [PATCH 153/173] fix: support of a mixture of distributions with
 non-positive values

---
 src/ldt_statistics/distributions/mixture.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/distributions/mixture.cpp b/src/ldt_statistics/distributions/mixture.cpp
index 007df17..e9c4d71 100644
--- a/src/ldt_statistics/distributions/mixture.cpp
+++ b/src/ldt_statistics/distributions/mixture.cpp
@@ -259,7 +259,7 @@ Ti DistributionMixture::GetPmfSupportSize(Tv &min, Tv &max) {
   // for (Ti i = 0; i < pDistributions->size(); i++)
   //	pDistributions->at(i)->GetPmfSupportIncrement();
   Tv min0 = std::numeric_limits<Tv>::max();
-  Tv max0 = std::numeric_limits<Tv>::min();
+  Tv max0 = std::numeric_limits<Tv>::lowest();
   Ti siz = (Ti)pDistributions->size();
   for (Ti i = 0; i < siz; i++) {
     min0 = std::fmin(min0, pDistributions->at(i)->GetMinimum());
-- 
2.43.0


From ffd8f74535d6c9d31a91e308cdc1c10729abf421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:32 +0000
Subject: [PATCH 154/173] fix: approximate quantiles of an empirical
 distribution were of another percentile for some probabilities (rounding)

---
 src/ldt_statistics/distributions/empirical103.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/distributions/empirical103.cpp b/src/ldt_statistics/distributions/empirical103.cpp
index 4298391..d61c2a3 100644
--- a/src/ldt_statistics/distributions/empirical103.cpp
+++ b/src/ldt_statistics/distributions/empirical103.cpp
@@ -103,8 +103,8 @@ Tv DistributionEmpirical103::GetQuantileApprox(Tv p) const {
       d = 0.99;
       h = 0.999 - 0.99;
     } else {                         // e.g. p=0.244   =>    0.24<p<0.25
-      d = std::floor(p * 100) / 100; // floor
-      i = (Ti)(d * 100) + 1;
+      i = (Ti)std::floor(p * 100) + 1;
+      d = (i - 1) / 100.0;
       h = 0.01;
     }
     shift = (p - d) * (Quantiles[i + 1] - Quantiles[i]) / h;
-- 
2.43.0


From 9ad727916b05dc983e70de8bd10d44c1f154bbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:19 +0000
Subject: [PATCH 155/173] fix: approximate distribution function of an
 empirical distribution decreased in the tails

---
 src/ldt_statistics/distributions/empirical103.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/distributions/empirical103.cpp b/src/ldt_statistics/distributions/empirical103.cpp
index d61c2a3..c369130 100644
--- a/src/ldt_statistics/distributions/empirical103.cpp
+++ b/src/ldt_statistics/distributions/empirical103.cpp
@@ -25,10 +25,10 @@ Tv DistributionEmpirical103::GetCDFApprox(Tv x) const {
   // deal with tails
   if (x <= Quantiles[0]) { // calculate last change and use it
     shift =
-        (x - Quantiles[0]) * (0.001 - 0.0001) / (Quantiles[1] - Quantiles[0]);
+        (Quantiles[0] - x) * (0.001 - 0.0001) / (Quantiles[1] - Quantiles[0]);
     y = 0.0001;
   } else if (x >= Quantiles[102]) {
-    shift = (x - Quantiles[102]) * (0.9999 - 0.999) /
+    shift = (Quantiles[102] - x) * (0.9999 - 0.999) /
             (Quantiles[102] - Quantiles[101]);
     y = 0.9999;
   }
-- 
2.43.0


From 2330301527ea2b9d27eb15a96bd4fa2eff1e16b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:47 +0000
Subject: [PATCH 156/173] fix: density of Student's t with about 342 degrees of
 freedom was zero because of overflow

---
 src/ldt_statistics/distributions/distributions_uni.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index 66ea70c..5602240 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -888,10 +888,10 @@ template <DistributionType type> Tv Distribution<type>::GetPdfOrPmf(Tv x) {
   } else if constexpr (type == DistributionType::kT) {
     auto g = (mParam1 + 1) / (Tv)2;
     auto n = std::tgamma(g);
-    if (std::isinf(n)) // overflow
+    auto d = std::tgamma(mParam1 / 2) * std::sqrt(mParam1 * c_pi);
+    if (std::isinf(n) || std::isinf(d)) // overflow
       return std::exp(GetPdfOrPmfLog(x));
-    return n * std::pow(1 + x * x / mParam1, -g) /
-           (std::tgamma(mParam1 / 2) * std::sqrt(mParam1 * c_pi));
+    return n * std::pow(1 + x * x / mParam1, -g) / d;
   } else if constexpr (type == DistributionType::kChi2) {
     if (std::isinf(mParam1))
       return (Tv)0;
-- 
2.43.0


From 81c88b6c8af2f57267f31a29d0d2b2c0c7cb8f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:55 +0000
Subject: [PATCH 157/173] fix: a copied or combined list frequency in the C
 interface has its own items

LDT_DisposeFrequency deletes the items of a list frequency, but
LDT_FrequencyCopy and LDT_VariableCombine returned a frequency that shared
them with the argument, so disposing both freed the items twice.
---
 src/api.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/api.cpp b/src/api.cpp
index 0585580..636a254 100644
--- a/src/api.cpp
+++ b/src/api.cpp
@@ -122,11 +122,26 @@ ldt::Frequency *LDT_FrequencyCreate(const char *str, const char *classStr,
   return nullptr;
 }
 
+/// Each list frequency that is returned to the user has its own items, because
+/// 'LDT_DisposeFrequency' deletes them. A cloned one points to the items of
+/// the original frequency.
+static ldt::Frequency *ReleaseWithItems(std::unique_ptr<ldt::Frequency> f) {
+  if (auto fs = dynamic_cast<ldt::FrequencyList<std::string> *>(f.get())) {
+    if (fs->pItems)
+      fs->pItems = new std::vector<std::string>(*fs->pItems);
+  } else if (auto fd =
+                 dynamic_cast<ldt::FrequencyList<boost::gregorian::date> *>(
+                     f.get())) {
+    if (fd->pItems)
+      fd->pItems = new std::vector<boost::gregorian::date>(*fd->pItems);
+  }
+  return f.release();
+}
+
 ldt::Frequency *LDT_FrequencyCopy(ldt::Frequency *f) {
   API_BEGIN()
 
-  auto newf = f->Clone();
-  return newf.release();
+  return ReleaseWithItems(f->Clone());
 
   API_END()
   return nullptr;
@@ -252,10 +267,7 @@ ldt::Frequency *LDT_VariableCombine(double *data1, int dataLength1,
                                   // select it unless it is NAN
   }
 
-  auto f = vs.StartFrequency.get();
-  vs.StartFrequency.release();
-
-  return f;
+  return ReleaseWithItems(std::move(vs.StartFrequency));
 
   API_END()
 
-- 
2.43.0


From 0258a1e11e5a9e885e05ac28a98a1ef41a5d1e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:54 +0000
Subject: [PATCH 158/173] fix: extreme bounds of a search were always printed
 as '(none)'

---
 Rpackage/R/g.prints.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/R/g.prints.R b/Rpackage/R/g.prints.R
index 878a7e6..4ade918 100644
--- a/Rpackage/R/g.prints.R
+++ b/Rpackage/R/g.prints.R
@@ -191,7 +191,7 @@ print.ldt.search <- function(x, ...) {
           }
 
           if (x$info$items$extremeMultiplier > 0){
-            extremeB <- values[which(sapply(values, function(y){startsWith(y$typeName, "extreme")}))]
+            extremeB <- values[which(sapply(values, function(y){startsWith(y$typeName, "extreme")}))][[1]]
             cat(indent, "Extreme bounds (significant):\n")
             sig <- extremeB$value[which(extremeB$value[,1]>0 | extremeB$value[,2]<0),,drop=FALSE]
             if (!is.null(sig)  && nrow(sig) > 0){
-- 
2.43.0


From 2c7d5cbbb6e34d8120bd4ddf7484a57a3061dbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:54 +0000
Subject: [PATCH 159/173] fix: printing an estimation failed when a coefficient
 is restricted and none is significant

---
 Rpackage/R/g.prints.R | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Rpackage/R/g.prints.R b/Rpackage/R/g.prints.R
index 4ade918..d11f7d3 100644
--- a/Rpackage/R/g.prints.R
+++ b/Rpackage/R/g.prints.R
@@ -303,7 +303,9 @@ print.ldt.estim <- function(x, ...) {
 
     ms <- max(ifelse(df[,4] < .001, 3,
                      ifelse(df[,4] < .01, 2,
-                            ifelse(df[,4] < .1, 1, 0))), na.rm = TRUE)
+                            ifelse(df[,4] < .1, 1, 0))), 0, na.rm = TRUE)
+    if (!is.null(x$estimations$isRestricted) && any(x$estimations$isRestricted[,dep_var] == 1))
+      ms <- max(ms, 1) # there is an 'r'
     stars <- logical(nrow(df))
     for (i in seq_len(nrow(df))){
       if (!is.null(x$estimations$isRestricted) && x$estimations$isRestricted[i,dep_var] == 1)
-- 
2.43.0


From dd66a601723098220efb863603f0ce7babc492bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:54 +0000
Subject: [PATCH 160/173] fix: table of coefficients failed with the F
 statistic

---
 Rpackage/R/g.prints.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/R/g.prints.R b/Rpackage/R/g.prints.R
index d11f7d3..5896154 100644
--- a/Rpackage/R/g.prints.R
+++ b/Rpackage/R/g.prints.R
@@ -694,7 +694,7 @@ coefs.table <- function(estimList, depList = NULL, tableFun = "coef_star", forma
               if (is.na(fp)) {
                 warning("p-value of 'F' statistics is NA.")
               }
-              v <- paste0(v, .get.coef.stars(fp))
+              v <- paste0(v, .get.coef.stars(fp, latex))
             }
 
           }
-- 
2.43.0


From 5eb30f63fc80bee915af256c7046e11f380f50ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:54 +0000
Subject: [PATCH 161/173] fix: equations with a changed or long name were
 omitted from the table of coefficients

---
 Rpackage/R/g.prints.R | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Rpackage/R/g.prints.R b/Rpackage/R/g.prints.R
index 5896154..bb8d304 100644
--- a/Rpackage/R/g.prints.R
+++ b/Rpackage/R/g.prints.R
@@ -607,7 +607,6 @@ coefs.table <- function(estimList, depList = NULL, tableFun = "coef_star", forma
     depList <- unique(unlist(lapply(estimList, function(e) colnames(e$estimations$coefs))))
   else
     depList <- as.character(depList)
-  depList <- lapply(depList, function(n) textFun(n, "dname"))
 
   col_names <- unlist(lapply(seq_along(col_names), function(i) {
     rep(col_names[i], sum(colnames(estimList[[i]]$estimations$coefs) %in% depList))
@@ -642,7 +641,7 @@ coefs.table <- function(estimList, depList = NULL, tableFun = "coef_star", forma
     for (d in depList){
       if (!d %in% colnames(e$estimations$coefs)) next
       j <- j + 1
-      r_table[1, j] <- d
+      r_table[1, j] <- textFun(d, "dname")
 
       ns <- row.names(e$estimations$coefs)
       i <- 0
-- 
2.43.0


From 2702178caef5d4b66ca85400b4626ba5a1dcbf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:19 +0000
Subject: [PATCH 162/173] fix: missing line break in the printed search result
 when CDF at zero is not available

---
 Rpackage/R/g.prints.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/R/g.prints.R b/Rpackage/R/g.prints.R
index bb8d304..361e744 100644
--- a/Rpackage/R/g.prints.R
+++ b/Rpackage/R/g.prints.R
@@ -207,7 +207,7 @@ print.ldt.search <- function(x, ...) {
             cdfs <- values[which(sapply(values, function(y){ y$info == 0 && startsWith(y$typeName, "cdf")}))]
             cat(indent, "CDF (significant):\n")
             if (length(cdfs) == 0)
-              cat(c(indent, "  "), "CDF at 0 is not available.")
+              cat(c(indent, "  "), "CDF at 0 is not available.\n")
             else{
               cdfs <- cdfs[[1]]
               sig <- cdfs$value[which(cdfs$value[,1]<0.1 | cdfs$value[,1]>0.9),,drop=FALSE]
-- 
2.43.0


From 700f2f2eff5cc8c0d787e93894daa50dcaff5cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:19 +0000
Subject: [PATCH 163/173] fix: table of coefficients failed for a single
 estimated model

---
 Rpackage/R/g.prints.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/R/g.prints.R b/Rpackage/R/g.prints.R
index 361e744..d7f62bc 100644
--- a/Rpackage/R/g.prints.R
+++ b/Rpackage/R/g.prints.R
@@ -486,7 +486,7 @@ coefs.table <- function(estimList, depList = NULL, tableFun = "coef_star", forma
                         expList = NA, latex = TRUE,
                         numFormat = "%.2f") {
 
-  if (is.null(estimList$counts) == FALSE)
+  if (inherits(estimList, "ldt.estim"))
     estimList <- list(m = estimList)
 
 
-- 
2.43.0


From bcbd8c682b10d6b41271da9121b5db62a19fb9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:19 +0000
Subject: [PATCH 164/173] fix: median line of the log-normal fan plot was drawn
 at the mean

---
 Rpackage/R/g.plots.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/R/g.plots.R b/Rpackage/R/g.plots.R
index b922da7..2bf6133 100644
--- a/Rpackage/R/g.plots.R
+++ b/Rpackage/R/g.plots.R
@@ -217,7 +217,7 @@ fan.plot <- function (data,
     sdlogs <- data[, 2]
     startInd <- which(sdlogs!=0)
     startInd <- ifelse(length(startInd) == 0, length(sdlogs), startInd[[1]])
-    medians <- exp(meanlogs + sdlogs^2/2)
+    medians <- exp(meanlogs)
     quants <- t(apply(data, 1, function(x) qlnorm(quantiles,
                                                   x[1], x[2])))
   }
-- 
2.43.0


From c8f88ae408a5fb5d773f89f04c30b8599ba33dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:19 +0000
Subject: [PATCH 165/173] fix: predictions could not be plotted by the name of
 the variable

---
 Rpackage/R/g.plots.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/R/g.plots.R b/Rpackage/R/g.plots.R
index 2bf6133..60c257f 100644
--- a/Rpackage/R/g.plots.R
+++ b/Rpackage/R/g.plots.R
@@ -328,7 +328,7 @@ plot.ldt.varma.prediction <- function(x,
 
   stopifnot(is.number(variable) || is.character(variable))
   if (is.character(variable)){
-    variable <- match(variable, colnames(x$info$y))
+    variable <- match(variable, colnames(x$means))
     if (is.na(variable))
       stop("Invalid variable name.")
   }
-- 
2.43.0


From cb00cdfc10efcb2289003bbf12b31e625024d827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:19 +0000
Subject: [PATCH 166/173] fix: Cook's distance was plotted against leverage and
 not leverage/(1-leverage)

---
 Rpackage/R/g.plots.R | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Rpackage/R/g.plots.R b/Rpackage/R/g.plots.R
index 60c257f..dc45bd3 100644
--- a/Rpackage/R/g.plots.R
+++ b/Rpackage/R/g.plots.R
@@ -134,6 +134,7 @@ plot.ldt.estim <- function(x,
   }
   else if (type == 6) {
     x_data <- hatvalues0(x, equation = equation)
+    x_data <- x_data / (1 - x_data)
     y_data <- cooks.distance0(x, equation = equation)
     args <- modifyList(list(main = "Cook's dist vs Leverage/(1-Leverage)", xlab = "Leverage/(1-Leverage)", ylab = "Cook's distance",
                             ylim = expand_lim(y_data, fix_min = 0)), args)
-- 
2.43.0


From 481fe77a2589d5826d41787a68ff15ece0cb1a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:19 +0000
Subject: [PATCH 167/173] fix: name of a SUR model with one equation

---
 Rpackage/R/sur.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/R/sur.R b/Rpackage/R/sur.R
index f71a9da..2454979 100644
--- a/Rpackage/R/sur.R
+++ b/Rpackage/R/sur.R
@@ -256,7 +256,7 @@ estim.sur.model.string <- function(obj){
   nms <- paste(colnames(y), collapse = ", ")
   if (ncol(y) == 1)
     paste0("Linear Model")
-  if (sum(obj$estimations$isRestricted) == 0)
+  else if (sum(obj$estimations$isRestricted) == 0)
       paste0("Unrestricted SUR: ", nms)
   else
     paste0("SUR: ", nms)
-- 
2.43.0


From ee60e4e0aa3963b5c5460346e5d64d2a86d99c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:19 +0000
Subject: [PATCH 168/173] fix: fan plot of a single distribution failed

---
 Rpackage/R/g.plots.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/R/g.plots.R b/Rpackage/R/g.plots.R
index dc45bd3..d4b450c 100644
--- a/Rpackage/R/g.plots.R
+++ b/Rpackage/R/g.plots.R
@@ -226,7 +226,7 @@ fan.plot <- function (data,
     stop(paste("Distribution", dist, "is not supported."))
   }
 
-  quants <- cbind(quants[, quantiles <= 0.5], medians, quants[, quantiles > 0.5])
+  quants <- cbind(quants[, quantiles <= 0.5, drop = FALSE], medians, quants[, quantiles > 0.5, drop = FALSE])
 
   if (!is.null(lambda) && !is.na(lambda)){
 
-- 
2.43.0


From 0fafbc699c0ae0c6f72813dcbc589442215b8475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:19 +0000
Subject: [PATCH 169/173] fix: a summary of a search with the best coefficients
 could not be printed

---
 Rpackage/R/g.prints.R  | 7 ++++---
 Rpackage/R/g.summary.R | 3 +++
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/Rpackage/R/g.prints.R b/Rpackage/R/g.prints.R
index d7f62bc..2325a3d 100644
--- a/Rpackage/R/g.prints.R
+++ b/Rpackage/R/g.prints.R
@@ -182,9 +182,10 @@ print.ldt.search <- function(x, ...) {
           if (x$info$items$bestK){
             best_coefs <- values[which(sapply(values, function(y){y$info == 0 && startsWith(y$typeName, "best item for")}))]
             cat(indent, "Best significant coeffiecients [mean-1.95*std, mean, mean+1.95*std]:\n")
-            lst <- lapply(best_coefs, function(b)c(b$value$mean - 1.95 * sqrt(b$value$var),
-                                                   b$value$mean,
-                                                   b$value$mean + 1.95 * sqrt(b$value$var)))
+            lst <- lapply(best_coefs, function(b){
+              v <- if (is_summary) b else b$value # in a summary, the value is the estimated model
+              c(v$mean - 1.95 * sqrt(v$variance), v$mean, v$mean + 1.95 * sqrt(v$variance))
+            })
             names(lst) <- sapply(best_coefs, function(b)strsplit(sub(".*'([^']*)'.*", "\\1", b$typeName), split = "'")[[1]])
             lst <- lst[which(sapply(lst,function(b)b[1]>0 || b[3]<0))]
             rec.print.list(lst, indent = c(indent, "  "))
diff --git a/Rpackage/R/g.summary.R b/Rpackage/R/g.summary.R
index cc34af0..22238d8 100644
--- a/Rpackage/R/g.summary.R
+++ b/Rpackage/R/g.summary.R
@@ -133,6 +133,9 @@ summary.ldt.search <- function(object, test = FALSE, ...) {
     warning("Result list is empty. Check failed estimations.")
 
   for (i in seq_along(object$results)){
+    value <- object$results[[i]]$value
+    if (is.list(value) && !is.null(value$mean)) # keep them, because 'value' is replaced with the estimated model
+      object$results[[i]][c("mean", "variance")] <- value[c("mean", "variance")]
     object$results[[i]]$value <- summary.ldt.search.item(object = object$results[[i]],
                                                          searchResult =  object,
                                                          test = test, ...)
-- 
2.43.0


From 1c6c82c74a27eabfcdf9457eb498d232eb842cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:39 +0000
Subject: [PATCH 170/173] fix: residuals of a VARMA model could not be plotted
 against fitted values

---
 Rpackage/R/g.plots.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/R/g.plots.R b/Rpackage/R/g.plots.R
index d4b450c..c4867c3 100644
--- a/Rpackage/R/g.plots.R
+++ b/Rpackage/R/g.plots.R
@@ -57,7 +57,7 @@ plot.ldt.estim <- function(x,
   stopifnot(type %in% c(1, 2, 3, 4, 5, 6))
 
   fitted <- fitted(x, equation = equation)
-  fitted <- fitted - min(fitted)
+  fitted <- fitted - min(fitted, na.rm = TRUE)
   if (type == 1)
     residuals <- resid(x, equation = equation, standardized = FALSE, pearson = TRUE)
   else
-- 
2.43.0


From e0ed26fa6dccba53116f0667d71c8a740f35e611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:39 +0000
Subject: [PATCH 171/173] fix: simulated forecasts could not be plotted if a
 horizon is skipped

---
 Rpackage/R/g.plots.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/R/g.plots.R b/Rpackage/R/g.plots.R
index c4867c3..769b65e 100644
--- a/Rpackage/R/g.plots.R
+++ b/Rpackage/R/g.plots.R
@@ -392,7 +392,7 @@ plot.ldt.varma.prediction <- function(x,
       det <- details[details[,"sampleEnd"]==p,, drop = FALSE]
       det <- det[order(det[,"horizon"]),, drop = FALSE]
       #if (x$actualCount - p < 1)  shouldn't the plot handle it?
-      xs <- c((x$actualCount - p): (x$actualCount - p + max(det[,"horizon"])))
+      xs <- x$actualCount - p + c(0, det[,"horizon"])
       ys <- c(det[1,"last"], det[,"prediction"]) # last value & forecasts
       do.call(lines, c(list(x = xs, y = ys), simLineArgs))
       do.call(points, c(list(x = xs, y = ys), simPointsArgs))
-- 
2.43.0


From b0b311108097bb262184f575b60c0fbba70499db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:31 +0000
Subject: [PATCH 172/173] fix: variables that are not in any estimated model
 were printed with significant extreme bounds

---
 Rpackage/R/g.prints.R | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Rpackage/R/g.prints.R b/Rpackage/R/g.prints.R
index 2325a3d..ff49716 100644
--- a/Rpackage/R/g.prints.R
+++ b/Rpackage/R/g.prints.R
@@ -194,7 +194,8 @@ print.ldt.search <- function(x, ...) {
           if (x$info$items$extremeMultiplier > 0){
             extremeB <- values[which(sapply(values, function(y){startsWith(y$typeName, "extreme")}))][[1]]
             cat(indent, "Extreme bounds (significant):\n")
-            sig <- extremeB$value[which(extremeB$value[,1]>0 | extremeB$value[,2]<0),,drop=FALSE]
+            sig <- extremeB$value[which(extremeB$value[,1] <= extremeB$value[,2] & # otherwise, it is not in any estimated model
+                                          (extremeB$value[,1]>0 | extremeB$value[,2]<0)),,drop=FALSE]
             if (!is.null(sig)  && nrow(sig) > 0){
               lst <- lapply(1:nrow(sig), function(e)c(sig[e,1],sig[e,2]))
               names(lst) <- rownames(sig)
-- 
2.43.0


From 9fedc5ff2a343f07c3d58b35abaf8a417c234f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:17 +0000
Subject: [PATCH 173/173] fix: search result could not be printed if all models
 of a target or a metric are not valid

---
 Rpackage/R/g.prints.R | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/Rpackage/R/g.prints.R b/Rpackage/R/g.prints.R
index ff49716..b4629fa 100644
--- a/Rpackage/R/g.prints.R
+++ b/Rpackage/R/g.prints.R
@@ -147,14 +147,18 @@ print.ldt.search <- function(x, ...) {
         if (x$info$items$model){
           if (x$info$items$bestK > 0){
 
-            best <- values[which(sapply(values, function(y){y$typeName == "best model" && y$info == 0}))][[1]]
+            best <- values[which(sapply(values, function(y){y$typeName == "best model" && y$info == 0}))]
             cat(indent, "Best model:\n")
-            if (is_summary){
+            if (length(best) == 0)
+              cat(indent, "  (none)\n")
+            else if (is_summary){
+              best <- best[[1]]
               cat("\n+++++++++++++++ MODEL SUMMARY +++++++++++++++++\n")
               print(best$value)
               cat("\n+++++++++++++++      END      +++++++++++++++++\n")
             }
             else{
+              best <- best[[1]]
               rec.print.list(list(
                 endogenous = best$value$endogenous,
                 exogenous = best$value$exogenous,
@@ -187,7 +191,7 @@ print.ldt.search <- function(x, ...) {
               c(v$mean - 1.95 * sqrt(v$variance), v$mean, v$mean + 1.95 * sqrt(v$variance))
             })
             names(lst) <- sapply(best_coefs, function(b)strsplit(sub(".*'([^']*)'.*", "\\1", b$typeName), split = "'")[[1]])
-            lst <- lst[which(sapply(lst,function(b)b[1]>0 || b[3]<0))]
+            lst <- lst[which(vapply(lst, function(b)b[1]>0 || b[3]<0, logical(1)))]
             rec.print.list(lst, indent = c(indent, "  "))
           }
 
@@ -230,7 +234,7 @@ print.ldt.search <- function(x, ...) {
                                                               mixture$value[i,1],
                                                               mixture$value[i,1] + 1.95 * sqrt(mixture$value[i,2])))
             names(lst) <- rownames(mixture$value)
-            lst <- lst[which(sapply(lst,function(b)b[1]>0 || b[3]<0))]
+            lst <- lst[which(vapply(lst, function(b)b[1]>0 || b[3]<0, logical(1)))]
             rec.print.list(lst, indent = c(indent, "  "))
           }
 
-- 
2.43.0

