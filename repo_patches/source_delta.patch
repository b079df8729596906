From 5418428fcae4f40dc1eb84740f7eb04850d5efb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:43 +0000
Subject: [PATCH 01/41] fix: make the coefficient store's equals, key removal,
 key query and coefficient listings instantiable

These members dereferenced maps of the wrong type (or an unset iterator) and did
not compile, or did not work, when used.
---
 .../LocalSupport2CoefficientManager-inl.hpp   | 31 +++++--------------
 1 file changed, 8 insertions(+), 23 deletions(-)

diff --git a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
index ed9f025..1832dbd 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
@@ -31,26 +31,12 @@ bool LocalSupport2CoefficientManager<Coefficient>::equals(const LocalSupport2Coe
   equal &= keyToCoefficient_.size() == other.keyToCoefficient_.size();
   equal &= timeToCoefficient_.size() == other.timeToCoefficient_.size();
   if (equal) {
-    CoefficientIter it1, it2;
-    it1 = keyToCoefficient_.begin();
-    it2 = other.keyToCoefficient_.begin();
-    for( ; it1 != keyToCoefficient_.end(); ++it1, ++it2) {
+    CoefficientIter it1 = timeToCoefficient_.begin();
+    CoefficientIter it2 = other.timeToCoefficient_.begin();
+    for( ; it1 != timeToCoefficient_.end(); ++it1, ++it2) {
       equal &= it1->first == it2->first;
       equal &= it1->second.equals(it2->second);
     }
-
-    CoefficientIter it3, it4;
-    it3 = timeToCoefficient_.begin();
-    it4 = other.timeToCoefficient_.begin();
-    for( ; it3 != timeToCoefficient_.end(); ++it3, ++it4) {
-      equal &= it3->first == it4->first;
-      if (it3->second && it4->second) {
-        equal &= it3->second->equals(*(it4->second));
-      } else {
-        equal &= it3->second == it4->second;
-      }
-    }
-
   }
   return equal;
 }
@@ -195,7 +181,7 @@ void LocalSupport2CoefficientManager<Coefficient>::removeCoefficientWithKey(Key
   typename TimeToKeyCoefficientMap::iterator it1;
   typename boost::unordered_map<Key, CoefficientIter>::iterator it2;
   it2 = keyToCoefficient_.find(key);
-  it1 = timeToCoefficient_.find(it1->second->first);
+  it1 = timeToCoefficient_.find(it2->second->first);
   timeToCoefficient_.erase(it1);
   keyToCoefficient_.erase(it2);
 }
@@ -221,8 +207,7 @@ bool LocalSupport2CoefficientManager<Coefficient>::hasCoefficientAtTime(Time tim
 /// \brief return true if there is a coefficient with this key
 template <class Coefficient>
 bool LocalSupport2CoefficientManager<Coefficient>::hasCoefficientWithKey(Key key) const {
-  CoefficientIter it = keyToCoefficient_.find(key);
-  return it != keyToCoefficient_.end();
+  return keyToCoefficient_.find(key) != keyToCoefficient_.end();
 }
 
 /// \brief set the coefficient associated with this key
@@ -306,10 +291,10 @@ void LocalSupport2CoefficientManager<Coefficient>::getCoefficientsInRange(
     it--;
     // iterate through coefficients
     for (; it != timeToCoefficient_.end() && it->first < endTime; ++it) {
-      (*outCoefficients)[it->second->key] = it->second->coefficient;
+      (*outCoefficients)[it->second.key] = it->second.coefficient;
     }
     if (it != timeToCoefficient_.end()) {
-      (*outCoefficients)[it->second->key] = it->second->coefficient;
+      (*outCoefficients)[it->second.key] = it->second.coefficient;
     }
   }
 }
@@ -321,7 +306,7 @@ void LocalSupport2CoefficientManager<Coefficient>::getCoefficients(CoefficientMa
   CoefficientIter it;
   it = timeToCoefficient_.begin();
   for( ; it != timeToCoefficient_.end(); ++it) {
-    (*outCoefficients)[it->second->key] = it->second->coefficient;
+    (*outCoefficients)[it->second.key] = it->second.coefficient;
   }
 }
 
-- 
2.43.0


From 1eb8e3f25aa9ebfa98469a6a9c742c72b54e922d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:43 +0000
Subject: [PATCH 02/41] fix: appending a coefficient to an empty store
 decremented end() of an empty map

---
 curves/include/curves/LocalSupport2CoefficientManager-inl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
index 1832dbd..e305215 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
@@ -154,7 +154,7 @@ void LocalSupport2CoefficientManager<Coefficient>::addCoefficientAtEnd(Time time
   Key key = KeyGenerator::getNextKey();
 
   // Insert the coefficient with a hint that it goes at the end
-  CoefficientIter it = timeToCoefficient_.insert(--(timeToCoefficient_.end()),
+  CoefficientIter it = timeToCoefficient_.insert(timeToCoefficient_.end(),
                                                  std::pair<Time, KeyCoefficient>(time, KeyCoefficient(key, coefficient)));
 
   keyToCoefficient_.insert(keyToCoefficient_.end(), std::pair<Key, CoefficientIter>(key,it));
-- 
2.43.0


From 1366b899b515e05043a7a401aac01cb7e5380d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:43 +0000
Subject: [PATCH 03/41] fix: getTimesInWindow left out the first coefficient
 and stepped before begin()

---
 .../curves/LocalSupport2CoefficientManager-inl.hpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
index e305215..ec90768 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
@@ -79,16 +79,10 @@ void LocalSupport2CoefficientManager<Coefficient>::getTimesInWindow(std::vector<
   CHECK_NOTNULL(outTimes);
 
   outTimes->clear();
-  CoefficientIter it = --(timeToCoefficient_.end());
-
-  do {
-    if (it->first >= begTime) {
-      outTimes->push_back(it->first);
-    }
-    --it;
-  } while (it->first >= begTime && it != timeToCoefficient_.begin());
-
-  std::reverse(outTimes->begin(),outTimes->end());
+  CoefficientIter it = timeToCoefficient_.lower_bound(begTime);
+  for( ; it != timeToCoefficient_.end(); ++it) {
+    outTimes->push_back(it->first);
+  }
 }
 
 template <class Coefficient>
-- 
2.43.0


From c188584a8678f8047fe150244555fcff643919cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:43 +0000
Subject: [PATCH 04/41] fix: modifyCoefficient to an occupied time lost the
 coefficient and left dangling keys

---
 .../curves/LocalSupport2CoefficientManager-inl.hpp   | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
index ec90768..4f17f54 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
@@ -162,6 +162,18 @@ void LocalSupport2CoefficientManager<Coefficient>::modifyCoefficient(typename Ti
                                                                      Time time, const Coefficient& coefficient) {
   // This is used by slerp sampling policy.
   // In this case a new coefficient should be placed slightly later than the initial one.
+  typename TimeToKeyCoefficientMap::iterator occupied = timeToCoefficient_.find(time);
+  if (occupied != timeToCoefficient_.end()) {
+    // The coefficient already at that time (possibly the modified one) is overwritten.
+    occupied->second.coefficient = coefficient;
+    if (occupied != it) {
+      keyToCoefficient_.erase(occupied->second.key);
+      occupied->second.key = it->second.key;
+      keyToCoefficient_[it->second.key] = occupied;
+      timeToCoefficient_.erase(it);
+    }
+    return;
+  }
   CoefficientIter newIt = timeToCoefficient_.insert(it,std::pair<Time, KeyCoefficient>(time, KeyCoefficient(it->second.key, coefficient)));
   // Update keyToCoefficient_
   keyToCoefficient_[it->second.key] = newIt;
-- 
2.43.0


From ac162c674b8636f3aaa6f8dc39d06f8a8f95e32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:43 +0000
Subject: [PATCH 05/41] fix: a failed allocation while adding a coefficient
 left it without a key

---
 .../LocalSupport2CoefficientManager-inl.hpp   | 26 ++++++++++++++-----
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
index 4f17f54..0a18928 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
@@ -101,9 +101,14 @@ Key LocalSupport2CoefficientManager<Coefficient>::insertCoefficient(Time time, c
   } else {
     key = KeyGenerator::getNextKey();
     std::pair<Time, KeyCoefficient> iterator(time, KeyCoefficient(key, coefficient));
-    std::pair<CoefficientIter, bool> success =
+    std::pair<typename TimeToKeyCoefficientMap::iterator, bool> success =
         timeToCoefficient_.insert(iterator);
-    keyToCoefficient_[key] = success.first;
+    try {
+      keyToCoefficient_[key] = success.first;
+    } catch (...) {
+      timeToCoefficient_.erase(success.first);
+      throw;
+    }
   }
   return key;
 }
@@ -148,12 +153,19 @@ void LocalSupport2CoefficientManager<Coefficient>::addCoefficientAtEnd(Time time
   Key key = KeyGenerator::getNextKey();
 
   // Insert the coefficient with a hint that it goes at the end
-  CoefficientIter it = timeToCoefficient_.insert(timeToCoefficient_.end(),
-                                                 std::pair<Time, KeyCoefficient>(time, KeyCoefficient(key, coefficient)));
+  typename TimeToKeyCoefficientMap::iterator it =
+      timeToCoefficient_.insert(timeToCoefficient_.end(),
+                                std::pair<Time, KeyCoefficient>(time, KeyCoefficient(key, coefficient)));
 
-  keyToCoefficient_.insert(keyToCoefficient_.end(), std::pair<Key, CoefficientIter>(key,it));
-  if (outKeys != NULL) {
-    outKeys->push_back(key);
+  try {
+    keyToCoefficient_.insert(keyToCoefficient_.end(), std::pair<Key, CoefficientIter>(key,it));
+    if (outKeys != NULL) {
+      outKeys->push_back(key);
+    }
+  } catch (...) {
+    keyToCoefficient_.erase(key);
+    timeToCoefficient_.erase(it);
+    throw;
   }
 }
 
-- 
2.43.0


From 38b73f7b16765c945676370e4490322a120795dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:43 +0000
Subject: [PATCH 06/41] fix: a copied coefficient store looked up keys in the
 store it was copied from

---
 .../LocalSupport2CoefficientManager-inl.hpp    | 18 ++++++++++++++++++
 .../curves/LocalSupport2CoefficientManager.hpp |  2 ++
 2 files changed, 20 insertions(+)

diff --git a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
index 0a18928..3ae2270 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
@@ -19,6 +19,24 @@ template <class Coefficient>
 LocalSupport2CoefficientManager<Coefficient>::LocalSupport2CoefficientManager() {
 }
 
+template <class Coefficient>
+LocalSupport2CoefficientManager<Coefficient>::LocalSupport2CoefficientManager(
+    const LocalSupport2CoefficientManager& other) : timeToCoefficient_(other.timeToCoefficient_) {
+  // The key map refers to elements of the time map.
+  for (CoefficientIter it = timeToCoefficient_.begin(); it != timeToCoefficient_.end(); ++it) {
+    keyToCoefficient_[it->second.key] = it;
+  }
+}
+
+template <class Coefficient>
+LocalSupport2CoefficientManager<Coefficient>& LocalSupport2CoefficientManager<Coefficient>::operator=(
+    const LocalSupport2CoefficientManager& other) {
+  LocalSupport2CoefficientManager copy(other);
+  keyToCoefficient_.swap(copy.keyToCoefficient_);
+  timeToCoefficient_.swap(copy.timeToCoefficient_);
+  return *this;
+}
+
 template <class Coefficient>
 LocalSupport2CoefficientManager<Coefficient>::~LocalSupport2CoefficientManager() {
 }
diff --git a/curves/include/curves/LocalSupport2CoefficientManager.hpp b/curves/include/curves/LocalSupport2CoefficientManager.hpp
index 1e769d4..ff6deaf 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager.hpp
@@ -50,6 +50,8 @@ class LocalSupport2CoefficientManager {
   typedef boost::unordered_map<size_t, Coefficient> CoefficientMap;
 
   LocalSupport2CoefficientManager();
+  LocalSupport2CoefficientManager(const LocalSupport2CoefficientManager& other);
+  LocalSupport2CoefficientManager& operator=(const LocalSupport2CoefficientManager& other);
   virtual ~LocalSupport2CoefficientManager();
 
   /// Compare this Coefficient manager with another for equality.
-- 
2.43.0


From a78da3087bc4f2ca384a7b3b465b56c150111068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:55 +0000
Subject: [PATCH 07/41] fix: linear, quadratic and quartic splines failed to
 link

The static basis vectors of these orders had no definition.
---
 curves/src/polynomial_splines_traits.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/curves/src/polynomial_splines_traits.cpp b/curves/src/polynomial_splines_traits.cpp
index 3c1f093..e63ef00 100644
--- a/curves/src/polynomial_splines_traits.cpp
+++ b/curves/src/polynomial_splines_traits.cpp
@@ -14,11 +14,26 @@ namespace spline_traits {
 template<typename Core_, int SplineOrder_>
 constexpr unsigned int spline_rep<Core_, SplineOrder_>::numCoefficients;
 
+using spline1 = spline_rep<double, 1>;
+constexpr std::array<double, spline1::numCoefficients> spline1::tauZero;
+constexpr std::array<double, spline1::numCoefficients> spline1::dtauZero;
+constexpr std::array<double, spline1::numCoefficients> spline1::ddtauZero;
+
+using spline2 = spline_rep<double, 2>;
+constexpr std::array<double, spline2::numCoefficients> spline2::tauZero;
+constexpr std::array<double, spline2::numCoefficients> spline2::dtauZero;
+constexpr std::array<double, spline2::numCoefficients> spline2::ddtauZero;
+
 using spline3 = spline_rep<double, 3>;
 constexpr std::array<double, spline3::numCoefficients> spline3::tauZero;
 constexpr std::array<double, spline3::numCoefficients> spline3::dtauZero;
 constexpr std::array<double, spline3::numCoefficients> spline3::ddtauZero;
 
+using spline4 = spline_rep<double, 4>;
+constexpr std::array<double, spline4::numCoefficients> spline4::tauZero;
+constexpr std::array<double, spline4::numCoefficients> spline4::dtauZero;
+constexpr std::array<double, spline4::numCoefficients> spline4::ddtauZero;
+
 using spline5 = spline_rep<double, 5>;
 constexpr std::array<double, spline5::numCoefficients> spline5::tauZero;
 constexpr std::array<double, spline5::numCoefficients> spline5::dtauZero;
-- 
2.43.0


From 18858d0e5fb0c037cd391eafcd4f22b9549b3101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:08 +0000
Subject: [PATCH 08/41] fix: advancing over more than one spline at once
 evaluated the wrong spline

---
 curves/include/curves/PolynomialSplineContainer.tpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/curves/include/curves/PolynomialSplineContainer.tpp b/curves/include/curves/PolynomialSplineContainer.tpp
index 99ac23e..072f6c9 100644
--- a/curves/include/curves/PolynomialSplineContainer.tpp
+++ b/curves/include/curves/PolynomialSplineContainer.tpp
@@ -43,8 +43,9 @@ bool PolynomialSplineContainer<splineOrder_>::advance(double dt)
   // Advance in time.
   containerTime_ += dt;
 
-  // Check if spline index needs to be increased.
-  if ((containerTime_ - timeOffset_ >= splines_[activeSplineIdx_].getSplineDuration())) {
+  // Check if spline index needs to be increased (several splines can be passed in one step).
+  while (activeSplineIdx_ < splines_.size() &&
+         containerTime_ - timeOffset_ >= splines_[activeSplineIdx_].getSplineDuration()) {
     if (activeSplineIdx_ < (splines_.size() - 1)) {
       timeOffset_ += splines_[activeSplineIdx_].getSplineDuration();
     }
-- 
2.43.0


From 40ce09ccb4e8caf5cfc878597bb1430013aa1a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:08 +0000
Subject: [PATCH 09/41] fix: adding splines to an empty or fully played
 container after a time jump used a stale active spline

---
 curves/include/curves/PolynomialSplineContainer.hpp | 4 ++++
 curves/include/curves/PolynomialSplineContainer.tpp | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/curves/include/curves/PolynomialSplineContainer.hpp b/curves/include/curves/PolynomialSplineContainer.hpp
index 5cf5db6..2d3aaa3 100644
--- a/curves/include/curves/PolynomialSplineContainer.hpp
+++ b/curves/include/curves/PolynomialSplineContainer.hpp
@@ -50,6 +50,10 @@ class PolynomialSplineContainer {
   bool addSpline(SplineType_&& spline) {
     containerDuration_ += spline.getSplineDuration();
     splines_.emplace_back(std::forward<SplineType_>(spline));
+    if (activeSplineIdx_ + 2 >= static_cast<int>(splines_.size())) {
+      // The container time may lie in the new spline.
+      setContainerTime(containerTime_);
+    }
     return true;
   }
 
diff --git a/curves/include/curves/PolynomialSplineContainer.tpp b/curves/include/curves/PolynomialSplineContainer.tpp
index 072f6c9..9b3fcf3 100644
--- a/curves/include/curves/PolynomialSplineContainer.tpp
+++ b/curves/include/curves/PolynomialSplineContainer.tpp
@@ -59,7 +59,8 @@ template <int splineOrder_>
 void PolynomialSplineContainer<splineOrder_>::setContainerTime(double t)
 {
   containerTime_ = t;
-  activeSplineIdx_ = getActiveSplineIndexAtTime(t, timeOffset_);
+  timeOffset_ = 0.0;
+  activeSplineIdx_ = std::max(0, getActiveSplineIndexAtTime(t, timeOffset_));
 }
 
 template <int splineOrder_>
-- 
2.43.0


From ab3bd54aea20124ce302809e42d1ba87c402926b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:28 +0000
Subject: [PATCH 10/41] fix: a failed allocation in addSpline left a container
 duration longer than its splines

---
 curves/include/curves/PolynomialSplineContainer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curves/include/curves/PolynomialSplineContainer.hpp b/curves/include/curves/PolynomialSplineContainer.hpp
index 2d3aaa3..cfa2753 100644
--- a/curves/include/curves/PolynomialSplineContainer.hpp
+++ b/curves/include/curves/PolynomialSplineContainer.hpp
@@ -48,8 +48,8 @@ class PolynomialSplineContainer {
   //! Add a spline to the container.
   template<typename SplineType_>
   bool addSpline(SplineType_&& spline) {
-    containerDuration_ += spline.getSplineDuration();
     splines_.emplace_back(std::forward<SplineType_>(spline));
+    containerDuration_ += splines_.back().getSplineDuration();
     if (activeSplineIdx_ + 2 >= static_cast<int>(splines_.size())) {
       // The container time may lie in the new spline.
       setContainerTime(containerTime_);
-- 
2.43.0


From 2bc03f65fb685fc4aab063ca0fe6126233e14f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:28 +0000
Subject: [PATCH 11/41] fix: fitting to no knots or to fewer positions than
 knots read out of bounds

---
 curves/include/curves/PolynomialSplineContainer.tpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/curves/include/curves/PolynomialSplineContainer.tpp b/curves/include/curves/PolynomialSplineContainer.tpp
index 9b3fcf3..0b68d62 100644
--- a/curves/include/curves/PolynomialSplineContainer.tpp
+++ b/curves/include/curves/PolynomialSplineContainer.tpp
@@ -259,7 +259,7 @@ bool PolynomialSplineContainer<splineOrder_>::setData(
   const unsigned int solutionSpaceDimension = numSplines*num_coeffs_spline;
   const unsigned int num_junctions = numSplines-1;
 
-  if (numSplines<1) {
+  if (knotDurations.size()<2 || knotPositions.size()!=knotDurations.size()) {
     std::cout << "[PolynomialSplineContainer::setData] Not enough knot points available!" << std::endl;
     return false;
   }
@@ -336,7 +336,7 @@ bool PolynomialSplineContainer<splineOrder_>::setData(
   const unsigned int solutionSpaceDimension = numSplines*num_coeffs_spline;
   const unsigned int num_junctions = numSplines-1u;
 
-  if (numSplines<1u) {
+  if (knotDurations.size()<2u || knotPositions.size()!=knotDurations.size()) {
     std::cout << "[PolynomialSplineContainer::setData] Not enough knot points available!" << std::endl;
     return false;
   }
@@ -409,7 +409,7 @@ bool PolynomialSplineContainer<splineOrder_>::setData(
   constexpr auto num_coeffs_spline = SplineType::coefficientCount;
   typename SplineType::SplineCoefficients coefficients;
 
-  if (splineOrder_==0 || numSplines<1) {
+  if (splineOrder_==0 || numSplines<1 || knotPositions.size()!=knotDurations.size()) {
     return false;
   }
 
-- 
2.43.0


From 390f12764251a543b911629055e2710680d6c427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:28 +0000
Subject: [PATCH 12/41] fix: a rejected linear fit left the splines before the
 invalid knot in the container

---
 curves/include/curves/PolynomialSplineContainer.tpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/curves/include/curves/PolynomialSplineContainer.tpp b/curves/include/curves/PolynomialSplineContainer.tpp
index 0b68d62..75c6024 100644
--- a/curves/include/curves/PolynomialSplineContainer.tpp
+++ b/curves/include/curves/PolynomialSplineContainer.tpp
@@ -423,6 +423,7 @@ bool PolynomialSplineContainer<splineOrder_>::setData(
     const double duration = knotDurations[splineId+1]-knotDurations[splineId];
 
     if (duration<=0.0) {
+      reset();
       return false;
     }
 
-- 
2.43.0


From 24eb28dd8697dcc5f1784b55ad69067b04b1e26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:28 +0000
Subject: [PATCH 13/41] fix: fitting a scalar curve to no points read the first
 of no times

---
 curves/include/curves/PolynomialSplineScalarCurve.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/curves/include/curves/PolynomialSplineScalarCurve.hpp b/curves/include/curves/PolynomialSplineScalarCurve.hpp
index c85933b..267c265 100644
--- a/curves/include/curves/PolynomialSplineScalarCurve.hpp
+++ b/curves/include/curves/PolynomialSplineScalarCurve.hpp
@@ -114,8 +114,8 @@ class PolynomialSplineScalarCurve : public Curve<ScalarCurveConfig>
   virtual void fitCurve(const std::vector<Time>& times, const std::vector<ValueType>& values,
                         std::vector<Key>* outKeys = NULL)
   {
-    container_.setData(times, values, 0.0, 0.0, 0.0, 0.0);
-    minTime_ = times.front();
+    const bool success = container_.setData(times, values, 0.0, 0.0, 0.0, 0.0);
+    minTime_ = success ? times.front() : 0.0;
   }
 
   virtual void fitCurve(const std::vector<Time>& times, const std::vector<ValueType>& values,
@@ -123,9 +123,9 @@ class PolynomialSplineScalarCurve : public Curve<ScalarCurveConfig>
                         double finalVelocity, double finalAcceleration,
                         std::vector<Key>* outKeys = NULL)
   {
-    container_.setData(times, values, initialVelocity, initialAcceleration, finalVelocity,
-                       finalAcceleration);
-    minTime_ = times.front();
+    const bool success = container_.setData(times, values, initialVelocity, initialAcceleration, finalVelocity,
+                                            finalAcceleration);
+    minTime_ = success ? times.front() : 0.0;
   }
 
   virtual void fitCurve(const std::vector<SplineOptions>& optionList,
-- 
2.43.0


From 6e568f489c4614b4223a51cf5cc3ef4995bdee05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:28 +0000
Subject: [PATCH 14/41] fix: fitting a scalar curve to spline options appended
 to the previous curve

---
 curves/include/curves/PolynomialSplineScalarCurve.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/curves/include/curves/PolynomialSplineScalarCurve.hpp b/curves/include/curves/PolynomialSplineScalarCurve.hpp
index 267c265..47b8a57 100644
--- a/curves/include/curves/PolynomialSplineScalarCurve.hpp
+++ b/curves/include/curves/PolynomialSplineScalarCurve.hpp
@@ -131,6 +131,7 @@ class PolynomialSplineScalarCurve : public Curve<ScalarCurveConfig>
   virtual void fitCurve(const std::vector<SplineOptions>& optionList,
                         std::vector<Key>* outKeys = NULL)
   {
+    container_.reset();
     container_.reserveSplines(optionList.size());
     for (const auto& options : optionList) {
       container_.addSpline(PolynomialSplineQuintic(options));
-- 
2.43.0


From fa16996b187b8ad02d15a00828b3ba857e811df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:28 +0000
Subject: [PATCH 15/41] fix: a vector space curve whose first time is not zero
 was evaluated at the wrong times

---
 .../include/curves/PolynomialSplineVectorSpaceCurve.hpp  | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp b/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp
index ea5f9a9..68474ac 100644
--- a/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp
+++ b/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp
@@ -50,13 +50,13 @@ class PolynomialSplineVectorSpaceCurve : public VectorSpaceCurve<N>
 
   virtual Time getMaxTime() const
   {
-    return containers_.at(0).getContainerDuration();
+    return containers_.at(0).getContainerDuration() + minTime_;
   }
 
   virtual bool evaluate(ValueType& value, Time time) const
   {
     for (size_t i = 0; i < N; ++i) {
-      value(i) = containers_.at(i).getPositionAtTime(time);
+      value(i) = containers_.at(i).getPositionAtTime(time - minTime_);
     }
     return true;
   }
@@ -66,10 +66,10 @@ class PolynomialSplineVectorSpaceCurve : public VectorSpaceCurve<N>
 
     for (size_t i = 0; i < N; ++i) {
       if (derivativeOrder == 1) {
-        value(i) = containers_.at(i).getVelocityAtTime(time);
+        value(i) = containers_.at(i).getVelocityAtTime(time - minTime_);
       }
       else if (derivativeOrder == 2) {
-        value(i) = containers_.at(i).getAccelerationAtTime(time);
+        value(i) = containers_.at(i).getAccelerationAtTime(time - minTime_);
       }
       else {
         return false;
@@ -149,6 +149,7 @@ class PolynomialSplineVectorSpaceCurve : public VectorSpaceCurve<N>
     for (size_t i = 0; i < N; ++i) {
       containers_.at(i).reset();
     }
+    minTime_ = 0.0;
   }
 
   virtual void transformCurve(const ValueType /*T*/)
-- 
2.43.0


From 7e46f013a9612b87cb69d1f0b56df5b252a7f05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:28 +0000
Subject: [PATCH 16/41] fix: a failed vector space curve fit left dimensions of
 two different fits

---
 .../PolynomialSplineVectorSpaceCurve.hpp      | 33 +++++++++++++++----
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp b/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp
index 68474ac..64270cc 100644
--- a/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp
+++ b/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp
@@ -87,13 +87,20 @@ class PolynomialSplineVectorSpaceCurve : public VectorSpaceCurve<N>
   virtual void fitCurve(const std::vector<Time>& times, const std::vector<ValueType>& values,
                         std::vector<Key>* outKeys = NULL)
   {
-    minTime_ = times.front();
+    if (times.empty()) {
+      clear();
+      return;
+    }
+    // Fit all dimensions before replacing the current curve.
+    std::vector<PolynomialSplineContainerQuintic> containers(N);
     for (size_t i = 0; i < N; ++i) {
       std::vector<double> scalarValues;
       scalarValues.reserve(times.size());
       for (size_t t = 0; t < times.size(); ++t) scalarValues.push_back(values.at(t)(i));
-      containers_.at(i).setData(times, scalarValues, 0.0, 0.0, 0.0, 0.0);
+      containers.at(i).setData(times, scalarValues, 0.0, 0.0, 0.0, 0.0);
     }
+    containers_.swap(containers);
+    minTime_ = times.front();
   }
 
   virtual void fitCurve(const std::vector<Time>& times,
@@ -103,14 +110,21 @@ class PolynomialSplineVectorSpaceCurve : public VectorSpaceCurve<N>
                         const DerivativeType& finalVelocity,
                         const DerivativeType& finalAcceleration)
   {
-    minTime_ = times.front();
+    if (times.empty()) {
+      clear();
+      return;
+    }
+    // Fit all dimensions before replacing the current curve.
+    std::vector<PolynomialSplineContainerQuintic> containers(N);
     for (size_t i = 0; i < N; ++i) {
       std::vector<double> scalarValues;
       scalarValues.reserve(times.size());
       for (size_t t = 0; t < times.size(); ++t) scalarValues.push_back(values.at(t)(i));
-      containers_.at(i).setData(times, scalarValues, initialVelocity(i), initialAcceleration(i),
+      containers.at(i).setData(times, scalarValues, initialVelocity(i), initialAcceleration(i),
                                 finalVelocity(i), finalAcceleration(i));
     }
+    containers_.swap(containers);
+    minTime_ = times.front();
   }
 
   virtual void fitCurve(const std::vector<Time>& times, const std::vector<ValueType>& values,
@@ -118,7 +132,12 @@ class PolynomialSplineVectorSpaceCurve : public VectorSpaceCurve<N>
                         const std::vector<DerivativeType>& secondDerivatives,
                         std::vector<Key>* outKeys = NULL)
   {
-    minTime_ = times.front();
+    if (times.empty()) {
+      clear();
+      return;
+    }
+    // Fit all dimensions before replacing the current curve.
+    std::vector<PolynomialSplineContainerQuintic> containers(N);
     for (size_t i = 0; i < N; ++i) {
       std::vector<double> scalarValues, scalarFirstDerivates, scalarSecondDerivates;
       scalarValues.reserve(times.size());
@@ -130,10 +149,12 @@ class PolynomialSplineVectorSpaceCurve : public VectorSpaceCurve<N>
         scalarSecondDerivates.push_back(secondDerivatives.at(t)(i));
       }
       // TODO Copy all derivates, right now only first and last are supported.
-      containers_.at(i).setData(times, scalarValues,
+      containers.at(i).setData(times, scalarValues,
                                 *(scalarFirstDerivates.begin()), *(scalarSecondDerivates.begin()),
                                 *(scalarFirstDerivates.end() - 1), *(scalarSecondDerivates.end() - 1));
     }
+    containers_.swap(containers);
+    minTime_ = times.front();
   }
 
 
-- 
2.43.0


From b208bf8bc22592e75fac1419bb61fd51a6b840ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:28 +0000
Subject: [PATCH 17/41] fix: refitting a Hermite position curve kept points of
 the previous fit

---
 curves/src/CubicHermiteE3Curve.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/curves/src/CubicHermiteE3Curve.cpp b/curves/src/CubicHermiteE3Curve.cpp
index 60ad7d3..4284d42 100644
--- a/curves/src/CubicHermiteE3Curve.cpp
+++ b/curves/src/CubicHermiteE3Curve.cpp
@@ -175,6 +175,7 @@ void CubicHermiteE3Curve::fitCurveWithDerivatives(const std::vector<Time>& times
     coefficients.push_back(Coefficient(values[i], derivative));
   }
 
+  manager_.clear();
   manager_.insertCoefficients(times, coefficients, outKeys);
 }
 
-- 
2.43.0


From 94d19894933e8bfc0f95c52f100a84e92252d276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:28 +0000
Subject: [PATCH 18/41] fix: evaluating an empty Hermite position curve at time
 zero dereferenced no coefficient

---
 curves/src/CubicHermiteE3Curve.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curves/src/CubicHermiteE3Curve.cpp b/curves/src/CubicHermiteE3Curve.cpp
index 4284d42..43246ae 100644
--- a/curves/src/CubicHermiteE3Curve.cpp
+++ b/curves/src/CubicHermiteE3Curve.cpp
@@ -184,7 +184,7 @@ void CubicHermiteE3Curve::fitCurveWithDerivatives(const std::vector<Time>& times
 /// Evaluate the ambient space of the curve.
 bool CubicHermiteE3Curve::evaluate(ValueType& value, Time time) const {
   // Check if the curve is only defined at this one time
-   if (manager_.getMaxTime() == time && manager_.getMinTime() == time) {
+   if (!manager_.empty() && manager_.getMaxTime() == time && manager_.getMinTime() == time) {
      value =  manager_.coefficientBegin()->second.coefficient.getPosition();
      return true;
    }
@@ -237,7 +237,7 @@ bool CubicHermiteE3Curve::evaluateDerivative(DerivativeType& derivative, Time ti
 {
   if (derivativeOrder == 1) {
     // Check if the curve is only defined at this one time
-      if (manager_.getMaxTime() == time && manager_.getMinTime() == time) {
+      if (!manager_.empty() && manager_.getMaxTime() == time && manager_.getMinTime() == time) {
         derivative = manager_.coefficientBegin()->second.coefficient.getVelocity();
         return true;
       }
-- 
2.43.0


From 9089dbc09274f358efad28bf537dfee64f7adb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:38 +0000
Subject: [PATCH 19/41] fix: fitting a periodic Hermite position curve to three
 points divided by zero

---
 curves/src/CubicHermiteE3Curve.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/curves/src/CubicHermiteE3Curve.cpp b/curves/src/CubicHermiteE3Curve.cpp
index 43246ae..2cd4f4d 100644
--- a/curves/src/CubicHermiteE3Curve.cpp
+++ b/curves/src/CubicHermiteE3Curve.cpp
@@ -135,8 +135,10 @@ void CubicHermiteE3Curve::fitPeriodicCurve(const std::vector<Time>& times,
    *
    */
   const size_t nPoints = times.size();
-  //TODO Add a check on nPoints which should be >= 2 otherwise that breaks.
-  DerivativeType derivative = calculateSlope(times[nPoints-2], times[1], values[nPoints-2], values[1]);
+  CHECK_GE(nPoints, 2u) << "A periodic curve needs at least two points.";
+  // The point before the first one lies one period before the second last one.
+  const Time period = times[nPoints-1] - times[0];
+  DerivativeType derivative = calculateSlope(times[nPoints-2] - period, times[1], values[nPoints-2], values[1]);
   fitCurveWithDerivatives(times, values, derivative, derivative, outKeys);
 }
 
-- 
2.43.0


From 73513634e2a6e1ad5aa3b28a5f06cd37cd4415ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:38 +0000
Subject: [PATCH 20/41] fix: a failed allocation while fitting a spline
 container led to a double free

---
 curves/include/curves/PolynomialSplineContainer.tpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/curves/include/curves/PolynomialSplineContainer.tpp b/curves/include/curves/PolynomialSplineContainer.tpp
index 75c6024..5202b92 100644
--- a/curves/include/curves/PolynomialSplineContainer.tpp
+++ b/curves/include/curves/PolynomialSplineContainer.tpp
@@ -289,8 +289,9 @@ bool PolynomialSplineContainer<splineOrder_>::setData(
   }
 
   // Initialize Equality matrices.
-  equalityConstraintJacobian_.setZero(num_constraints, solutionSpaceDimension);
-  equalityConstraintTargetValues_.setZero(num_constraints);
+  // (Allocated before they replace the old ones, as Eigen's resizing does not survive a failed allocation.)
+  Eigen::MatrixXd(Eigen::MatrixXd::Zero(num_constraints, solutionSpaceDimension)).swap(equalityConstraintJacobian_);
+  Eigen::VectorXd(Eigen::VectorXd::Zero(num_constraints)).swap(equalityConstraintTargetValues_);
   unsigned int constraintIdx = 0;
 
 
@@ -366,8 +367,9 @@ bool PolynomialSplineContainer<splineOrder_>::setData(
   }
 
   // Initialize Equality matrices.
-  equalityConstraintJacobian_.setZero(num_constraints, solutionSpaceDimension);
-  equalityConstraintTargetValues_.setZero(num_constraints);
+  // (Allocated before they replace the old ones, as Eigen's resizing does not survive a failed allocation.)
+  Eigen::MatrixXd(Eigen::MatrixXd::Zero(num_constraints, solutionSpaceDimension)).swap(equalityConstraintJacobian_);
+  Eigen::VectorXd(Eigen::VectorXd::Zero(num_constraints)).swap(equalityConstraintTargetValues_);
   unsigned int constraintIdx = 0;
 
 
-- 
2.43.0


From 146db1d069cc93707eb46ee38556677c12d20f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:22 +0000
Subject: [PATCH 21/41] fix: importing a time-vector table took a value column
 for the time

---
 curves/src/helpers.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/curves/src/helpers.cpp b/curves/src/helpers.cpp
index 1e8a580..8a6ca44 100644
--- a/curves/src/helpers.cpp
+++ b/curves/src/helpers.cpp
@@ -71,7 +71,7 @@ void loadTimeVectorCSV(std::string fileName, std::vector<curves::Time>* outTimes
   const unsigned vDim = temp.at(0).size() - vOffset;
   Eigen::VectorXd tempVec(vDim);
   for (std::vector<std::vector<std::string> >::iterator it = temp.begin() ; it != temp.end(); ++it) {
-    outTimes->push_back((curves::Time)atof(it->at(1).c_str()));
+    outTimes->push_back((curves::Time)atof(it->at(0).c_str()));
     for (unsigned vIdx = 0; vIdx < vDim; vIdx++) {
       tempVec[vIdx] = atof(it->at(vIdx + vOffset).c_str());
     }
@@ -120,8 +120,8 @@ void loadTimeTimeVectorCSV(std::string fileName, std::vector<curves::Time>* outT
   const unsigned vDim = temp.at(0).size() - vOffset;
   Eigen::VectorXd tempVec(vDim);
   for (std::vector<std::vector<std::string> >::iterator it = temp.begin() ; it != temp.end(); ++it) {
-    outTimes0->push_back((curves::Time)atof(it->at(1).c_str()));
-    outTimes1->push_back((curves::Time)atof(it->at(2).c_str()));
+    outTimes0->push_back((curves::Time)atof(it->at(0).c_str()));
+    outTimes1->push_back((curves::Time)atof(it->at(1).c_str()));
     for (unsigned vIdx = 0; vIdx < vDim; vIdx++) {
       tempVec[vIdx] = atof(it->at(vIdx + vOffset).c_str());
     }
-- 
2.43.0


From 11894d89c5b8bed96aa55e44ec8dcc144f81ead6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:22 +0000
Subject: [PATCH 22/41] fix: exporting a time-vector table kept six digits of a
 number, or none when memory ran out

---
 curves/src/helpers.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/curves/src/helpers.cpp b/curves/src/helpers.cpp
index 8a6ca44..3f8d6b0 100644
--- a/curves/src/helpers.cpp
+++ b/curves/src/helpers.cpp
@@ -6,6 +6,7 @@
 
 #include <curves/helpers.hpp>
 #include <fstream>
+#include <limits>
 #include <glog/logging.h>
 
 
@@ -13,7 +14,9 @@ namespace curves {
 
 template <typename T>
 std::string toString(const T& t) {
-  std::ostringstream ss; ss<<t; return ss.str();
+  std::ostringstream ss; ss.precision(std::numeric_limits<T>::max_digits10); ss<<t;
+  CHECK(ss.good()) << "error converting to string";
+  return ss.str();
 }
 /// \brief Helper function to read CSV files into 'matrix' of strings
 std::vector<std::vector<std::string> > loadCSV(std::string fileName) {
-- 
2.43.0


From 6fb30745275554187a3d0ff2312435f394ff6c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:22 +0000
Subject: [PATCH 23/41] fix: exporting a table ignored errors of opening,
 writing and closing the file

---
 curves/src/helpers.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/curves/src/helpers.cpp b/curves/src/helpers.cpp
index 3f8d6b0..df622c9 100644
--- a/curves/src/helpers.cpp
+++ b/curves/src/helpers.cpp
@@ -57,6 +57,7 @@ void writeCSV(std::string fileName, const std::vector<std::vector<std::string> >
     outFileStream << std::endl;
   }
   outFileStream.close();
+  CHECK(outFileStream.good()) << "error writing output file " << fileName;
 }
 /// \brief Helper function to read CSV files formatted in: time, vectorEntry0, vectorEntry1, ...
 void loadTimeVectorCSV(std::string fileName, std::vector<curves::Time>* outTimes, std::vector<Eigen::VectorXd>* outValues) {
-- 
2.43.0


From 435ec1e6528609d900c0bf6dff1752be5e1d4455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:22 +0000
Subject: [PATCH 24/41] fix: importing a table returned a part of it after a
 read error or failed allocation

---
 curves/src/helpers.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/curves/src/helpers.cpp b/curves/src/helpers.cpp
index df622c9..4eb2c88 100644
--- a/curves/src/helpers.cpp
+++ b/curves/src/helpers.cpp
@@ -36,8 +36,10 @@ std::vector<std::vector<std::string> > loadCSV(std::string fileName) {
     while (getline(ss, field,',')) {
       strRow.push_back(field); // add column entry to row
     }
+    CHECK(!ss.bad()) << "error reading input file " << fileName;
     strMatrix.push_back(strRow); // add row to matrix
   }
+  CHECK(!inFileStream.bad()) << "error reading input file " << fileName;
   inFileStream.close();
   return strMatrix;
 }
-- 
2.43.0


From cf8b93a5bbad20613b51a8a961261187c84aab7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:11 +0000
Subject: [PATCH 25/41] fix: dumping a Hermite curve reported success although
 writing the file had failed

---
 curves/src/CubicHermiteE3Curve.cpp  | 5 ++---
 curves/src/CubicHermiteSE3Curve.cpp | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/curves/src/CubicHermiteE3Curve.cpp b/curves/src/CubicHermiteE3Curve.cpp
index 2cd4f4d..7d35681 100644
--- a/curves/src/CubicHermiteE3Curve.cpp
+++ b/curves/src/CubicHermiteE3Curve.cpp
@@ -72,9 +72,8 @@ bool CubicHermiteE3Curve::writeEvalToFile(const std::string& filename, int nSamp
     fprintf(fp, "%lf %lf %lf ", velocity.x(), velocity.y(), velocity.z());
     fprintf(fp, "\n");
   }
-  fclose(fp);
-
-  return true;
+  const bool isWritten = !ferror(fp);
+  return (fclose(fp) == 0) && isWritten;
 }
 
 /// The first valid time for the curve.
diff --git a/curves/src/CubicHermiteSE3Curve.cpp b/curves/src/CubicHermiteSE3Curve.cpp
index b1f9c28..1d48b8e 100644
--- a/curves/src/CubicHermiteSE3Curve.cpp
+++ b/curves/src/CubicHermiteSE3Curve.cpp
@@ -77,9 +77,8 @@ bool CubicHermiteSE3Curve::writeEvalToFile(const std::string& filename, int nSam
     fprintf(fp, "%lf %lf %lf ", twist.getRotationalVelocity().x(), twist.getRotationalVelocity().y(), twist.getRotationalVelocity().z());
     fprintf(fp, "\n");
   }
-  fclose(fp);
-
-  return true;
+  const bool isWritten = !ferror(fp);
+  return (fclose(fp) == 0) && isWritten;
 }
 
 Time CubicHermiteSE3Curve::getMaxTime() const {
-- 
2.43.0


From 9bfb67da6d27665c98e308cee6c5234c5626f4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:25 +0000
Subject: [PATCH 26/41] fix: evaluating an empty Hermite pose curve at time
 zero dereferenced no coefficient

---
 curves/src/CubicHermiteSE3Curve.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curves/src/CubicHermiteSE3Curve.cpp b/curves/src/CubicHermiteSE3Curve.cpp
index 1d48b8e..e950154 100644
--- a/curves/src/CubicHermiteSE3Curve.cpp
+++ b/curves/src/CubicHermiteSE3Curve.cpp
@@ -193,7 +193,7 @@ void CubicHermiteSE3Curve::extend(const std::vector<Time>& /*times*/,
 
 bool CubicHermiteSE3Curve::evaluate(ValueType& value, Time time) const {
   // Check if the curve is only defined at this one time
-  if (manager_.getMaxTime() == time && manager_.getMinTime() == time) {
+  if (!manager_.empty() && manager_.getMaxTime() == time && manager_.getMinTime() == time) {
     value =  manager_.coefficientBegin()->second.coefficient.getTransformation();
     return true;
   }
@@ -272,7 +272,7 @@ bool CubicHermiteSE3Curve::evaluateDerivative(DerivativeType& derivative,
 {
   if (derivativeOrder == 1) {
     // Check if the curve is only defined at this one time
-    if (manager_.getMaxTime() == time && manager_.getMinTime() == time) {
+    if (!manager_.empty() && manager_.getMaxTime() == time && manager_.getMinTime() == time) {
       derivative = manager_.coefficientBegin()->second.coefficient.getTransformationDerivative();
       return true;
     }
-- 
2.43.0


From 045b4c51f949120b6fcd482b8b29237e95e54721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:12 +0000
Subject: [PATCH 27/41] fix: fitting a periodic Hermite pose curve to three
 points divided by zero

---
 curves/src/CubicHermiteSE3Curve.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/curves/src/CubicHermiteSE3Curve.cpp b/curves/src/CubicHermiteSE3Curve.cpp
index e950154..15c471c 100644
--- a/curves/src/CubicHermiteSE3Curve.cpp
+++ b/curves/src/CubicHermiteSE3Curve.cpp
@@ -152,7 +152,10 @@ void CubicHermiteSE3Curve::fitPeriodicCurve(const std::vector<Time>& times,
    *
    */
   const size_t nPoints = times.size();
-  CubicHermiteSE3Curve::DerivativeType derivative = calculateSlope(times[nPoints-2], times[1], values[nPoints-2], values[1]);
+  CHECK_GE(nPoints, 2u) << "A periodic curve needs at least two points.";
+  // The point before the first one lies one period before the second last one.
+  const Time period = times[nPoints-1] - times[0];
+  CubicHermiteSE3Curve::DerivativeType derivative = calculateSlope(times[nPoints-2] - period, times[1], values[nPoints-2], values[1]);
   fitCurveWithDerivatives(times, values, derivative, derivative, outKeys);
 }
 
-- 
2.43.0


From cbe1a3582b651c6deb9d3088d5060171b3a43cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:04 +0000
Subject: [PATCH 28/41] fix: a trajectory message naming no joints was applied
 as if it named the joint first

---
 curves_ros/src/RosJointTrajectoryInterface.cpp                   | 1 +
 curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp           | 1 +
 .../src/RosMultiDOFJointTrajectoryTranslationInterface.cpp       | 1 +
 3 files changed, 3 insertions(+)

diff --git a/curves_ros/src/RosJointTrajectoryInterface.cpp b/curves_ros/src/RosJointTrajectoryInterface.cpp
index 0998e76..dfdb2da 100644
--- a/curves_ros/src/RosJointTrajectoryInterface.cpp
+++ b/curves_ros/src/RosJointTrajectoryInterface.cpp
@@ -28,6 +28,7 @@ bool RosJointTrajectoryInterface::fromMessage(const trajectory_msgs::JointTrajec
                                               const std::string& jointName)
 {
   size_t nJoints = message.joint_names.size();
+  if (nJoints == 0) return false; // Joint name not found.
   size_t j = 0;
   for (; j < nJoints; ++j) {
     if (message.joint_names[j] == jointName) break;
diff --git a/curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp b/curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp
index dceae8e..663c262 100644
--- a/curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp
+++ b/curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp
@@ -31,6 +31,7 @@ bool RosMultiDOFJointTrajectoryInterface::fromMessage(
     const trajectory_msgs::MultiDOFJointTrajectory& message, const std::string& jointName)
 {
   size_t nJoints = message.joint_names.size();
+  if (nJoints == 0) return false; // Joint name not found.
   size_t j = 0;
   for (; j < nJoints; ++j) {
     if (message.joint_names[j] == jointName) break;
diff --git a/curves_ros/src/RosMultiDOFJointTrajectoryTranslationInterface.cpp b/curves_ros/src/RosMultiDOFJointTrajectoryTranslationInterface.cpp
index 8961923..d337e30 100644
--- a/curves_ros/src/RosMultiDOFJointTrajectoryTranslationInterface.cpp
+++ b/curves_ros/src/RosMultiDOFJointTrajectoryTranslationInterface.cpp
@@ -28,6 +28,7 @@ bool RosMultiDOFJointTrajectoryTranslationInterface::fromMessage(
     const trajectory_msgs::MultiDOFJointTrajectory& message, const std::string& jointName)
 {
   size_t nJoints = message.joint_names.size();
+  if (nJoints == 0) return false; // Joint name not found.
   size_t j = 0;
   for (; j < nJoints; ++j) {
     if (message.joint_names[j] == jointName) break;
-- 
2.43.0


From 2b1d0214c51ddfdb3be4e70d75f8f460ec1d6e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:04 +0000
Subject: [PATCH 29/41] fix: trajectory messages without waypoints or lacking
 data of the joint were accepted

---
 curves_ros/src/RosJointTrajectoryInterface.cpp                 | 3 +++
 curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp         | 3 +++
 .../src/RosMultiDOFJointTrajectoryTranslationInterface.cpp     | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/curves_ros/src/RosJointTrajectoryInterface.cpp b/curves_ros/src/RosJointTrajectoryInterface.cpp
index dfdb2da..f825a38 100644
--- a/curves_ros/src/RosJointTrajectoryInterface.cpp
+++ b/curves_ros/src/RosJointTrajectoryInterface.cpp
@@ -35,10 +35,13 @@ bool RosJointTrajectoryInterface::fromMessage(const trajectory_msgs::JointTrajec
     if (j == nJoints - 1) return false; // Joint name not found.
   }
 
+  if (message.points.empty()) return false; // No waypoints.
+
   std::vector<Time> times;
   std::vector<PolynomialSplineQuinticScalarCurve::ValueType> values;
 
   for (const auto& point : message.points) {
+    if (point.positions.size() <= j) return false; // No data for the joint.
     times.push_back(ros::Duration(point.time_from_start).toSec());
     values.push_back(point.positions[j]);
   }
diff --git a/curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp b/curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp
index 663c262..e87fa1b 100644
--- a/curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp
+++ b/curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp
@@ -38,10 +38,13 @@ bool RosMultiDOFJointTrajectoryInterface::fromMessage(
     if (j == nJoints - 1) return false; // Joint name not found.
   }
 
+  if (message.points.empty()) return false; // No waypoints.
+
   std::vector<Time> times;
   std::vector<CubicHermiteSE3Curve::ValueType> values;
 
   for (const auto& point : message.points) {
+    if (point.transforms.size() <= j) return false; // No data for the joint.
     times.push_back(ros::Duration(point.time_from_start).toSec());
     CubicHermiteSE3Curve::ValueType pose;
     kindr_ros::convertFromRosGeometryMsg(point.transforms[j], pose);
diff --git a/curves_ros/src/RosMultiDOFJointTrajectoryTranslationInterface.cpp b/curves_ros/src/RosMultiDOFJointTrajectoryTranslationInterface.cpp
index d337e30..f2da9dd 100644
--- a/curves_ros/src/RosMultiDOFJointTrajectoryTranslationInterface.cpp
+++ b/curves_ros/src/RosMultiDOFJointTrajectoryTranslationInterface.cpp
@@ -35,10 +35,13 @@ bool RosMultiDOFJointTrajectoryTranslationInterface::fromMessage(
     if (j == nJoints - 1) return false; // Joint name not found.
   }
 
+  if (message.points.empty()) return false; // No waypoints.
+
   std::vector<Time> times;
   std::vector<PolynomialSplineQuinticVector3Curve::ValueType> values;
 
   for (const auto& point : message.points) { // TODO Make nicer with ROS to kindr transforms.
+    if (point.transforms.size() <= j) return false; // No data for the joint.
     times.push_back(ros::Duration(point.time_from_start).toSec());
     PolynomialSplineQuinticVector3Curve::ValueType position(point.transforms[j].translation.x,
                                                             point.transforms[j].translation.y,
-- 
2.43.0


From 3c9260e125c3f15f765c050ae74253d826e5f5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:04 +0000
Subject: [PATCH 30/41] fix: trajectory messages whose waypoints no curve can
 pass through were accepted

---
 curves_ros/src/RosJointTrajectoryInterface.cpp             | 7 ++++++-
 curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp     | 5 +++++
 .../src/RosMultiDOFJointTrajectoryTranslationInterface.cpp | 7 ++++++-
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/curves_ros/src/RosJointTrajectoryInterface.cpp b/curves_ros/src/RosJointTrajectoryInterface.cpp
index f825a38..e5a2dde 100644
--- a/curves_ros/src/RosJointTrajectoryInterface.cpp
+++ b/curves_ros/src/RosJointTrajectoryInterface.cpp
@@ -35,7 +35,7 @@ bool RosJointTrajectoryInterface::fromMessage(const trajectory_msgs::JointTrajec
     if (j == nJoints - 1) return false; // Joint name not found.
   }
 
-  if (message.points.empty()) return false; // No waypoints.
+  if (message.points.size() < 2) return false; // Too few waypoints for a spline.
 
   std::vector<Time> times;
   std::vector<PolynomialSplineQuinticScalarCurve::ValueType> values;
@@ -46,6 +46,11 @@ bool RosJointTrajectoryInterface::fromMessage(const trajectory_msgs::JointTrajec
     values.push_back(point.positions[j]);
   }
 
+  // No curve runs through waypoints whose times do not increase.
+  for (size_t i = 1; i < times.size(); ++i) {
+    if (times[i] <= times[i-1]) return false;
+  }
+
   // TODO Make this work also with velocities and accelerations.
 
   fitCurve(times, values);
diff --git a/curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp b/curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp
index e87fa1b..29d0bb1 100644
--- a/curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp
+++ b/curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp
@@ -51,6 +51,11 @@ bool RosMultiDOFJointTrajectoryInterface::fromMessage(
     values.push_back(pose);
   }
 
+  // No curve runs through waypoints whose times do not increase.
+  for (size_t i = 1; i < times.size(); ++i) {
+    if (times[i] <= times[i-1]) return false;
+  }
+
   // TODO Make this work also with velocities and accelerations.
 
   fitCurve(times, values);
diff --git a/curves_ros/src/RosMultiDOFJointTrajectoryTranslationInterface.cpp b/curves_ros/src/RosMultiDOFJointTrajectoryTranslationInterface.cpp
index f2da9dd..33a5da9 100644
--- a/curves_ros/src/RosMultiDOFJointTrajectoryTranslationInterface.cpp
+++ b/curves_ros/src/RosMultiDOFJointTrajectoryTranslationInterface.cpp
@@ -35,7 +35,7 @@ bool RosMultiDOFJointTrajectoryTranslationInterface::fromMessage(
     if (j == nJoints - 1) return false; // Joint name not found.
   }
 
-  if (message.points.empty()) return false; // No waypoints.
+  if (message.points.size() < 2) return false; // Too few waypoints for a spline.
 
   std::vector<Time> times;
   std::vector<PolynomialSplineQuinticVector3Curve::ValueType> values;
@@ -49,6 +49,11 @@ bool RosMultiDOFJointTrajectoryTranslationInterface::fromMessage(
     values.push_back(position);
   }
 
+  // No curve runs through waypoints whose times do not increase.
+  for (size_t i = 1; i < times.size(); ++i) {
+    if (times[i] <= times[i-1]) return false;
+  }
+
   // TODO Make this work also with velocities and accelerations.
 
   fitCurve(times, values);
-- 
2.43.0


From c2295ca170a12a086dd59f79c8ddaa20257f17a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:13 +0000
Subject: [PATCH 31/41] fix: a failed allocation while fitting a Hermite curve
 left a part of the curve

---
 curves/src/CubicHermiteE3Curve.cpp  | 6 ++++--
 curves/src/CubicHermiteSE3Curve.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/curves/src/CubicHermiteE3Curve.cpp b/curves/src/CubicHermiteE3Curve.cpp
index 7d35681..d446be8 100644
--- a/curves/src/CubicHermiteE3Curve.cpp
+++ b/curves/src/CubicHermiteE3Curve.cpp
@@ -176,8 +176,10 @@ void CubicHermiteE3Curve::fitCurveWithDerivatives(const std::vector<Time>& times
     coefficients.push_back(Coefficient(values[i], derivative));
   }
 
-  manager_.clear();
-  manager_.insertCoefficients(times, coefficients, outKeys);
+  // The curve is replaced only once all of its coefficients are there.
+  LocalSupport2CoefficientManager<Coefficient> manager;
+  manager.insertCoefficients(times, coefficients, outKeys);
+  manager_ = manager;
 }
 
 
diff --git a/curves/src/CubicHermiteSE3Curve.cpp b/curves/src/CubicHermiteSE3Curve.cpp
index 15c471c..da0933f 100644
--- a/curves/src/CubicHermiteSE3Curve.cpp
+++ b/curves/src/CubicHermiteSE3Curve.cpp
@@ -112,7 +112,6 @@ void CubicHermiteSE3Curve::fitCurveWithDerivatives(const std::vector<Time>& time
                                     std::vector<Key>* outKeys)
 {
   CHECK_EQ(times.size(), values.size());
-  clear();
 
   // construct the Hemrite coefficients
   std::vector<Coefficient> coefficients;
@@ -141,7 +140,10 @@ void CubicHermiteSE3Curve::fitCurveWithDerivatives(const std::vector<Time>& time
     coefficients.push_back(Coefficient(values[i], derivative));
   }
 
-  manager_.insertCoefficients(times, coefficients, outKeys);
+  // The curve is replaced only once all of its coefficients are there.
+  LocalSupport2CoefficientManager<Coefficient> manager;
+  manager.insertCoefficients(times, coefficients, outKeys);
+  manager_ = manager;
 }
 
 void CubicHermiteSE3Curve::fitPeriodicCurve(const std::vector<Time>& times,
-- 
2.43.0


From 03fb78bddef228726ae881a55f0b399d4746acfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:13 +0000
Subject: [PATCH 32/41] fix: a failed allocation while assigning a spline
 container led to a double free

---
 .../include/curves/PolynomialSplineContainer.hpp  | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/curves/include/curves/PolynomialSplineContainer.hpp b/curves/include/curves/PolynomialSplineContainer.hpp
index cfa2753..78dffc7 100644
--- a/curves/include/curves/PolynomialSplineContainer.hpp
+++ b/curves/include/curves/PolynomialSplineContainer.hpp
@@ -33,6 +33,21 @@ class PolynomialSplineContainer {
   PolynomialSplineContainer();
   virtual ~PolynomialSplineContainer() = default;
 
+  PolynomialSplineContainer(const PolynomialSplineContainer& other) = default;
+
+  //! Copies first, so that running out of memory leaves the container as it is.
+  PolynomialSplineContainer& operator=(const PolynomialSplineContainer& other) {
+    PolynomialSplineContainer copy(other);
+    splines_.swap(copy.splines_);
+    equalityConstraintJacobian_.swap(copy.equalityConstraintJacobian_);
+    equalityConstraintTargetValues_.swap(copy.equalityConstraintTargetValues_);
+    timeOffset_ = copy.timeOffset_;
+    containerTime_ = copy.containerTime_;
+    containerDuration_ = copy.containerDuration_;
+    activeSplineIdx_ = copy.activeSplineIdx_;
+    return *this;
+  }
+
   //! Get a pointer to the spline with a given index.
   SplineType* getSpline(int splineIndex);
 
-- 
2.43.0


From c88620c514eacb5b7336662743e2d21e541463a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:13 +0000
Subject: [PATCH 33/41] fix: a failed allocation while assigning a vector space
 curve left dimensions of two curves

---
 .../curves/PolynomialSplineVectorSpaceCurve.hpp      | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp b/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp
index 64270cc..1029437 100644
--- a/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp
+++ b/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp
@@ -39,6 +39,18 @@ class PolynomialSplineVectorSpaceCurve : public VectorSpaceCurve<N>
   {
   }
 
+  PolynomialSplineVectorSpaceCurve(const PolynomialSplineVectorSpaceCurve& other) = default;
+
+  //! Copies first, so that running out of memory leaves the curve as it is.
+  PolynomialSplineVectorSpaceCurve& operator=(const PolynomialSplineVectorSpaceCurve& other)
+  {
+    std::vector<PolynomialSplineContainerQuintic> containers(other.containers_);
+    Parent::operator=(other);
+    containers_.swap(containers);
+    minTime_ = other.minTime_;
+    return *this;
+  }
+
   virtual void print(const std::string& /*str*/) const
   {
   }
-- 
2.43.0


From 2d81069ff2f7b021e94a906b6c9654a2c91e60fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:13 +0000
Subject: [PATCH 34/41] fix: importing a time-vector table dropped the surplus
 fields of longer rows

---
 curves/src/helpers.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/curves/src/helpers.cpp b/curves/src/helpers.cpp
index 4eb2c88..0d3be1a 100644
--- a/curves/src/helpers.cpp
+++ b/curves/src/helpers.cpp
@@ -77,6 +77,7 @@ void loadTimeVectorCSV(std::string fileName, std::vector<curves::Time>* outTimes
   const unsigned vDim = temp.at(0).size() - vOffset;
   Eigen::VectorXd tempVec(vDim);
   for (std::vector<std::vector<std::string> >::iterator it = temp.begin() ; it != temp.end(); ++it) {
+    CHECK_EQ(it->size(), vDim + vOffset) << "CSV " << fileName << " has rows of different lengths.";
     outTimes->push_back((curves::Time)atof(it->at(0).c_str()));
     for (unsigned vIdx = 0; vIdx < vDim; vIdx++) {
       tempVec[vIdx] = atof(it->at(vIdx + vOffset).c_str());
@@ -126,6 +127,7 @@ void loadTimeTimeVectorCSV(std::string fileName, std::vector<curves::Time>* outT
   const unsigned vDim = temp.at(0).size() - vOffset;
   Eigen::VectorXd tempVec(vDim);
   for (std::vector<std::vector<std::string> >::iterator it = temp.begin() ; it != temp.end(); ++it) {
+    CHECK_EQ(it->size(), vDim + vOffset) << "CSV " << fileName << " has rows of different lengths.";
     outTimes0->push_back((curves::Time)atof(it->at(0).c_str()));
     outTimes1->push_back((curves::Time)atof(it->at(1).c_str()));
     for (unsigned vIdx = 0; vIdx < vDim; vIdx++) {
-- 
2.43.0


From 5c0955f033ad742b049cb0f56a1b7c5c88f3b399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:59 +0000
Subject: [PATCH 35/41] fix: importing a time-vector table read fields that are
 no numbers as zero

---
 curves/src/helpers.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/curves/src/helpers.cpp b/curves/src/helpers.cpp
index 0d3be1a..f5c2192 100644
--- a/curves/src/helpers.cpp
+++ b/curves/src/helpers.cpp
@@ -5,6 +5,7 @@
  */
 
 #include <curves/helpers.hpp>
+#include <cstdlib>
 #include <fstream>
 #include <limits>
 #include <glog/logging.h>
@@ -18,6 +19,14 @@ std::string toString(const T& t) {
   CHECK(ss.good()) << "error converting to string";
   return ss.str();
 }
+/// \brief Helper function to convert a field of a CSV file to a number
+static double toNumber(const std::string& field, const std::string& fileName) {
+  char* end = NULL;
+  const double number = strtod(field.c_str(), &end);
+  CHECK(end != field.c_str() && field.find_first_not_of(" \t\r", end - field.c_str()) == std::string::npos)
+      << "CSV " << fileName << " has a field that is not a number: " << field;
+  return number;
+}
 /// \brief Helper function to read CSV files into 'matrix' of strings
 std::vector<std::vector<std::string> > loadCSV(std::string fileName) {
   // Open file stream and check that it is error free
@@ -78,9 +87,9 @@ void loadTimeVectorCSV(std::string fileName, std::vector<curves::Time>* outTimes
   Eigen::VectorXd tempVec(vDim);
   for (std::vector<std::vector<std::string> >::iterator it = temp.begin() ; it != temp.end(); ++it) {
     CHECK_EQ(it->size(), vDim + vOffset) << "CSV " << fileName << " has rows of different lengths.";
-    outTimes->push_back((curves::Time)atof(it->at(0).c_str()));
+    outTimes->push_back((curves::Time)toNumber(it->at(0), fileName));
     for (unsigned vIdx = 0; vIdx < vDim; vIdx++) {
-      tempVec[vIdx] = atof(it->at(vIdx + vOffset).c_str());
+      tempVec[vIdx] = toNumber(it->at(vIdx + vOffset), fileName);
     }
     outValues->push_back(tempVec);
   }
@@ -128,10 +137,10 @@ void loadTimeTimeVectorCSV(std::string fileName, std::vector<curves::Time>* outT
   Eigen::VectorXd tempVec(vDim);
   for (std::vector<std::vector<std::string> >::iterator it = temp.begin() ; it != temp.end(); ++it) {
     CHECK_EQ(it->size(), vDim + vOffset) << "CSV " << fileName << " has rows of different lengths.";
-    outTimes0->push_back((curves::Time)atof(it->at(0).c_str()));
-    outTimes1->push_back((curves::Time)atof(it->at(1).c_str()));
+    outTimes0->push_back((curves::Time)toNumber(it->at(0), fileName));
+    outTimes1->push_back((curves::Time)toNumber(it->at(1), fileName));
     for (unsigned vIdx = 0; vIdx < vDim; vIdx++) {
-      tempVec[vIdx] = atof(it->at(vIdx + vOffset).c_str());
+      tempVec[vIdx] = toNumber(it->at(vIdx + vOffset), fileName);
     }
     outValues->push_back(tempVec);
   }
-- 
2.43.0


From 1f3160bbea716ace4dca26b08745a72655c647f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:07 +0000
Subject: [PATCH 36/41] fix: saving a pose curve at times it is not defined at
 wrote stale values

---
 curves/src/CubicHermiteSE3Curve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curves/src/CubicHermiteSE3Curve.cpp b/curves/src/CubicHermiteSE3Curve.cpp
index da0933f..81ae712 100644
--- a/curves/src/CubicHermiteSE3Curve.cpp
+++ b/curves/src/CubicHermiteSE3Curve.cpp
@@ -585,7 +585,7 @@ void CubicHermiteSE3Curve::saveCurveAtTimes(const std::string& filename, std::ve
   std::vector<Eigen::VectorXd> curveValues;
   ValueType val;
   for (size_t i = 0; i < times.size(); ++i) {
-    evaluate(val, times[i]);
+    CHECK(evaluate(val, times[i])) << "The curve is not defined at time " << times[i];
     v << val.getPosition().x(), val.getPosition().y(), val.getPosition().z(),
         val.getRotation().w(), val.getRotation().x(), val.getRotation().y(), val.getRotation().z();
     curveValues.push_back(v);
-- 
2.43.0


From f68c7527b336dd854931455ce0c1b36954665317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:09 +0000
Subject: [PATCH 37/41] fix: streaming into a Slerp curve lost coefficients
 after a failed allocation or a lowered sampling ratio

---
 curves/include/curves/SlerpSE3Curve.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/curves/include/curves/SlerpSE3Curve.hpp b/curves/include/curves/SlerpSE3Curve.hpp
index 30dad54..dd3c7cd 100644
--- a/curves/include/curves/SlerpSE3Curve.hpp
+++ b/curves/include/curves/SlerpSE3Curve.hpp
@@ -220,15 +220,15 @@ inline void SamplingPolicy::extend<SlerpSE3Curve, SE3>(const std::vector<Time>&
       if (minimumMeasurements_ == 1) {
         curve->manager_.addCoefficientAtEnd(times[0], values[0], outKeys);
       } else {
-        ++measurementsSinceLastExtend_;
-
-        if (measurementsSinceLastExtend_ == 1) {
+        if (measurementsSinceLastExtend_ == 0) {
           curve->manager_.addCoefficientAtEnd(times[0], values[0], outKeys);
         } else {
           SlerpSE3Curve::TimeToKeyCoefficientMap::iterator itPrev = (--curve->manager_.coefficientEnd());
           curve->manager_.modifyCoefficient(itPrev, times[0], values[0]);
         }
-        if (measurementsSinceLastExtend_ == minimumMeasurements_) {
+        // Counted only now: the lines above may have thrown.
+        ++measurementsSinceLastExtend_;
+        if (measurementsSinceLastExtend_ >= minimumMeasurements_) {
           measurementsSinceLastExtend_ = 0;
         }
       }
-- 
2.43.0


From 5f5d941d9679f0a9bba45adc255c3e84cc33f6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:38 +0000
Subject: [PATCH 38/41] fix: a late measurement moved the newest coefficient of
 a Slerp curve back in time

---
 curves/include/curves/SlerpSE3Curve.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/curves/include/curves/SlerpSE3Curve.hpp b/curves/include/curves/SlerpSE3Curve.hpp
index dd3c7cd..9275f1d 100644
--- a/curves/include/curves/SlerpSE3Curve.hpp
+++ b/curves/include/curves/SlerpSE3Curve.hpp
@@ -223,6 +223,7 @@ inline void SamplingPolicy::extend<SlerpSE3Curve, SE3>(const std::vector<Time>&
         if (measurementsSinceLastExtend_ == 0) {
           curve->manager_.addCoefficientAtEnd(times[0], values[0], outKeys);
         } else {
+          CHECK(times[0] >= curve->getMaxTime()) << "Measurement is older than the curve";
           SlerpSE3Curve::TimeToKeyCoefficientMap::iterator itPrev = (--curve->manager_.coefficientEnd());
           curve->manager_.modifyCoefficient(itPrev, times[0], values[0]);
         }
-- 
2.43.0


From a6a68ebb5c6486098a98d315f0774247150253da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:07 +0000
Subject: [PATCH 39/41] fix: a cleared or refitted Slerp curve went on thinning
 the measurements of the previous one

---
 curves/include/curves/SlerpSE3Curve.hpp | 1 +
 curves/src/SlerpSE3Curve.cpp            | 1 +
 2 files changed, 2 insertions(+)

diff --git a/curves/include/curves/SlerpSE3Curve.hpp b/curves/include/curves/SlerpSE3Curve.hpp
index 9275f1d..d8542a7 100644
--- a/curves/include/curves/SlerpSE3Curve.hpp
+++ b/curves/include/curves/SlerpSE3Curve.hpp
@@ -219,6 +219,7 @@ inline void SamplingPolicy::extend<SlerpSE3Curve, SE3>(const std::vector<Time>&
     } else {
       if (minimumMeasurements_ == 1) {
         curve->manager_.addCoefficientAtEnd(times[0], values[0], outKeys);
+        measurementsSinceLastExtend_ = 0;
       } else {
         if (measurementsSinceLastExtend_ == 0) {
           curve->manager_.addCoefficientAtEnd(times[0], values[0], outKeys);
diff --git a/curves/src/SlerpSE3Curve.cpp b/curves/src/SlerpSE3Curve.cpp
index 8dac84e..9dd37d6 100644
--- a/curves/src/SlerpSE3Curve.cpp
+++ b/curves/src/SlerpSE3Curve.cpp
@@ -256,6 +256,7 @@ void SlerpSE3Curve::setSamplingRatio(const int ratio) {
 
 void SlerpSE3Curve::clear() {
   manager_.clear();
+  slerpPolicy_.setMeasurementsSinceLastExtend_(0);
 }
 
 void SlerpSE3Curve::transformCurve(const ValueType T) {
-- 
2.43.0


From 26fc6fd5e67ef4fe48960d4428af6cffc8fdf9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:41 +0000
Subject: [PATCH 40/41] fix: reading a table dropped an empty last field of a
 row

---
 curves/src/helpers.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/curves/src/helpers.cpp b/curves/src/helpers.cpp
index f5c2192..53fb214 100644
--- a/curves/src/helpers.cpp
+++ b/curves/src/helpers.cpp
@@ -46,6 +46,9 @@ std::vector<std::vector<std::string> > loadCSV(std::string fileName) {
       strRow.push_back(field); // add column entry to row
     }
     CHECK(!ss.bad()) << "error reading input file " << fileName;
+    if (!line.empty() && line[line.size() - 1] == ',') {
+      strRow.push_back(std::string()); // an empty last field is not found by getline
+    }
     strMatrix.push_back(strRow); // add row to matrix
   }
   CHECK(!inFileStream.bad()) << "error reading input file " << fileName;
-- 
2.43.0


From ad56f2b2857d448f41e54bb8a042518205c9ba54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:16 +0000
Subject: [PATCH 41/41] fix: a failed allocation while fitting a Slerp curve
 left a part of the curve

---
 curves/src/SlerpSE3Curve.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/curves/src/SlerpSE3Curve.cpp b/curves/src/SlerpSE3Curve.cpp
index 9dd37d6..f761398 100644
--- a/curves/src/SlerpSE3Curve.cpp
+++ b/curves/src/SlerpSE3Curve.cpp
@@ -68,8 +68,11 @@ void SlerpSE3Curve::fitCurve(const std::vector<Time>& times,
                              std::vector<Key>* outKeys) {
   CHECK_EQ(times.size(), values.size());
   if(times.size() > 0) {
+    // The curve is replaced only once all of its coefficients are there.
+    LocalSupport2CoefficientManager<Coefficient> manager;
+    manager.insertCoefficients(times,values, outKeys);
     clear();
-    manager_.insertCoefficients(times,values, outKeys);
+    manager_ = manager;
   }
 }
 
-- 
2.43.0

