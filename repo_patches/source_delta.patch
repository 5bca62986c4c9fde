From 770f1c9194ddc7370bdd15108281e6ae2b6aa800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:07:07 +0000
Subject: [PATCH 1/4] fix: handle unpaired creators when making a diagram from
 function values

A pairing of a function marks creators that are never destroyed by an
invalid destroyer index. Looking up its function value threw
std::out_of_range. Add such creators as unpaired points, as is already
done for simplicial complexes.
---
 include/aleph/persistenceDiagrams/Calculation.hh | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/aleph/persistenceDiagrams/Calculation.hh b/include/aleph/persistenceDiagrams/Calculation.hh
index 0c58a8c..9fc67c9 100644
--- a/include/aleph/persistenceDiagrams/Calculation.hh
+++ b/include/aleph/persistenceDiagrams/Calculation.hh
@@ -90,10 +90,13 @@ PersistenceDiagram<DataType> makePersistenceDiagram( const PersistencePairing<In
 
   for( auto&& pair : pairing )
   {
-    auto&& i = pair.first;
-    auto&& j = pair.second;
+    auto&& i = pair.first;    // Index of creator (always valid)
+    auto&& j = pair.second;   // Index of destroyer (may be invalid)
 
-    D.add( functionValues.at(i), functionValues.at(j) );
+    if( j < functionValues.size() )
+      D.add( functionValues.at(i), functionValues.at(j) );
+    else
+      D.add( functionValues.at(i) );
   }
 
   return D;
-- 
2.43.0


From 0880a559b5543265644f8011c5a43c3e8273dbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:40:17 +0000
Subject: [PATCH 2/4] fix: count the highest dimension in the Euler
 characteristic

The sums over simplices and over Betti numbers stopped one dimension too
early, so a single vertex had Euler characteristic 0 instead of 1.
---
 include/aleph/persistentHomology/EulerCharacteristic.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/aleph/persistentHomology/EulerCharacteristic.hh b/include/aleph/persistentHomology/EulerCharacteristic.hh
index b85541e..949e21e 100644
--- a/include/aleph/persistentHomology/EulerCharacteristic.hh
+++ b/include/aleph/persistentHomology/EulerCharacteristic.hh
@@ -30,9 +30,9 @@ template <class SimplicialComplex> long eulerCharacteristic( const SimplicialCom
   }
 
   short s = 1;
-  for( std::size_t d = 0; d < K.dimension(); d++ )
+  for( std::size_t d = 0; d <= K.dimension(); d++ )
   {
-    chi += s * cardinality[d];
+    chi += s * static_cast<long>( cardinality[d] );
     s    = s * (-1);
   }
 
@@ -64,9 +64,9 @@ template <class InputIterator> long eulerCharacteristic( InputIterator begin,
   long chi = 0;
   short s  = 1;
 
-  for( std::size_t d = 0; d < D; d++ )
+  for( std::size_t d = 0; d <= D; d++ )
   {
-    chi += s * betti[d];
+    chi += s * static_cast<long>( betti[d] );
     s   *= (-1);
   }
 
-- 
2.43.0


From aad49930ce4189f285765df39cd86cc5987e516f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:40:17 +0000
Subject: [PATCH 3/4] fix: call dimension() in the persistent Euler
 characteristic

The member function was named but not called, so the template could not
be instantiated.
---
 include/aleph/persistentHomology/EulerCharacteristic.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/aleph/persistentHomology/EulerCharacteristic.hh b/include/aleph/persistentHomology/EulerCharacteristic.hh
index 949e21e..2fe0fcf 100644
--- a/include/aleph/persistentHomology/EulerCharacteristic.hh
+++ b/include/aleph/persistentHomology/EulerCharacteristic.hh
@@ -1,6 +1,7 @@
 #ifndef ALEPH_EULER_CHARACTERISTIC_HH__
 #define ALEPH_EULER_CHARACTERISTIC_HH__
 
+#include <cmath>
 #include <iterator>
 #include <map>
 
@@ -98,7 +99,7 @@ template <class InputIterator> auto persistentEulerCharacteristic( InputIterator
   for( auto it = begin; it != end; ++it )
   {
     auto&& diagram = *it;
-    auto s         = std::pow( -1, it->dimension);
+    auto s         = std::pow( -1, it->dimension() );
 
     for( auto&& point : diagram )
       chi += s * point.persistence();
-- 
2.43.0


From 9030f1792681660b8113d06ba4455f849b516764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:29:37 +0000
Subject: [PATCH 4/4] fix: scale the error term together with a compensated sum

---
 include/aleph/math/KahanSummation.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/aleph/math/KahanSummation.hh b/include/aleph/math/KahanSummation.hh
index a94e46c..8f6978a 100644
--- a/include/aleph/math/KahanSummation.hh
+++ b/include/aleph/math/KahanSummation.hh
@@ -40,12 +40,16 @@ public:
   KahanSummation& operator*= ( T v )
   {
     _sum *= v;
+    _c   *= v;
+
     return *this;
   }
 
   KahanSummation& operator/= ( T v )
   {
     _sum /= v;
+    _c   /= v;
+
     return *this;
   }
 
-- 
2.43.0

